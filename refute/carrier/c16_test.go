package carrier

import (
	"sort"
	"strconv"
	"testing"

	"github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/internal/serialize"
	"google.golang.org/protobuf/proto"
)

func TestVerifC16Carrier(t *testing.T) {
	h := newVH(t)
	defer h.done()
	es, _ := carrierData.ReadDir("data")
	tables := map[string]map[int]string{}
	var langs []string
	keys := map[string][]int{}
	for _, e := range es {
		b, _ := carrierData.ReadFile("data/" + e.Name())
		l := e.Name()[:len(e.Name())-len(".txt.gz")]
		r, err := serialize.LoadPrefixMap(b)
		if err != nil {
			t.Fatal(err)
		}
		tables[l] = r.Map
		langs = append(langs, l)
		for k := range r.Map {
			keys[l] = append(keys[l], k)
		}
		sort.Ints(keys[l])
	}
	sort.Strings(langs)
	var regions []string
	for r := range phonenumbers.GetSupportedRegions() {
		regions = append(regions, r)
	}
	sort.Strings(regions)
	for h.more() {
		l := langs[h.r.Intn(len(langs))]
		k := strconv.Itoa(keys[l][h.r.Intn(len(keys[l]))])
		e := "+" + k
		for n := h.r.Intn(8); n > 0; n-- {
			e += strconv.Itoa(h.r.Intn(10))
		}
		if h.r.Intn(4) == 0 {
			l = []string{"xx", "", "en", "fr"}[h.r.Intn(4)]
		}
		n, err := phonenumbers.Parse(e, "ZZ")
		if h.r.Intn(4) == 0 {
			types := []phonenumbers.PhoneNumberType{phonenumbers.MOBILE, phonenumbers.PAGER, phonenumbers.FIXED_LINE, phonenumbers.VOIP, phonenumbers.FIXED_LINE_OR_MOBILE}
			if x := phonenumbers.GetExampleNumberForTypeInRegion(regions[h.r.Intn(len(regions))], types[h.r.Intn(len(types))]); x != nil {
				n, err = proto.Clone(x).(*phonenumbers.PhoneNumber), nil
				e = phonenumbers.Format(n, phonenumbers.E164)
			}
		}
		if err != nil {
			continue
		}
		e = phonenumbers.Format(n, phonenumbers.E164)
		h.hit("%s %s", l, e)
		want := ""
		for i := min(10, len(e)); i > 1; i-- {
			x, _ := strconv.Atoi(e[1:i])
			if v, ok := tables[l][x]; ok {
				want = v
				break
			}
		}
		got, err := GetNameForValidNumber(n, l)
		if err != nil || got != want {
			h.fail("name of the longest known prefix", "number", e, "language", l, "got", got, "want", want)
		}
		ty := phonenumbers.GetNumberType(n)
		mob := ty == phonenumbers.MOBILE || ty == phonenumbers.PAGER || ty == phonenumbers.FIXED_LINE_OR_MOBILE
		w := ""
		if mob {
			w = want
		}
		if got, err := GetNameForNumber(n, l); err != nil || got != w {
			h.fail("names only for mobile types", "number", e, "language", l, "got", got, "want", w)
		}
		if phonenumbers.IsMobileNumberPortableRegion(phonenumbers.GetRegionCodeForNumber(n)) {
			w = ""
		}
		if got, err := GetSafeDisplayName(n, l); err != nil || got != w {
			h.fail("safe names", "number", e, "language", l, "got", got, "want", w)
		}
	}
}
