package geocoding

import (
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/internal/serialize"
)

func TestVerifC16Geocoding(t *testing.T) {
	h := newVH(t)
	defer h.done()
	es, _ := geocodingData.ReadDir("data")
	tables := map[string]map[int]string{}
	var langs []string
	keys := map[string][]int{}
	for _, e := range es {
		b, _ := geocodingData.ReadFile("data/" + e.Name())
		l := e.Name()[:len(e.Name())-len(".txt.gz")]
		r, err := serialize.LoadPrefixMap(b)
		if err != nil {
			t.Fatal(err)
		}
		tables[l] = r.Map
		langs = append(langs, l)
		for k := range r.Map {
			keys[l] = append(keys[l], k)
		}
		sort.Ints(keys[l])
	}
	sort.Strings(langs)
	longest := func(l, e string) string {
		for i := min(10, len(e)); i > 1; i-- {
			x, _ := strconv.Atoi(e[1:i])
			if v, ok := tables[l][x]; ok {
				return v
			}
		}
		return ""
	}
	var regions []string
	for r := range phonenumbers.GetSupportedRegions() {
		regions = append(regions, r)
	}
	sort.Strings(regions)
	country := func(n *phonenumbers.PhoneNumber, l string) string {
		rs := phonenumbers.GetRegionCodesForCountryCode(int(n.GetCountryCode()))
		if len(rs) == 1 {
			return regionDisplayName(rs[0], l)
		}
		var ok []string
		for _, r := range rs {
			if phonenumbers.IsValidNumberForRegion(n, r) {
				ok = append(ok, r)
			}
		}
		if len(ok) == 1 {
			return regionDisplayName(ok[0], l)
		}
		return ""
	}
	geo := func(ty phonenumbers.PhoneNumberType, cc int32) bool {
		if ty == phonenumbers.FIXED_LINE || ty == phonenumbers.FIXED_LINE_OR_MOBILE {
			return true
		}
		for _, c := range []int32{52, 54, 55, 62, 86} {
			if cc == c && ty == phonenumbers.MOBILE {
				return true
			}
		}
		return false
	}
	for _, r := range []string{"", "ZZ", "001"} {
		if regionDisplayName(r, "en") != "" {
			h.fail("no name for unknown regions", "region", r)
		}
	}
	for h.more() {
		l := langs[h.r.Intn(len(langs))]
		k := strconv.Itoa(keys[l][h.r.Intn(len(keys[l]))])
		e := "+" + k
		for n := h.r.Intn(8); n > 0; n-- {
			e += strconv.Itoa(h.r.Intn(10))
		}
		if h.r.Intn(4) == 0 {
			l = []string{"xx", "", "en", "fr"}[h.r.Intn(4)]
		}
		n, err := phonenumbers.Parse(e, "ZZ")
		if h.r.Intn(4) == 0 {
			if x := phonenumbers.GetExampleNumberForTypeInRegion(regions[h.r.Intn(len(regions))], []phonenumbers.PhoneNumberType{phonenumbers.MOBILE, phonenumbers.TOLL_FREE, phonenumbers.FIXED_LINE}[h.r.Intn(3)]); x != nil {
				n, err = x, nil
			}
		}
		if err != nil {
			continue
		}
		e = phonenumbers.Format(n, phonenumbers.E164)
		h.hit("%s %s", l, e)
		nsn := phonenumbers.GetNationalSignificantNumber(n)
		if n.GetCountryCode() == 54 && strings.HasPrefix(nsn, "9") {
			if c, err := phonenumbers.Parse(nsn[1:], "AR"); err == nil {
				e = phonenumbers.Format(c, phonenumbers.E164)
			}
		}
		want := longest(l, e)
		if want == "" {
			want = country(n, l)
		}
		got, err := GetDescriptionForValidNumber(n, l)
		if err != nil || got != want {
			h.fail("description of the longest known prefix", "number", e, "language", l, "got", got, "want", want)
		}
		ty := phonenumbers.GetNumberType(n)
		w := want
		if ty == phonenumbers.UNKNOWN {
			w = ""
		} else if !geo(ty, n.GetCountryCode()) {
			w = country(n, l)
		}
		if got, err := GetDescriptionForNumber(n, l); err != nil || got != w {
			h.fail("description by type", "number", e, "language", l, "got", got, "want", w, "type", int(ty))
		}
		ur := regions[h.r.Intn(len(regions))]
		home := phonenumbers.GetRegionCodeForNumber(n)
		if h.r.Intn(2) == 0 {
			ur = home
		}
		if ty != phonenumbers.UNKNOWN && geo(ty, n.GetCountryCode()) && ur != home {
			w = regionDisplayName(home, l)
		}
		if got, err := GetDescriptionForNumberForUserRegion(n, l, ur); err != nil || got != w {
			h.fail("description for a user's region", "number", e, "language", l, "userRegion", ur, "got", got, "want", w)
		}
	}
}
