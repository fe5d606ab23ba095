package timezone

import (
	"reflect"
	"sort"
	"strconv"
	"testing"

	"github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/internal/serialize"
)

func TestVerifC16Timezone(t *testing.T) {
	h := newVH(t)
	defer h.done()
	m, err := serialize.LoadIntArrayMap(timezoneData)
	if err != nil {
		t.Fatal(err)
	}
	var keys []int
	for k, v := range m.Map {
		keys = append(keys, k)
		if len(v) == 0 {
			t.Log("empty entry", k)
		}
	}
	sort.Ints(keys)
	longest := func(d string) []string {
		for i := len(d); i > 0; i-- {
			if i > 18 {
				continue
			}
			x, _ := strconv.Atoi(d[:i])
			if v, ok := m.Map[x]; ok {
				return v
			}
		}
		return []string{Unknown}
	}
	var regions []string
	for r := range phonenumbers.GetSupportedRegions() {
		regions = append(regions, r)
	}
	sort.Strings(regions)
	for h.more() {
		e := "+" + strconv.Itoa(keys[h.r.Intn(len(keys))])
		for n := h.r.Intn(9); n > 0; n-- {
			e += strconv.Itoa(h.r.Intn(10))
		}
		n, err := phonenumbers.Parse(e, "ZZ")
		if h.r.Intn(4) == 0 {
			if x := phonenumbers.GetExampleNumberForTypeInRegion(regions[h.r.Intn(len(regions))], []phonenumbers.PhoneNumberType{phonenumbers.MOBILE, phonenumbers.TOLL_FREE, phonenumbers.FIXED_LINE}[h.r.Intn(3)]); x != nil {
				n, err = x, nil
			}
		}
		if h.r.Intn(10) == 0 {
			cc := int32(h.r.Intn(1000))
			nn := uint64(h.r.Intn(1000000))
			n, err = &phonenumbers.PhoneNumber{CountryCode: &cc, NationalNumber: &nn}, nil
		}
		if err != nil {
			continue
		}
		e = phonenumbers.Format(n, phonenumbers.E164)
		h.hit("%s", e)
		want := longest(e[1:])
		if got, err := GetTimeZonesForGeographicalNumber(n); err != nil || !reflect.DeepEqual(got, want) || len(got) == 0 {
			h.fail("zones of the longest known prefix", "number", e, "got", got, "want", want)
		}
		ty := phonenumbers.GetNumberType(n)
		if ty == phonenumbers.UNKNOWN {
			want = []string{Unknown}
		} else if !phonenumbers.IsNumberGeographicalForType(ty, int(n.GetCountryCode())) {
			want = longest(strconv.Itoa(int(n.GetCountryCode())))
		}
		if got, err := GetTimeZonesForNumber(n); err != nil || !reflect.DeepEqual(got, want) || len(got) == 0 {
			h.fail("zones by type", "number", e, "got", got, "want", want, "type", int(ty))
		}
	}
}
