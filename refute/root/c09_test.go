package phonenumbers

import "testing"

func TestVerifC09(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for h.more() {
		n := h.value()
		h.hit("%v", n)
		h.guard("classification", n.String(), func() {
			cc := int(n.GetCountryCode())
			region := GetRegionCodeForNumber(n)
			want := oRegionOf(n)
			if region != want {
				h.fail("region", "number", n, "got", region, "want", want)
			}
			typ := oType(vNSN(n), oMD(cc, want))
			if got := GetNumberType(n); got != typ {
				h.fail("type", "number", n, "got", got, "want", typ)
			}
			if got, want := IsValidNumber(n), oValidForRegion(n, want); got != want {
				h.fail("valid", "number", n, "got", got, "want", want)
			}
			if region != "" {
				found := false
				for _, r := range oRegions(cc) {
					found = found || r == region
				}
				if !found {
					h.fail("region shares the calling code", "number", n, "region", region)
				}
			}
			rs := []string{h.anyRegion(), "001", region}
			if l := oRegions(cc); len(l) > 0 {
				rs = append(rs, pick(h, l), l[0])
			}
			for _, r := range rs {
				if got, want := IsValidNumberForRegion(n, r), oValidForRegion(n, r); got != want {
					h.fail("valid for region", "number", n, "region", r, "got", got, "want", want)
				}
			}
		})
	}
}
