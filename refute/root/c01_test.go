package phonenumbers

import (
	"fmt"
	"testing"
)

func TestVerifC01(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for h.more() {
		n := h.value()
		h.hit("%v", n)
		h.guard("Format", n.String(), func() {
			nsn := GetNationalSignificantNumber(n)
			if nsn != vNSN(n) {
				h.fail("nsn", "number", n, "got", nsn, "want", vNSN(n))
			}
			if n.GetNationalNumber() == 0 && n.GetRawInput() != "" {
				for _, f := range []PhoneNumberFormat{E164, INTERNATIONAL, NATIONAL, RFC3966} {
					if got := Format(n, f); got != n.GetRawInput() {
						h.fail("raw input exception", "number", n, "got", got)
					}
				}
				return
			}
			want := fmt.Sprintf("+%d%s", n.GetCountryCode(), vNSN(n))
			if got := Format(n, E164); got != want {
				h.fail("e164", "number", n, "got", got, "want", want)
			}
		})
	}
}
