package phonenumbers

import (
	"strconv"
	"testing"
)

// through the public interface: an international text splits at the shortest known calling code
func TestVerifC12b(t *testing.T) {
	h := newVH(t).frac(0.5)
	defer h.done()
	for h.more() {
		s := h.digits(2, 16)
		if h.p(0.7) {
			s = strconv.Itoa(pick(h, vCodes)) + s
		}
		h.hit("%s", s)
		h.guard("Parse", s, func() {
			want := 0
			for i := 1; i <= 3 && i <= len(s) && s[0] != '0'; i++ {
				if c, _ := strconv.Atoi(s[:i]); oKnown(c) {
					want = c
					break
				}
			}
			n, err := Parse("+"+s, "ZZ")
			if err == nil && int(n.GetCountryCode()) != want {
				h.fail("shortest known code", "text", "+"+s, "got", n.GetCountryCode(), "want", want)
			}
			if err == nil && want == 0 {
				h.fail("unknown code accepted", "text", "+"+s, "got", n)
			}
		})
	}
}
