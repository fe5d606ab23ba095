package phonenumbers

import (
	"strconv"
	"testing"

	"github.com/nyaruka/phonenumbers/v2/internal/stringbuilder"
)

func oSplit(s string) (int, string) {
	if s == "" || s[0] == '0' {
		return 0, ""
	}
	for i := 1; i <= 3 && i <= len(s); i++ {
		c, _ := strconv.Atoi(s[:i])
		if oKnown(c) {
			return c, s[i:]
		}
	}
	return 0, ""
}

func TestVerifC12(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for h.more() {
		s := h.digits(0, pick(h, []int{3, 12, 16, 40}))
		if h.p(0.6) {
			s = strconv.Itoa(pick(h, vCodes)) + s
		}
		if len(s) > 4 && h.p(0.3) {
			s = s[:h.r.Intn(5)]
		}
		out := pick(h, []string{"", "7", "123"})
		h.hit("%s|%s", s, out)
		h.guard("extractCountryCode", s, func() {
			f, n := stringbuilder.NewString(s), stringbuilder.NewString(out)
			cc := extractCountryCode(f, n)
			wc, rest := oSplit(s)
			if cc != wc || n.String() != out+rest {
				h.fail("split", "digits", s, "before", out, "code", cc, "want code", wc, "out", n.String(), "want out", out+rest)
			}
			if f.String() != s {
				h.fail("input kept", "digits", s, "after", f.String())
			}
		})
	}
}
