package phonenumbers

import (
	"strings"
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestVerifC02(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for h.more() {
		n := h.value()
		h.hit("%v", n)
		h.guard("Format", n.String(), func() {
			for _, f := range []PhoneNumberFormat{INTERNATIONAL, NATIONAL, RFC3966} {
				if got, want := Format(n, f), oFormat(n, f); got != want {
					h.fail("style", "number", n, "style", f, "got", got, "want", want)
				}
			}
			cc := pick(h, []string{"", "15", "31", "1", "0", "12345", "$1"[:0]})
			if got, want := FormatNationalNumberWithCarrierCode(n, cc), oNational(n, cc); got != want {
				h.fail("carrier", "number", n, "carrier", cc, "got", got, "want", want)
			}
			pc := cc
			if n.GetPreferredDomesticCarrierCode() != "" {
				pc = n.GetPreferredDomesticCarrierCode()
			}
			if got, want := FormatNationalNumberWithPreferredCarrierCode(n, cc), oNational(n, pc); got != want {
				h.fail("preferred carrier", "number", n, "fallback", cc, "got", got, "want", want)
			}
			// caller-supplied formats
			fs := h.vFormats(n)
			for _, st := range []PhoneNumberFormat{INTERNATIONAL, NATIONAL, RFC3966} {
				want := vNSN(n)
				code := int(n.GetCountryCode())
				if oKnown(code) {
					md := oHome(code)
					body := vNSN(n)
					if f := oChoose(fs, body); f != nil {
						f = proto.Clone(f).(*NumberFormat)
						if r := f.GetNationalPrefixFormattingRule(); r != "" {
							if np := md.GetNationalPrefix(); np != "" {
								r = strings.ReplaceAll(strings.ReplaceAll(r, "$NP", np), "$FG", "$1")
							} else {
								r = ""
							}
							f.NationalPrefixFormattingRule = &r
						}
						body = oApply(body, f, st, "")
					}
					want = oFrame(code, st, body+oExt(n, md, st))
				}
				if got := FormatByPattern(n, st, fs); got != want {
					h.fail("by pattern", "number", n, "style", st, "formats", fs, "got", got, "want", want)
				}
			}
		})
	}
}
