package phonenumbers

import (
	"strings"
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestVerifC05(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for _, md := range vAllMD() {
		if md.GetCountryCode() == 0 || !oKnown(int(md.GetCountryCode())) {
			t.Errorf("assumption: metadata of %s has calling code %d", md.GetId(), md.GetCountryCode())
		}
	}
	for _, r := range vAllRegions {
		if oSupported(r) && oRegionMD(r) == nil {
			t.Errorf("assumption: supported region %s has no metadata", r)
		}
	}
	errs := []error{nil, ErrNotANumber, ErrNumTooLong, ErrInvalidCountryCode, ErrTooShortAfterIDD, ErrTooShortNSN}
	reused := &PhoneNumber{}
	for h.more() {
		text, _ := h.vDial()
		switch h.r.Intn(12) {
		case 0:
			text = h.mutate(text)
		case 1:
			text, _ = h.text()
		case 2:
			text += " x" + h.digits(1, 5)
		case 3:
			text = text + strings.Repeat(pick(h, []string{" ", "1", "é", "-"}), 180+h.r.Intn(100))
		case 4:
			text = ""
		case 5:
			text = "tel:" + text
		}
		reg := h.anyRegion()
		if h.p(0.2) {
			reg = pick(h, []string{"", "ZZ", "001", "us", "XX", "U", "AQ"})
		}
		keep := h.p(0.5)
		h.hit("%s|%s|%v", text, reg, keep)
		h.guard("Parse", text, func() {
			n := &PhoneNumber{}
			if h.p(0.5) {
				n = reused
				if h.p(0.3) {
					proto.Merge(n, h.value())
				}
			}
			var err error
			if keep {
				err = ParseAndKeepRawInputToNumber(text, reg, n)
			} else {
				err = ParseToNumber(text, reg, n)
			}
			in := []any{"text", text, "region", reg, "keep", keep, "number", n, "err", err}
			known := false
			for _, e := range errs {
				known = known || e == err
			}
			if !known {
				h.fail("undocumented error", in...)
			}
			if text == "" && err != ErrNotANumber {
				h.fail("empty", in...)
			}
			if len(text) > 250 && err != ErrNumTooLong {
				h.fail("long", in...)
			}
			if err != nil {
				return
			}
			if n.GetCountryCode() == 0 || !oKnown(int(n.GetCountryCode())) {
				h.fail("calling code", in...)
			}
			if keep != (n.RawInput != nil) || keep && n.GetRawInput() != text {
				h.fail("raw text", in...)
			}
			if keep != (n.CountryCodeSource != nil) {
				h.fail("source", in...)
			}
			if !keep && n.PreferredDomesticCarrierCode != nil {
				h.fail("carrier code", in...)
			}
			if !oIsSupported(reg) && !strings.ContainsAny(text, "+＋") {
				h.fail("no region and no plus", in...)
			}
		})
	}
}
