package phonenumbers

import (
	"strconv"
	"strings"
	"testing"

	"google.golang.org/protobuf/proto"
)

func oLadder(a, b *PhoneNumber) MatchType {
	ea, eb := a.GetExtension(), b.GetExtension()
	if ea != "" && eb != "" && ea != eb {
		return NO_MATCH
	}
	ca, cb := a.GetCountryCode(), b.GetCountryCode()
	if ca != 0 && cb != 0 && ca != cb {
		return NO_MATCH
	}
	za, zb := int32(-1), int32(-1)
	if a.GetItalianLeadingZero() {
		za = a.GetNumberOfLeadingZeros()
	}
	if b.GetItalianLeadingZero() {
		zb = b.GetNumberOfLeadingZeros()
	}
	same := a.GetNationalNumber() == b.GetNationalNumber() && ea == eb && a.GetItalianLeadingZero() == b.GetItalianLeadingZero() && za == zb
	if same && ca != 0 && cb != 0 {
		return EXACT_MATCH
	}
	if same {
		return NSN_MATCH
	}
	na, nb := strconv.FormatUint(a.GetNationalNumber(), 10), strconv.FormatUint(b.GetNationalNumber(), 10)
	if strings.HasSuffix(na, nb) || strings.HasSuffix(nb, na) {
		return SHORT_NSN_MATCH
	}
	return NO_MATCH
}

func TestVerifC10(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for h.more() {
		a := h.value()
		b := proto.Clone(a).(*PhoneNumber)
		for h.p(0.6) {
			switch h.r.Intn(9) {
			case 0:
				b.CountryCode = nil
			case 1:
				b.CountryCode = proto.Int32(int32(pick(h, []int{0, 1, 39, 44})))
			case 2:
				s := strconv.FormatUint(b.GetNationalNumber(), 10)
				x, _ := strconv.ParseUint(s[h.r.Intn(len(s)):], 10, 64)
				b.NationalNumber = proto.Uint64(x)
			case 3:
				x, err := strconv.ParseUint(strconv.Itoa(1+h.r.Intn(99))+strconv.FormatUint(b.GetNationalNumber(), 10), 10, 64)
				if err == nil {
					b.NationalNumber = proto.Uint64(x)
				}
			case 4:
				b.Extension = proto.String(pick(h, []string{"", "1", "123", "01"}))
			case 5:
				b.Extension = nil
			case 6:
				b.ItalianLeadingZero = proto.Bool(h.p(0.5))
			case 7:
				b.NumberOfLeadingZeros = proto.Int32(int32(h.r.Intn(4)))
			case 8:
				b.RawInput = proto.String("x")
				b.PreferredDomesticCarrierCode = proto.String("9")
			}
		}
		if h.p(0.1) {
			b = h.value()
		}
		h.hit("%v|%v", a, b)
		h.guard("IsNumberMatchWithNumbers", a.String()+" / "+b.String(), func() {
			got, rev, want := IsNumberMatchWithNumbers(a, b), IsNumberMatchWithNumbers(b, a), oLadder(a, b)
			if got != rev {
				h.fail("symmetry", "a", a, "b", b, "ab", got, "ba", rev)
			}
			if got != want {
				h.fail("ladder", "a", a, "b", b, "got", got, "want", want)
			}
			self := NSN_MATCH
			if a.GetCountryCode() != 0 {
				self = EXACT_MATCH
			}
			if got := IsNumberMatchWithNumbers(a, a); got != self {
				h.fail("self", "a", a, "got", got, "want", self)
			}
		})
	}
}
