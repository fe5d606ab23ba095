package phonenumbers

import (
	"strings"
	"testing"
)

func vDescs(m *PhoneMetadata) map[PhoneNumberType]*PhoneNumberDesc {
	return map[PhoneNumberType]*PhoneNumberDesc{PREMIUM_RATE: m.PremiumRate, TOLL_FREE: m.TollFree, MOBILE: m.Mobile, FIXED_LINE: m.FixedLine,
		FIXED_LINE_OR_MOBILE: m.FixedLine, SHARED_COST: m.SharedCost, VOIP: m.Voip, PERSONAL_NUMBER: m.PersonalNumber, PAGER: m.Pager, UAN: m.Uan,
		VOICEMAIL: m.Voicemail, UNKNOWN: m.GeneralDesc}
}

// oPossible is the verdict of the property computed from sets.
func oPossible(n int, m *PhoneMetadata, t PhoneNumberType) ValidationResult {
	absent := func(d *PhoneNumberDesc) bool { return len(d.PossibleLength) == 1 && d.PossibleLength[0] == -1 }
	var ds []*PhoneNumberDesc
	if t == FIXED_LINE_OR_MOBILE {
		for _, d := range []*PhoneNumberDesc{m.FixedLine, m.Mobile} {
			if !absent(d) {
				ds = append(ds, d)
			}
		}
	} else {
		d := vDescs(m)[t]
		if d == nil {
			d = m.GeneralDesc
		}
		if !absent(d) {
			ds = append(ds, d)
		}
	}
	if len(ds) == 0 {
		return INVALID_LENGTH
	}
	below, above := true, true
	possible, local := false, false
	for _, d := range ds {
		ls := d.PossibleLength
		if len(ls) == 0 {
			ls = m.GeneralDesc.PossibleLength
		}
		for _, l := range ls {
			possible = possible || int(l) == n
			below = below && n < int(l)
			above = above && n > int(l)
		}
		for _, l := range d.PossibleLengthLocalOnly {
			local = local || int(l) == n
		}
	}
	switch {
	case local:
		return IS_POSSIBLE_LOCAL_ONLY
	case possible:
		return IS_POSSIBLE
	case below:
		return TOO_SHORT
	case above:
		return TOO_LONG
	}
	return INVALID_LENGTH
}

func vLens(h *vh) []int32 {
	if h.r.Intn(5) == 0 {
		return []int32{-1}
	}
	var out []int32
	for l := int32(1); l < 16; l++ {
		if h.r.Intn(4) == 0 {
			out = append(out, l)
		}
	}
	return out
}

func TestVerifC08(t *testing.T) {
	h := newVH(t)
	defer h.done()
	// the embedded tables have the shape the proofs assume
	for _, m := range vAllMD() {
		for typ, d := range vDescs(m) {
			if d == nil {
				h.fail("well-formed metadata", "region", m.GetId(), "type", typ, "problem", "no description")
				continue
			}
			for i, l := range d.PossibleLength {
				if i > 0 && l < d.PossibleLength[i-1] || len(d.PossibleLength) > 1 && l <= 0 || l == 0 || l < -1 {
					h.fail("well-formed metadata", "region", m.GetId(), "type", typ, "lengths", d.PossibleLength)
				}
			}
		}
		if len(m.GeneralDesc.PossibleLength) == 0 || m.GeneralDesc.PossibleLength[0] <= 0 {
			h.fail("well-formed metadata", "region", m.GetId(), "general lengths", m.GeneralDesc.PossibleLength)
		}
	}
	for h.more() {
		n := h.value()
		h.hit("%v", n)
		h.guard("possible", n.String(), func() {
			cc := int(n.GetCountryCode())
			typ := PhoneNumberType(h.r.Intn(14))
			want, wantT := INVALID_COUNTRY_CODE, INVALID_COUNTRY_CODE
			if oKnown(cc) {
				m := oHome(cc)
				if l := len(vNSN(n)); m.GetGeneralDesc().GetNationalNumberPattern() == "" {
					want = IS_POSSIBLE
					if l < 2 {
						want = TOO_SHORT
					} else if l > 17 {
						want = TOO_LONG
					}
				} else {
					want = oPossible(l, m, UNKNOWN)
				}
				wantT = oPossible(len(vNSN(n)), m, typ)
			}
			if got := IsPossibleNumberWithReason(n); got != want {
				h.fail("verdict", "number", n, "got", got, "want", want)
			}
			if got := IsPossibleNumber(n); got != (want == IS_POSSIBLE || want == IS_POSSIBLE_LOCAL_ONLY) {
				h.fail("possible", "number", n, "got", got, "reason", want)
			}
			if got := IsPossibleNumberForTypeWithReason(n, typ); got != wantT {
				h.fail("verdict for type", "number", n, "type", typ, "got", got, "want", wantT)
			}
			if got := IsPossibleNumberForType(n, typ); got != (wantT == IS_POSSIBLE || wantT == IS_POSSIBLE_LOCAL_ONLY) {
				h.fail("possible for type", "number", n, "type", typ, "got", got, "reason", wantT)
			}
			// arbitrary tables
			m := &PhoneMetadata{}
			desc := func() *PhoneNumberDesc {
				d := &PhoneNumberDesc{PossibleLength: vLens(h)}
				if h.r.Intn(2) == 0 {
					for _, l := range vLens(h) {
						if l > 0 {
							d.PossibleLengthLocalOnly = append(d.PossibleLengthLocalOnly, l)
						}
					}
				}
				return d
			}
			m.GeneralDesc = desc()
			if len(m.GeneralDesc.PossibleLength) == 0 || m.GeneralDesc.PossibleLength[0] < 0 {
				m.GeneralDesc.PossibleLength = []int32{7, 8, 10}
			}
			m.FixedLine, m.Mobile, m.PremiumRate, m.TollFree, m.SharedCost = desc(), desc(), desc(), desc(), desc()
			m.Voip, m.PersonalNumber, m.Pager, m.Uan, m.Voicemail = desc(), desc(), desc(), desc(), desc()
			for k := 0; k < 6; k++ {
				l := h.r.Intn(18)
				typ := PhoneNumberType(h.r.Intn(13))
				if k < 3 {
					typ = FIXED_LINE_OR_MOBILE
				}
				if got, want := testNumberLength(strings.Repeat("5", l), m, typ), oPossible(l, m, typ); got != want {
					d := vDescs(m)[typ]
					h.fail("table", "length", l, "type", typ, "got", got, "want", want, "desc", d.GetPossibleLength(), "local", d.GetPossibleLengthLocalOnly(),
						"fixed", m.FixedLine.PossibleLength, "mobile", m.Mobile.PossibleLength, "general", m.GeneralDesc.PossibleLength)
				}
			}
		})
	}
}
