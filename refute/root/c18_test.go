package phonenumbers

import (
	"slices"
	"strings"
	"testing"
)

func oShortDesc(s string, d *PhoneNumberDesc) bool {
	if d == nil || len(d.PossibleLength) > 0 && !oHasLen(d.PossibleLength, len(s)) || d.GetNationalNumberPattern() == "" {
		return false
	}
	return oFull(d.GetNationalNumberPattern(), s) && oLead(d.GetNationalNumberPattern(), s)
}

// oEmergency reads the dialled digits of a text that has nothing but digits and blanks.
func oEmergency(digits, g string, lead bool) bool {
	md := shortNumberRegionToMetadataMap[g]
	if md.GetEmergency().GetNationalNumberPattern() == "" {
		return false
	}
	p := md.GetEmergency().GetNationalNumberPattern()
	if lead && g != "BR" && g != "CL" && g != "NI" {
		return oLead(p, digits)
	}
	return oFull(p, digits)
}

func TestVerifC18(t *testing.T) {
	h := newVH(t)
	defer h.done()
	var regs []string
	for g, md := range shortNumberRegionToMetadataMap {
		regs = append(regs, g)
		if len(md.GetGeneralDesc().GetPossibleLength()) == 0 {
			t.Errorf("assumption: short-number metadata of %s has no lengths", g)
		}
	}
	slices.Sort(regs)
	for h.more() {
		g := pick(h, regs)
		md := shortNumberRegionToMetadataMap[g]
		var s string
		switch h.r.Intn(8) {
		case 0:
			s = h.digits(1, 7)
		case 1:
			s = h.fromPattern(md.GetPremiumRate().GetNationalNumberPattern())
		case 2:
			s = h.fromPattern(md.GetStandardRate().GetNationalNumberPattern())
		case 3:
			s = h.fromPattern(md.GetTollFree().GetNationalNumberPattern())
		case 4:
			s = h.fromPattern(md.GetShortCode().GetNationalNumberPattern())
		default:
			s = h.fromPattern(md.GetEmergency().GetNationalNumberPattern())
		}
		if h.p(0.2) {
			s += h.digits(1, 3)
		}
		if h.p(0.1) && s != "" {
			s = s[:len(s)-1]
		}
		if len(s) == 0 || len(s) > 15 || strings.Trim(s, "0123456789") != "" {
			continue
		}
		reg := g
		if h.p(0.15) {
			reg = h.anyRegion()
		}
		cc := int32(GetCountryCodeForRegion(g))
		n := &PhoneNumber{CountryCode: &cc}
		setItalianLeadingZerosForPhoneNumber(s, n)
		var v uint64
		for _, c := range s {
			v = v*10 + uint64(c-'0')
		}
		n.NationalNumber = &v
		s = vNSN(n)
		h.hit("%s|%s|%s", s, g, reg)
		h.guard("short", s, func() {
			cost := func(reg string) (bool, bool, ShortNumberCost) {
				md := shortNumberRegionToMetadataMap[reg]
				if !slices.Contains(oRegions(int(cc)), reg) || md == nil || !oHasLen(md.GetGeneralDesc().GetPossibleLength(), len(s)) {
					return false, false, UNKNOWN_COST
				}
				valid := oShortDesc(s, md.GetGeneralDesc()) && oShortDesc(s, md.GetShortCode())
				switch {
				case oShortDesc(s, md.GetPremiumRate()):
					return true, valid, PREMIUM_RATE_COST
				case oShortDesc(s, md.GetStandardRate()):
					return true, valid, STANDARD_RATE_COST
				case oShortDesc(s, md.GetTollFree()), oEmergency(s, reg, false):
					return true, valid, TOLL_FREE_COST
				}
				return true, valid, UNKNOWN_COST
			}
			in := []any{"number", n, "region", reg}
			pos, val, c := cost(reg)
			if got := IsPossibleShortNumberForRegion(n, reg); got != pos {
				h.fail("possible", append(in, "got", got)...)
			}
			if got := IsValidShortNumberForRegion(n, reg); got != val || got && !pos {
				h.fail("valid", append(in, "got", got)...)
			}
			if got := GetExpectedCostForRegion(n, reg); got != c {
				h.fail("cost", append(in, "got", got, "want", c)...)
			}
			all, anyPos, anyCode := TOLL_FREE_COST, false, false
			rank := []ShortNumberCost{TOLL_FREE_COST, STANDARD_RATE_COST, UNKNOWN_COST, PREMIUM_RATE_COST}
			for _, r := range oRegions(int(cc)) {
				_, v1, c := cost(r)
				if slices.Index(rank, c) > slices.Index(rank, all) {
					all = c
				}
				md := shortNumberRegionToMetadataMap[r]
				anyPos = anyPos || md != nil && oHasLen(md.GetGeneralDesc().GetPossibleLength(), len(s))
				anyCode = anyCode || oShortDesc(s, md.GetShortCode()) && (len(oRegions(int(cc))) > 1 || v1)
			}
			if len(oRegions(int(cc))) == 0 {
				all = UNKNOWN_COST
			}
			if got := GetExpectedCost(n); got != all {
				h.fail("cost over regions", append(in, "got", got, "want", all)...)
			}
			if got := IsPossibleShortNumber(n); got != anyPos {
				h.fail("possible somewhere", append(in, "got", got)...)
			}
			if got := IsValidShortNumber(n); got != anyCode {
				h.fail("valid somewhere", append(in, "got", got)...)
			}
			text := s
			if h.p(0.3) {
				text = pick(h, []string{" ", "  ", "(", "", "x"}) + s[:1] + pick(h, []string{"", " ", "-"}) + s[1:] + pick(h, []string{"", " ", "-"})
			}
			e, cn := IsEmergencyNumber(text, reg), ConnectsToEmergencyNumber(text, reg)
			if e != oEmergency(s, reg, false) || cn != oEmergency(s, reg, true) || e && !cn {
				h.fail("emergency", "text", text, "region", reg, "emergency", e, "connects", cn)
			}
			plus := pick(h, []string{"+", "＋", " +", "x+"}) + s
			if h.p(0.3) {
				plus = s[:1] + "+" + s[1:] + "1"
			}
			if IsEmergencyNumber(plus, reg) || ConnectsToEmergencyNumber(plus, reg) {
				h.fail("plus", "text", plus, "region", reg)
			}
		})
	}
}
