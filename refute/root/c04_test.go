package phonenumbers

import (
	"regexp"
	"strconv"
	"strings"
	"testing"

	"google.golang.org/protobuf/proto"
)

// oShed: the number without its national prefix, as the region's metadata describes it.
func oShed(md *PhoneMetadata, s string) string {
	npp := md.GetNationalPrefixForParsing()
	if s == "" || npp == "" {
		return s
	}
	re := oRegexp("^(?:" + npp + ")")
	m := re.FindStringSubmatchIndex(s)
	if m == nil {
		return s
	}
	rest := s[m[1]:]
	if r := md.GetNationalPrefixTransformRule(); r != "" && m[len(m)-2] >= 0 {
		rest = re.ReplaceAllString(s, r)
	}
	nat := md.GetGeneralDesc().GetNationalNumberPattern()
	if oFull(nat, s) && !oFull(nat, rest) {
		return s
	}
	return rest
}

// oLeft: what may be left of the digits d for calling code cc and default region metadata m.
func oLeft(d string, cc int, m, mc *PhoneMetadata) (out []string) {
	add := func(m *PhoneMetadata, x string) {
		out = append(out, x)
		if m != nil {
			out = append(out, oShed(m, x))
		}
	}
	c := strconv.Itoa(cc)
	if r, ok := strings.CutPrefix(d, c); ok {
		add(mc, r)
		if m != nil && cc == int(m.GetCountryCode()) {
			add(mc, oShed(m, r))
		}
	}
	if m != nil {
		if loc := oRegexp(m.GetInternationalPrefix()).FindStringIndex(d); loc != nil && loc[0] == 0 {
			rest := d[loc[1]:]
			if r, ok := strings.CutPrefix(rest, c); ok && !strings.HasPrefix(rest, "0") {
				add(mc, r)
			}
		}
	}
	if cc == int(m.GetCountryCode()) {
		add(m, d)
	}
	return
}

var vRuleOK = regexp.MustCompile(`^(?:[0-9]|\$[0-9])*$`)

func TestVerifC04(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for _, md := range vAllMD() {
		if r := md.GetNationalPrefixTransformRule(); !vRuleOK.MatchString(r) {
			t.Errorf("assumption: rewriting rule %q of %s gives other characters than digits", r, md.GetId())
		}
	}
	reused := &PhoneNumber{}
	for h.more() {
		text, d := h.vDial()
		ext := ""
		if h.p(0.2) {
			ext = h.digits(1, 6)
		}
		full := text
		if ext != "" {
			full += pick(h, []string{";ext=", " x", " ext. ", " extn "}) + ext
		}
		reg := h.anyRegion()
		h.hit("%s|%s", full, reg)
		h.guard("Parse", full, func() {
			n, err := Parse(full, reg)
			if h.p(0.5) {
				n = reused
				if h.p(0.3) {
					proto.Merge(reused, h.value())
				}
				if h.p(0.5) {
					err = ParseToNumber(full, reg, n)
				} else {
					err = ParseAndKeepRawInputToNumber(full, reg, n)
				}
			}
			if err != nil {
				return
			}
			y := GetNationalSignificantNumber(n)
			if len(y) < 2 || len(y) > 17 || strings.Trim(y, "0123456789") != "" {
				h.fail("shape", "text", full, "region", reg, "number", n, "nsn", y)
				return
			}
			if n.GetExtension() != ext || strings.Contains(text, "/") {
				return // the text reads differently (a second number or another extension)
			}
			cc := int(n.GetCountryCode())
			m := oRegionMD(reg)
			mc := m
			if oMain(cc) != reg {
				mc = oMD(cc, oMain(cc))
			}
			ok := false
			ls := oLeft(d, cc, m, mc)
			for _, l := range ls {
				ok = ok || l == y
			}
			if !ok {
				h.fail("digits", "text", full, "region", reg, "number", n, "nsn", y, "expected one of", ls)
			}
			if m.GetNationalPrefixTransformRule() == "" && mc.GetNationalPrefixTransformRule() == "" && !strings.HasSuffix(d, y) {
				h.fail("tail", "text", full, "region", reg, "number", n, "nsn", y, "digits", d)
			}
		})
	}
}
