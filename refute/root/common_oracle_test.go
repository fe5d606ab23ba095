package phonenumbers

// Independent restatement, from the properties, of what formatting, classification and length checking must give.
// Only the loaded metadata (through package metadata's exported accessors) and the number value are consulted.

import (
	"fmt"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
	"sync"

	"github.com/nyaruka/phonenumbers/v2/metadata"
	"google.golang.org/protobuf/proto"
)

var (
	oMu sync.Mutex
	oRe = map[string]*regexp.Regexp{}
)

func oRegexp(p string) *regexp.Regexp {
	oMu.Lock()
	defer oMu.Unlock()
	r := oRe[p]
	if r == nil {
		r = regexp.MustCompile(p)
		oRe[p] = r
	}
	return r
}

// oFull: p matches the whole of s
func oFull(p, s string) bool { return oRegexp("^(?:" + p + ")$").MatchString(s) }

// oLead: the leftmost match of p in s starts at the beginning
func oLead(p, s string) bool {
	l := oRegexp(p).FindStringIndex(s)
	return l != nil && l[0] == 0
}

func oKnown(cc int) bool { _, ok := metadata.CountryCodeToRegion()[cc]; return ok }
func oRegions(cc int) []string { return metadata.CountryCodeToRegion()[cc] }
func oMain(cc int) string {
	if r := oRegions(cc); len(r) > 0 {
		return r[0]
	}
	return "ZZ"
}
func oSupported(r string) bool {
	if r == "" || r == "001" {
		return false
	}
	for _, l := range metadata.CountryCodeToRegion() {
		for _, x := range l {
			if x == r {
				return true
			}
		}
	}
	return false
}

var oSupp map[string]bool

func oIsSupported(r string) bool {
	if oSupp == nil {
		oSupp = map[string]bool{}
		for _, l := range metadata.CountryCodeToRegion() {
			for _, x := range l {
				if x != "001" && x != "" {
					oSupp[x] = true
				}
			}
		}
	}
	return oSupp[r]
}
func oRegionMD(r string) *PhoneMetadata {
	if !oIsSupported(r) {
		return nil
	}
	m, _ := metadata.RegionMetadata(r)
	return m
}
func oMD(cc int, r string) *PhoneMetadata {
	if r == "001" {
		if !oKnown(cc) {
			return nil
		}
		m, _ := metadata.NonGeoMetadata(cc)
		return m
	}
	return oRegionMD(r)
}
func oHome(cc int) *PhoneMetadata { return oMD(cc, oMain(cc)) }

func oChoose(fs []*NumberFormat, nsn string) *NumberFormat {
	for _, f := range fs {
		if k := len(f.GetLeadingDigitsPattern()); k > 0 && !oLead(f.GetLeadingDigitsPattern()[k-1], nsn) {
			continue
		}
		if oFull(f.GetPattern(), nsn) {
			return f
		}
	}
	return nil
}

var oGroup = regexp.MustCompile(`\$\d`)

// oRule puts the rule in place of the first group token of the format; $1 inside the rule stands for that token
func oRule(format, rule string) string {
	l := oGroup.FindStringIndex(format)
	if l == nil {
		return format
	}
	tok := format[l[0]:l[1]]
	return format[:l[0]] + strings.ReplaceAll(rule, "$1", tok) + format[l[1]:]
}

const oPunct = "\\-x\u2010-\u2015\u2212\u30FC\uFF0D-\uFF0F \u00A0\u00AD\u200B\u2060\u3000()\uFF08\uFF09\uFF3B\uFF3D.\\[\\]/~\u2053\u223C\uFF5E"

var oSep = regexp.MustCompile("[" + oPunct + "]+")

// oApply formats nsn by f in the given style
func oApply(nsn string, f *NumberFormat, style PhoneNumberFormat, carrier string) string {
	t := f.GetFormat()
	if style == NATIONAL {
		if r := f.GetDomesticCarrierCodeFormattingRule(); carrier != "" && r != "" {
			t = oRule(t, strings.Replace(r, "$CC", carrier, 1))
		} else if r := f.GetNationalPrefixFormattingRule(); r != "" {
			t = oRule(t, r)
		}
	}
	s := oRegexp(f.GetPattern()).ReplaceAllString(nsn, t)
	if style == RFC3966 {
		s = strings.Trim(oSep.ReplaceAllString(s, "-"), "-")
	}
	return s
}
func oBody(nsn string, md *PhoneMetadata, style PhoneNumberFormat, carrier string) string {
	fs := md.GetNumberFormat()
	if style != NATIONAL && len(md.GetIntlNumberFormat()) > 0 {
		fs = md.GetIntlNumberFormat()
	}
	if f := oChoose(fs, nsn); f != nil {
		return oApply(nsn, f, style, carrier)
	}
	return nsn
}
func oExt(n *PhoneNumber, md *PhoneMetadata, style PhoneNumberFormat) string {
	if n.GetExtension() == "" {
		return ""
	}
	if style == RFC3966 {
		return ";ext=" + n.GetExtension()
	}
	if p := md.GetPreferredExtnPrefix(); p != "" {
		return p + n.GetExtension()
	}
	return " ext. " + n.GetExtension()
}
func oFrame(cc int, style PhoneNumberFormat, body string) string {
	switch style {
	case E164:
		return fmt.Sprintf("+%d%s", cc, body)
	case INTERNATIONAL:
		return fmt.Sprintf("+%d %s", cc, body)
	case RFC3966:
		return fmt.Sprintf("tel:+%d-%s", cc, body)
	}
	return body
}

// oFormat is the property's reading of Format
func oFormat(n *PhoneNumber, style PhoneNumberFormat) string {
	cc := int(n.GetCountryCode())
	if n.GetNationalNumber() == 0 && n.GetRawInput() != "" {
		return n.GetRawInput()
	}
	if style == E164 {
		return oFrame(cc, E164, vNSN(n))
	}
	if !oKnown(cc) {
		return vNSN(n)
	}
	md := oHome(cc)
	return oFrame(cc, style, oBody(vNSN(n), md, style, "")+oExt(n, md, style))
}
func oNational(n *PhoneNumber, carrier string) string {
	cc := int(n.GetCountryCode())
	if !oKnown(cc) {
		return vNSN(n)
	}
	md := oHome(cc)
	return oBody(vNSN(n), md, NATIONAL, carrier) + oExt(n, md, NATIONAL)
}

// classification
func oDesc(md *PhoneMetadata, t PhoneNumberType) *PhoneNumberDesc {
	switch t {
	case PREMIUM_RATE:
		return md.GetPremiumRate()
	case TOLL_FREE:
		return md.GetTollFree()
	case MOBILE:
		return md.GetMobile()
	case FIXED_LINE, FIXED_LINE_OR_MOBILE:
		return md.GetFixedLine()
	case SHARED_COST:
		return md.GetSharedCost()
	case VOIP:
		return md.GetVoip()
	case PERSONAL_NUMBER:
		return md.GetPersonalNumber()
	case PAGER:
		return md.GetPager()
	case UAN:
		return md.GetUan()
	case VOICEMAIL:
		return md.GetVoicemail()
	}
	return md.GetGeneralDesc()
}
func oHasLen(l []int32, n int) bool {
	for _, x := range l {
		if int(x) == n {
			return true
		}
	}
	return false
}
func oMatchDesc(nsn string, d *PhoneNumberDesc) bool {
	if l := d.GetPossibleLength(); len(l) > 0 && !oHasLen(l, len(nsn)) {
		return false
	}
	p := d.GetNationalNumberPattern()
	return p != "" && oFull(p, nsn)
}
func oType(nsn string, md *PhoneMetadata) PhoneNumberType {
	if md == nil || !oMatchDesc(nsn, md.GetGeneralDesc()) {
		return UNKNOWN
	}
	for _, t := range []PhoneNumberType{PREMIUM_RATE, TOLL_FREE, SHARED_COST, VOIP, PERSONAL_NUMBER, PAGER, UAN, VOICEMAIL} {
		if oMatchDesc(nsn, oDesc(md, t)) {
			return t
		}
	}
	fixed, mobile := oMatchDesc(nsn, md.GetFixedLine()), oMatchDesc(nsn, md.GetMobile())
	switch {
	case fixed && (mobile || md.GetSameMobileAndFixedLinePattern()):
		return FIXED_LINE_OR_MOBILE
	case fixed:
		return FIXED_LINE
	case mobile && !md.GetSameMobileAndFixedLinePattern():
		return MOBILE
	}
	return UNKNOWN
}
func oRegionOf(n *PhoneNumber) string {
	cc := int(n.GetCountryCode())
	rs := oRegions(cc)
	if len(rs) == 0 {
		return ""
	}
	if len(rs) == 1 {
		return rs[0]
	}
	nsn := vNSN(n)
	for _, r := range rs {
		md := oRegionMD(r)
		if md == nil {
			continue
		}
		if ld := md.GetLeadingDigits(); ld != "" {
			if oLead(ld, nsn) {
				return r
			}
		} else if oType(nsn, md) != UNKNOWN {
			return r
		}
	}
	return ""
}
func oValidForRegion(n *PhoneNumber, r string) bool {
	cc := int(n.GetCountryCode())
	md := oMD(cc, r)
	if md == nil || (r != "001" && int(oRegionMD(r).GetCountryCode()) != cc) {
		return false
	}
	return oType(vNSN(n), md) != UNKNOWN
}

// vFormats gives caller-supplied formats for a number
func (h *vh) vFormats(n *PhoneNumber) []*NumberFormat {
	s := func(x string) *string { return &x }
	var out []*NumberFormat
	for i := h.r.Intn(4); i >= 0; i-- {
		f := &NumberFormat{}
		f.Pattern = s(pick(h, []string{`(\d{3})(\d{3})(\d{4})`, `(\d{3})(\d+)`, `(\d{2})(\d{3,})`, `(\d)(\d+)`, `(\d+)`, `(\d{2})(\d{4})(\d{4})`, `(\d{4})(\d{6})`, `(\d{3})(\d{3})`}))
		f.Format = s(pick(h, []string{"$1 $2", "($1) $2", "$1-$2-$3", "$1", "$2 $1", "$2.$1", "$1"}))
		if h.p(0.5) {
			f.NationalPrefixFormattingRule = s(pick(h, []string{"$NP $FG", "$FG", "$NP$FG", "($NP$FG)", "$1", "0$1", ""}))
		}
		if h.p(0.4) {
			d := vNSN(n)
			f.LeadingDigitsPattern = []string{pick(h, []string{d[:1], "[2-9]", "9", `\d`, d[len(d)-1:], "(?:0|6)"})}
			if h.p(0.3) {
				f.LeadingDigitsPattern = append(f.LeadingDigitsPattern, pick(h, []string{d[:1], "[2-9]", "5"}))
			}
		}
		out = append(out, f)
	}
	return out
}

var vSyn = map[string]*syntax.Regexp{}

// fromPattern samples a text matched by a pattern
func (h *vh) fromPattern(p string) string {
	re := vSyn[p]
	if re == nil {
		var err error
		re, err = syntax.Parse(p, syntax.Perl)
		if err != nil {
			return h.digits(4, 10)
		}
		vSyn[p] = re
	}
	var b strings.Builder
	h.gen(re, &b)
	return b.String()
}
func (h *vh) gen(re *syntax.Regexp, b *strings.Builder) {
	rep := func(lo, hi int) {
		if hi < 0 || hi > lo+4 {
			hi = lo + 4
		}
		for i := lo + h.r.Intn(hi-lo+1); i > 0; i-- {
			h.gen(re.Sub[0], b)
		}
	}
	switch re.Op {
	case syntax.OpLiteral:
		b.WriteString(string(re.Rune))
	case syntax.OpCharClass:
		n := 0
		for i := 0; i < len(re.Rune); i += 2 {
			n += int(re.Rune[i+1]-re.Rune[i]) + 1
		}
		if n == 0 {
			return
		}
		k := h.r.Intn(n)
		for i := 0; i < len(re.Rune); i += 2 {
			w := int(re.Rune[i+1]-re.Rune[i]) + 1
			if k < w {
				b.WriteRune(re.Rune[i] + rune(k))
				return
			}
			k -= w
		}
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		b.WriteByte(byte('0' + h.r.Intn(10)))
	case syntax.OpCapture, syntax.OpConcat:
		for _, s := range re.Sub {
			h.gen(s, b)
		}
	case syntax.OpAlternate:
		h.gen(re.Sub[h.r.Intn(len(re.Sub))], b)
	case syntax.OpStar:
		rep(0, 3)
	case syntax.OpPlus:
		rep(1, 4)
	case syntax.OpQuest:
		rep(0, 1)
	case syntax.OpRepeat:
		rep(re.Min, re.Max)
	}
}

// anyMD gives the metadata of a random region or non-geographic entity
func (h *vh) anyMD() *PhoneMetadata {
	if h.p(0.1) {
		if m, _ := metadata.NonGeoMetadata(pick(h, vCodes)); m != nil {
			return m
		}
	}
	m, _ := metadata.RegionMetadata(h.region())
	return m
}

// patterned gives a number sampled from one of the type patterns of a random territory
func (h *vh) patterned() *PhoneNumber {
	m := h.anyMD()
	if m == nil {
		return h.example()
	}
	d := oDesc(m, pick(h, append([]PhoneNumberType{UNKNOWN}, vTypes...)))
	s := h.fromPattern(d.GetNationalNumberPattern())
	n := &PhoneNumber{CountryCode: proto.Int32(m.GetCountryCode())}
	z := 0
	for z < len(s)-1 && s[z] == '0' {
		z++
	}
	if z > 0 {
		n.ItalianLeadingZero = proto.Bool(true)
		if z > 1 {
			n.NumberOfLeadingZeros = proto.Int32(int32(z))
		}
	}
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		return h.example()
	}
	n.NationalNumber = proto.Uint64(v)
	return n
}

// vAllMD lists the metadata of every supported region and calling code
func vAllMD() []*PhoneMetadata {
	var out []*PhoneMetadata
	for _, r := range vRegions {
		if m, _ := metadata.RegionMetadata(r); m != nil {
			out = append(out, m)
		}
	}
	for _, cc := range vCodes {
		if m, _ := metadata.NonGeoMetadata(cc); m != nil {
			out = append(out, m)
		}
	}
	return out
}

// vDial builds a text a caller might type: digits of all kinds of numbers behind the prefixes a
// region knows, with separators. It returns the text and the digits it carries.
func (h *vh) vDial() (text, digits string) {
	var n *PhoneNumber
	switch h.r.Intn(4) {
	case 0:
		n = h.value()
	case 1:
		n = h.patterned()
	default:
		n = h.example()
	}
	d := vNSN(n)
	if h.p(0.15) {
		d = strings.Repeat("0", 1+h.r.Intn(5)) + d
	}
	if h.p(0.05) {
		d = strings.Repeat("0", 2+h.r.Intn(16))
	}
	cc := strings.TrimPrefix(strconv.Itoa(int(n.GetCountryCode())), "-")
	md := oRegionMD(h.anyRegion())
	plus := ""
	switch h.r.Intn(7) {
	case 0, 1:
		plus, d = pick(h, []string{"+", "+", "+", "＋", "++"}), cc+d
	case 2:
		d = cc + d
	case 3:
		if md != nil {
			d = h.fromPattern(md.GetInternationalPrefix()) + cc + d
		}
	case 4:
		if md := oHome(int(n.GetCountryCode())); md != nil {
			d = md.GetNationalPrefix() + d
		}
	case 5:
		if md := oHome(int(n.GetCountryCode())); md != nil && md.GetNationalPrefixForParsing() != "" {
			d = h.fromPattern(md.GetNationalPrefixForParsing()) + d
		}
	}
	if len(d) > 30 {
		d = d[:30]
	}
	var b strings.Builder
	b.WriteString(plus)
	wide := h.p(0.1)
	for i, c := range d {
		if i > 0 && h.p(0.2) {
			b.WriteString(pick(h, []string{" ", "-", ".", " - ", ")", "/"}))
		}
		if wide && h.p(0.3) {
			c += '０' - '0'
		}
		b.WriteRune(c)
	}
	return b.String(), d
}

