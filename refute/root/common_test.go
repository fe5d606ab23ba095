package phonenumbers

// Shared helpers of the bounded companions: generators, budget, reporting. The oracles are in the per-property files.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
)

type vh struct {
	t     *testing.T
	r     *rand.Rand
	end   time.Time
	cases int
	seen  map[string]bool
	fails map[string]int
	nsamp int
}

func newVH(t *testing.T) *vh {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ms, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET_MS"))
	if ms == 0 {
		ms = 5000
	}
	// the budget is shared by the tests of a file
	return &vh{t: t, r: rand.New(rand.NewSource(int64(seed)*7919 + 17)), end: time.Now().Add(time.Duration(ms) * time.Millisecond), seen: map[string]bool{}, fails: map[string]int{}}
}
func (h *vh) frac(f float64) *vh {
	d := time.Until(h.end)
	h.end = time.Now().Add(time.Duration(float64(d) * f))
	return h
}
func (h *vh) more() bool { return (h.cases < 200 || time.Now().Before(h.end)) && h.nfail() < 20 }
func (h *vh) nfail() int {
	n := 0
	for _, v := range h.fails {
		n += v
	}
	return n
}
func (h *vh) hit(format string, a ...any) {
	h.cases++
	if len(h.seen) < 200000 {
		s := fmt.Sprintf(format, a...)
		if !h.seen[s] {
			h.seen[s] = true
			if h.nsamp < 4 && h.r.Intn(50) == 0 {
				h.nsamp++
				fmt.Printf("\nVERIF-SAMPLE %.200q\n", s)
			}
		}
	}
}
func (h *vh) fail(key string, kv ...any) {
	h.fails[key]++
	if h.fails[key] > 2 {
		return
	}
	m := map[string]any{"key": key}
	for i := 0; i+1 < len(kv); i += 2 {
		m[fmt.Sprint(kv[i])] = fmt.Sprintf("%#v", kv[i+1])
		if s, ok := kv[i+1].(fmt.Stringer); ok {
			m[fmt.Sprint(kv[i])] = s.String()
		}
	}
	b, _ := json.Marshal(m)
	fmt.Printf("\nVERIF-FAIL %s\n", b)
	h.t.Fail()
}
func (h *vh) done() { fmt.Printf("\nVERIF-STAT %d %d\n", h.cases, len(h.seen)) }

// guard runs f and reports a panic as a failure
func (h *vh) guard(what string, in any, f func()) {
	defer func() {
		if e := recover(); e != nil {
			h.fail("panic in "+what, "input", in, "panic", fmt.Sprint(e))
		}
	}()
	f()
}

var vRegions, vAllRegions []string
var vCodes []int

func init() {
	for r := range GetSupportedRegions() {
		vRegions = append(vRegions, r)
	}
	sort.Strings(vRegions)
	vAllRegions = append(append([]string{}, vRegions...), "ZZ", "001", "", "us", "XX", "UN")
	for c := range GetSupportedCallingCodes() {
		vCodes = append(vCodes, c)
	}
	sort.Ints(vCodes)
}
func pick[T any](h *vh, l []T) T       { return l[h.r.Intn(len(l))] }
func (h *vh) p(f float64) bool         { return h.r.Float64() < f }
func (h *vh) region() string           { return pick(h, vRegions) }
func (h *vh) anyRegion() string        { return pick(h, vAllRegions) }
func (h *vh) digits(lo, hi int) string {
	n := lo + h.r.Intn(hi-lo+1)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + h.r.Intn(10))
	}
	return string(b)
}

var vTypes = []PhoneNumberType{FIXED_LINE, MOBILE, FIXED_LINE_OR_MOBILE, TOLL_FREE, PREMIUM_RATE, SHARED_COST, VOIP, PERSONAL_NUMBER, PAGER, UAN, VOICEMAIL}

// example gives a copy of an example number, of any supported region and type or non-geographic entity
func (h *vh) example() *PhoneNumber {
	for i := 0; i < 20; i++ {
		var n *PhoneNumber
		switch h.r.Intn(8) {
		case 0:
			n = GetExampleNumberForNonGeoEntity(pick(h, vCodes))
		case 1, 2, 3:
			n = GetExampleNumber(h.region())
		default:
			n = GetExampleNumberForTypeInRegion(h.region(), pick(h, vTypes))
		}
		if n != nil {
			return proto.Clone(n).(*PhoneNumber)
		}
	}
	return &PhoneNumber{CountryCode: proto.Int32(1), NationalNumber: proto.Uint64(6502530000)}
}

var vEdgeNN = []uint64{0, 1, 9, 10, 99, 100, 12345, 999999999999999, 1000000000000000, 9999999999999999, 10000000000000000, 99999999999999999, 18446744073709551615}

// value gives an arbitrary number value: mutated example or random fields
func (h *vh) value() *PhoneNumber {
	n := h.example()
	if h.p(0.45) {
		n = h.patterned()
	}
	if h.p(0.15) {
		n = &PhoneNumber{}
		if h.p(0.9) {
			n.CountryCode = proto.Int32(int32(pick(h, []int{0, 1, 7, 39, 44, 52, 54, 55, 800, 979, 999, 2, 210, -1, 12345})))
		}
		if h.p(0.9) {
			n.NationalNumber = proto.Uint64(h.r.Uint64() >> uint(h.r.Intn(64)))
		}
	}
	if h.p(0.25) {
		x := n.GetNationalNumber()
		switch h.r.Intn(6) {
		case 0:
			x = x*10 + uint64(h.r.Intn(10))
		case 1:
			x /= 10
		case 2:
			x += uint64(h.r.Intn(1000))
		case 3:
			x = pick(h, vEdgeNN)
		case 4:
			x %= 10000000
		case 5:
			x = uint64(h.r.Int63n(1e10))
		}
		n.NationalNumber = proto.Uint64(x)
	}
	if h.p(0.2) {
		n.ItalianLeadingZero = proto.Bool(h.p(0.8))
		if h.p(0.7) {
			n.NumberOfLeadingZeros = proto.Int32(int32(pick(h, []int{0, 1, 2, 3, 5, 15, 16, 17, 18, 19, 40, -1, 1000})))
		}
	}
	if h.p(0.25) {
		n.Extension = proto.String(pick(h, []string{"", "1", "123", "0", "9999999", "x", h.digits(1, 7)}))
	}
	if h.p(0.15) {
		n.RawInput = proto.String(pick(h, []string{"", "0", "650 253-0000", "+1 650", h.digits(1, 12), "011 39 " + h.digits(6, 10)}))
	}
	if h.p(0.15) {
		n.PreferredDomesticCarrierCode = proto.String(pick(h, []string{"", " ", "15", "12", "34567", "0"}))
	}
	if h.p(0.15) {
		s := pick(h, []PhoneNumber_CountryCodeSource{PhoneNumber_UNSPECIFIED, PhoneNumber_FROM_NUMBER_WITH_PLUS_SIGN, PhoneNumber_FROM_NUMBER_WITH_IDD, PhoneNumber_FROM_NUMBER_WITHOUT_PLUS_SIGN, PhoneNumber_FROM_DEFAULT_COUNTRY})
		n.CountryCodeSource = &s
	}
	return n
}

// vNSN is the national significant number as the property states it, computed independently
func vNSN(n *PhoneNumber) string {
	z := ""
	if n.GetItalianLeadingZero() {
		for i := int32(0); i < n.GetNumberOfLeadingZeros() && i < 17; i++ {
			z += "0"
		}
	}
	return z + strconv.FormatUint(n.GetNationalNumber(), 10)
}

// text gives a text that looks like a phone number, in many spellings
func (h *vh) text() (string, string) {
	n := h.example()
	if h.p(0.3) {
		n = h.value()
	} else if h.p(0.4) {
		n = h.patterned()
	}
	region := GetRegionCodeForNumber(n)
	if region == "" || h.p(0.2) {
		region = h.anyRegion()
	}
	var s string
	switch h.r.Intn(9) {
	case 0:
		s = Format(n, E164)
	case 1:
		s = Format(n, INTERNATIONAL)
	case 2, 3:
		s = Format(n, NATIONAL)
	case 4:
		s = Format(n, RFC3966)
	case 5:
		s = FormatOutOfCountryCallingNumber(n, h.region())
	case 6:
		s = FormatNationalNumberWithCarrierCode(n, pick(h, []string{"", "15", "12", "31"}))
	case 7:
		s = vNSN(n)
	case 8:
		s = h.digits(1, 18)
	}
	return h.mutate(s), region
}

var vJunk = []string{"", " ", "-", "(", ")", ".", "/", "+", "++", "*", "#", "~", "x", "ext. 12", " x 345", ";ext=3", "#77", "tel:", ";phone-context=+1", ";phone-context=example.com", ";phone-context=", ";isub=12", ";phone-context=+", "a", "Z", "FLOWERS", "\u00a0", "\u2060", "\u200b", "\uff0b", "\uff10", "\uff19", "\u0661", "\u06f5", "\U0001d7d8", "\u096a", "\xff", "\x00", "0", "00", "011", "9", "15", "//", "\u2010", "доб. 5", ",", ",,,123#", "Call ", " or ", "\n", "é", "–", "[", "]", "0 ", "é 1"}

func (h *vh) mutate(s string) string {
	for h.p(0.35) {
		if h.p(0.2) && len(s) > 0 {
			i := h.r.Intn(len(s))
			s = s[:i] + s[i+1:]
			continue
		}
		j := pick(h, vJunk)
		i := h.r.Intn(len(s) + 1)
		switch h.r.Intn(4) {
		case 0:
			i = 0
		case 1, 2:
			i = len(s)
		}
		s = s[:i] + j + s[i:]
	}
	return s
}
