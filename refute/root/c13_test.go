package phonenumbers

import (
	"strings"
	"testing"
	"unicode"

	"github.com/nyaruka/phonenumbers/v2/internal/character"
)

// vDigit: the value of a Unicode decimal digit, counted from the zero of its block.
func vDigit(c rune) (rune, bool) {
	if !unicode.Is(unicode.Nd, c) {
		return 0, false
	}
	lo := c
	for unicode.Is(unicode.Nd, lo-1) {
		lo--
	}
	return '0' + (c-lo)%10, true
}

const vKeys = "22233344455566677778889999"

func vSpell(h *vh) string {
	var b strings.Builder
	nd := []rune{'0', '7', 0x660, 0x6F9, 0x966, 0xFF15, 0x1D7FF, 0x1E950, 0x104A1, 0x1FBF3}
	ot := []rune{'a', 'z', 'M', 'q', '+', '*', '#', '-', ' ', '(', 0xA0, 0xE9, 0x131, 0x17F, 0x212A, 0xFF0B, 0xFF21, 0x2028, 0xFFFD, 0x10FFFF, 0x1F600, 0, 0x7F, 0x80, 0xAD, 0xB2, 0x2460, 0x3007}
	for n := h.r.Intn(12); n > 0; n-- {
		switch h.r.Intn(6) {
		case 0:
			b.WriteRune(pick(h, nd))
		case 1, 2:
			b.WriteRune(pick(h, ot))
		case 3:
			b.WriteByte(byte(h.r.Intn(256)))
		case 4:
			b.WriteRune(rune(h.r.Intn(0x110000)))
		default:
			b.WriteString(h.digits(1, 6))
		}
	}
	if h.p(0.05) {
		return strings.Repeat(b.String(), 40)
	}
	return b.String()
}

func TestVerifC13(t *testing.T) {
	h := newVH(t)
	defer h.done()
	// the table the contract of Digit relies on
	for i, r := range unicode.Nd.R16 {
		if r.Stride != 1 || r.Lo > r.Hi || i == 0 && (r.Lo != '0' || r.Hi != '9') || i > 0 && unicode.Nd.R16[i-1].Hi >= r.Lo {
			t.Fatalf("unicode.Nd.R16[%d] = %v", i, r)
		}
	}
	for i, r := range unicode.Nd.R32 {
		if r.Stride != 1 || r.Lo > r.Hi || r.Lo < 0x10000 || r.Hi > 0x10FFFF || i > 0 && unicode.Nd.R32[i-1].Hi >= r.Lo {
			t.Fatalf("unicode.Nd.R32[%d] = %v", i, r)
		}
	}
	var lo rune
	for c := rune(-10); c < 0x110010; c++ {
		v, ok := character.Digit(c)
		nd := unicode.Is(unicode.Nd, c)
		if !nd {
			lo = c + 1
		}
		if want := '0' + (c-lo)%10; ok != nd || ok && v != want || !ok && v != 0 {
			h.fail("Digit", "code point", c, "got", v, "ok", ok)
			break
		}
	}
	for h.more() {
		s := vSpell(h)
		h.hit("%q", s)
		var digits, keep, dial, pad, only strings.Builder
		for _, c := range s {
			if v, ok := vDigit(c); ok {
				digits.WriteRune(v)
				keep.WriteRune(v)
			} else {
				keep.WriteRune(c)
			}
			if '0' <= c && c <= '9' || c == '+' || c == '*' || c == '#' {
				dial.WriteRune(c)
			}
			if u := unicode.ToUpper(c); 'A' <= u && u <= 'Z' {
				pad.WriteByte(vKeys[u-'A'])
				only.WriteByte(vKeys[u-'A'])
			} else {
				pad.WriteRune(c)
				if '0' <= c && c <= '9' {
					only.WriteRune(c)
				}
			}
		}
		h.guard("normalisation", s, func() {
			for _, x := range []struct {
				key  string
				f    func(string) string
				want string
			}{
				{"digits only", NormalizeDigitsOnly, digits.String()},
				{"digits, rest kept", func(s string) string { return normalizeDigits(s, true) }, keep.String()},
				{"diallable", NormalizeDiallableCharsOnly, dial.String()},
				{"keypad", ConvertAlphaCharactersInNumber, pad.String()},
				{"keypad only", func(s string) string { return normalizeHelper(s, alphaPhoneMappings, true) }, only.String()},
			} {
				got := x.f(s)
				if got != x.want {
					h.fail(x.key, "text", s, "got", got, "want", x.want)
				}
				if again := x.f(got); again != got {
					h.fail(x.key+" is a fixed point", "text", s, "once", got, "twice", again)
				}
			}
			want := digits.String()
			if validAlphaPhonePattern.MatchString(s) {
				want = only.String()
			}
			if got := normalize(s); got != want {
				h.fail("normalize", "text", s, "got", got, "want", want)
			}
		})
	}
}
