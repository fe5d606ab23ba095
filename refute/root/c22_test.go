package phonenumbers

import (
	"strings"
	"testing"
	"unicode"

	"google.golang.org/protobuf/proto"
)

func oGlobal(c string) bool {
	if !strings.HasPrefix(c, "+") {
		return false
	}
	n := 0
	for _, r := range c[1:] {
		switch {
		case unicode.IsDigit(r):
			n++
		case strings.ContainsRune("-.()", r):
		default:
			return false
		}
	}
	return n > 0
}
func oDomain(c string) bool {
	c = strings.TrimSuffix(c, ".")
	ls := strings.Split(c, ".")
	for i, l := range ls {
		if l == "" || l[0] == '-' || l[len(l)-1] == '-' {
			return false
		}
		for j, r := range l {
			a := r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
			if !(a || unicode.IsDigit(r) || r == '-') || j == 0 && i == len(ls)-1 && !a {
				return false
			}
		}
	}
	return true
}

// oAnalysed: the text to analyse, and whether the context is acceptable.
func oAnalysed(s string) (string, bool) {
	const p = ";phone-context="
	i := strings.Index(s, p)
	ctx, _, _ := strings.Cut(s[i+len(p):], ";")
	if !oGlobal(ctx) && !oDomain(ctx) {
		return "", false
	}
	body := s[:i]
	if j := strings.Index(body, "tel:"); j >= 0 {
		body = body[j+4:]
	}
	if ctx[0] == '+' {
		body = ctx + body
	}
	if j := strings.Index(body, ";isub="); j > 0 {
		body = body[:j]
	}
	return body, true
}

func TestVerifC22(t *testing.T) {
	h := newVH(t)
	defer h.done()
	sep := func() string { return pick(h, []string{"", "", "-", ".", " ", "(", ")"}) }
	ctxs := []string{"+1", "+44", "+1-2", "+(39)", "+", "+.", "++1", "+1a", "+1 2", "", "-", ".", "a", "abc.com", "a.b.c.", "1.com", "com.1", "a-b.c-d", "-a.com", "a-.com", "a..com", "1", "12", "a_b", "٣.com", "+٣", "x--y", "1-a.d9", "9", "+1,2", "exam ple.com", ".com"}
	for h.more() {
		body := ""
		for n := 0; n < 4+h.r.Intn(9); n++ {
			body += h.digits(1, 3) + sep()
		}
		body += h.digits(2, 3)
		pre := pick(h, []string{"", "tel:", "tel:", "tel:", "x tel:", "sip:tel:", "tel:tel:", "0 "})
		ctx := pick(h, ctxs)
		if h.p(0.3) {
			ctx = h.mutate(ctx)
		}
		mid := pick(h, []string{"", "", "", ";ext=12", ";isub=99", ";isub=1;ext=3", ";x=y"})
		post := pick(h, []string{"", "", ";", ";ext=77", ";x=tel:12", ";isub=5", ";phone-context=+7"})
		if h.p(0.06) {
			pre, body, mid = "", "", ""
		}
		s := pre + body + mid + ";phone-context=" + ctx + post
		if len(s) > 250 {
			continue
		}
		reg := pick(h, []string{"US", "GB", "IT", "DE", "ZZ"})
		h.hit("%s|%s", s, reg)
		h.guard("Parse", s, func() {
			got, err := Parse(s, reg)
			text, ok := oAnalysed(s)
			if !ok {
				if err != ErrNotANumber {
					h.fail("bad context", "text", s, "region", reg, "got", got, "err", err)
				}
				return
			}
			// a text that begins with '+' or a digit and ends with a digit is
			// analysed unchanged when given directly
			if text == "" {
				if err != ErrNotANumber {
					h.fail("nothing left", "text", s, "region", reg, "got", got, "err", err)
				}
				return
			}
			last := text[len(text)-1]
			if c := text[0]; !(c == '+' || c >= '0' && c <= '9') || last < '0' || last > '9' || strings.ContainsAny(text, "/\\x") {
				return
			}
			want, werr := Parse(text, reg)
			if err != werr || err == nil && !proto.Equal(got, want) {
				h.fail("assembled number", "text", s, "region", reg, "analysed", text, "got", got, "err", err, "want", want, "want err", werr)
			}
		})
	}
}
