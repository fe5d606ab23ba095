package regexcache

import (
	"fmt"
	"testing"
	"time"
)

func TestVerifC21Regex(t *testing.T) {
	h := newVH(t).frac(0.5)
	defer h.done()
	stuck := func(f func()) bool {
		done := make(chan bool)
		go func() { defer close(done); f() }()
		select {
		case <-done:
			return false
		case <-time.After(5 * time.Second):
			return true
		}
	}
	bad := []string{"(", "[z-a]", "a{2,1}", "\\", "*"}
	for h.more() {
		n := 1 + h.r.Intn(400)
		p := fmt.Sprintf("%d{%d}", n%10, n/10)
		switch h.r.Intn(8) {
		case 0:
			p = " " + p
		case 1:
			p = "(?i)" + p
		case 2:
			p = fmt.Sprintf("[%d]\\d{%d}|%d", n%10, h.r.Intn(900), n)
		case 3:
			p = "^(?:" + p + ")$"
		case 4:
			p = ""
		case 5:
			p = bad[h.r.Intn(len(bad))]
			h.hit("%s", p)
			if stuck(func() { defer func() { recover() }(); For(p) }) {
				h.fail("a lock taken is released on every path", "pattern", p)
				return
			}
			continue
		}
		h.hit("%s", p)
		var got string
		if stuck(func() {
			defer func() { got = "panic"; _ = recover() }()
			r := For(p)
			got = "ok"
			if r == nil || r.String() != p {
				h.fail("the compiled form of the pattern asked for", "pattern", p, "got", fmt.Sprint(r))
			} else if fmt.Sprint(r.FindStringSubmatchIndex("x1"+p)) != fmt.Sprint(For(p).FindStringSubmatchIndex("x1"+p)) {
				h.fail("the same answer from the cache", "pattern", p)
			}
		}) {
			h.fail("a lock taken is released on every path", "pattern", p, "got", got)
			return
		}
	}
}
