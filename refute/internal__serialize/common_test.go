package serialize

// Shared helpers of the bounded companions: generators, budget, reporting. The oracles are in the per-property files.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

type vh struct {
	t     *testing.T
	r     *rand.Rand
	end   time.Time
	cases int
	seen  map[string]bool
	fails map[string]int
	nsamp int
}

func newVH(t *testing.T) *vh {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ms, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET_MS"))
	if ms == 0 {
		ms = 5000
	}
	// the budget is shared by the tests of a file
	return &vh{t: t, r: rand.New(rand.NewSource(int64(seed)*7919 + 17)), end: time.Now().Add(time.Duration(ms) * time.Millisecond), seen: map[string]bool{}, fails: map[string]int{}}
}
func (h *vh) frac(f float64) *vh {
	d := time.Until(h.end)
	h.end = time.Now().Add(time.Duration(float64(d) * f))
	return h
}
func (h *vh) more() bool { return (h.cases < 200 || time.Now().Before(h.end)) && h.nfail() < 20 }
func (h *vh) nfail() int {
	n := 0
	for _, v := range h.fails {
		n += v
	}
	return n
}
func (h *vh) hit(format string, a ...any) {
	h.cases++
	if len(h.seen) < 200000 {
		s := fmt.Sprintf(format, a...)
		if !h.seen[s] {
			h.seen[s] = true
			if h.nsamp < 4 && h.r.Intn(50) == 0 {
				h.nsamp++
				fmt.Printf("\nVERIF-SAMPLE %.200q\n", s)
			}
		}
	}
}
func (h *vh) fail(key string, kv ...any) {
	h.fails[key]++
	if h.fails[key] > 2 {
		return
	}
	m := map[string]any{"key": key}
	for i := 0; i+1 < len(kv); i += 2 {
		m[fmt.Sprint(kv[i])] = fmt.Sprintf("%#v", kv[i+1])
		if s, ok := kv[i+1].(fmt.Stringer); ok {
			m[fmt.Sprint(kv[i])] = s.String()
		}
	}
	b, _ := json.Marshal(m)
	fmt.Printf("\nVERIF-FAIL %s\n", b)
	h.t.Fail()
}
func (h *vh) done() { fmt.Printf("\nVERIF-STAT %d %d\n", h.cases, len(h.seen)) }

// guard runs f and reports a panic as a failure
func (h *vh) guard(what string, in any, f func()) {
	defer func() {
		if e := recover(); e != nil {
			h.fail("panic in "+what, "input", in, "panic", fmt.Sprint(e))
		}
	}()
	f()
}

