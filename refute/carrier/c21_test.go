package carrier

import (
	"testing"
	"time"

	"github.com/nyaruka/phonenumbers/v2/internal/prefixmapper"
	"github.com/nyaruka/phonenumbers/v2/internal/serialize"
)

func TestVerifC21Tables(t *testing.T) {
	h := newVH(t).frac(0.9)
	defer h.done()
	es, _ := carrierData.ReadDir("data")
	tables := map[string]map[int]string{}
	langs := []string{"xx", "", "EN", "zh_Hant", "en/../en", "data", "pt-BR"}
	for _, e := range es {
		b, _ := carrierData.ReadFile("data/" + e.Name())
		l := e.Name()[:len(e.Name())-len(".txt.gz")]
		langs = append(langs, l)
		r, err := serialize.LoadPrefixMap(b)
		if err != nil {
			t.Fatal(err)
		}
		tables[l] = r.Map
	}
	var keys []int
	for _, m := range tables {
		for k := range m {
			keys = append(keys, k)
		}
	}
	for h.more() {
		m := prefixmapper.New(carrierData, "data")
		for n := 1 + h.r.Intn(12); n > 0; n-- {
			l := pick21(h, langs)
			k := keys[h.r.Intn(len(keys))]
			e := "+" + itoa21(k) + itoa21(h.r.Intn(100000))
			h.hit("%s %s", l, e)
			done := make(chan bool)
			var v string
			var idx int
			var err error
			go func() { defer close(done); v, idx, err = m.ValueForNumber(l, 10, e) }()
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				h.fail("a lock taken is released on every path", "language", l, "number", e)
				return
			}
			want, widx := "", 0
			for i := min(10, len(e)); i > 1 && widx == 0; i-- {
				x := 0
				for _, c := range e[1:i] {
					x = x*10 + int(c-'0')
				}
				if w, ok := tables[l][x]; ok {
					want, widx = w, x
				}
			}
			if err == nil && (v != want || idx != widx) {
				h.fail("the table used is the one of the language asked for", "language", l, "number", e, "got", v, "want", want, "prefix", idx, "wantPrefix", widx)
			}
			if err != nil && tables[l] != nil {
				h.fail("an error for a language with data", "language", l, "err", err.Error())
			}
		}
	}
}

func pick21(h *vh, l []string) string { return l[h.r.Intn(len(l))] }
func itoa21(n int) string {
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}
