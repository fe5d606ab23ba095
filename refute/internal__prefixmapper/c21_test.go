package prefixmapper

import (
	"embed"
	"testing"
	"time"
)

// While another goroutine holds the table cache's lock, a lookup has to wait for it, cached language or not.
func TestVerifC21Lock(t *testing.T) {
	h := newVH(t)
	defer h.done()
	var none embed.FS
	for i := 0; i < 6; i++ {
		m := New(none, "data")
		for _, lang := range []string{"en", "en", "fr"} {
			h.hit("%d %s", i, lang)
			m.mu.Lock()
			done := make(chan bool)
			go func() { defer close(done); m.ValueForNumber(lang, 10, "+441234") }()
			ok := false
			select {
			case <-done:
			case <-time.After(100 * time.Millisecond):
				ok = true
			}
			m.mu.Unlock()
			<-done
			if !ok {
				h.fail("a lookup waits for the lock", "language", lang)
				return
			}
		}
	}
}
