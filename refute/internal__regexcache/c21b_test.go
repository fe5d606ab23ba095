package regexcache

import (
	"fmt"
	"testing"
	"time"
)

// While another goroutine holds the cache's lock, a lookup or a store has to wait for it.
func TestVerifC21Lock(t *testing.T) {
	h := newVH(t)
	defer h.done()
	waits := func(f func()) (bool, chan bool) {
		done := make(chan bool)
		go func() { defer close(done); f() }()
		select {
		case <-done:
			return false, done
		case <-time.After(150 * time.Millisecond):
			return true, done
		}
	}
	For("cached[0-9]")
	for i := 0; i < 8; i++ {
		h.hit("%d", i)
		mu.RLock()
		p := fmt.Sprintf("new%d[0-9]", i)
		ok, done := waits(func() { For(p) })
		mu.RUnlock()
		<-done
		if !ok {
			h.fail("a store waits for a reader that holds the lock", "pattern", p)
			return
		}
		mu.Lock()
		ok, done = waits(func() { For("cached[0-9]") })
		mu.Unlock()
		<-done
		if !ok {
			h.fail("a lookup waits for a writer that holds the lock", "pattern", "cached[0-9]")
			return
		}
	}
}
