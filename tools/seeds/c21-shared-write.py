property='C21'
pkg='internal/regexcache'
needs='a store into the pattern cache while another goroutine holds the lock for reading'
breaks='the cache map is written under the shared lock'
edits=[('internal/regexcache/regexcache.go','''	mu.Lock()
	cache[pattern] = value
	mu.Unlock()''','''	mu.RLock()
	defer mu.RUnlock()
	if _, found := cache[pattern]; !found {
		cache[pattern] = value
	}''')]
demo='''
package regexcache
import ("testing";"time")
func TestDemo(t *testing.T) {
	mu.RLock()
	done := make(chan bool)
	go func() { For("demo[0-9]"); close(done) }()
	select {
	case <-done:
		t.Fatal("stored while a reader held the lock")
	case <-time.After(300*time.Millisecond):
	}
	mu.RUnlock(); <-done
}
'''
