# internal/regexcache: the cache maps each pattern to its compiled form.
benign MD:map[string]*regexp.Regexp MV:map[string]*regexp.Regexp
mapinv MV:map[string]*regexp.Regexp : v != nil && pat(v) == k
guarded regexcache.cache by regexcache.mu
func regexcache.For(pattern) (r)
  top C21
  requires{C21} lockstate("regexcache.mu") == 0
  ensures r != nil && pat(r) == pattern
  ensures{C21} lockstate("regexcache.mu") == 0
