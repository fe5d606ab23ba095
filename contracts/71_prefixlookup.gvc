# Longest-prefix lookups in carrier, geocoding and time-zone tables, and the per-language table cache.
benign MD:map[string]*serialize.IntStringMap MV:map[string]*serialize.IntStringMap
guarded prefixmapper.Mapper.langMap by prefixmapper.Mapper.mu
# loadedFrom(t): the packed bytes a table was decoded from; fsOf, dirOf: the files a cache belongs to
ghost loadedFrom(ref) string
ghost fsOf(ref) int
ghost dirOf(ref) string
define tableFile(m, lang) = m.dir ++ "/" ++ lang ++ ".txt.gz"
meminv{C21} F:prefixmapper.Mapper.langMap : v != nil && fsOf(v) == fsid(o.dataFS) && dirOf(v) == o.dir
mapinv{C21} MV:map[string]*serialize.IntStringMap : (v != nil) == exists_file(fsOf(m), dirOf(m) ++ "/" ++ k ++ ".txt.gz") && (v != nil ==> loadedFrom(v) == filetext(fsOf(m), dirOf(m) ++ "/" ++ k ++ ".txt.gz"))
func serialize.LoadPrefixMap(data) (r, err)
  defines{C21} err == nil ==> r != nil && loadedFrom(r) == str(data)
func prefixmapper.New(dataFS, dir) (r)
  top C21
  ensures{C21} r != nil && r.dir == dir && fsid(r.dataFS) == fsid(dataFS)
  ensures{C21} forall l: string: !has(r.langMap, l)
func prefixmapper.Mapper.lazyLoadPrefixes(m, language) (r, err)
  top C21
  requires{C21} m != nil && lockstate("prefixmapper.Mapper.mu", m) == 0
  ensures{C21} lockstate("prefixmapper.Mapper.mu", m) == 0
  ensures{C21} err == nil ==> (r != nil) == exists_file(fsid(m.dataFS), tableFile(m, language)) && (r != nil ==> loadedFrom(r) == filetext(fsid(m.dataFS), tableFile(m, language)))
  ensures{C16} err == nil ==> r == m.langMap[language]
  ensures err != nil ==> r == nil

# longest: v is the value of the longest prefix (of at most lim digits) of d that the table t has
define keyOf(e, k) = parseuint(substr(e, 1, k))
define noneFrom(t, e, from, lim) = forall k in from..lim+1: !has(t, keyOf(e, k))
define plusDigits(e) = prefix("+", e) && all("0-9", e[1:])
define least(a, b) = if a < b then a else b
define longestIs(t, e, lim, v, idx) = (v == "" && idx == 0 && noneFrom(t, e, 1, lim)) || (exists k in 1..lim+1: idx == keyOf(e, k) && has(t, idx) && v == t[idx] && noneFrom(t, e, k + 1, lim))
func prefixmapper.Mapper.ValueForNumber(m, language, maxLength, e164) (v, idx, err)
  top C16 C21
  requires{C21} m != nil && lockstate("prefixmapper.Mapper.mu", m) == 0
  ensures{C21} lockstate("prefixmapper.Mapper.mu", m) == 0
  ensures{C16} err != nil || m.langMap[language] == nil ==> v == "" && idx == 0
  ensures{C16} err == nil && m.langMap[language] != nil && plusDigits(e164) && maxLength <= 18 ==> longestIs(m.langMap[language].Map, e164, least(maxLength, len(e164)) - 1, v, idx)
  loop{C16} i:int | i <= least(maxLength, len(e164)) && (plusDigits(e164) && maxLength <= 18 ==> forall k in i..least(maxLength, len(e164)): !has(m.langMap[language].Map, keyOf(e164, k)))
