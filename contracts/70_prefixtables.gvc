# Packed prefix tables (carrier, geocoding and time-zone data).
# A table is gunzip(data): u32 v, v bytes of "\n"-separated strings, u32 n, then n entries of a varint key difference
# followed by one u16 string index (prefix map) or a u8 count and that many u16 indices (array map).
ghost anyKey() int
rec posAt(s: string, p: int, i: int): int = p step uvend(s, posAt(s, p, i)) + 2
rec keyAt(s: string, p: int, i: int): int = 0 step keyAt(s, p, i) + int64(uv(s, posAt(s, p, i)))
define goodEntry(s, p, nv, j) = uvok(s, posAt(s, p, j)) && uvend(s, posAt(s, p, j)) + 2 <= len(s) && le2(s, uvend(s, posAt(s, p, j))) < nv
define goodTo(s, p, nv, i) = forall j in 0..i: goodEntry(s, p, nv, j)
rec hasKey(s: string, p: int, k: int, i: int): bool = false step k == keyAt(s, p, i + 1) || hasKey(s, p, k, i)
rec valueAt(s: string, p: int, v: string, k: int, i: int): string = "" step if k == keyAt(s, p, i + 1) then split(v, "\n", le2(s, uvend(s, posAt(s, p, i)))) else valueAt(s, p, v, k, i)
rec longestKey(s: string, p: int, i: int): int = 0 step if longestKey(s, p, i) < len(dec(abs(keyAt(s, p, i + 1)))) then len(dec(abs(keyAt(s, p, i + 1)))) else longestKey(s, p, i)
define names(s) = substr(s, 4, le4(s, 0))
define count(s) = le4(s, 4 + le4(s, 0))
define body(s) = 8 + le4(s, 0)
define framedTable(s) = ungz(str(s)) && body(gunzip(str(s))) <= len(gunzip(str(s)))

func serialize.digitCount(n) (r)
  ensures r == len(dec(abs(n)))
  loop x:int, c:int! | len(dec(abs(old(n)))) == (if x == 0 then c else c + len(dec(abs(x))))

func serialize.DecodeUnzip(data) (r, err)
  ensures err == nil ==> ungz(str(data)) && str(r) == gunzip(str(data))
  ensures ungz(str(data)) ==> err == nil

func serialize.LoadPrefixMap(data) (r, err)
  top C17
  ensures{C17} let s = gunzip(str(data)) in (err == nil) == (ungz(str(data)) && body(s) <= len(s) && goodTo(s, body(s), nsplit(names(s), "\n"), count(s)))
  ensures{C17} err == nil ==> r != nil
  ensures{C17} err != nil ==> r == nil
  ensures{C17} let s = gunzip(str(data)) in err == nil ==> has(r.Map, anyKey()) == hasKey(s, body(s), anyKey(), count(s))
  ensures{C17} let s = gunzip(str(data)) in err == nil && has(r.Map, anyKey()) ==> r.Map[anyKey()] == valueAt(s, body(s), names(s), anyKey(), count(s))
  ensures{C17} let s = gunzip(str(data)) in err == nil ==> r.MaxLength == longestKey(s, body(s), count(s))
  loop{C17} i:int, r:*bytes.Reader! | let s = gunzip(str(data)) in rdtext(r) == s && rdpos(r) == posAt(s, body(s), i) && goodTo(s, body(s), nsplit(names(s), "\n"), i) && i <= count(s)
  loop{C17} i:int, k:int! | let s = gunzip(str(data)) in k == keyAt(s, body(s), i)
  loop{C17} i:int, d:int! | let s = gunzip(str(data)) in d == longestKey(s, body(s), i)
  loop{C17} i:int, m:map[int]string! | let s = gunzip(str(data)) in has(m, anyKey()) == hasKey(s, body(s), anyKey(), i)
  loop{C17} i:int, m:map[int]string! | let s = gunzip(str(data)) in has(m, anyKey()) ==> m[anyKey()] == valueAt(s, body(s), names(s), anyKey(), i)

rec aposAt(s: string, p: int, i: int): int = p step uvend(s, aposAt(s, p, i)) + 1 + 2 * le1(s, uvend(s, aposAt(s, p, i)))
rec akeyAt(s: string, p: int, i: int): int = 0 step akeyAt(s, p, i) + int64(uv(s, aposAt(s, p, i)))
rec ahasKey(s: string, p: int, k: int, i: int): bool = false step k == akeyAt(s, p, i + 1) || ahasKey(s, p, k, i)
# the position of the entry that a key has last, and how many strings it has
rec alast(s: string, p: int, k: int, i: int): int = 0 step if k == akeyAt(s, p, i + 1) then uvend(s, aposAt(s, p, i)) else alast(s, p, k, i)
rec alongest(s: string, p: int, i: int): int = 0 step if alongest(s, p, i) < len(dec(abs(akeyAt(s, p, i + 1)))) then len(dec(abs(akeyAt(s, p, i + 1)))) else alongest(s, p, i)
define agoodEntry(s, p, nv, j) = let e = uvend(s, aposAt(s, p, j)) in uvok(s, aposAt(s, p, j)) && e + 1 <= len(s) && (forall t in 0..le1(s, e): e + 3 + 2 * t <= len(s) && le2(s, e + 1 + 2 * t) < nv)
ghost anyEntry() int
ghost anySpot() int
define agoodAt(s, p, nv, j, t) = let e = uvend(s, aposAt(s, p, j)) in uvok(s, aposAt(s, p, j)) && e + 1 <= len(s) && (0 <= t && t < le1(s, e) ==> e + 3 + 2 * t <= len(s) && le2(s, e + 1 + 2 * t) < nv)
define listed(s, e, v, l) = len(l) == le1(s, e) && (forall t in 0..len(l): l[t] == split(v, "\n", le2(s, e + 1 + 2 * t)))
func serialize.LoadIntArrayMap(data) (r, err)
  top C17
  ensures{C17} let s = gunzip(str(data)) in err == nil ==> ungz(str(data)) && body(s) <= len(s) && (0 <= anyEntry() && anyEntry() < count(s) ==> agoodAt(s, body(s), nsplit(names(s), "\n"), anyEntry(), anySpot()))
  ensures{C17} let s = gunzip(str(data)) in err != nil ==> !(ungz(str(data)) && body(s) <= len(s)) || (exists j in 0..count(s): !agoodEntry(s, body(s), nsplit(names(s), "\n"), j))
  ensures{C17} err == nil ==> r != nil
  ensures{C17} err != nil ==> r == nil
  ensures{C17} let s = gunzip(str(data)) in err == nil ==> has(r.Map, anyKey()) == ahasKey(s, body(s), anyKey(), count(s))
  ensures{C17} let s = gunzip(str(data)) in err == nil && has(r.Map, anyKey()) ==> listed(s, alast(s, body(s), anyKey(), count(s)), names(s), r.Map[anyKey()])
  ensures{C17} let s = gunzip(str(data)) in err == nil ==> r.MaxLength == alongest(s, body(s), count(s))
  loop{C17} i:int, r:*bytes.Reader! | let s = gunzip(str(data)) in rdtext(r) == s && rdpos(r) == aposAt(s, body(s), i) && i <= count(s)
  loop{C17} i:int | let s = gunzip(str(data)) in 0 <= anyEntry() && anyEntry() < i ==> agoodAt(s, body(s), nsplit(names(s), "\n"), anyEntry(), anySpot())
  loop{C17} i:int, k:int! | let s = gunzip(str(data)) in k == akeyAt(s, body(s), i)
  loop{C17} i:int, d:int! | let s = gunzip(str(data)) in d == alongest(s, body(s), i)
  loop{C17} i:int, m:map[int][]string! | let s = gunzip(str(data)) in has(m, anyKey()) == ahasKey(s, body(s), anyKey(), i)
  loop{C17} i:int, m:map[int][]string! | let s = gunzip(str(data)) in has(m, anyKey()) ==> listed(s, alast(s, body(s), anyKey(), i), names(s), m[anyKey()])
  loop{C17} t:int, l:[]string!, r:*bytes.Reader! | let s = gunzip(str(data)) in let e = pre(rdpos(r)) in rdtext(r) == s && rdpos(r) == e + 2 * t && t <= len(l) && len(l) == le1(s, e - 1) && (forall u in 0..t: e + 2 + 2 * u <= len(s) && le2(s, e + 2 * u) < nsplit(names(s), "\n") && l[u] == split(names(s), "\n", le2(s, e + 2 * u)))
  loop{C17} t:int, r:*bytes.Reader! | let s = gunzip(str(data)) in let e = pre(rdpos(r)) in 0 <= anySpot() && anySpot() < t ==> e + 2 + 2 * anySpot() <= len(s) && le2(s, e + 2 * anySpot()) < nsplit(names(s), "\n")
