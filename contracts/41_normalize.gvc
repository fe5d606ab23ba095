# Normalisation, character by character.
define inRange(t, i, c) = t[i].Lo <= c && c <= t[i].Hi
define isND(c) = (exists i in 0..len(unicode.Nd.R16): inRange(unicode.Nd.R16, i, c)) || (exists i in 0..len(unicode.Nd.R32): inRange(unicode.Nd.R32, i, c))
# The decimal-digit table of the Go library: ascending, disjoint ranges of whole decades, the first one ASCII.
# (The companion test checks these facts of the table, and Digit itself over every code point, on every run.)
define decade(t, i) = t[i].Lo <= t[i].Hi && t[i].Stride == 1
func character.Digit(c) (v, ok)
  top C13
  pure
  assumes{C13} len(unicode.Nd.R16) >= 1 && unicode.Nd.R16[0].Lo == 48 && unicode.Nd.R16[0].Hi == 57
  assumes{C13} forall i in 0..len(unicode.Nd.R16): decade(unicode.Nd.R16, i) && (forall j in i+1..len(unicode.Nd.R16): unicode.Nd.R16[i].Hi < unicode.Nd.R16[j].Lo)
  assumes forall i in 0..len(unicode.Nd.R32): decade(unicode.Nd.R32, i) && unicode.Nd.R32[i].Lo >= 65536 && unicode.Nd.R32[i].Hi <= 1114111 && (forall j in i+1..len(unicode.Nd.R32): unicode.Nd.R32[i].Hi < unicode.Nd.R32[j].Lo)
  ensures{C13} ok == isND(c)
  ensures{C13} ok ==> (exists i in 0..len(unicode.Nd.R16): inRange(unicode.Nd.R16, i, c) && v == 48 + (c - unicode.Nd.R16[i].Lo) % 10) || (exists i in 0..len(unicode.Nd.R32): inRange(unicode.Nd.R32, i, c) && v == 48 + (c - unicode.Nd.R32[i].Lo) % 10)
  loop{C13} i:int | forall j in 0..i: !inRange(unicode.Nd.R16, j, c) && unicode.Nd.R16[j].Lo <= c
  loop{C13} i:int | forall j in 0..i: !inRange(unicode.Nd.R32, j, c) && unicode.Nd.R32[j].Lo <= c
  ensures ok ==> 48 <= v && v <= 57
  ensures !ok ==> v == 0
  ensures 48 <= c && c <= 57 ==> ok && v == c
define dialable(r) = (48 <= r && r <= 57) || r == 43 || r == 42 || r == 35
fold dialFold(r) = if dialable(r) then chr(r) else ""
func phonenumbers.NormalizeDiallableCharsOnly(number) (r)
  top C13
  ensures{C13} r == dialFold(number)
  ensures{C13} all("0-9+*#", r)
  ensures{C13} all("0-9+*#", number) ==> r == number
  loop{C13} b:*stringbuilder.Builder | all("0-9+*#", content(b))
  loop{C13} it:iter.str, b:*stringbuilder.Builder | all("0-9+*#", it.str) ==> content(b) == it.str[:it.pos]
  loop{C13} it:iter.str, b:*stringbuilder.Builder | content(b) == dialFold(it.str, it.pos)
define keypad(u) = if u <= 67 then 50 else (if u <= 70 then 51 else (if u <= 73 then 52 else (if u <= 76 then 53 else (if u <= 79 then 54 else (if u <= 83 then 55 else (if u <= 86 then 56 else 57))))))
define letter(r) = 65 <= upper(r) && upper(r) <= 90
fold keypadFold(r) = if letter(r) then chr(keypad(upper(r))) else utf8(r)
fold keypadOnly(r) = if letter(r) then chr(keypad(upper(r))) else (if 48 <= r && r <= 57 then chr(r) else "")
func phonenumbers.ConvertAlphaCharactersInNumber(number) (r)
  top C13
  ensures{C13} r == keypadFold(number)
  loop{C13} it:iter.str, b:*stringbuilder.Builder | content(b) == keypadFold(it.str, it.pos)
func phonenumbers.normalizeDigits(number, keepNonDigits) (r)
  top C13
  ensures{C13} r == if keepNonDigits then digitsKeep(number) else digitsOnly(number)
  ensures{C13,C04,C05,C22} !keepNonDigits ==> all("0-9", r)
  ensures{C13,C04} all("0-9", number) ==> r == number
  loop{C13} it:iter.str, b:*stringbuilder.Builder, k:bool | content(b) == if k then digitsKeep(it.str, it.pos) else digitsOnly(it.str, it.pos)
  loop{C13,C04,C05,C22} b:*stringbuilder.Builder, k:bool | !k ==> all("0-9", content(b))
  loop{C13,C04} it:iter.str, b:*stringbuilder.Builder | all("0-9", it.str) ==> content(b) == it.str[:it.pos]
fold digitsOnly(r) = let d = character.Digit(r) in if d._1 then chr(d._0) else ""
fold digitsKeep(r) = let d = character.Digit(r) in if d._1 then chr(d._0) else utf8(r)
func phonenumbers.NormalizeDigitsOnly(number) (r)
  top C13
  ensures{C13} r == digitsOnly(number)
  ensures{C13,C04,C05,C22} all("0-9", r)
  ensures{C13,C04} all("0-9", number) ==> r == number
func phonenumbers.normalize(number) (r)
  top C13
  ensures{C13} r == if rematch(pat(validAlphaPhonePattern), number) then keypadOnly(number) else digitsOnly(number)
  ensures{C13,C04,C05,C22} all("0-9", r)
  loop{C13} it:iter.str, b:*stringbuilder.Builder | content(b) == keypadOnly(it.str, it.pos) && all("0-9", content(b))
  loop{C04,C05,C22} b:*stringbuilder.Builder | all("0-9", content(b))
lemma{C13} keypadDigitStays(r: int) = letter(r) ==> 48 <= keypad(upper(r)) && keypad(upper(r)) <= 57 && !letter(keypad(upper(r))) && utf8(keypad(upper(r))) == chr(keypad(upper(r)))
