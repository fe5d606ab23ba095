# Calling-code extraction.
define ccAt(s, i) = knownCC(parseuint(s[:i]))
func phonenumbers.extractCountryCode(fullNumber, nationalNumber) (r)
  top C12
  requires fullNumber != nationalNumber
  modifies content(nationalNumber)
  let s = content(fullNumber)
  let o = content(nationalNumber)
  ensures len(s) == 0 || prefix("0", s) ==> r == 0 && content(nationalNumber) == o
  ensures all("0-9", s) && len(s) > 0 && !prefix("0", s) ==> (if ccAt(s, 1) then r == parseuint(s[:1]) && content(nationalNumber) == o ++ s[1:] else (if len(s) >= 2 && ccAt(s, 2) then r == parseuint(s[:2]) && content(nationalNumber) == o ++ s[2:] else (if len(s) >= 3 && ccAt(s, 3) then r == parseuint(s[:3]) && content(nationalNumber) == o ++ s[3:] else r == 0 && content(nationalNumber) == o)))
