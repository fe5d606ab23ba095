# Truncation: the candidates are the digit prefixes of the national number.
define keep(n, s, j) = with(n, NationalNumber, decval(s[:j]))
func phonenumbers.TruncateTooLongNumber(number) (r)
  top C20 C07
  requires number != nil
  modifies number.NationalNumber
  ensures !r ==> number.NationalNumber == old(number.NationalNumber)
  ensures{C20} r ==> IsValidNumber(number)
  ensures{C20} r ==> dec(old(fNN(number)))[:len(dec(fNN(number)))] == dec(fNN(number))
  ensures{C20} r ==> (forall j in len(dec(fNN(number)))+1 .. len(dec(old(fNN(number))))+1: !IsValidNumber(keep(number, dec(old(fNN(number))), j)))
  ensures{C20} r && old(IsValidNumber(number)) ==> number.NationalNumber == old(number.NationalNumber)
  ensures{C20} !r ==> !old(IsValidNumber(number))
  ensures{C20} !r ==> (forall c in 1 .. len(dec(old(fNN(number)))): IsValidNumber(keep(number, dec(old(fNN(number))), c)) ==> (exists j in c .. len(dec(old(fNN(number)))): IsPossibleNumberWithReason(keep(number, dec(old(fNN(number))), j)) == TOO_SHORT))
  loop{C20} n:*phonenumbers.PhoneNumber!, x:uint64! | x >= 1 && n != nil && n.NationalNumber != nil && *n.NationalNumber == x
  loop{C20} x:uint64! | dec(fNN(number))[:len(dec(x))] == dec(x) && len(dec(x)) < len(dec(fNN(number)))
  loop{C20} x:uint64! | !IsValidNumber(number) && (forall j in len(dec(x))+1 .. len(dec(fNN(number)))+1: !IsValidNumber(keep(number, dec(fNN(number)), j)))
  decreases{C20} x:uint64! | x
