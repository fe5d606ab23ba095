# Comparison of number values.
define coreEq(a, b) = fNN(a) == fNN(b) && fExt(a) == fExt(b) && fILZ(a) == fILZ(b) && (fILZ(a) ==> fNLZ(a) == fNLZ(b))
define nnSuffix(a, b) = suffix(dec(fNN(a)), dec(fNN(b))) || suffix(dec(fNN(b)), dec(fNN(a)))
define ladder(a, b) = if fExt(a) != "" && fExt(b) != "" && fExt(a) != fExt(b) then NO_MATCH else (if fCC(a) != 0 && fCC(b) != 0 then (if fCC(a) != fCC(b) then NO_MATCH else (if coreEq(a, b) then EXACT_MATCH else (if nnSuffix(a, b) then SHORT_NSN_MATCH else NO_MATCH))) else (if coreEq(a, b) then NSN_MATCH else (if nnSuffix(a, b) then SHORT_NSN_MATCH else NO_MATCH)))
func phonenumbers.isNationalNumberSuffixOfTheOther(firstNumber, secondNumber) (r)
  ensures r == nnSuffix(firstNumber, secondNumber)
func phonenumbers.IsNumberMatchWithNumbers(firstNumberIn, secondNumberIn) (r)
  top C10
  ensures r == ladder(firstNumberIn, secondNumberIn)
  ensures r == ladder(secondNumberIn, firstNumberIn)
  ensures firstNumberIn == secondNumberIn ==> r == if fCC(firstNumberIn) != 0 then EXACT_MATCH else NSN_MATCH
