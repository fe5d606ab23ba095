property='C10'
needs='two numbers one of which has a leading zero, where only the digits after it are a suffix of the other'
breaks='the suffix test includes leading zeros, so a short match is reported as no match'
edits=[('phonenumberutil.go','''		firstNumberNationalNumber = strconv.FormatUint(
			firstNumber.GetNationalNumber(), 10)
		secondNumberNationalNumber = strconv.FormatUint(
			secondNumber.GetNationalNumber(), 10)
''','''		firstNumberNationalNumber  = GetNationalSignificantNumber(firstNumber)
		secondNumberNationalNumber = strconv.FormatUint(
			secondNumber.GetNationalNumber(), 10)
''')]
demo='''
package phonenumbers
import ("testing";"google.golang.org/protobuf/proto")
func TestDemo(t *testing.T) {
	a := &PhoneNumber{CountryCode: proto.Int32(39), NationalNumber: proto.Uint64(236618300), ItalianLeadingZero: proto.Bool(true)}
	b := &PhoneNumber{CountryCode: proto.Int32(39), NationalNumber: proto.Uint64(4236618300)}
	if got := IsNumberMatchWithNumbers(a, b); got != SHORT_NSN_MATCH { t.Fatal(got) }
	if got := IsNumberMatchWithNumbers(b, a); got != SHORT_NSN_MATCH { t.Fatal(got) }
}
'''
