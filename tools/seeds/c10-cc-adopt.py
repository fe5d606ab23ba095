property='C10'
needs='the second number has no calling code while the first has one'
breaks='the calling code is adopted only in one direction, so NSN_MATCH is no longer symmetric'
edits=[('phonenumberutil.go','''	firstNumber.CountryCode = proto.Int32(secondNumberCountryCode)
''','''	if firstNumberCountryCode == 0 {
		firstNumber.CountryCode = proto.Int32(secondNumberCountryCode)
	}
''')]
demo='''
package phonenumbers
import ("testing";"google.golang.org/protobuf/proto")
func TestDemo(t *testing.T) {
	a := &PhoneNumber{CountryCode: proto.Int32(64), NationalNumber: proto.Uint64(33316005)}
	b := &PhoneNumber{NationalNumber: proto.Uint64(33316005), CountryCode: proto.Int32(0)}
	if got := IsNumberMatchWithNumbers(a, b); got != NSN_MATCH { t.Fatal(got) }
}
'''
