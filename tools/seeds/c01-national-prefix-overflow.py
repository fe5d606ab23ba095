property='C01'
needs='a national number above 2^63'
breaks='E.164 prints huge national numbers as negative'
edits=[('phonenumberutil.go','''	asStr := strconv.FormatUint(number.GetNationalNumber(), 10)
	nationalNumber.WriteString(asStr)
''','''	asStr := strconv.FormatInt(int64(number.GetNationalNumber()), 10)
	nationalNumber.WriteString(asStr)
''')]
demo='''
package phonenumbers
import ("testing";"google.golang.org/protobuf/proto")
func TestDemo(t *testing.T) {
	n := &PhoneNumber{CountryCode: proto.Int32(39), NationalNumber: proto.Uint64(1<<63+7)}
	if got := Format(n, E164); got != "+399223372036854775815" { t.Fatal(got) }
}
'''
