property='C04'
needs='a number with more leading zeros than the counter stops at'
breaks='a parse of a number with ten or more leading zeros loses the zeros beyond the ninth'
edits=[('phonenumberutil.go','''	for numLeadZeros < len(nationalNum)-1 && nationalNum[numLeadZeros] == '0' {
''','''	for numLeadZeros < len(nationalNum)-1 && numLeadZeros < minLengthForNSN+7 && nationalNum[numLeadZeros] == '0' {
''')]
demo='''
package phonenumbers
import "testing"
func TestDemo(t *testing.T) {
	n, err := Parse("+39 0000000000 123", "IT")
	if err != nil { t.Fatal(err) }
	if got := GetNationalSignificantNumber(n); got != "0000000000123" { t.Fatal(got) }
}
'''
