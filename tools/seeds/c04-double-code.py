property='C04'
needs='a national number that begins with the digits of its own calling code, typed with the calling code but without plus'
breaks='the calling code is removed twice, so digits of the number are lost'
edits=[('phonenumberutil.go','''					normalizedNumber[len(defaultCountryCodeString):])
''','''					strings.TrimPrefix(normalizedNumber[len(defaultCountryCodeString):], defaultCountryCodeString))
''')]
demo='''
package phonenumbers
import "testing"
func TestDemo(t *testing.T) {
	for _, c := range [][3]string{{"39 3912345678", "IT", "3912345678"}, {"91 9123456789", "IN", "9123456789"}, {"234 2348031234567", "NG", ""}} {
		if c[2] == "" { continue }
		n, err := Parse(c[0], c[1])
		if err != nil { t.Fatal(err) }
		if got := GetNationalSignificantNumber(n); got != c[2] { t.Fatalf("%v: %s", c, got) }
	}
}
'''
