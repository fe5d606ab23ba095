property='C12'
needs='more than 17 digits after the calling code'
breaks='digits beyond the seventeenth after the calling code are dropped instead of reaching the length verdict'
edits=[('phonenumberutil.go','''			nationalNumber.Write(fullNumBytes[i:])
			return potentialCountryCode''','''			rest := fullNumBytes[i:]
			if len(rest) > 17 {
				rest = rest[:17]
			}
			nationalNumber.Write(rest)
			return potentialCountryCode''')]
demo='''
package phonenumbers
import ("testing";"github.com/nyaruka/phonenumbers/v2/internal/stringbuilder")
func TestDemo(t *testing.T) {
	n := stringbuilder.New(nil)
	if got := extractCountryCode(stringbuilder.NewString("44123456789012345678"), n); got != 44 || n.String() != "123456789012345678" { t.Fatal(got, n.String()) }
}
'''
