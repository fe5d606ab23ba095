property='C13'
needs='a text longer than 250 bytes'
breaks='digits beyond the parser\'s input limit vanish from the digits-only form'
edits=[('phonenumberutil.go','''	buf := number
	var normalizedDigits = stringbuilder.New(nil)
''','''	buf := number
	if len(buf) > maxInputStringLength {
		buf = buf[:maxInputStringLength]
	}
	var normalizedDigits = stringbuilder.New(nil)
''')]
demo='''
package phonenumbers
import ("testing";"strings")
func TestDemo(t *testing.T) {
	s := strings.Repeat("1-", 400)
	if got := NormalizeDigitsOnly(s); got != strings.Repeat("1", 400) { t.Fatal(len(got)) }
}
'''
