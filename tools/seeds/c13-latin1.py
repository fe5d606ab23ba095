property='C13'
needs='a character between U+0080 and U+00FF in a number converted with its formatting kept'
breaks='Latin-1 characters are written as single bytes, so the kept formatting is no longer valid text'
edits=[('phonenumberutil.go','''		} else if !removeNonMatches {
			normalizedNumber.WriteRune(character)
''','''		} else if !removeNonMatches {
			if character <= unicode.MaxLatin1 {
				normalizedNumber.WriteByte(byte(character))
				continue
			}
			normalizedNumber.WriteRune(character)
''')]
demo='''
package phonenumbers
import "testing"
func TestDemo(t *testing.T) {
	if got := ConvertAlphaCharactersInNumber("1\\u00a0800\\u00b7CALL"); got != "1\\u00a0800\\u00b72255" { t.Fatalf("%q", got) }
}
'''
