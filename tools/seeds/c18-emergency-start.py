property='C18'
needs='an emergency text with a plus sign behind the first character'
breaks='text with a plus sign inside still counts as an emergency number'
edits=[('shortnumberinfo.go','''	if plusCharsPattern.MatchString(possibleNumber) {
		return false
	}
''','''	if ind := plusCharsPattern.FindStringIndex(possibleNumber); len(ind) > 0 && ind[0] == 0 {
		return false
	}
''')]
demo='''
package phonenumbers
import "testing"
func TestDemo(t *testing.T) {
	if IsEmergencyNumber("9+11", "US") || ConnectsToEmergencyNumber("91+1", "US") { t.Fatal("plus") }
}
'''
