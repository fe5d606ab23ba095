property='C16'
pkg='geocoding'
needs='a number whose only known prefix has three digits'
breaks='three-digit prefixes are never matched'
edits=[('internal/prefixmapper/prefixmapper.go','''i > 1; i--''','''i > 4; i--''')]
demo='''
package geocoding
import ("testing";"github.com/nyaruka/phonenumbers/v2")
func TestDemo(t *testing.T) {
	n, _ := phonenumbers.Parse("+6622123456", "ZZ")
	if got, _ := GetDescriptionForValidNumber(n, "en"); got != "Bangkok/Nonthaburi/Pathum Thani/Samut Prakan" && got != "Bangkok" { t.Fatal(got) }
}
'''
