property='C16'
pkg='timezone'
needs='a non-geographical number of a one-digit calling code'
breaks='one-digit prefixes are never matched, so toll-free numbers of +1 are in the unknown zone'
edits=[('timezone/timezone.go','''	for i := matchLength; i > 0; i-- {''','''	for i := matchLength; i > 1; i-- {''')]
demo='''
package timezone
import ("testing";"github.com/nyaruka/phonenumbers/v2")
func TestDemo(t *testing.T) {
	n, _ := phonenumbers.Parse("+18002345678", "ZZ")
	if got, err := GetTimeZonesForNumber(n); err != nil || len(got) < 2 { t.Fatal(got) }
}
'''
