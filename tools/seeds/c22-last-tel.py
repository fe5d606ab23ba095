property='C22'
needs='a second "tel:" between the first and the phone-context'
breaks='the text between the first "tel:" and the context is cut at the last "tel:"'
edits=[('phonenumberutil.go','''		indexOfRfc3966Prefix := strings.Index(numberToParse, rfc3966Prefix)
''','''		indexOfRfc3966Prefix := strings.LastIndex(numberToParse[:indexOfPhoneContext], rfc3966Prefix)
''')]
demo='''
package phonenumbers
import "testing"
func TestDemo(t *testing.T) {
	n, err := Parse("tel:x tel:2530000;phone-context=+1650", "US")
	if err != ErrNotANumber { t.Fatal(n, err) }
}
'''
