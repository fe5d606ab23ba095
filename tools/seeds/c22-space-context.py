property='C22'
needs='a global-number context that contains a blank'
breaks='a phone-context with a blank in it is accepted'
edits=[('phonenumberutil.go','''"[\\\\-\\\\.\\\\(\\\\)]?"''','''"[\\\\-\\\\.\\\\( \\\\)]?"''')]
demo='''
package phonenumbers
import "testing"
func TestDemo(t *testing.T) {
	if n, err := Parse("tel:253-0000;phone-context=+1 650", "US"); err != ErrNotANumber { t.Fatal(n, err) }
}
'''
