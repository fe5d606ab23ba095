property='C05'
needs='a text of more than 250 bytes but at most 250 characters'
breaks='the length limit counts characters, so over-long multi-byte text is not rejected as too long'
edits=[('phonenumberutil.go','''	} else if len(numberToParse) > maxInputStringLength {
		return ErrNumTooLong
	}

	nationalNumber := ''','''	} else if len([]rune(numberToParse)) > maxInputStringLength {
		return ErrNumTooLong
	}

	nationalNumber := ''')]
demo='''
package phonenumbers
import ("testing";"strings")
func TestDemo(t *testing.T) {
	if _, err := Parse("+1 650 253 0000" + strings.Repeat("\\u2010", 100), "US"); err != ErrNumTooLong { t.Fatal(err) }
}
'''
