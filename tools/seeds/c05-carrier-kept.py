property='C05'
needs='a number dialled with a carrier code, parsed without keeping the raw input'
breaks='a plain parse records the carrier code'
edits=[('phonenumberutil.go','''			if keepRawInput && carrierCode.Len() > 0 {''','''			if (keepRawInput || len(extension) > 0) && carrierCode.Len() > 0 {''')]
demo='''
package phonenumbers
import "testing"
func TestDemo(t *testing.T) {
	n, err := Parse("0 15 11 91234 5678 ext. 7", "BR")
	if err != nil { t.Fatal(err) }
	if n.PreferredDomesticCarrierCode != nil { t.Fatal(n) }
}
'''
