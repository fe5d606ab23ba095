property='C01'
needs='a number with national number zero that carries raw input, formatted in E.164 with a known calling code'
breaks='the raw-input exception is skipped when the calling code is known, so E.164 prints +CC0 instead of the raw text'
edits=[('phonenumberutil.go','''	if number.GetNationalNumber() == 0 && len(number.GetRawInput()) > 0 {''','''	if number.GetNationalNumber() == 0 && len(number.GetRawInput()) > 0 && !number.GetItalianLeadingZero() {''')]
demo='''
package phonenumbers
import ("testing";"google.golang.org/protobuf/proto")
func TestDemo(t *testing.T) {
	n := &PhoneNumber{CountryCode: proto.Int32(39), NationalNumber: proto.Uint64(0), ItalianLeadingZero: proto.Bool(true), RawInput: proto.String("00")}
	if got := Format(n, E164); got != "00" { t.Fatal(got) }
}
'''
