property='C09'
needs='a number matching both the voicemail and the fixed-line description'
breaks='the fixed-line description is consulted before voicemail, so such numbers are classified as fixed line'
edits=[('phonenumberutil.go','''	if isNumberMatchingDesc(nationalNumber, metadata.GetVoicemail()) {
		return VOICEMAIL
	}

	var isFixedLine = isNumberMatchingDesc(
		nationalNumber, metadata.GetFixedLine())
''','''	var isFixedLine = isNumberMatchingDesc(
		nationalNumber, metadata.GetFixedLine())
	if !isFixedLine && isNumberMatchingDesc(nationalNumber, metadata.GetVoicemail()) {
		return VOICEMAIL
	}
''')]
demo='''
package phonenumbers
import ("testing";"google.golang.org/protobuf/proto")
func TestDemo(t *testing.T) {
	d := func(p string) *PhoneNumberDesc { return &PhoneNumberDesc{NationalNumberPattern: proto.String(p), PossibleLength: []int32{4}} }
	x := d("9999")
	m := &PhoneMetadata{GeneralDesc: d("[1-9]\\\\d{3}"), PremiumRate: x, TollFree: x, SharedCost: x, Voip: x, PersonalNumber: x, Pager: x, Uan: x,
		Voicemail: d("55\\\\d\\\\d"), FixedLine: d("5\\\\d{3}"), Mobile: d("7\\\\d{3}")}
	if got := getNumberTypeHelper("5512", m); got != VOICEMAIL { t.Fatal(got) }
	if got := getNumberTypeHelper("5612", m); got != FIXED_LINE { t.Fatal(got) }
}
'''
