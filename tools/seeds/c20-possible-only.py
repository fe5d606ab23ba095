property='C20'
needs='an over-long number one of whose longer prefixes has a possible length but is not valid, while a shorter prefix is valid'
breaks='the truncation gives up at the first length the plan does not list, so a valid shorter prefix is not found'
edits=[('phonenumberutil.go','''		if IsPossibleNumberWithReason(numberCopy) == TOO_SHORT ||
			nationalNumber == 0 {''','''		if reason := IsPossibleNumberWithReason(numberCopy); reason == TOO_SHORT || reason == INVALID_LENGTH ||
			nationalNumber == 0 {''')]
demo='''
package phonenumbers
import ("testing";"strconv";"google.golang.org/protobuf/proto")
func TestDemo(t *testing.T) {
	// any valid number followed by digits must be truncated to something valid
	for r := range GetSupportedRegions() {
		n := GetExampleNumber(r)
		if n == nil || !IsValidNumber(n) { continue }
		s := strconv.FormatUint(n.GetNationalNumber(), 10)
		for _, x := range []string{"0","9","99","000","123","9999"} {
			v, err := strconv.ParseUint(s+x, 10, 64)
			if err != nil { continue }
			c := proto.Clone(n).(*PhoneNumber)
			c.NationalNumber = proto.Uint64(v)
			if !TruncateTooLongNumber(c) || !IsValidNumber(c) { t.Fatal(r, s+x, c) }
		}
	}
}
'''
