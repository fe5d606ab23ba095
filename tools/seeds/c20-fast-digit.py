property='C20'
needs='a number two or more digits too long whose next-longer prefix is itself valid'
breaks='far-too-long numbers lose two digits at a time, so a longer valid number is skipped'
edits=[('phonenumberutil.go','''	for !IsValidNumber(numberCopy) {
		nationalNumber /= 10
''','''	for !IsValidNumber(numberCopy) {
		nationalNumber /= 10
		if IsPossibleNumberWithReason(numberCopy) == TOO_LONG && nationalNumber > 10000000000 {
			nationalNumber /= 10
		}
''')]
demo='''
package phonenumbers
import ("testing";"strconv";"google.golang.org/protobuf/proto")
func TestDemo(t *testing.T) {
	for r := range GetSupportedRegions() {
		n := GetExampleNumber(r)
		if n == nil || !IsValidNumber(n) { continue }
		s := strconv.FormatUint(n.GetNationalNumber(), 10)
		for _, x := range []string{"0","9","99","000","123","9999"} {
			v, err := strconv.ParseUint(s+x, 10, 64)
			if err != nil { continue }
			c := proto.Clone(n).(*PhoneNumber)
			c.NationalNumber = proto.Uint64(v)
			ok := TruncateTooLongNumber(c)
			got := strconv.FormatUint(c.GetNationalNumber(), 10)
			for k := len(s+x); k > 0; k-- {
				v, _ := strconv.ParseUint((s+x)[:k], 10, 64)
				d := proto.Clone(n).(*PhoneNumber)
				d.NationalNumber = proto.Uint64(v)
				if IsValidNumber(d) {
					if !ok || got != (s+x)[:k] { t.Fatal(r, s+x, got, (s+x)[:k]) }
					break
				}
			}
		}
	}
}
'''
