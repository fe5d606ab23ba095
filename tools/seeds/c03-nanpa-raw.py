property='C03'
needs='an invalid North American number formatted for a caller in the plan'
breaks='inside the North American plan, numbers that are not valid get a foreign dialling form'
edits=[('phonenumberutil.go','''	if countryCallingCode == nanpaCountryCode {
		if IsNANPACountry(regionCallingFrom) {
			// For NANPA regions, return the national format for these
			// regions but prefix it with the country calling code.
			return strconv.Itoa(countryCallingCode) + " " + Format(number, NATIONAL)
		}
	} else if''','''	if countryCallingCode == nanpaCountryCode {
		if IsNANPACountry(regionCallingFrom) && GetRegionCodeForNumber(number) != "" {
			// For NANPA regions, return the national format for these
			// regions but prefix it with the country calling code.
			return strconv.Itoa(countryCallingCode) + " " + Format(number, NATIONAL)
		}
	} else if''')]
demo='''
package phonenumbers
import ("testing";"google.golang.org/protobuf/proto")
func TestDemo(t *testing.T) {
	// not a valid number of any North American country
	n := &PhoneNumber{CountryCode: proto.Int32(1), NationalNumber: proto.Uint64(1112223333)}
	if got := FormatOutOfCountryCallingNumber(n, "CA"); got != "1 " + Format(n, NATIONAL) { t.Fatal(got) }
}
'''
