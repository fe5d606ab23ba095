property='C18'
needs='a number of no cost category that starts with an emergency number and has a possible short length, such as 9119'
breaks='numbers that merely start with an emergency number are taken as toll-free'
edits=[('shortnumberinfo.go','''	if IsEmergencyNumber(shortNumber, regionDialingFrom) {''','''	if ConnectsToEmergencyNumber(shortNumber, regionDialingFrom) {''')]
demo='''
package phonenumbers
import ("testing"; "strconv")
func TestDemo(t *testing.T) {
	for v := uint64(9110); v < 9120; v++ {
		cc, v := int32(1), v
		n := &PhoneNumber{CountryCode: &cc, NationalNumber: &v}
		md := getShortNumberMetadataForRegion("US")
		s := strconv.FormatUint(v, 10)
		if GetExpectedCostForRegion(n, "US") == TOLL_FREE_COST && !IsEmergencyNumber(s, "US") && !matchesPossibleNumberAndNationalNumber(s, md.GetTollFree()) { t.Fatal(s) }
	}
}
'''
