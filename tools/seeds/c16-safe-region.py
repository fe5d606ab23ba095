property='C16'
pkg='carrier'
needs='a mobile number of a region that shares its calling code with a main region of other portability'
breaks='the safe display name asks the main region of the calling code about portability'
edits=[('carrier/carrier.go','''IsMobileNumberPortableRegion(phonenumbers.GetRegionCodeForNumber(number))''','''IsMobileNumberPortableRegion(phonenumbers.GetRegionCodeForCountryCode(int(number.GetCountryCode())))''')]
demo='''
package carrier
import ("testing";"github.com/nyaruka/phonenumbers/v2")
func TestDemo(t *testing.T) {
	for r := range phonenumbers.GetSupportedRegions() {
		n := phonenumbers.GetExampleNumberForTypeInRegion(r, phonenumbers.MOBILE)
		if n == nil { continue }
		want, _ := GetNameForNumber(n, "en")
		if phonenumbers.IsMobileNumberPortableRegion(phonenumbers.GetRegionCodeForNumber(n)) { want = "" }
		if got, _ := GetSafeDisplayName(n, "en"); got != want { t.Fatal(r, got, want) }
	}
}
'''
