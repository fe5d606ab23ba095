property='C09'
needs='a calling code shared by several regions and a number whose leading digits name a region but whose length that region does not have'
breaks='the region named by the leading digits is skipped, so the number is attributed to no region'
edits=[('phonenumberutil.go','''		var metadata *PhoneMetadata = getMetadataForRegion(regionCode)
		if len(metadata.GetLeadingDigits()) > 0 {''','''		var metadata *PhoneMetadata = getMetadataForRegion(regionCode)
		if ls := metadata.GetGeneralDesc().GetPossibleLength(); len(ls) > 0 &&
			int32(len(nationalNumber)) < ls[0] {
			continue
		}
		if len(metadata.GetLeadingDigits()) > 0 {''')]
demo='''
package phonenumbers
import ("testing";"google.golang.org/protobuf/proto")
func TestDemo(t *testing.T) {
	n := &PhoneNumber{CountryCode: proto.Int32(1), NationalNumber: proto.Uint64(876555)}
	if got := GetRegionCodeForNumber(n); got != "JM" { t.Fatal(got) }
}
'''
