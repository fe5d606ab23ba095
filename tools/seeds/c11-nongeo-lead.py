property='C11'
needs='metadata that lists the non-geographic entity first, alongside ordinary regions'
breaks='a calling code whose list starts with the non-geographic entity no longer makes its other regions supported'
pkg='metadata'
edits=[('metadata/source.go','''		if len(regionCodes) == 1 && regionCodeForNonGeoEntity == regionCodes[0] {''','''		if len(regionCodes) > 0 && regionCodeForNonGeoEntity == regionCodes[0] {''')]
demo='''
package metadata
import ("testing";"google.golang.org/protobuf/proto")
func TestDemo(t *testing.T) {
	c, err := NewContainer(&PhoneMetadataCollection{Metadata: []*PhoneMetadata{{Id: proto.String("FR"), CountryCode: proto.Int32(33)}}}, map[int][]string{33: {"001", "FR"}})
	if err != nil { t.Fatal(err) }
	defer Use(c)()
	if !SupportedRegions()["FR"] || SupportedRegions()["001"] || CountryCodesForNonGeographicalRegion()[33] { t.Fatal(SupportedRegions()) }
}
'''
