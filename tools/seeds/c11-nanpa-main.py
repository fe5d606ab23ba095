property='C11'
needs='alternate metadata whose calling code 1 lists the non-geographic entity or an empty region next to real ones, or a table in which a region of code 1 is listed but unsupported'
breaks='North American membership is narrowed to supported regions, so it no longer equals the list of calling code 1'
pkg='metadata'
edits=[('metadata/source.go','''	for _, val := range countryCodeToRegion[nanpaCountryCode] {
''','''	for _, val := range countryCodeToRegion[nanpaCountryCode] {
		if mc.regionToMetadataMap[val] == nil {
			continue
		}
''')]
demo='''
package metadata
import ("testing";"google.golang.org/protobuf/proto")
func TestDemo(t *testing.T) {
	c, err := NewContainer(&PhoneMetadataCollection{Metadata: []*PhoneMetadata{{Id: proto.String("US"), CountryCode: proto.Int32(1)}}}, map[int][]string{1: {"US", "BS"}})
	if err != nil { t.Fatal(err) }
	defer Use(c)()
	if !IsNANPARegion("BS") || !IsNANPARegion("US") { t.Fatal("BS is in the list of code 1") }
}
'''
