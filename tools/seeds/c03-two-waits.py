property='C03'
needs='a caller region whose international prefix contains more than one wait symbol'
breaks='a prefix with several waits counts as a single fixed prefix'
edits=[('phonenumberutil.go','''FF5E][\\\\d]+)?)$")''','''FF5E][\\\\d]+)*)$")''')]
demo='''
package phonenumbers
import ("testing";"strings";"google.golang.org/protobuf/proto";"github.com/nyaruka/phonenumbers/v2/metadata")
func TestDemo(t *testing.T) {
	coll, _ := metadata.Collection()
	own := proto.Clone(coll).(*metadata.PhoneMetadataCollection)
	for _, m := range own.GetMetadata() {
		if m.GetId() == "FR" { m.InternationalPrefix = proto.String("8~1~0"); m.PreferredInternationalPrefix = nil }
	}
	c, err := metadata.NewContainer(own, metadata.CountryCodeToRegion())
	if err != nil { t.Fatal(err) }
	defer metadata.Use(c)()
	n := &PhoneNumber{CountryCode: proto.Int32(49), NationalNumber: proto.Uint64(301234567)}
	if got := FormatOutOfCountryCallingNumber(n, "FR"); !strings.HasPrefix(got, "+49 ") { t.Fatal(got) }
}
'''
