property='C02'
needs='a format whose detailed leading-digits pattern is stricter than the first one'
breaks='the formatting pattern is chosen by the least detailed leading-digits pattern, so the wrong region format is used'
edits=[('phonenumberutil.go','''		reg := regexcache.For(leadingDigitsPattern[size-1])
''','''		reg := regexcache.For(leadingDigitsPattern[(size-1)/3])
''')]
demo='''
package phonenumbers
import ("testing";"google.golang.org/protobuf/proto")
func TestDemo(t *testing.T) {
	s := func(x string) *string { return &x }
	n := &PhoneNumber{CountryCode: proto.Int32(1), NationalNumber: proto.Uint64(6502530000)}
	fs := []*NumberFormat{
		{Pattern: s(`(\\d{5})(\\d{5})`), Format: s("$1*$2"), LeadingDigitsPattern: []string{"6", "651"}},
		{Pattern: s(`(\\d{3})(\\d{7})`), Format: s("$1.$2")},
	}
	if got := FormatByPattern(n, NATIONAL, fs); got != "650.2530000" { t.Fatal(got) }
}
'''
