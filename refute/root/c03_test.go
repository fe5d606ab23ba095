package phonenumbers

import (
	"fmt"
	"testing"

	"github.com/nyaruka/phonenumbers/v2/metadata"
	"google.golang.org/protobuf/proto"
)

func oAbroad(n *PhoneNumber, from string) string {
	if !oIsSupported(from) {
		return oFormat(n, INTERNATIONAL)
	}
	cc := int(n.GetCountryCode())
	if !oKnown(cc) {
		return vNSN(n)
	}
	if cc == 1 {
		for _, r := range oRegions(1) {
			if r == from {
				return "1 " + oFormat(n, NATIONAL)
			}
		}
	} else if int(oRegionMD(from).GetCountryCode()) == cc {
		return oFormat(n, NATIONAL)
	}
	p := oRegionMD(from).GetPreferredInternationalPrefix()
	if i := oRegionMD(from).GetInternationalPrefix(); p == "" && oFull(`\d+(?:[~⁓∼～]\d+)?`, i) {
		p = i
	}
	body := oBody(vNSN(n), oHome(cc), INTERNATIONAL, "") + oExt(n, oHome(cc), INTERNATIONAL)
	if p == "" {
		return fmt.Sprintf("+%d %s", cc, body)
	}
	return fmt.Sprintf("%s %d %s", p, cc, body)
}

func TestVerifC03(t *testing.T) {
	h := newVH(t)
	defer h.done()
	coll, _ := metadata.Collection()
	own := proto.Clone(coll).(*metadata.PhoneMetadataCollection)
	c, err := metadata.NewContainer(own, metadata.CountryCodeToRegion())
	if err != nil {
		t.Fatal(err)
	}
	prefixes := []string{"", "00", "0011", "00|011", "8~10", "8⁓10", "00(?:12|34)", "0", "1[0-9]00", "00\n", "~10", "8~", "9～8", "+", "8~1~0", "8 10", "00-1", "~"}
	ms := own.GetMetadata()
	for i := 0; h.more(); i++ {
		n, from := h.value(), h.anyRegion()
		if h.p(0.4) {
			n = h.patterned()
		}
		if l := oRegions(int(n.GetCountryCode())); h.p(0.3) && len(l) > 0 {
			from = pick(h, l)
		}
		h.hit("%v %s", n, from)
		check := func() {
			if got, want := FormatOutOfCountryCallingNumber(n, from), oAbroad(n, from); got != want {
				h.fail("out of country", "number", n, "from", from, "got", got, "want", want, "prefix", oRegionMD(from).GetInternationalPrefix(), "preferred", oRegionMD(from).GetPreferredInternationalPrefix())
			}
			want := n.GetRawInput()
			if want == "" {
				want = oAbroad(n, from)
			} else if oKnown(int(n.GetCountryCode())) {
				return
			}
			if got := FormatOutOfCountryKeepingAlphaChars(n, from); got != want {
				h.fail("keeping letters", "number", n, "from", from, "got", got, "want", want)
			}
		}
		h.guard("FormatOutOfCountryCallingNumber", n.String()+" "+from, check)
		if h.p(0.5) { // the same tables with other dialling prefixes
			for k := 0; k < 20; k++ {
				m := pick(h, ms)
				m.InternationalPrefix, m.PreferredInternationalPrefix = proto.String(pick(h, prefixes)), nil
				if h.p(0.3) {
					m.PreferredInternationalPrefix = proto.String(pick(h, prefixes))
				}
			}
			restore := metadata.Use(c)
			h.guard("FormatOutOfCountryCallingNumber", n.String()+" "+from, check)
			restore()
		}
	}
}
