package phonenumbers

import (
	"testing"

	"google.golang.org/protobuf/proto"
)

// arbitrary tables: overlapping descriptions decide the type by their documented order
func TestVerifC09Tables(t *testing.T) {
	h := newVH(t)
	defer h.done()
	pats := []string{"", `\d{4}`, `5\d{3}`, `55\d\d`, `[5-7]\d{2,4}`, `7\d{3}`, `[1-9]\d*`, `0?5\d{3}`, "9999", `5|7\d{3}`}
	for h.more() {
		desc := func() *PhoneNumberDesc {
			d := &PhoneNumberDesc{NationalNumberPattern: proto.String(pick(h, pats))}
			for _, l := range []int32{3, 4, 5} {
				if h.p(0.5) {
					d.PossibleLength = append(d.PossibleLength, l)
				}
			}
			return d
		}
		m := &PhoneMetadata{GeneralDesc: desc(), PremiumRate: desc(), TollFree: desc(), SharedCost: desc(), Voip: desc(), PersonalNumber: desc(),
			Pager: desc(), Uan: desc(), Voicemail: desc(), FixedLine: desc(), Mobile: desc()}
		if h.p(0.7) {
			m.GeneralDesc = &PhoneNumberDesc{NationalNumberPattern: proto.String(`\d{3,5}`)}
		}
		none := &PhoneNumberDesc{NationalNumberPattern: proto.String("NA"), PossibleLength: []int32{-1}}
		for _, f := range []**PhoneNumberDesc{&m.PremiumRate, &m.TollFree, &m.SharedCost, &m.Voip, &m.PersonalNumber, &m.Pager, &m.Uan, &m.Voicemail} {
			if h.p(0.75) {
				*f = none
			}
		}
		if h.p(0.3) {
			m.SameMobileAndFixedLinePattern = proto.Bool(true)
		}
		s := pick(h, []string{"5512", "5612", "7123", "9999", "555", "55555", "5", "0512", "05512"})
		h.hit("%s %v", s, m)
		h.guard("type", s, func() {
			if got, want := getNumberTypeHelper(s, m), oType(s, m); got != want {
				h.fail("type by table", "number", s, "got", got, "want", want, "table", m)
			}
		})
	}
}
