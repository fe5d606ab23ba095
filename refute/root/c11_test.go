package phonenumbers

import (
	"fmt"
	"testing"

	"github.com/nyaruka/phonenumbers/v2/metadata"
	"google.golang.org/protobuf/proto"
)

// vCheckTables: the lookups against the definitions of the property, for the table and collection installed.
func vCheckTables(h *vh, table map[int][]string, ms []*PhoneMetadata, regions []string, codes []int) {
	desc := fmt.Sprintf("%v", table)
	if len(desc) > 400 {
		desc = "shipped"
	}
	for _, r := range regions {
		sup, nanpa := false, false
		for _, l := range table {
			if len(l) == 1 && l[0] == "001" {
				continue
			}
			for _, x := range l {
				sup = sup || x == r && r != "001"
			}
		}
		for _, x := range table[1] {
			nanpa = nanpa || x == r
		}
		ok, val := false, GetSupportedRegions()[r]
		_, ok = GetSupportedRegions()[r]
		if ok != sup || val != sup || isValidRegionCode(r) != (sup && r != "") {
			h.fail("supported region", "table", desc, "region", r, "listed", ok, "valid", isValidRegionCode(r), "want", sup)
		}
		if IsNANPACountry(r) != nanpa {
			h.fail("North American membership", "table", desc, "region", r, "want", nanpa)
		}
		var own []*PhoneMetadata
		for _, m := range ms {
			if m.GetId() == r && r != "001" {
				own = append(own, m)
			}
		}
		got := getMetadataForRegion(r)
		found := got == nil && (!sup || len(own) == 0 || r == "")
		for _, m := range own {
			found = found || sup && m == got
		}
		if !found {
			h.fail("metadata of region", "table", desc, "region", r, "got", got.GetId(), "supported", sup)
		}
		want := 0
		if sup && r != "" {
			want = int(got.GetCountryCode())
		}
		if c := GetCountryCodeForRegion(r); c != want {
			h.fail("code of region", "table", desc, "region", r, "got", c, "want", want)
		}
	}
	for _, c := range codes {
		l, known := table[c]
		main := "ZZ"
		if len(l) > 0 {
			main = l[0]
		}
		if got := GetRegionCodeForCountryCode(c); got != main {
			h.fail("main region", "table", desc, "code", c, "got", got, "want", main)
		}
		if _, ok := GetSupportedCallingCodes()[c]; ok != known || GetSupportedCallingCodes()[c] != known || hasValidCountryCallingCode(c) != known {
			h.fail("supported code", "table", desc, "code", c, "want", known)
		}
		if got := GetRegionCodesForCountryCode(c); fmt.Sprint(got) != fmt.Sprint(l) {
			h.fail("regions of code", "table", desc, "code", c, "got", got)
		}
		if _, ok := GetSupportedGlobalNetworkCallingCodes()[c]; ok != (len(l) == 1 && l[0] == "001") {
			h.fail("global network code", "table", desc, "code", c, "got", ok)
		}
		got := getMetadataForNonGeographicalRegion(c)
		found := got == nil
		any := false
		for _, m := range ms {
			if m.GetId() == "001" && int(m.GetCountryCode()) == c && known {
				any = true
				found = found || m == got
			}
		}
		if !found || any && got == nil {
			h.fail("metadata of code", "table", desc, "code", c, "got", got != nil)
		}
	}
}

func TestVerifC11(t *testing.T) {
	h := newVH(t)
	defer h.done()
	coll, err := metadata.Collection()
	if err != nil {
		t.Fatal(err)
	}
	shipped := metadata.CountryCodeToRegion()
	regions := append([]string{"", "001", "ZZ", "zz", "us", "XX"}, vRegions...)
	var codes []int
	for c := -1; c < 1100; c++ {
		codes = append(codes, c)
	}
	h.hit("shipped")
	vCheckTables(h, shipped, coll.GetMetadata(), regions, codes)
	rs := []string{"", "001", "US", "CA", "GB", "KZ", "RU", "ZZ", "AA", "BB"}
	cs := []int{0, 1, 7, 44, 800, 979, 2, 999}
	for h.more() {
		table := map[int][]string{}
		for n := h.r.Intn(6); n >= 0; n-- {
			var l []string
			for k := h.r.Intn(4); k > 0; k-- {
				l = append(l, pick(h, rs))
			}
			if h.p(0.2) {
				l = []string{"001"}
			}
			table[pick(h, cs)] = l
		}
		var ms []*PhoneMetadata
		for n := h.r.Intn(6); n >= 0; n-- {
			m := &PhoneMetadata{Id: proto.String(pick(h, rs)), CountryCode: proto.Int32(int32(pick(h, cs)))}
			if h.p(0.1) {
				m.CountryCode = nil
			}
			ms = append(ms, m)
		}
		h.hit("%v %d", table, len(ms))
		c, err := metadata.NewContainer(&metadata.PhoneMetadataCollection{Metadata: ms}, table)
		if err != nil {
			h.fail("container", "table", table, "err", err)
			continue
		}
		restore := metadata.Use(c)
		h.guard("tables", fmt.Sprint(table), func() { vCheckTables(h, table, ms, rs, cs) })
		restore()
		if fmt.Sprint(metadata.CountryCodeToRegion()) != fmt.Sprint(shipped) {
			h.fail("restored table", "table", table)
			break
		}
	}
}
