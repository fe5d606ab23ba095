package phonenumbers

import (
	"strconv"
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestVerifC20(t *testing.T) {
	h := newVH(t)
	defer h.done()
	valid := func(n *PhoneNumber) bool { return oValidForRegion(n, oRegionOf(n)) }
	for h.more() {
		n := h.value()
		if h.p(0.5) {
			n = h.patterned()
		}
		if h.p(0.8) {
			s := strconv.FormatUint(n.GetNationalNumber(), 10) + h.digits(1, pick(h, []int{1, 3, 10}))
			if v, err := strconv.ParseUint(s, 10, 64); err == nil {
				n.NationalNumber = proto.Uint64(v)
			}
		}
		h.hit("%v", n)
		h.guard("TruncateTooLongNumber", n.String(), func() {
			s := strconv.FormatUint(n.GetNationalNumber(), 10)
			want := proto.Clone(n).(*PhoneNumber)
			ok := valid(n)
			c := proto.Clone(n).(*PhoneNumber)
			for k := len(s) - 1; !ok && k > 0; k-- {
				v, _ := strconv.ParseUint(s[:k], 10, 64)
				c.NationalNumber = proto.Uint64(v)
				if IsPossibleNumberWithReason(c) == TOO_SHORT || v == 0 {
					break
				}
				if ok = valid(c); ok {
					want = c
				}
			}
			got := proto.Clone(n).(*PhoneNumber)
			if r := TruncateTooLongNumber(got); r != ok {
				h.fail("result", "number", n, "got", r, "want", ok)
			} else if !proto.Equal(got, want) {
				h.fail("truncated number", "number", n, "got", got, "want", want)
			}
		})
	}
}
