property='C08'
needs='the combined type where both fixed line and mobile have local-only lengths'
breaks='local-only lengths of mobile numbers are ignored when fixed line has its own'
edits=[('phonenumberutil.go','''				if len(localLengths) == 0 {
					localLengths = mobileDesc.PossibleLengthLocalOnly
				} else {
					localLengths = mergeLengths(localLengths, mobileDesc.PossibleLengthLocalOnly)
				}
''','''				if len(localLengths) == 0 {
					localLengths = mobileDesc.PossibleLengthLocalOnly
				}
''')]
demo='''
package phonenumbers
import ("testing")
func TestDemo(t *testing.T) {
	d := func(loc []int32, l ...int32) *PhoneNumberDesc { return &PhoneNumberDesc{PossibleLength: l, PossibleLengthLocalOnly: loc} }
	m := &PhoneMetadata{GeneralDesc: d(nil, 8, 10), FixedLine: d([]int32{5}, 8), Mobile: d([]int32{6}, 10)}
	if got := testNumberLength("555555", m, FIXED_LINE_OR_MOBILE); got != IS_POSSIBLE_LOCAL_ONLY { t.Fatal(got) }
}
'''
