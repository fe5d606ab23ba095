property='C08'
needs='the combined fixed-line-or-mobile type of a table whose mobile numbers are longer than its fixed-line numbers'
breaks='the upper bound is taken before the mobile lengths are merged in, so numbers of mobile length are reported as too long'
edits=[('phonenumberutil.go','''	localLengths := desc.PossibleLengthLocalOnly

	if numberType''','''	localLengths := desc.PossibleLengthLocalOnly
	longest := possibleLengths[len(possibleLengths)-1]

	if numberType'''),('phonenumberutil.go','''	} else if possibleLengths[len(possibleLengths)-1] < actualLength {
		return TOO_LONG
	}

	// We skip''','''	} else if longest < actualLength {
		return TOO_LONG
	}

	// We skip''')]
demo='''
package phonenumbers
import ("testing")
func TestDemo(t *testing.T) {
	d := func(l ...int32) *PhoneNumberDesc { return &PhoneNumberDesc{PossibleLength: l} }
	m := &PhoneMetadata{GeneralDesc: d(7, 8, 10), FixedLine: d(7, 8), Mobile: d(7, 10)}
	if got := testNumberLength("5555555555", m, FIXED_LINE_OR_MOBILE); got != IS_POSSIBLE { t.Fatal(got) }
	if got := testNumberLength("55555555555", m, FIXED_LINE_OR_MOBILE); got != TOO_LONG { t.Fatal(got) }
}
'''
