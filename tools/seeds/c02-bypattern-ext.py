property='C02'
needs='FormatByPattern in RFC3966 style of a number with an extension'
breaks='caller-supplied formats append the extension in national style although RFC3966 was requested'
edits=[('phonenumberutil.go','''				nationalSignificantNumber, numFormatCopy, numberFormat))
	}
	maybeAppendFormattedExtension(number, metadata, numberFormat, formattedNumber)
''','''				nationalSignificantNumber, numFormatCopy, numberFormat))
	}
	maybeAppendFormattedExtension(number, metadata, INTERNATIONAL, formattedNumber)
''')]
demo='''
package phonenumbers
import ("testing";"google.golang.org/protobuf/proto")
func TestDemo(t *testing.T) {
	n := &PhoneNumber{CountryCode: proto.Int32(1), NationalNumber: proto.Uint64(6502530000), Extension: proto.String("12")}
	if got := FormatByPattern(n, RFC3966, nil); got != "tel:+1-6502530000;ext=12" { t.Fatal(got) }
}
'''
