property='C21'
pkg='carrier'
needs='a lookup in a language spelled in another case without data, then one in the real spelling'
breaks='the table cache is keyed by the folded language, so a miss for zh_hant hides the table of zh_Hant'
edits=[('internal/prefixmapper/prefixmapper.go','''	prefixes, ok := m.langMap[language]
''','''	key := strings.ToLower(language)
	prefixes, ok := m.langMap[key]
'''),('internal/prefixmapper/prefixmapper.go','''		m.langMap[language] = prefixes
''','''		m.langMap[key] = prefixes
'''),('internal/prefixmapper/prefixmapper.go','''		m.langMap[language] = nil // language''','''		m.langMap[key] = nil // language'''),
('internal/prefixmapper/prefixmapper.go','''	return m.langMap[language], nil''','''	return m.langMap[key], nil'''),
('internal/prefixmapper/prefixmapper.go','''	"strconv"
''','''	"strconv"
	"strings"
''')]
demo='''
package carrier
import ("testing";"github.com/nyaruka/phonenumbers/v2/internal/prefixmapper")
func TestDemo(t *testing.T) {
	a, b := prefixmapper.New(carrierData, "data"), prefixmapper.New(carrierData, "data")
	want, _, _ := a.ValueForNumber("zh_Hant", 10, "+85251234567")
	b.ValueForNumber("zh_hant", 10, "+85251234567")
	got, _, _ := b.ValueForNumber("zh_Hant", 10, "+85251234567")
	if got != want { t.Fatalf("%q %q", got, want) }
}
'''
