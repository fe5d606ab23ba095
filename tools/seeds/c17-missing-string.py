property='C17'
pkg='internal/serialize'
needs='an entry of an array table that names a string index past the end'
breaks='an index that names no string yields an empty string instead of an error'
edits=[('internal/serialize/serialize.go','''			if err != nil || int(valueIntern) >= len(values) {
				return nil, fmt.Errorf("unable to read interned value: %v", err)
			}
			keyValues[i] = values[valueIntern]''','''			if err != nil {
				return nil, fmt.Errorf("unable to read interned value: %v", err)
			}
			if int(valueIntern) < len(values) {
				keyValues[i] = values[valueIntern]
			}''')]
demo='''
package serialize
import ("testing";"bytes";"compress/gzip")
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	w := gzip.NewWriter(&b); w.Write([]byte{1,0,0,0,'a',1,0,0,0,5,1,7,0}); w.Close()
	if r, err := LoadIntArrayMap(b.Bytes()); err == nil { t.Fatal(r) }
}
'''
