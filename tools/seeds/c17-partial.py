property='C17'
pkg='internal/serialize'
needs='a table whose raw bytes end exactly between two entries'
breaks='data that ends early between entries yields a partial table and no error'
edits=[('internal/serialize/serialize.go','''		diff, err := binary.ReadUvarint(reader)
		if err != nil {
			return nil, err
		}

		prefix += int(diff)''','''		diff, err := binary.ReadUvarint(reader)
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}

		prefix += int(diff)''')]
demo='''
package serialize
import ("testing";"bytes";"compress/gzip")
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	w := gzip.NewWriter(&b); w.Write([]byte{1,0,0,0,'a',2,0,0,0,5,0,0}); w.Close()
	if r, err := LoadPrefixMap(b.Bytes()); err == nil { t.Fatal(r) }
}
'''
