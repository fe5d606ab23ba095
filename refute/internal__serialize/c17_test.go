package serialize

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"testing"
)

func zip17(raw []byte) []byte {
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	w.Write(raw)
	w.Close()
	return b.Bytes()
}

// an independent decoder; ok is false when the data ends early or names a missing string
func decode17(raw []byte, array bool) (m map[int][]string, longest int, ok bool) {
	u := func(n int) (v int) {
		if !ok || len(raw) < n {
			ok = false
			return 0
		}
		for i := n - 1; i >= 0; i-- {
			v = v<<8 | int(raw[i])
		}
		raw = raw[n:]
		return
	}
	ok = true
	m = map[int][]string{}
	size := u(4)
	if !ok || len(raw) < size {
		return nil, 0, false
	}
	names := strings.Split(string(raw[:size]), "\n")
	raw = raw[size:]
	n := u(4)
	key := 0
	for i := 0; i < n && ok; i++ {
		d, w := binary.Uvarint(raw)
		if w <= 0 {
			return nil, 0, false
		}
		raw = raw[w:]
		key += int(d)
		c := 1
		if array {
			c = u(1)
		}
		l := make([]string, 0)
		for j := 0; j < c && ok; j++ {
			x := u(2)
			if !ok || x >= len(names) {
				return nil, 0, false
			}
			l = append(l, names[x])
		}
		m[key] = l
		if k := len(strings.TrimPrefix(strconv.Itoa(key), "-")); k > longest {
			longest = k
		}
	}
	return m, longest, ok
}

func check17(h *vh, raw []byte, array bool, what string) {
	want, longest, ok := decode17(raw, array)
	data := zip17(raw)
	var got map[int][]string
	var max int
	var err error
	h.guard("decoding", raw, func() {
		if array {
			var r *IntStringArrayMap
			if r, err = LoadIntArrayMap(data); r != nil {
				got, max = r.Map, r.MaxLength
			}
		} else {
			var r *IntStringMap
			if r, err = LoadPrefixMap(data); r != nil {
				got, max = map[int][]string{}, r.MaxLength
				for k, v := range r.Map {
					got[k] = []string{v}
				}
			}
		}
	})
	in := raw
	if len(in) > 200 {
		in = in[:200]
	}
	if (err == nil) != ok {
		h.fail("error exactly when the data ends early or names a missing string", "raw", in, "array", array, "what", what, "err", err, "decodable", ok)
		return
	}
	if ok && !reflect.DeepEqual(got, want) {
		h.fail("the mapping is the encoded one", "raw", in, "array", array, "what", what, "got", len(got), "want", len(want))
	}
	if ok && max != longest {
		h.fail("maximum length is the digit count of the longest key", "raw", in, "array", array, "what", what, "got", max, "want", longest)
	}
	if !ok && got != nil {
		h.fail("no partial table with an error", "raw", in, "array", array)
	}
}

func TestVerifC17(t *testing.T) {
	h := newVH(t)
	defer h.done()
	for _, d := range []string{"carrier", "geocoding", "timezone"} {
		fs, _ := filepath.Glob("../../" + d + "/data/*.gz")
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			z, _ := gzip.NewReader(bytes.NewReader(b))
			var raw bytes.Buffer
			raw.ReadFrom(z)
			h.hit("%s", f)
			check17(h, raw.Bytes(), d == "timezone", f)
		}
	}
	for h.more() {
		array := h.r.Intn(2) == 0
		var raw bytes.Buffer
		nv := 1 + h.r.Intn(5)
		if h.r.Intn(20) == 0 {
			nv = 300
		}
		var names []string
		for i := 0; i < nv; i++ {
			names = append(names, []string{"", "Etc/Unknown", "Orange", "中国", "x&y", "a b", strconv.Itoa(i)}[h.r.Intn(7)])
		}
		s := strings.Join(names, "\n")
		u32 := func(n int) { binary.Write(&raw, binary.LittleEndian, uint32(n)) }
		u32(len(s))
		raw.WriteString(s)
		n := h.r.Intn(6)
		u32(n)
		for i := 0; i < n; i++ {
			d := uint64(h.r.Intn(200))
			switch h.r.Intn(6) {
			case 0:
				d = 0
			case 1:
				for k := 1 + h.r.Intn(17); k > 0; k-- {
					d = d*10 + uint64(h.r.Intn(10))
				}
			case 2:
				d = 1
				for k := h.r.Intn(18); k > 0; k-- {
					d *= 10
				}
				if h.r.Intn(2) == 0 {
					d--
				}
			case 3:
				d = uint64(1) << h.r.Intn(62)
			}
			var b [10]byte
			raw.Write(b[:binary.PutUvarint(b[:], d)])
			c := 1
			if array {
				c = h.r.Intn(4)
				if h.r.Intn(30) == 0 {
					c = 255
				}
				raw.WriteByte(byte(c))
			}
			for j := 0; j < c; j++ {
				x := h.r.Intn(nv)
				if h.r.Intn(60) == 0 {
					x = nv + h.r.Intn(3)
				}
				binary.Write(&raw, binary.LittleEndian, uint16(x))
			}
		}
		b := raw.Bytes()
		h.hit("%x", b)
		check17(h, b, array, "generated")
		if h.r.Intn(3) == 0 && len(b) > 0 { // ends early
			b = b[:h.r.Intn(len(b))]
			h.hit("%x", b)
			check17(h, b, array, "cut short")
		}
		if z := zip17(raw.Bytes()); h.r.Intn(10) == 0 { // the compressed stream itself ends early
			z = z[:h.r.Intn(len(z))]
			if _, err := LoadPrefixMap(z); err == nil {
				h.fail("a cut gzip stream is an error", "data", z)
			}
			if _, err := LoadIntArrayMap(z); err == nil {
				h.fail("a cut gzip stream is an error", "data", z)
			}
		}
	}
}
