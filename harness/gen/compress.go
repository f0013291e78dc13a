package gen

import (
	"bytes"
	"compress/flate"
	"compress/zlib"
	"sort"
)

// Compress compresses with an OpenPGP compression algorithm.
func (g *G) Compress(alg byte, b []byte) []byte {
	var w bytes.Buffer
	lvl := g.PickI(-2, -1, 0, 1, 2, 5, 6, 9)
	switch alg {
	case 1:
		f, _ := flate.NewWriter(&w, lvl)
		g.feed(f, b)
		f.Close()
	case 2:
		f, _ := zlib.NewWriterLevel(&w, lvl)
		g.feed(f, b)
		f.Close()
	case 3:
		k := 1 + g.Intn(9)
		bs := g.PickI(100, 3000, 3000, 50000)
		w.Write(Bzip2(b, k, bs))
	default:
		return b
	}
	return w.Bytes()
}

type flusher interface {
	Write([]byte) (int, error)
	Flush() error
}

func (g *G) feed(f flusher, b []byte) {
	for len(b) > 0 {
		n := len(b)
		if g.One(3) {
			n = 1 + g.Intn(n)
		}
		f.Write(b[:n])
		b = b[n:]
		if g.One(4) {
			f.Flush()
		}
	}
}

// --- bzip2

type bits struct {
	b []byte
	n uint
	v uint64
}

func (w *bits) put(n uint, v uint64) {
	for i := int(n) - 1; i >= 0; i-- {
		w.v = w.v<<1 | v>>uint(i)&1
		w.n++
		if w.n == 8 {
			w.b = append(w.b, byte(w.v))
			w.n, w.v = 0, 0
		}
	}
}

var bzCRC [256]uint32

func init() {
	for i := range bzCRC {
		c := uint32(i) << 24
		for k := 0; k < 8; k++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
		bzCRC[i] = c
	}
}

// Bzip2 compresses data in blocks of at most bs octets, announcing the given level.
func Bzip2(data []byte, level, bs int) []byte {
	if bs > level*80000 {
		bs = level * 80000
	}
	w := &bits{}
	w.put(8, 'B')
	w.put(8, 'Z')
	w.put(8, 'h')
	w.put(8, uint64('0'+level))
	total := uint32(0)
	for len(data) > 0 {
		n := bs
		if n > len(data) {
			n = len(data)
		}
		c := bzBlock(w, data[:n])
		total = (total<<1 | total>>31) ^ c
		data = data[n:]
	}
	w.put(48, 0x177245385090)
	w.put(32, uint64(total))
	if w.n > 0 {
		w.put(8-w.n, 0)
	}
	return w.b
}

func bzBlock(w *bits, data []byte) uint32 {
	crc := ^uint32(0)
	for _, x := range data {
		crc = crc<<8 ^ bzCRC[byte(crc>>24)^x]
	}
	crc = ^crc
	// first run-length encoding
	var s []byte
	for i := 0; i < len(data); {
		j := i
		for j < len(data) && data[j] == data[i] && j-i < 259 {
			j++
		}
		for k := 0; k < j-i && k < 4; k++ {
			s = append(s, data[i])
		}
		if j-i >= 4 {
			s = append(s, byte(j-i-4))
		}
		i = j
	}
	n := len(s)
	// Burrows-Wheeler transform by prefix doubling over rotations
	idx, rank, tmp := make([]int, n), make([]int, n), make([]int, n)
	for i := range idx {
		idx[i], rank[i] = i, int(s[i])
	}
	for k := 1; ; k *= 2 {
		key := func(i int) (int, int) { return rank[i], rank[(i+k/2)%n] }
		if k == 1 {
			key = func(i int) (int, int) { return rank[i], 0 }
		}
		sort.Slice(idx, func(a, b int) bool {
			a1, a2 := key(idx[a])
			b1, b2 := key(idx[b])
			return a1 < b1 || a1 == b1 && a2 < b2
		})
		c := 0
		for i := range idx {
			if i > 0 {
				a1, a2 := key(idx[i-1])
				b1, b2 := key(idx[i])
				if a1 != b1 || a2 != b2 {
					c++
				}
			}
			tmp[idx[i]] = c
		}
		copy(rank, tmp)
		if c == n-1 || k >= 2*n {
			break
		}
	}
	orig := 0
	last := make([]byte, n)
	for i, p := range idx {
		if p == 0 {
			orig = i
		}
		last[i] = s[(p+n-1)%n]
	}
	// move to front, second run-length encoding
	var used [256]bool
	for _, x := range s {
		used[x] = true
	}
	var mtf []byte
	for i := 0; i < 256; i++ {
		if used[i] {
			mtf = append(mtf, byte(i))
		}
	}
	eob := len(mtf) + 1
	var syms []int
	run := 0
	flush := func() {
		for run > 0 {
			if run&1 == 1 {
				syms = append(syms, 0)
				run = (run - 1) / 2
			} else {
				syms = append(syms, 1)
				run = (run - 2) / 2
			}
		}
	}
	for _, x := range last {
		p := bytes.IndexByte(mtf, x)
		if p == 0 {
			run++
			continue
		}
		flush()
		syms = append(syms, p+1)
		copy(mtf[1:p+1], mtf[:p])
		mtf[0] = x
	}
	flush()
	syms = append(syms, eob)
	// a complete code: the first ones one bit shorter
	ns := eob + 1
	k := uint(1)
	for 1<<k < ns {
		k++
	}
	shortN := 1<<k - ns
	lens := make([]uint, ns)
	codes := make([]uint64, ns)
	for i := range lens {
		if i < shortN {
			lens[i], codes[i] = k-1, uint64(i)
		} else {
			lens[i], codes[i] = k, uint64(i+shortN)
		}
	}
	w.put(48, 0x314159265359)
	w.put(32, uint64(crc))
	w.put(1, 0)
	w.put(24, uint64(orig))
	for i := 0; i < 16; i++ {
		any := uint64(0)
		for j := 0; j < 16; j++ {
			if used[i*16+j] {
				any = 1
			}
		}
		w.put(1, any)
	}
	for i := 0; i < 16; i++ {
		any := false
		for j := 0; j < 16; j++ {
			any = any || used[i*16+j]
		}
		for j := 0; any && j < 16; j++ {
			v := uint64(0)
			if used[i*16+j] {
				v = 1
			}
			w.put(1, v)
		}
	}
	w.put(3, 2)
	nsel := (len(syms) + 49) / 50
	w.put(15, uint64(nsel))
	for i := 0; i < nsel; i++ {
		w.put(1, 0)
	}
	for t := 0; t < 2; t++ {
		c := lens[0]
		w.put(5, uint64(c))
		for _, l := range lens {
			for c < l {
				w.put(2, 2)
				c++
			}
			for c > l {
				w.put(2, 3)
				c--
			}
			w.put(1, 0)
		}
	}
	for _, x := range syms {
		w.put(lens[x], codes[x])
	}
	return crc
}
