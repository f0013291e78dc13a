// Package gen makes OpenPGP input: well-formed packets of every kind, biased towards
// boundaries, and damaged variants of them. Everything is a function of the PRNG value.
package gen

import (
	"math/rand"
)

// G is a generator.
type G struct {
	*rand.Rand
	Hints
	Max int // rough limit for sizes of opaque data
	// BigOne makes one size in so many a large one (0: the default)
	BigOne int
	// Tiny makes integers small, Wide large
	Tiny, Wide bool
	// AlgIs is the public key algorithm if it is not nil
	AlgIs *byte
	// VersionIs is the version of keys and signatures if it is not 0
	VersionIs byte
}

// Hints are values worth trying.
type Hints struct {
	Ints    []uint32 // integer constants of the code under test
	Strs    []string // string constants of the code under test
	Hot     []int64  // integer constants of declarations the harness has not seen before
	HotStrs []string // string constants of these
}

// New returns a generator for one case.
func New(seed int64, h Hints) *G {
	g := &G{Rand: rand.New(rand.NewSource(seed)), Hints: h, Max: 1 << 17, BigOne: 40}
	g.Tiny = g.One(12)
	return g
}

// hot is, once in n, a hot value within the limits or a neighbour of one.
func (g *G) hot(n int, lo, hi int64) (int64, bool) {
	if len(g.Hot) == 0 || !g.One(n) {
		return 0, false
	}
	for i := 0; i < 4; i++ {
		v := g.Hot[g.Intn(len(g.Hot))] + int64(g.PickI(0, 0, 0, 1, 1, -1, -1, 2))
		if g.One(16) {
			v *= int64(g.PickI(2, 8, 8, 1024, 86400))
		}
		if g.One(12) && 0 <= v && v < 1<<40 {
			v += int64(g.Intn(int(v/8) + 20))
		}
		if lo <= v && v <= hi {
			return v, true
		}
	}
	return 0, false
}

// Near is a hot value within the limits every other time if there is one, otherwise def.
func (g *G) Near(lo, hi, def int) int {
	if v, ok := g.hot(2, int64(lo), int64(hi)); ok {
		return int(v)
	}
	return def
}

// One is true once in n.
func (g *G) One(n int) bool { return g.Intn(n) == 0 }

// Pick returns one of the bytes.
func (g *G) Pick(b ...byte) byte { return b[g.Intn(len(b))] }

// PickI returns one of the numbers.
func (g *G) PickI(b ...int) int { return b[g.Intn(len(b))] }

// Byte is any octet, with extremes and known constants more often.
func (g *G) Byte() byte {
	if v, ok := g.hot(5, 0, 255); ok {
		return byte(v)
	}
	switch g.Intn(8) {
	case 0:
		return g.Pick(0, 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff)
	case 1:
		if len(g.Ints) > 0 {
			return byte(int(g.Ints[g.Intn(len(g.Ints))]) + g.PickI(0, 0, 0, 1, -1))
		}
	case 2:
		return byte(1) << g.Intn(8)
	}
	return byte(g.Intn(256))
}

// Bytes are n octets of one of several textures.
func (g *G) Bytes(n int) []byte {
	b := make([]byte, n)
	switch g.Intn(10) {
	case 0: // zeros
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		for i := range b {
			b[i] = byte(i)
		}
	case 3:
		x := g.Byte()
		for i := range b {
			b[i] = x
		}
	default:
		g.Read(b)
		if n > 0 && g.One(4) {
			b[0] = 0
		}
		if n > 0 && g.One(6) {
			b[n-1] = 0
		}
		if n > 1 && g.One(24) { // starts and ends that somebody may want to take off
			copy(b, []string{"\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\r\n", "  ", "\x00\x00", "\x1f\x8b\x08", "0x", "\x00\x01", "----"}[g.Intn(10)])
		}
		if n > 3 && g.One(24) {
			e := []string{"\n", "\r\n", " ", "\x00\x00\x00", "\t", "\x1a", "=", "\x80", "\xff\xff"}[g.Intn(9)]
			copy(b[n-len(e):], e)
		}
	}
	return b
}

var edges = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 18, 19, 20, 21, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 190, 191, 192, 193, 194,
	223, 224, 225, 253, 254, 255, 256, 257, 258, 259, 300, 447, 448, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097,
	8191, 8192, 8193, 8382, 8383, 8384, 8385, 16383, 16384, 16319, 16320, 32767, 32768, 65534, 65535, 65536, 65537, 100000}

// Size is a size up to max, mostly small, often at a boundary.
func (g *G) Size(max int) int {
	if max <= 0 {
		return 0
	}
	if v, ok := g.hot(6, 0, int64(max)); ok && int(v) <= g.Max && (v <= 4097 || g.One(1+g.BigOne/8)) && (v <= 70000 || g.One(6)) {
		return int(v)
	}
	n := 0
	switch g.Intn(20) {
	case 0, 1, 2:
		n = edges[g.Intn(36)] // up to 254
	case 3:
		n = edges[g.Intn(len(edges))]
		if n > 4097 && !g.One(1+g.BigOne/8) {
			n = g.Intn(200)
		}
	case 4:
		if len(g.Ints) > 0 {
			n = int(g.Ints[g.Intn(len(g.Ints))])
			switch g.Intn(4) {
			case 0:
				n++
			case 1:
				n--
			}
			if n < 0 {
				n = 0
			}
			if n > 4097 && !g.One(1+g.BigOne/8) {
				n = g.Intn(200)
			}
		}
	case 5:
		n = g.Intn(300)
	case 6:
		if g.One(g.BigOne) {
			n = g.Intn(70000)
		} else {
			n = g.Intn(1000)
		}
	default:
		n = g.Intn(24)
	}
	if n > max {
		n = g.Intn(max + 1)
	}
	if n > g.Max {
		n = g.Intn(g.Max + 1)
	}
	return n
}

var times = []uint32{0, 1, 59, 60, 3599, 3600, 86399, 86400, 86401, 31535999, 31536000, 68169600, 68255999, 68256000,
	951782399, 951782400, 951868800, 951955199, // around 2000-02-29
	1e9, 1234567890, 1414281599, 1414285200, 1427594400, 1445738400, 1459047600, 1616893200, // daylight-saving changes
	1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1<<32 - 2, 4102444800, 4107542400 % (1 << 32), 1582934400, 1583020799, 1709164800,
	86400 * 365, 86400 * 30, 86400 * 7, 86400*365*5 + 86400, 43200, 1 << 30}

// U32 is a 32-bit number for times, periods and the like.
func (g *G) U32() uint32 {
	if v, ok := g.hot(5, 0, 1<<32-1); ok {
		return uint32(v)
	}
	switch g.Intn(8) {
	case 0:
		return 0
	case 1, 2:
		return times[g.Intn(len(times))]
	case 3:
		return uint32(g.Intn(100000))
	case 4:
		if len(g.Ints) > 0 {
			return g.Ints[g.Intn(len(g.Ints))] + uint32(g.PickI(0, 0, 1, -1))
		}
	case 5:
		return uint32(g.Intn(40000)) * 86400
	}
	return g.Uint32()
}

// BE is the big-endian form of v in n octets.
func BE(n int, v uint64) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

// Cat joins.
func Cat(p ...[]byte) []byte {
	n := 0
	for _, x := range p {
		n += len(x)
	}
	b := make([]byte, 0, n)
	for _, x := range p {
		b = append(b, x...)
	}
	return b
}

var words = []string{"Alice", "<alice@example.com>", "Bob (test)", "山田", "Größe", "naïve", "x", "https://example.com/?a=b&c=d#e", "preferred-email-encoding@pgp.com",
	"pgpmime", "日本語", "emoji 😀", "a\u0301", "\ufeff", "\u2028", "\u2029", "\u202e", "\ufffd", "\u00ad", "\U0001F468\u200d\U0001F469", "\u0085", "\u009b31m", "\u0080", "\u00a0",
	"\x1b[31m", "\x1b]0;t\x07", "\n", "\r\n", "\t", "\x00", "\x7f", "\x08", "\x0b", "\x0c", "%s%d%n", "%", "%!", "\\u001b", "\\", "\"", "'", "<script>", "&amp;", "{", "}", "</", "(U+001B)",
	"-----BEGIN", ": ", " (note)", "Packet", ",", "  ", "null", "\U0010ffff", "\ue000", "\ufffe", "\u0600", "\u061c", "\u2066", "\u200b"}

var badUTF8 = []string{"\xff", "\xfe", "\xc0\x80", "\xc1", "\xe0\x80\x80", "\xed\xa0\x80", "\xf5", "\xf4\x90\x80\x80", "\x80", "\xbf", "\xe3\x81", "\xf0\x9f\x98", "\xc3"}

// Text is text of the kind found in user IDs, file names, notations and URIs - and of the kind not found there.
func (g *G) Text(max int) []byte {
	var s []byte
	if len(g.HotStrs) > 0 && g.One(6) {
		w := func() string {
			if g.One(2) {
				return ""
			}
			return words[g.Intn(len(words))]
		}
		s = []byte(w() + g.HotStrs[g.Intn(len(g.HotStrs))] + w())
		if len(s) <= max {
			return s
		}
	}
	switch g.Intn(12) {
	case 0:
		return nil
	case 1:
		s = g.Bytes(g.Size(max))
	case 2:
		n := g.Size(max)
		for len(s) < n {
			s = append(s, byte(0x20+g.Intn(95)))
		}
	case 3:
		if len(g.Strs) > 0 {
			s = []byte(g.Strs[g.Intn(len(g.Strs))])
		}
	case 4: // one rune of any kind
		s = []byte(string(rune(g.Intn(0x300))))
		if g.One(2) {
			s = append([]byte("ab"), s...)
		}
		if g.One(2) {
			s = append(s, 'c')
		}
	case 5:
		s = []byte("Alice Example <alice@example.org>")
	default:
		for i := 1 + g.Intn(6); i > 0; i-- {
			s = append(s, words[g.Intn(len(words))]...)
			if g.One(3) {
				s = append(s, ' ')
			}
			if g.One(60) {
				s = append(s, badUTF8[g.Intn(len(badUTF8))]...)
			}
		}
		if g.One(40) {
			for n := g.Size(max); len(s) < n; {
				s = append(s, words[g.Intn(12)]...)
			}
		}
	}
	if len(s) > max {
		s = s[:max]
	}
	return s
}

// longText is text of more than 255 octets, mostly.
func (g *G) longText() []byte {
	n := g.PickI(255, 256, 257, 300, 511, 512, 513, 1000, 1024, 2000, 4096, 200+g.Intn(3000))
	var s []byte
	for len(s) < n {
		s = append(s, g.Text(n-len(s))...)
		s = append(s, '.')
	}
	return s[:n]
}
