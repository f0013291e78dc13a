package gen

import (
	"verif/model"
)

// Header frames a body as a packet; last says that nothing follows (indeterminate length is possible).
func (g *G) Header(tag int, body []byte, last bool) []byte {
	old := tag < 16 && g.One(2)
	n := len(body)
	if old {
		t := byte(0x80 | tag<<2)
		var ok []int
		if n < 1<<8 {
			ok = append(ok, 0, 0, 0)
		}
		if n < 1<<16 {
			ok = append(ok, 1)
		}
		ok = append(ok, 2)
		if last {
			ok = append(ok, 3)
		}
		switch k := ok[g.Intn(len(ok))]; k {
		case 0:
			return Cat([]byte{t, byte(n)}, body)
		case 1:
			return Cat([]byte{t | 1}, BE(2, uint64(n)), body)
		case 2:
			return Cat([]byte{t | 2}, BE(4, uint64(n)), body)
		default:
			return Cat([]byte{t | 3}, body)
		}
	}
	out := []byte{byte(0xc0 | tag)}
	if g.One(5) { // partial body lengths
		rest := body
		for len(rest) > 0 {
			k := 0
			for 1<<uint(k+1) <= len(rest) && k < 30 {
				k++
			}
			if g.One(3) {
				k = g.Intn(k + 1)
			}
			if len(out) > 1 && g.One(4) {
				break
			}
			if len(body) > 2000 && k < 4 { // not too many chunks
				break
			}
			out = append(out, byte(224+k))
			out = append(out, rest[:1<<uint(k)]...)
			rest = rest[1<<uint(k):]
		}
		return append(append(out, g.newLen(len(rest))...), rest...)
	}
	return Cat(out, g.newLen(n), body)
}

func (g *G) newLen(n int) []byte {
	if g.One(8) {
		return append([]byte{255}, BE(4, uint64(n))...)
	}
	switch {
	case n < 192:
		return []byte{byte(n)}
	case n < 8384:
		return []byte{byte((n-192)>>8 + 192), byte(n - 192)}
	}
	return append([]byte{255}, BE(4, uint64(n))...)
}

// PartialChain frames a body in chunks of 1<<k octets.
func PartialChain(tag int, body []byte, k uint) []byte {
	out := []byte{byte(0xc0 | tag)}
	for len(body) >= 1<<k {
		out = append(out, byte(224+k))
		out = append(out, body[:1<<k]...)
		body = body[1<<k:]
	}
	g := G{}
	return append(append(out, g.fixedLen(len(body))...), body...)
}

func (g *G) fixedLen(n int) []byte {
	switch {
	case n < 192:
		return []byte{byte(n)}
	case n < 8384:
		return []byte{byte((n-192)>>8 + 192), byte(n - 192)}
	}
	return append([]byte{255}, BE(4, uint64(n))...)
}

// Plain frames a body with the shortest new-format header.
func Plain(tag int, body []byte) []byte {
	g := G{}
	return Cat([]byte{byte(0xc0 | tag)}, g.fixedLen(len(body)), body)
}

// Alg is a public-key algorithm: mostly known ones.
func (g *G) Alg() byte {
	if g.AlgIs != nil {
		return *g.AlgIs
	}
	if v, ok := g.hot(8, 0, 255); ok {
		return byte(v)
	}
	if g.One(8) {
		return g.Byte()
	}
	return g.Pick(1, 1, 2, 3, 16, 17, 17, 18, 18, 19, 19, 20, 21, 22, 22, 100, 110)
}

func (g *G) sym() byte {
	if v, ok := g.hot(8, 0, 255); ok {
		return byte(v)
	}
	if g.One(8) {
		return g.Byte()
	}
	return byte(g.Intn(15))
}

func (g *G) hash() byte {
	if v, ok := g.hot(8, 0, 255); ok {
		return byte(v)
	}
	if g.One(8) {
		return g.Byte()
	}
	return byte(g.Intn(16))
}

// MPI is a multi-precision integer of boundary-biased size.
func (g *G) MPI() []byte {
	bits := 0
	if g.Wide && !g.One(3) {
		return g.MPIBits(g.PickI(1025, 8193, 9000+g.Intn(20000), 65535, 65536-g.Intn(20000), 16384+g.Intn(9), 32768+g.Intn(9), g.Intn(65536)))
	}
	if g.Tiny {
		return g.MPIBits(g.Intn(g.PickI(9, 18, 40)))
	}
	switch g.Intn(8) {
	case 0:
		bits = g.Intn(20)
	case 1:
		bits = g.PickI(0, 1, 7, 8, 9, 15, 16, 17, 255, 256, 257, 263, 521, 1023, 1024, 2048, 2047)
	case 2:
		bits = g.PickI(3072, 4096, 4095, 8192)
		if g.One(g.BigOne) {
			bits = g.PickI(65535, 65534, 65528, 65529, 32768, 16384, 524280&0xffff)
		}
	case 3:
		bits = g.Size(65535)
	default:
		bits = g.Intn(400)
	}
	if v, ok := g.hot(10, 0, 65535); ok && (v < 9000 || g.One(4)) {
		bits = int(v)
	}
	return g.MPIBits(bits)
}

// MPIBits is an integer with the given bit length.
func (g *G) MPIBits(bits int) []byte {
	b := g.Bytes((bits + 7) / 8)
	if len(b) > 0 && !g.One(3) {
		top := uint(bits-1) % 8
		b[0] = b[0]&(1<<top-1) | 1<<top
	}
	return Cat(BE(2, uint64(bits)), b)
}

// Point is an elliptic curve point as an integer.
func (g *G) Point() []byte {
	if g.One(12) || g.Wide && g.One(2) {
		return g.MPI()
	}
	if g.One(20) {
		return []byte{0, 0}
	}
	n := g.PickI(0, 1, 31, 32, 33, 48, 64, 65, 66, 132)
	if g.One(6) { // any number of octets
		n = g.Intn(g.PickI(8, 140, 600))
	}
	if g.Tiny {
		n = g.Intn(4)
	}
	b := append([]byte{g.Pick(4, 4, 0x40, 0x40, 0x41, 0x42, 2, 3, 5, 0, g.Byte())}, g.Bytes(n)...)
	bits := 8 * len(b)
	for t := byte(0x80); t > 0 && b[0]&t == 0 && bits > 8*len(b)-7; t >>= 1 {
		bits--
	}
	return Cat(BE(2, uint64(bits)), b)
}

// OID is a curve identifier with its size octet.
func (g *G) OID() []byte {
	var o []byte
	switch {
	case g.One(10):
		o = g.Bytes(g.Size(255))
	default:
		o = append(o, model.Curves[g.Intn(len(model.Curves))].OID...)
		if g.One(12) { // near miss
			switch g.Intn(8) {
			case 0:
				o[len(o)-1] ^= 1 << uint(g.Intn(4))
			case 1:
				o = o[:len(o)-1]
			case 2:
				o = append(o, g.Byte())
			case 3: // another octet in front
				o = append([]byte{g.Pick(0, 0, 6, byte(len(o)), g.Byte())}, o...)
			case 4: // zeros behind
				o = append(o, make([]byte, 1+g.Intn(3))...)
			case 5: // the first octet gone
				o = o[1:]
			case 6: // one octet changed somewhere
				o[g.Intn(len(o))] ^= 1 << uint(g.Intn(8))
			case 7: // two octets exchanged
				i, j := g.Intn(len(o)), g.Intn(len(o))
				o[i], o[j] = o[j], o[i]
			}
		}
	}
	return append([]byte{byte(len(o))}, o...)
}

func (g *G) sized(n int) []byte { b := g.Bytes(n); return append([]byte{byte(n)}, b...) }

// PubMaterial is the public key material.
func (g *G) PubMaterial(alg byte) []byte {
	switch alg {
	case 1, 2, 3:
		return Cat(g.MPI(), g.MPI())
	case 16, 20:
		return Cat(g.MPI(), g.MPI(), g.MPI())
	case 17:
		return Cat(g.MPI(), g.MPI(), g.MPI(), g.MPI())
	case 18:
		k := []byte{3, 1, g.hash(), g.sym()}
		if g.One(5) {
			k = g.sized(g.Intn(6))
			if len(k) > 1 && g.One(2) {
				k[1] = g.Pick(0, 1, 1, 2)
			}
		}
		return Cat(g.OID(), g.Point(), k)
	case 19, 22:
		return Cat(g.OID(), g.Point())
	}
	return g.Bytes(g.Size(3000))
}

// SigMaterial are the signature's integers.
func (g *G) SigMaterial(alg byte) []byte {
	switch alg {
	case 1, 2, 3:
		return g.MPI()
	case 16, 17, 19, 20, 22:
		return Cat(g.MPI(), g.MPI())
	}
	return g.Bytes(g.Size(1000))
}

// PKESK is a public-key encrypted session key.
func (g *G) PKESK() []byte {
	v := byte(3)
	if g.One(8) {
		v = g.Byte()
	}
	alg := g.Alg()
	var m []byte
	switch alg {
	case 1, 2, 3:
		m = g.MPI()
	case 16, 20:
		m = Cat(g.MPI(), g.MPI())
	case 18:
		m = g.Point()
		if !g.One(20) {
			m = append(m, g.sized(g.PickI(0, 1, 40, 48, 255))...)
		}
	default:
		m = g.Bytes(g.Size(600))
	}
	return Cat([]byte{v}, g.KeyID(), []byte{alg}, m, g.Trail())
}

// KeyID is a key ID.
func (g *G) KeyID() []byte {
	if g.One(6) {
		b := g.Bytes(8)
		for i := g.Intn(9); i > 0; i-- {
			b[i-1] = 0
		}
		return b
	}
	return g.Bytes(8)
}

// Trail is octets behind everything known, sometimes.
func (g *G) Trail() []byte {
	if g.One(12) {
		return g.Bytes(g.Size(300))
	}
	return nil
}

// S2K is a string-to-key specifier.
func (g *G) S2K() []byte {
	t := g.Pick(0, 1, 3, 3, 3, 2, 101, 101)
	if g.One(12) {
		t = g.Byte()
	}
	switch t {
	case 0:
		return []byte{0, g.hash()}
	case 1:
		return Cat([]byte{1, g.hash()}, g.Bytes(8))
	case 3:
		return Cat([]byte{3, g.hash()}, g.Bytes(8), []byte{g.Byte()})
	case 101:
		switch g.Intn(6) {
		case 0:
			return Cat([]byte{101}, g.Bytes(g.Intn(6)))
		case 1:
			return Cat([]byte{101}, []byte("GNU"), []byte{1})
		case 2:
			return Cat([]byte{101}, []byte("GNU"), []byte{g.Byte()})
		case 3:
			return Cat([]byte{101}, []byte("GNU"), []byte{2}, g.sized(g.PickI(0, 1, 15, 16, 17, 255)))
		}
		return Cat([]byte{101}, []byte("GNU"), []byte{2}, g.sized(16))
	}
	return []byte{t}
}

// SKESK is a symmetric-key encrypted session key.
func (g *G) SKESK() []byte {
	v := byte(4)
	if g.One(6) {
		v = g.Pick(5, 5, g.Byte())
	}
	if v != 4 {
		return Cat([]byte{v}, g.Bytes(g.Size(200)))
	}
	b := Cat([]byte{4, g.sym()}, g.S2K())
	if g.One(3) {
		b = append(b, g.Bytes(g.Size(60))...)
	}
	return b
}

// OPS is a one-pass signature.
func (g *G) OPS() []byte {
	v := byte(3)
	if g.One(8) {
		v = g.Byte()
	}
	return Cat([]byte{v, g.sigType(), g.hash(), g.Alg()}, g.KeyID(), []byte{g.Pick(0, 1, g.Byte())}, g.Trail())
}

func (g *G) sigType() byte {
	if v, ok := g.hot(8, 0, 255); ok {
		return byte(v)
	}
	if g.One(6) {
		return g.Byte()
	}
	return g.Pick(0, 1, 2, 0x10, 0x11, 0x12, 0x13, 0x16, 0x18, 0x19, 0x1f, 0x20, 0x28, 0x30, 0x40, 0x50)
}

// PubKey is a public key body; the algorithm and version are returned too.
func (g *G) PubKey() ([]byte, byte, byte) {
	v := g.Pick(3, 4, 4, 4, 4, 5, 5)
	if g.One(25) {
		v = g.Byte()
	}
	if g.VersionIs != 0 {
		v = g.VersionIs
	}
	alg := g.Alg()
	b := Cat([]byte{v}, BE(4, uint64(g.U32())))
	if v == 3 {
		b = append(b, BE(2, uint64(g.Size(65535)))...)
	}
	b = append(b, alg)
	m := g.PubMaterial(alg)
	if v == 5 {
		if g.One(8) {
			m = append(m, g.Bytes(g.Size(40))...)
		}
		b = append(b, BE(4, uint64(len(m)))...)
	}
	return append(b, m...), v, alg
}

// PubKeyPacket is the body of tags 6 and 14.
func (g *G) PubKeyPacket() []byte {
	b, _, _ := g.PubKey()
	return append(b, g.Trail()...)
}

// SecKeyPacket is the body of tags 5 and 7.
func (g *G) SecKeyPacket() []byte {
	b, v, alg := g.PubKey()
	usage := g.Pick(0, 0, 254, 254, 254, 255, 255, 253, 253, 1, 2, 3, 7, 9, 13)
	if g.One(12) {
		usage = g.Byte()
	}
	var opt []byte
	if usage != 0 {
		sym := usage
		if usage >= 253 {
			sym = g.sym()
			opt = append(opt, sym)
		}
		if usage == 253 {
			opt = append(opt, g.Pick(1, 2, 1, 2, 3, 0, 100, g.Byte()))
		}
		if usage >= 253 {
			opt = append(opt, g.S2K()...)
		}
		gnu := false
		for i := 0; i+4 <= len(opt); i++ {
			if string(opt[i:i+4]) == "\x65GNU" {
				gnu = true
			}
		}
		if !gnu {
			opt = append(opt, g.Bytes(model.SymIV(sym))...)
		}
	}
	if v == 5 {
		if g.One(10) {
			opt = append(opt, g.Bytes(g.Intn(20))...)
		}
		if len(opt) > 255 {
			opt = opt[:255]
		}
		b = Cat(b, []byte{usage, byte(len(opt))}, opt)
	} else {
		b = Cat(b, []byte{usage}, opt)
	}
	var m []byte
	if usage == 0 {
		switch alg {
		case 1, 2, 3:
			m = Cat(g.MPI(), g.MPI(), g.MPI(), g.MPI())
		case 16, 17, 18, 19, 20, 22:
			m = g.MPI()
		default:
			m = g.Bytes(g.Size(300) + 2)
		}
		if v == 5 && g.One(6) {
			m = append(m, g.Bytes(g.Intn(9))...)
		}
	} else {
		m = g.Bytes(g.Size(2000))
	}
	if v == 5 {
		if g.One(10) {
			m = nil
		}
		b = append(b, BE(4, uint64(len(m)))...)
	}
	b = append(b, m...)
	if usage == 0 {
		b = append(b, g.Bytes(2)...)
	}
	return append(b, g.Trail()...)
}

// SubLen is a subpacket length.
func (g *G) SubLen(n int) []byte {
	if g.One(8) {
		return append([]byte{255}, BE(4, uint64(n))...)
	}
	switch {
	case n < 192:
		return []byte{byte(n)}
	case n < 192+256*63:
		return []byte{byte((n-192)>>8 + 192), byte(n - 192)}
	}
	return append([]byte{255}, BE(4, uint64(n))...)
}

// SubTypes are the subpacket types that are decoded.
var SubTypes = []byte{2, 2, 2, 3, 3, 4, 5, 6, 7, 9, 9, 10, 11, 12, 16, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38}

// SubBody makes the content of a subpacket of the given type.
func (g *G) SubBody(t byte, depth int) []byte {
	few := func() []byte { // extra octets
		if g.One(10) {
			return g.Bytes(g.Size(g.PickI(60, 60, 60, 500)))
		}
		return nil
	}
	switch t & 0x7f {
	case 2, 3, 9:
		return Cat(BE(4, uint64(g.U32())), few())
	case 4, 7, 25:
		return Cat([]byte{g.Pick(0, 1, g.Byte())}, few())
	case 5:
		return Cat([]byte{g.Byte(), g.Byte()}, few())
	case 6, 24, 26, 28:
		if g.One(20) {
			return g.longText()
		}
		return g.Text(300)
	case 11, 21, 22, 34:
		b := g.Bytes(g.Intn(8))
		for i := range b {
			if !g.One(6) {
				b[i] = byte(g.Intn(16))
			}
		}
		if g.One(40) {
			b = g.Bytes(g.Size(300))
		}
		return b
	case 12:
		return Cat([]byte{g.Pick(0x80, 0xc0, 0x40, 0, g.Byte()), g.Alg()}, g.Bytes(g.PickI(20, 20, 32, 0, 1, g.Size(60))))
	case 16:
		return Cat(g.KeyID(), few())
	case 20:
		n, v := g.Text(200), g.Text(400)
		f := []byte{g.Pick(0x80, 0x80, 0, 0, g.Byte()), 0, 0, 0}
		if g.One(6) {
			f = []byte{g.Byte(), g.Byte(), g.Byte(), g.Byte()}
		}
		if g.One(60) {
			v = g.Bytes(g.Size(60000))
		}
		if g.One(20) {
			n = g.longText()
		}
		if g.One(20) {
			v = g.longText()
		}
		return Cat(f, BE(2, uint64(len(n))), BE(2, uint64(len(v))), n, v, few())
	case 23, 30:
		return Cat([]byte{g.Byte()}, g.Bytes(g.PickI(0, 0, 0, 0, 1, 1, 2, 2, 3, 5, g.Intn(40), g.Size(300))))
	case 27:
		return Cat([]byte{g.Byte()}, g.Bytes(g.PickI(0, 0, 0, 1, 1, 1, 2, 2, 3, 4, 9, g.Intn(40), g.Size(300))))
	case 29:
		return Cat([]byte{g.Pick(0, 1, 2, 3, 32, 100, 110, g.Byte())}, g.Text(200))
	case 31:
		return Cat([]byte{g.Alg(), g.hash()}, g.Bytes(g.PickI(20, 32, 64, 0, g.Size(100))))
	case 32:
		if depth > 0 {
			return g.Sig(depth - 1)
		}
		return Cat([]byte{g.Pick(3, 4, 2, 6)}, g.Bytes(g.Intn(20)))
	case 33, 35:
		v := g.Pick(4, 4, 5, 5, 3, 6, g.Byte())
		return Cat([]byte{v}, g.Bytes(g.PickI(20, 32, 20, 32, 0, g.Size(60))))
	case 37:
		return g.Bytes(g.PickI(0, 32, 64, 20, g.Size(300)))
	case 38:
		if g.One(6) || depth <= 0 {
			return Cat([]byte{g.Byte()}, g.Bytes(g.Size(40)))
		}
		return Cat([]byte{0}, g.KeyBlock(depth-1, 3))
	}
	return g.Bytes(g.Size(300))
}

// Area makes a subpacket area of at most max octets.
func (g *G) Area(depth, max int) []byte {
	var out []byte
	n := g.PickI(0, 1, 1, 2, 3, 4, 5, 8)
	if g.One(60) {
		n = 40 + g.Intn(300)
	}
	if v, ok := g.hot(40, 0, 2000); ok {
		n = int(v)
	}
	for i := 0; i < n; i++ {
		t := SubTypes[g.Intn(len(SubTypes))]
		if g.One(10) {
			t = byte(g.Intn(128))
		}
		if v, ok := g.hot(4, 0, 127); ok {
			t = byte(v)
		}
		if g.One(5) {
			t |= 0x80
		}
		d := depth
		if n > 20 {
			d = 0
		}
		b := Cat([]byte{t}, g.SubBody(t, d))
		if g.One(30) && len(b) > 1 {
			b = b[:1+g.Intn(len(b))]
		}
		s := Cat(g.SubLen(len(b)), b)
		if len(out)+len(s) > max {
			break
		}
		out = append(out, s...)
	}
	return out
}

// Sig is a signature body.
func (g *G) Sig(depth int) []byte {
	v := g.Pick(4, 4, 4, 4, 4, 5, 3, 3)
	if g.One(40) {
		v = g.Byte()
	}
	if g.VersionIs != 0 {
		v = g.VersionIs
	}
	alg := g.Alg()
	if v == 3 {
		l := byte(5)
		m := Cat([]byte{g.sigType()}, BE(4, uint64(g.U32())))
		if g.One(10) {
			m = g.Bytes(g.Intn(12))
			l = byte(len(m))
		}
		return Cat([]byte{3, l}, m, g.KeyID(), []byte{alg, g.hash()}, g.Bytes(2), g.SigMaterial(alg), g.Trail())
	}
	max := 65535
	if depth < 2 {
		max = 20000
	}
	if depth < 1 {
		max = 3000
	}
	h, u := g.Area(depth, max), g.Area(depth, max)
	if depth == 2 && g.One(400) { // a full area
		f := g.Bytes(max - 6)
		h = Cat([]byte{255}, BE(4, uint64(len(f)+1)), []byte{g.Pick(0, 10, 100, 37, 99)}, f)
	}
	return Cat([]byte{v, g.sigType(), alg, g.hash()}, BE(2, uint64(len(h))), h, BE(2, uint64(len(u))), u, g.Bytes(2), g.SigMaterial(alg), g.Trail())
}

// KeyBlock is a few packets of a transferable key.
func (g *G) KeyBlock(depth, n int) []byte {
	var out []byte
	k := g.Intn(n + 1)
	for i := 0; i < k; i++ {
		var tag int
		switch i {
		case 0:
			tag = 6
		default:
			tag = g.PickI(13, 2, 2, 14, 13, 12, 17)
		}
		if g.One(15) {
			tag = g.Intn(64)
		}
		b := g.Body(tag, depth)
		if len(b) > 3000 {
			b = g.Bytes(30)
		}
		out = append(out, g.Header(tag, b, i == k-1)...)
	}
	return out
}

// Literal is a literal data body.
func (g *G) Literal() []byte {
	f := g.Pick('b', 't', 'u', 'l', '1', 'm', g.Byte())
	n := g.Text(255)
	return Cat([]byte{f, byte(len(n))}, n, BE(4, uint64(g.U32())), g.Bytes(g.Size(g.Max)))
}

// Attr is a user attribute body.
func (g *G) Attr() []byte {
	var out []byte
	for i := g.Intn(4); i > 0; i-- {
		t := g.Pick(1, 1, 1, 2, 100, 110, 0, 3, 32, 38, g.Byte()) // 32 and 38 mean nothing special here
		var b []byte
		if t&0x7f == 1 {
			hl := 16
			hd := append([]byte{g.Pick(1, 1, 0, 2, 100, 110, 105, g.Byte()), g.Pick(1, 1, 0, 2, 100, g.Byte())}, make([]byte, 12)...)
			if g.One(6) {
				hl = g.PickI(3, 4, 5, 15, 17, 2, 1, 0, 255, 256, 257, 300)
				hd = g.Bytes(300)[:func() int {
					if hl > 3 {
						return hl - 2
					}
					return 1 + g.Intn(4)
				}()]
				hd[0] = g.Pick(1, 2, 100)
			}
			b = Cat([]byte{byte(hl), byte(hl >> 8)}, hd, g.Bytes(g.Size(3000)))
		} else {
			b = g.Bytes(g.Size(200))
		}
		b = append([]byte{t}, b...)
		out = append(out, g.SubLen(len(b))...)
		out = append(out, b...)
	}
	return out
}

// AEAD is an AEAD encrypted data body.
func (g *G) AEAD() []byte {
	a := g.Pick(1, 2, 1, 2, 3, 0, 100, g.Byte())
	iv := 0
	if a == 1 || a == 2 {
		iv = 16
	}
	return Cat([]byte{g.Pick(1, 1, 1, 0, 2, g.Byte()), g.sym(), a, g.Pick(0, 10, 16, 56, 57, 58, 62, 63, 64, 255, g.Byte())}, g.Bytes(iv), g.Bytes(g.Size(3000)))
}

// Comp is a compressed data body around the given packets.
func (g *G) Comp(inner []byte) []byte {
	alg := g.Pick(0, 1, 1, 2, 2, 3)
	if g.One(25) {
		alg = g.Byte()
	}
	return Cat([]byte{alg}, g.Compress(alg, inner))
}

// Body makes the body of a packet with the given tag.
func (g *G) Body(tag, depth int) []byte {
	switch tag {
	case 1:
		return g.PKESK()
	case 2:
		return g.Sig(depth)
	case 3:
		return g.SKESK()
	case 4:
		return g.OPS()
	case 5, 7:
		return g.SecKeyPacket()
	case 6, 14:
		return g.PubKeyPacket()
	case 8:
		if depth <= 0 {
			return g.Comp(nil)
		}
		return g.Comp(g.Stream(1+g.Intn(4), depth-1, nil))
	case 10:
		if g.One(2) {
			return []byte("PGP")
		}
		return g.Bytes(g.Size(200))
	case 11:
		return g.Literal()
	case 13:
		return g.Text(2000)
	case 17:
		return g.Attr()
	case 19:
		return g.Bytes(g.PickI(20, 20, 0, 19, 21, g.Size(300)))
	case 20:
		return g.AEAD()
	}
	return g.Bytes(g.Size(g.Max))
}

// Twin is packets like those of data, of the same sizes, with a few octets changed.
func (g *G) Twin(data []byte) []byte {
	b := append([]byte(nil), data...)
	if len(b) < 4 {
		return b
	}
	for i := 1 + g.Intn(3); i > 0; i-- {
		at := 3 + g.Intn(len(b)-3)
		if c := b[at]; c >= 'a' && c < 'z' {
			b[at] = c + 1
		} else {
			b[at] ^= 1 << uint(g.Intn(8))
		}
	}
	return b
}

// Weights are tags, each as often as it is to be chosen.
type Weights []int

// All has every kind of packet.
var All = Weights{1, 1, 2, 2, 2, 2, 3, 3, 4, 5, 5, 6, 6, 7, 8, 8, 9, 10, 11, 11, 12, 13, 13, 14, 17, 17, 18, 19, 20, 60, 61, 62, 63, 0, 15, 16, 21, 40}

// Tag chooses a tag.
func (g *G) Tag(w Weights) int {
	if w == nil {
		w = All
	}
	if g.One(30) {
		return g.Intn(64)
	}
	if v, ok := g.hot(8, 0, 63); ok {
		return int(v)
	}
	return w[g.Intn(len(w))]
}

// Stream is a sequence of n packets.
func (g *G) Stream(n, depth int, w Weights) []byte {
	var out []byte
	for i := 0; i < n; i++ {
		t := g.Tag(w)
		out = append(out, g.Header(t, g.Body(t, depth), i == n-1)...)
	}
	return out
}

// Damage changes well-formed data into something that may not be.
func (g *G) Damage(b []byte) []byte {
	b = append([]byte(nil), b...)
	for i := 1 + g.Intn(2); i > 0 && len(b) > 0; i-- {
		switch g.Intn(8) {
		case 0, 1, 2:
			b = b[:g.Intn(len(b))]
		case 3:
			b[g.Intn(len(b))] = g.Byte()
		case 4:
			p := g.Intn(len(b))
			if p > 20 && g.One(2) {
				p = g.Intn(20)
			}
			b[p] ^= 1 << uint(g.Intn(8))
		case 5:
			p := g.Intn(len(b) + 1)
			b = Cat(b[:p], g.Bytes(g.Intn(8)), b[p:])
		case 6:
			p := g.Intn(len(b))
			q := p + g.Intn(len(b)-p+1)
			b = Cat(b[:p], b[q:])
		case 7:
			p := g.Intn(len(b))
			b[p] += byte(g.PickI(1, -1))
		}
	}
	return b
}
