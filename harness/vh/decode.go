package main

import (
	"bytes"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"

	"verif/gen"
	"verif/model"
)

var tagRe = regexp.MustCompile(`\(tag (\d+)\)$`)

func tagOf(n *model.Node) int {
	m := tagRe.FindStringSubmatch(n.Name)
	if m == nil {
		return -1
	}
	v, _ := strconv.Atoi(m[1])
	return v
}

// decoded is what the tool makes of data.
type decoded struct {
	ns    []*model.Node
	err   bool // refused
	how   string
	panic string
	bad   string // the refusal or the output is not in order
}

// decode has the tool decode data, through the command or the library.
func decode(g *gen.G, data []byte, o model.Opt, cmd bool) (d decoded) {
	if len(data) > 0 && len(data) < 20000 && g.One(6) { // the same octets as armored text
		return decodeAs(g, gen.Armor{Type: "MESSAGE", Line: 64, EOL: "\n", Sum: true}.Write(data), o, cmd, g.One(3), " (the input as armored text)")
	}
	return decodeAs(g, data, o, cmd, false, "")
}

func decodeAs(g *gen.G, data []byte, o model.Opt, cmd, armor bool, note string) (d decoded) {
	if !cmd {
		ns, err, p := lib(data, o, armor)
		return decoded{ns: ns, err: err != nil, panic: p, how: fmt.Sprintf("library %s, armor %v%s", optString(o), armor, note)}
	}
	args := append(flags(g, o), "-j")
	if armor {
		args = append(args, []string{"-a", "--armor"}[g.Intn(2)])
	}
	if g.One(2) {
		args = append(args[len(args)-1:], args[:len(args)-1]...)
	}
	r := runB(data, args...)
	d.how = "gpgpdump " + strings.Join(args, " ") + note
	d.panic = r.Panic
	if r.Panic != "" {
		return
	}
	ns, err := tree(r.Out)
	switch {
	case r.Exit != 0:
		d.err = true
		if len(r.Out) > 0 {
			d.bad = "output despite failure: " + r.String()
		}
		if len(r.Err) == 0 {
			d.bad = "failure without message: " + r.String()
		}
	case err != nil && o.Debug:
		d.err = true // with --debug the error is shown on standard output
		if len(r.Out) == 0 {
			d.bad = "neither output nor message: " + r.String()
		}
	case err != nil:
		d.bad = "success with output that is not JSON: " + r.String()
	case len(r.Err) > 0:
		d.bad = "success with a message: " + r.String()
	}
	d.ns = ns
	return
}

// keep returns the top-level nodes with one of the tags, and those directly inside compressed packets.
func keep(ns []*model.Node, tags map[int]bool) (out []*model.Node) {
	for _, n := range ns {
		t := tagOf(n)
		if tags[t] {
			out = append(out, n)
		}
		if t == 8 {
			for _, m := range n.Items {
				if tags[tagOf(m)] {
					out = append(out, m)
				}
			}
		}
	}
	return
}

// faithful compares the tool with the model on well-formed input.
func faithful(c *Ctx, g *gen.G, data []byte, o model.Opt, tags map[int]bool) {
	if looksArmored(data) {
		return
	}
	want := model.Dump(data, o)
	got := decode(g, data, o, g.One(3))
	if got.panic != "" {
		c.FailIn("panic: "+got.panic, data, "how", got.how)
		return
	}
	if want.Unspec != "" {
		c.Count("unspecified layout (only: no crash)")
		return
	}
	if want.Err {
		c.Count("malformed (left to C09)")
		return
	}
	if got.bad != "" || got.err {
		c.FailIn("well-formed input is not shown: "+got.bad, data, "how", got.how)
		return
	}
	w, t := keep(want.Packets, tags), keep(got.ns, tags)
	if s := model.Diff("", w, t); s != "" {
		c.FailIn(s, data, "how", got.how)
		return
	}
	if len(w) > 0 {
		c.Seen(data, []byte(optString(o)))
		c.Count("packet sequences compared")
		model.Walk(w, func(*model.Node) { c.Counts["items compared"]++ })
		for _, n := range w {
			c.Count("packets with tag " + strconv.Itoa(tagOf(n)))
		}
		if c.WantSample() && len(data) < 150 {
			c.Sample("%s <- %x: %d packets equal to the model's", got.how, data, len(w))
		}
	}
}

// subtags counts subpacket types seen.
func countSubs(c *Ctx, ns []*model.Node) {
	model.Walk(ns, func(n *model.Node) {
		if i := strings.LastIndex(n.Name, "(sub "); i >= 0 {
			c.Counts["subpacket "+n.Name[i+5:len(n.Name)-1]]++
		}
	})
}

func weighted(main []int, other ...int) gen.Weights {
	w := gen.Weights{}
	for i := 0; i < 6; i++ {
		w = append(w, main...)
	}
	return append(w, other...)
}

func tagSet(t ...int) map[int]bool {
	m := map[int]bool{}
	for _, x := range t {
		m[x] = true
	}
	return m
}

// faithfulCheck makes the check of a family of packets.
func faithfulCheck(id string, tags []int, other []int, quick, thorough int, need []string, extra func(c *Ctx, f func(g *gen.G, data []byte, o model.Opt))) {
	w := weighted(tags, other...)
	set := tagSet(tags...)
	checks[id] = &Check{
		Rule: "packet sequences made by a boundary-biased generator of OpenPGP packets (weights on the packet types of this property, other types mixed in), decoded by the tool with random options through the command's JSON output or the library and compared item by item with an independent reference decoder; non-trivial: well-formed, with a packet of these types, all its items equal; distinct by octets and options",
		Need: append([]string{"packet sequences compared"}, need...),
		Run: func(c *Ctx) {
			one := func(g *gen.G, data []byte, o model.Opt) { faithful(c, g, data, o, set) }
			c.Cases("single", c.N(quick, thorough), func(g *gen.G) {
				t := tags[g.Intn(len(tags))]
				one(g, g.Header(t, g.Body(t, 2), true), opts(g))
			})
			c.Cases("mixed", c.N(quick/2, thorough/2), func(g *gen.G) {
				one(g, g.Stream(2+g.Intn(5), 2, w), opts(g))
			})
			c.Cases("compressed", c.N(quick/8, thorough/8), func(g *gen.G) {
				in := g.Stream(1+g.Intn(4), 1, w)
				one(g, g.Header(8, g.Comp(in), true), opts(g))
			})
			c.Cases("damaged", c.N(quick/2, thorough/2), func(g *gen.G) {
				one(g, g.Damage(g.Stream(1+g.Intn(2), 2, w)), opts(g))
			})
			c.Cases("fit", c.N(quick/3, thorough/3), func(g *gen.G) { // an exact number of octets from some field on
				t := tags[g.Intn(len(tags))]
				if t == 8 {
					return
				}
				g.Tiny = g.Tiny || g.One(2)
				b := g.Body(t, 0)
				n := g.Near(1, 3000, 1+g.Intn(g.PickI(30, 100, 400))) + g.PickI(0, g.Intn(12), g.Intn(60))
				if k := n - len(b); k > 0 {
					b = append(b, g.Bytes(k)...)
				}
				d := g.Header(t, b, true)
				if g.One(3) {
					d = gen.Cat(g.Stream(1, 0, w), d)
				}
				one(g, d, opts(g))
			})
			if extra != nil {
				extra(c, one)
			}
		},
	}
}

func init() {
	faithfulCheck("C03", []int{2}, []int{6, 14, 13, 5, 4}, 60000, 3000000, nil, sigExtra)
	faithfulCheck("C04", []int{6, 14}, []int{2, 13, 5}, 80000, 3000000, nil, pubExtra)
	faithfulCheck("C05", []int{5, 7}, []int{2, 13, 6}, 80000, 3000000, nil, secExtra)
	faithfulCheck("C06", []int{1, 3, 4, 9, 18, 19, 20}, []int{2, 11, 10, 8, 13, 60, 6}, 80000, 3000000, nil, encExtra)
	faithfulCheck("C07", []int{8, 10, 11, 12, 13, 17}, []int{2, 6, 4}, 60000, 2000000, nil, dataExtra)
}

// sigExtra: one signature per subpacket type and critical bit, lengths of every encoding, deep nesting.
// manyPackets is a number of small packets of all kinds.
func manyPackets(g *gen.G, max int) []byte {
	n := g.Near(5, 3000, g.PickI(10, 20, 40, 60, 100, 128, 257, 300, 1000, g.Intn(300)))
	var b []byte
	for i := 0; i < n && len(b) < max; i++ {
		t := g.PickI(13, 13, 10, 60, 11, 2, 6, 14, 12, 9, 40, 1, 3, 18, 4)
		x := g.Bytes(g.Intn(6))
		switch t {
		case 1, 2, 3, 6, 14, 4, 18:
			if x = g.Body(t, 0); len(x) > 100 {
				t, x = 13, []byte("long")
			}
		case 11:
			x = gen.Cat([]byte{'b', 0, 0, 0, 0, 0}, x)
		case 13:
			x = letters(g, g.Intn(5))
		}
		b = append(b, g.Header(t, x, false)...)
	}
	return b
}

func sigExtra(c *Ctx, f func(g *gen.G, data []byte, o model.Opt)) {
	c.Cases("many", c.N(200, 6000), func(g *gen.G) { // many packets in a key block
		g.Tiny = true
		k := append([]byte{38, 0}, manyPackets(g, 40000)...)
		a := gen.Cat(g.SubLen(len(k)), k)
		if len(a) > 65000 {
			return
		}
		f(g, g.Header(2, gen.Cat([]byte{4, 0x18, 1, 8, 0, 0}, gen.BE(2, uint64(len(a))), a, []byte{1, 2}, g.MPIBits(8)), true), opts(g))
	})
	c.Cases("subtypes", c.N(256*24, 256*800), func(g *gen.G) {
		t := byte(c.K() % 256)
		b := append([]byte{t}, g.SubBody(t, 2)...)
		a := gen.Cat(g.SubLen(len(b)), b)
		var z []byte
		if g.One(2) {
			a, z = z, a
		}
		alg := g.Alg()
		s := gen.Cat([]byte{g.Pick(4, 4, 5), 0x13, alg, 8}, gen.BE(2, uint64(len(a))), a, gen.BE(2, uint64(len(z))), z, g.Bytes(2), g.SigMaterial(alg))
		f(g, g.Header(2, s, true), opts(g))
	})
	c.Cases("flags", 256*6, func(g *gen.G) { // every flag octet of every flag subpacket
		k := c.K()
		t := []byte{27, 27, 23, 30, 20, 27}[k/256]
		b := []byte{t, byte(k)}
		switch k / 256 {
		case 1:
			b = []byte{t, g.Byte(), byte(k)}
		case 4:
			b = gen.Cat([]byte{t, byte(k), g.Byte(), g.Byte(), g.Byte(), 0, 1, 0, 1, 'n', 'v'})
		case 5:
			b = []byte{t, g.Byte(), g.Byte(), byte(k), g.Byte(), byte(k)}
		}
		a := gen.Cat([]byte{byte(len(b))}, b)
		f(g, gen.Plain(2, gen.Cat([]byte{4, 0x13, 1, 8}, gen.BE(2, uint64(len(a))), a, []byte{0, 0, 1, 2, 0, 1, 1})), opts(g))
	})
	c.Cases("sublengths", c.N(300, 3000), func(g *gen.G) { // exact sizes around each encoding of a subpacket length
		sizes := []int{1, 2, 190, 191, 192, 193, 194, 255, 256, 257, 446, 447, 448, 449, 703, 704, 705, 8382, 8383, 8384, 8385, 8447, 8448, 16318, 16319, 16320, 16321, 30000, 65520, 65528}
		n := sizes[int(c.K())%len(sizes)]
		t := g.Pick(10, 0, 99, 37, 100, 20, 28, 38)
		b := append([]byte{t}, g.Bytes(n-1)...)
		switch {
		case t == 20 && n > 20:
			copy(b[1:], gen.Cat([]byte{0, 0, 0, 0, 0, 3}, gen.BE(2, uint64(n-1-8-3)), []byte("abc")))
		case t == 28:
			for i := 1; i < n; i++ {
				b[i] = 'a' + byte(i%26)
			}
		case t == 38 && n > 20:
			b[1] = 0
			p := g.Header(60, g.Bytes(n-2-6), true)
			b = append(b[:2], p...)
		}
		a := gen.Cat(g.SubLen(len(b)), b)
		for len(a) < 65530 && g.One(3) {
			x := append([]byte{16}, g.Bytes(8)...)
			a = append(a, gen.Cat(g.SubLen(len(x)), x)...)
		}
		if len(a) > 65535 {
			return
		}
		var z []byte
		if g.One(2) {
			a, z = z, a
		}
		f(g, g.Header(2, gen.Cat([]byte{4, 0x13, 1, 8}, gen.BE(2, uint64(len(a))), a, gen.BE(2, uint64(len(z))), z, []byte{1, 2, 0, 1, 1}), true), opts(g))
	})
	c.Cases("nested", c.N(300, 6000), func(g *gen.G) {
		if s := nestedSig(g, 1+g.Intn(12)); s != nil {
			f(g, g.Header(2, s, true), opts(g))
		}
	})
	c.Cases("large", c.N(4000, 60000), func(g *gen.G) { // large subpackets of every kind, after and before times
		date := func(t byte) []byte { return gen.Cat([]byte{5, t}, gen.BE(4, uint64(g.U32()))) }
		n := around(g, 8, 15)
		var b []byte
		switch t := g.Pick(38, 38, 38, 32, 32, 20, 24, 26, 28, 6, 29, 37, 12, 16, 31, 33, 35, 11, 21, 22, 34, 27, 30, 23, 2, 3, 9, 100, g.Byte()); t {
		case 38:
			k := gen.Cat([]byte{4}, gen.BE(4, uint64(g.U32())), []byte{1}, g.MPIBits(9), g.MPIBits(17))
			x := gen.Plain(g.PickI(6, 14), k)
			for len(x) < n {
				switch g.Intn(5) {
				case 0:
					x = append(x, g.Header(13, letters(g, g.Intn(n)), false)...)
				case 1:
					x = append(x, g.Header(g.PickI(12, 60), noise(g, g.Intn(n)), false)...)
				case 2:
					a := gen.Cat(date(2), date(9), date(3))
					x = append(x, gen.Plain(2, gen.Cat([]byte{4, 0x18, 1, 8}, gen.BE(2, uint64(len(a))), a, []byte{0, 0, 1, 2}, g.MPIBits(8*g.Intn(n)+1)))...)
				case 3:
					x = append(x, gen.Plain(14, gen.Cat([]byte{4}, gen.BE(4, uint64(g.U32())), []byte{1}, g.MPIBits(g.Intn(8*n)), g.MPIBits(17)))...)
				case 4:
					x = append(x, gen.Plain(2, g.Sig(0))...)
				}
			}
			b = gen.Cat([]byte{t, 0}, x)
		case 32:
			a := gen.Cat(date(2), date(9), date(3))
			if g.One(2) {
				x := gen.Cat([]byte{g.Pick(24, 100, 37)}, letters(g, n/2))
				a = append(a, gen.Cat(g.SubLen(len(x)), x)...)
			}
			b = gen.Cat([]byte{t, g.Pick(4, 5), 0x19, 1, 8}, gen.BE(2, uint64(len(a))), a, []byte{0, 0, 1, 2}, g.MPIBits(4*n), g.Trail())
		case 20:
			k := g.PickI(0, 1, 3, n/2, n-9, n-8)
			b = gen.Cat([]byte{t, g.Pick(0, 0x80), 0, 0, 0}, gen.BE(2, uint64(k)), gen.BE(2, uint64(n-8-k)), letters(g, n-8))
		case 24, 26, 28, 6, 29:
			b = gen.Cat([]byte{t}, letters(g, n))
		default:
			b = gen.Cat([]byte{t}, noise(g, n))
			if (t == 33 || t == 35) && n > 0 {
				b[1] = g.Pick(4, 5)
			}
		}
		var a []byte
		for _, t := range []byte{2, 9, 3} {
			if g.One(2) {
				a = append(a, date(t)...)
			}
		}
		a = gen.Cat(a, g.SubLen(len(b)), b)
		for _, t := range []byte{9, 3} {
			if g.One(2) {
				a = append(a, date(t)...)
			}
		}
		if len(a) > 65535 {
			return
		}
		var z []byte
		if g.One(3) {
			a, z = z, a
		}
		s := gen.Cat([]byte{g.Pick(4, 4, 5), 0x13, 1, 8}, gen.BE(2, uint64(len(a))), a, gen.BE(2, uint64(len(z))), z, []byte{1, 2, 0, 1, 1}, g.Trail())
		if g.One(8) {
			s = append(s, noise(g, around(g, 8, 17))...)
		}
		var pre []byte
		if g.One(3) {
			pre = gen.Plain(6, gen.Cat([]byte{4}, gen.BE(4, uint64(g.U32())), []byte{1}, g.MPIBits(9), g.MPIBits(17)))
		}
		f(g, gen.Cat(pre, g.Header(2, s, true)), opts(g))
	})
}

// around is a size at or next to a power of two up to 2^hi.
func around(g *gen.G, lo, hi int) int {
	return g.Near(1<<uint(lo), 1<<uint(hi)+70000, max(1, 1<<uint(lo+g.Intn(hi-lo+1))+g.PickI(-2, -1, 0, 0, 1, 2, g.Intn(300))))
}

// letters is n octets of text.
func letters(g *gen.G, n int) []byte {
	b := make([]byte, n)
	k := g.Intn(90)
	for i := range b {
		b[i] = byte(0x21 + (i+i/90+k)%90)
	}
	if n > 8 && g.One(2) {
		copy(b[g.Intn(n-8):], []string{"日本", "é", "\x00", "\n", "😀"}[g.Intn(5)])
	}
	return b
}

// noise is n octets.
func noise(g *gen.G, n int) []byte {
	b := make([]byte, n)
	g.Read(b)
	return b
}

// nestedSig is a signature with d levels of embedded signatures and key blocks.
func nestedSig(g *gen.G, d int) []byte {
	s := gen.Cat([]byte{4, 0x19, 22, 8}, []byte{0, 6, 5, 2}, gen.BE(4, uint64(g.U32())), []byte{0, 0, 9, 9}, g.MPIBits(g.Intn(600)), g.MPIBits(g.Intn(600)))
	for i := 0; i < d; i++ {
		var b []byte
		if g.One(3) {
			b = gen.Cat([]byte{38, 0}, g.Header(2, s, g.One(2)))
		} else {
			b = gen.Cat([]byte{32}, s)
		}
		pre := gen.Cat([]byte{5, 2}, gen.BE(4, uint64(g.U32())), []byte{5, 3}, gen.BE(4, uint64(g.U32())))
		if g.One(2) {
			pre = nil
		}
		post := gen.Cat([]byte{5, 3}, gen.BE(4, uint64(g.U32())))
		if g.One(2) {
			post = nil
		}
		if g.One(4) {
			for k := g.Intn(5); k > 0; k-- {
				t := g.Pick(27, 30, 33, 16, 12, 11, 28, 20, 25, 29)
				x := append([]byte{t}, g.SubBody(t, 0)...)
				if len(x) < 200 {
					pre = append(pre, gen.Cat(g.SubLen(len(x)), x)...)
				}
			}
		}
		h, u := gen.Cat(pre, g.SubLen(len(b)), b, post), []byte(nil)
		if len(h) > 60000 {
			return nil
		}
		if g.One(2) {
			h, u = pre, gen.Cat(g.SubLen(len(b)), b, post)
		}
		s = gen.Cat([]byte{g.Pick(4, 5), 0x18, 1, 8}, gen.BE(2, uint64(len(h))), h, gen.BE(2, uint64(len(u))), u, g.Bytes(2), g.MPIBits(9))
	}
	return s
}

// pubExtra: every algorithm and curve, each with each version.
func pubExtra(c *Ctx, f func(g *gen.G, data []byte, o model.Opt)) {
	c.Cases("algorithms", c.N(256*4*6, 256*4*100), func(g *gen.G) {
		alg := byte(c.K())
		v := []byte{3, 4, 5, g.Byte()}[c.K()/256%4]
		b := gen.Cat([]byte{v}, gen.BE(4, uint64(g.U32())))
		if v == 3 {
			b = append(b, gen.BE(2, uint64(g.Intn(65536)))...)
		}
		m := g.PubMaterial(alg)
		b = append(b, alg)
		if v == 5 {
			b = append(b, gen.BE(4, uint64(len(m)))...)
		}
		f(g, g.Header(g.PickI(6, 14), append(b, m...), true), opts(g))
	})
	c.Cases("curves", c.N(4000, 40000), func(g *gen.G) {
		k := int(c.K())
		o := append([]byte(nil), model.Curves[k%len(model.Curves)].OID...)
		switch g.Intn(4) {
		case 0:
			o[g.Intn(len(o))] ^= 1 << uint(g.Intn(8))
		case 1:
			o = o[:g.Intn(len(o))]
		}
		alg := g.Pick(18, 19, 22)
		m := gen.Cat([]byte{byte(len(o))}, o, g.Point())
		if alg == 18 {
			m = append(m, 3, 1, g.Byte(), g.Byte())
		}
		f(g, g.Header(6, gen.Cat([]byte{4}, gen.BE(4, uint64(g.U32())), []byte{alg}, m), true), opts(g))
	})
	c.Cases("bitlengths", c.N(9000, 131072), func(g *gen.G) {
		bits := int(c.K())
		if bits > 8400 && c.Quick() {
			bits = 60000 + bits%5536
		}
		bits &= 0xffff
		f(g, g.Header(6, gen.Cat([]byte{4}, gen.BE(4, uint64(g.U32())), []byte{1}, g.MPIBits(bits), g.MPIBits(17)), true), opts(g))
	})
	c.Cases("large", c.N(2400, 30000), func(g *gen.G) {
		n := around(g, 8, 18)
		v := g.Pick(3, 4, 4, 5, 5, 5)
		alg := g.Pick(1, 16, 17, 18, 19, 22, 0, 100, 15)
		b := gen.Cat([]byte{v}, gen.BE(4, uint64(g.U32())))
		if v == 3 {
			b = append(b, gen.BE(2, uint64(g.Intn(65536)))...)
		}
		m := g.PubMaterial(alg)
		switch {
		case alg == 1 && g.One(2):
			m = gen.Cat(g.MPIBits(min(65535, 8*n)), g.MPIBits(min(65535, 4*n)))
		case alg == 16 || alg == 17:
			m = gen.Cat(g.MPIBits(g.PickI(9, 65535)), g.MPIBits(g.PickI(9, 65535)), g.MPIBits(g.PickI(9, 65535)))
			if alg == 17 {
				m = append(m, g.MPIBits(65529)...)
			}
		}
		if k := n - len(m); k > 0 && !g.One(4) { // more than is known
			m = append(m, noise(g, k)...)
		}
		b = append(b, alg)
		if v == 5 {
			b = append(b, gen.BE(4, uint64(len(m)))...)
		}
		b = append(b, m...)
		if v == 5 && g.One(3) { // behind the announced material
			b = append(b, noise(g, around(g, 0, 17))...)
		}
		f(g, g.Header(g.PickI(6, 14), b, true), opts(g))
	})
}

// secExtra: every usage octet, cipher, S2K type and iteration count.
func secExtra(c *Ctx, f func(g *gen.G, data []byte, o model.Opt)) {
	pub := func(g *gen.G, v byte) ([]byte, byte) {
		alg := g.Pick(1, 16, 17, 18, 19, 22)
		m := g.PubMaterial(alg)
		b := gen.Cat([]byte{v}, gen.BE(4, uint64(g.U32())))
		if v == 3 {
			b = append(b, 0, 0)
		}
		b = append(b, alg)
		if v == 5 {
			b = append(b, gen.BE(4, uint64(len(m)))...)
		}
		return append(b, m...), alg
	}
	build := func(g *gen.G, v, usage byte, opt, m []byte) []byte {
		b, _ := pub(g, v)
		b = append(b, usage)
		if v == 5 {
			b = append(b, byte(len(opt)))
		}
		b = append(b, opt...)
		if v == 5 {
			b = append(b, gen.BE(4, uint64(len(m)))...)
		}
		return append(b, m...)
	}
	c.Cases("usage", c.N(256*3*4, 256*3*60), func(g *gen.G) {
		v, u := byte(3+c.K()/256%3), byte(c.K())
		if u == 0 || u >= 253 {
			u = g.Pick(1, 7, 252, 9)
		}
		f(g, g.Header(g.PickI(5, 7), build(g, v, u, g.Bytes(model.SymIV(u)), g.Bytes(g.Size(100))), true), opts(g))
	})
	c.Cases("ciphers", c.N(256*9, 256*90), func(g *gen.G) {
		v, u := byte(3+c.K()/256%3), byte(253+c.K()/768%3)
		s := byte(c.K())
		opt := []byte{s}
		if u == 253 {
			opt = append(opt, g.Byte())
		}
		opt = gen.Cat(opt, []byte{3, g.Byte()}, g.Bytes(8), []byte{g.Byte()}, g.Bytes(model.SymIV(s)))
		f(g, g.Header(g.PickI(5, 7), build(g, v, u, opt, g.Bytes(g.Size(100))), true), opts(g))
	})
	c.Cases("s2k", c.N(256*4, 256*40), func(g *gen.G) {
		v := g.Pick(4, 4, 5)
		n := byte(c.K())
		var s []byte
		switch c.K() / 256 % 4 {
		case 0: // every count
			s = gen.Cat([]byte{3, 8}, g.Bytes(8), []byte{n})
		case 1: // every type
			s = gen.Cat([]byte{n}, g.Bytes(20))
		case 2: // every extension
			s = gen.Cat([]byte{101}, []byte("GNU"), []byte{n}, []byte{4, 1, 2, 3, 4})
		case 3: // every size of a serial number
			s = gen.Cat([]byte{101}, []byte("GNU"), []byte{2, n}, g.Bytes(int(n)))
		}
		opt := gen.Cat([]byte{9}, s)
		if c.K()/256%4 < 2 {
			opt = append(opt, g.Bytes(16)...)
		}
		if len(opt) > 255 && v == 5 {
			v = 4
		}
		f(g, g.Header(g.PickI(5, 7), build(g, v, g.Pick(254, 255), opt, g.Bytes(g.Size(100))), true), opts(g))
	})
	c.Cases("large", c.N(2400, 30000), func(g *gen.G) {
		n := around(g, 8, 18)
		v := g.Pick(3, 4, 4, 5, 5, 5)
		b := []byte(nil)
		if g.One(3) { // large public part
			m := gen.Cat(g.MPIBits(g.PickI(65535, 65528, 32768, 8*min(n, 8191))), g.MPIBits(17))
			if v == 5 && g.One(2) {
				m = append(m, noise(g, n)...)
			}
			b = gen.Cat([]byte{v}, gen.BE(4, uint64(g.U32())))
			if v == 3 {
				b = append(b, 0, 0)
			}
			b = append(b, 1)
			if v == 5 {
				b = append(b, gen.BE(4, uint64(len(m)))...)
			}
			b = append(b, m...)
		} else {
			b, _ = pub(g, v)
		}
		u := g.Pick(0, 0, 253, 254, 255, 9, 7)
		var opt, m []byte
		switch u {
		case 0:
		case 9, 7:
			opt = g.Bytes(model.SymIV(u))
		case 253:
			opt = gen.Cat([]byte{9, 1, 3, 8}, g.Bytes(8), []byte{g.Byte()}, g.Bytes(16))
		default:
			opt = gen.Cat([]byte{9, 3, 8}, g.Bytes(8), []byte{g.Byte()}, g.Bytes(16))
		}
		m = noise(g, n)
		if u == 0 {
			bits := func() []byte { return g.MPIBits(g.PickI(9, 65535, 65528, 8*min(n, 8191))) }
			m = gen.Cat(bits(), bits(), bits(), bits())
		}
		b = append(b, u)
		if v == 5 {
			b = append(b, byte(len(opt)))
		}
		b = append(b, opt...)
		if v == 5 {
			b = append(b, gen.BE(4, uint64(len(m)))...)
		}
		b = append(b, m...)
		if u == 0 {
			b = append(b, g.Bytes(2)...)
		}
		if g.One(3) {
			b = append(b, noise(g, around(g, 0, 17))...)
		}
		f(g, g.Header(g.PickI(5, 7), b, true), opts(g))
	})
}

// encExtra: histories of session keys and encrypted data.
func encExtra(c *Ctx, f func(g *gen.G, data []byte, o model.Opt)) {
	c.Cases("histories", c.N(40000, 1000000), func(g *gen.G) {
		var b []byte
		for i, n := 0, 2+g.Intn(9); i < n; i++ {
			t := g.PickI(1, 3, 9, 18, 20, 1, 3, 9, 18, 20, 11, 2, 10, 8, 60, 13, 4, 19)
			var body []byte
			switch t {
			case 1:
				body = gen.Cat([]byte{3}, g.Bytes(8), []byte{1, 0, 8, 255})
			case 3:
				body = []byte{g.Pick(4, 4, 5), 9, 0, 8}
			case 20:
				body = gen.Cat([]byte{1, 9, 1, 10}, g.Bytes(20))
			case 2:
				body = g.Sig(1)
			case 8:
				var in []byte
				for j := g.Intn(4); j > 0; j-- {
					switch g.Intn(4) {
					case 0:
						in = append(in, gen.Plain(1, gen.Cat([]byte{3}, g.Bytes(8), []byte{1, 0, 8, 255}))...)
					case 1:
						in = append(in, gen.Plain(3, []byte{4, 9, 0, 8})...)
					default:
						in = append(in, gen.Plain(g.PickI(9, 18), g.Bytes(5))...)
					}
				}
				body = g.Comp(in)
			case 10:
				body = []byte("PGP")
			default:
				body = g.Body(t, 0)
				if len(body) > 200 {
					body = body[:200]
				}
				if t == 11 {
					body = []byte{'b', 0, 0, 0, 0, 0, 1}
				}
				if t == 4 {
					body = gen.Cat([]byte{3, 0, 8, 1}, g.Bytes(8), []byte{1})
				}
			}
			b = append(b, g.Header(t, body, i == n-1)...)
		}
		f(g, b, opts(g))
	})
	c.Cases("codes", c.N(256*6, 256*60), func(g *gen.G) {
		n := byte(c.K())
		var p []byte
		switch c.K() / 256 % 6 {
		case 0:
			p = gen.Plain(20, gen.Cat([]byte{1, 9, g.Pick(1, 2), n}, g.Bytes(16+g.Intn(30))))
		case 1:
			iv := 0
			if n == 1 || n == 2 {
				iv = 16
			}
			p = gen.Plain(20, gen.Cat([]byte{1, 9, n, 10}, g.Bytes(iv+g.Intn(30))))
		case 2:
			p = gen.Plain(4, gen.Cat([]byte{3, 0, 8, 1}, g.Bytes(8), []byte{n}))
		case 3:
			p = gen.Plain(3, gen.Cat([]byte{4, n, 3, 8}, g.Bytes(8), []byte{n}, g.Bytes(g.Intn(20))))
		case 4:
			p = gen.Plain(1, gen.Cat([]byte{3}, g.KeyID(), []byte{n}, g.Bytes(g.Intn(20))))
		case 5:
			p = gen.Plain(1, gen.Cat([]byte{n}, g.KeyID(), []byte{18}, g.Point(), []byte{n}, g.Bytes(int(n))))
		}
		f(g, p, opts(g))
	})
	c.Cases("large", c.N(2400, 30000), func(g *gen.G) {
		n := around(g, 7, 18)
		if g.One(100) {
			n = around(g, 19, 23)
		}
		var b, pre []byte
		t := g.PickI(1, 3, 4, 9, 18, 19, 20)
		switch t {
		case 1:
			b = gen.Cat([]byte{g.Pick(2, 3)}, g.KeyID(), []byte{g.Pick(1, 16, 18, 19, 22, 0, 100)}, noise(g, n))
			if g.One(2) {
				b = gen.Cat([]byte{3}, g.KeyID(), []byte{1}, g.MPIBits(min(65535, 8*n)), g.Trail())
			}
		case 3:
			b = gen.Cat([]byte{g.Pick(4, 4, 5), 9, 3, 8}, g.Bytes(8), []byte{g.Byte()}, noise(g, n))
		case 4:
			b = gen.Cat([]byte{3, 0, 8, 1}, g.KeyID(), []byte{1}, noise(g, n))
		case 19:
			b = noise(g, g.PickI(n, 20, 19, 21))
		case 20:
			b = gen.Cat([]byte{1, 9, g.Pick(1, 2, 3), g.Byte()}, noise(g, n))
		default:
			b = noise(g, n)
			if t == 18 && g.One(2) {
				b[0] = 1
			}
			if g.One(2) {
				pre = gen.Plain(3, []byte{4, g.Pick(9, 2, 7), 0, 8})
			}
		}
		f(g, gen.Cat(pre, g.Header(t, b, true), gen.Plain(60, []byte{1})), opts(g))
	})
}

// dataExtra: literal formats and names, texts, image headers, compression.
func dataExtra(c *Ctx, f func(g *gen.G, data []byte, o model.Opt)) {
	c.Cases("many", c.N(200, 6000), func(g *gen.G) { // many packets in compressed data
		g.Tiny = true
		alg := g.Pick(0, 1, 2, 3)
		f(g, gen.Cat(g.Header(8, gen.Cat([]byte{alg}, g.Compress(alg, manyPackets(g, 100000))), false), gen.Plain(13, []byte("after"))), opts(g))
	})
	c.Cases("literal", c.N(256*6, 256*60), func(g *gen.G) {
		n := byte(c.K())
		if c.K()/256%2 == 0 {
			f(g, g.Header(11, gen.Cat([]byte{n, 1, 'x'}, gen.BE(4, uint64(g.U32())), g.Bytes(g.Size(300))), true), opts(g))
			return
		}
		name := make([]byte, n)
		for i := range name {
			name[i] = byte(0x20 + g.Intn(95))
		}
		f(g, g.Header(11, gen.Cat([]byte{'b', n}, name, gen.BE(4, uint64(g.U32())), g.Bytes(g.Size(300))), true), opts(g))
	})
	c.Cases("texts", c.N(0x3200, 0x11000), func(g *gen.G) { // every rune of the first planes
		r := rune(c.K())
		s := "a" + string(r) + "b"
		if r >= 0xd800 && r < 0xe000 {
			s = string([]byte{0xed, byte(0xa0 | r>>6&0x1f), byte(0x80 | r&0x3f)})
		}
		b := gen.Plain(13, []byte(s))
		if g.One(2) {
			b = gen.Plain(11, gen.Cat([]byte{'u', byte(len(s))}, []byte(s), []byte{0, 0, 0, 0}, []byte(s)))
		}
		f(g, b, opts(g))
	})
	c.Cases("image", c.N(3000, 60000), func(g *gen.G) {
		k := int(c.K())
		hl := k % 600
		n := hl + g.Size(300)
		if n < 3 {
			n = 3 + g.Intn(300)
		}
		b := g.Bytes(n)
		b[0], b[1], b[2] = byte(hl), byte(hl>>8), g.Pick(1, 1, 2, 100, 110, 99, 111, 0)
		b = append([]byte{1}, b...)
		f(g, g.Header(17, gen.Cat(g.SubLen(len(b)), b), true), opts(g))
	})
	c.Cases("sizes", c.N(3600, 40000), func(g *gen.G) {
		n := around(g, 7, 18)
		if g.One(100) {
			n = around(g, 19, 22)
		}
		var b []byte
		t := g.PickI(13, 13, 11, 17, 17, 10, 12, 8)
		switch t {
		case 13:
			b = letters(g, n)
		case 11:
			name := letters(g, g.PickI(0, 1, 8, 255))
			b = gen.Cat([]byte{g.Pick('b', 't', 'u', 'm'), byte(len(name))}, name, gen.BE(4, uint64(g.U32())))
			if g.One(2) {
				b = append(b, noise(g, n)...)
			} else {
				b = append(b, letters(g, n)...)
			}
		case 17:
			for {
				var x []byte
				if g.One(4) {
					x = append([]byte{g.Pick(0, 2, 100, 110)}, noise(g, n)...)
				} else {
					hl := g.PickI(16, 16, 16, 3, 17, 300, min(n, 65535))
					h := append([]byte{byte(hl), byte(hl >> 8), g.Pick(1, 1, 100, 110), 1}, make([]byte, max(12, hl-4))...)[:max(hl, 3)]
					x = gen.Cat([]byte{1}, h, noise(g, n))
				}
				b = append(b, gen.Cat(g.SubLen(len(x)), x)...)
				if len(b) > 1<<19 || g.One(2) {
					break
				}
			}
		case 10, 12:
			b = noise(g, n)
		case 8:
			in := gen.Plain(g.PickI(11, 13, 60), gen.Cat([]byte{'b', 0, 0, 0, 0, 0}, letters(g, n)))
			if g.One(2) {
				in = append(in, gen.Plain(13, []byte("behind"))...)
			}
			b = g.Comp(in)
		}
		f(g, g.Header(t, b, g.One(2)), opts(g))
	})
	c.Cases("compression", c.N(6000, 100000), func(g *gen.G) {
		in := g.Stream(1+g.Intn(8), 1, nil)
		if g.One(20) {
			in = gen.Cat(in, gen.Plain(11, gen.Cat([]byte{'b', 0, 0, 0, 0, 0}, g.Bytes(g.PickI(32767, 32768, 32769, 65536, 100000, 300000)))))
		}
		alg := byte(c.K() % 4)
		z := gen.Cat([]byte{alg}, g.Compress(alg, in))
		if g.One(10) {
			z = append(z, g.Bytes(g.Intn(5))...) // after the end of the compressed data
		}
		tail := g.Stream(g.Intn(3), 1, nil)
		f(g, gen.Cat(g.Header(8, z, len(tail) == 0), tail), opts(g))
	})
}

// --- C02

func framesOnly(ns []*model.Node) (out []*model.Node) {
	for _, n := range ns {
		x := &model.Node{Name: n.Name, Note: n.Note, Dump: n.Dump}
		if tagOf(n) == 8 {
			for _, m := range n.Items {
				if tagOf(m) >= 0 {
					x.Items = append(x.Items, &model.Node{Name: m.Name, Note: m.Note, Dump: m.Dump})
				}
			}
		}
		out = append(out, x)
	}
	return
}

func init() {
	checks["C02"] = &Check{
		Rule: "packet sequences with headers of every format and length encoding, partial body chains and indeterminate length, of 0 to 60 packets, sizes at and around each boundary of the length encodings; the list of packets the tool shows (name, size, with --debug the body's octets; also inside compressed packets) is compared with an independent splitter; non-trivial: well-formed sequences with at least one packet, distinct by octets and options",
		Need: []string{"packets listed", "partial or five-octet lengths"},
		Run: func(c *Ctx) {
			f := func(g *gen.G, data []byte) {
				if looksArmored(data) {
					return
				}
				o := opts(g)
				want := model.Dump(data, o)
				fs, ok := model.Frames(data)
				got := decode(g, data, o, g.One(3))
				if got.panic != "" {
					c.FailIn("panic: "+got.panic, data, "how", got.how)
					return
				}
				if want.Err || want.Unspec != "" || !ok {
					c.Count("malformed (left to C09)")
					return
				}
				if got.err || got.bad != "" {
					c.FailIn("well-formed input is not shown: "+got.bad, data, "how", got.how)
					return
				}
				if len(fs) != len(got.ns) {
					c.FailIn(fmt.Sprintf("%d packets listed, %d present", len(got.ns), len(fs)), data, "how", got.how)
					return
				}
				if s := model.Diff("", framesOnly(want.Packets), framesOnly(got.ns)); s != "" {
					c.FailIn(s, data, "how", got.how)
					return
				}
				if len(fs) > 0 {
					c.Seen(data, []byte(optString(o)))
				}
				c.Add("packets listed", len(fs))
				if bytes.IndexByte(data, 255) >= 0 {
					c.Count("partial or five-octet lengths")
				}
				if c.WantSample() && len(data) < 200 && len(fs) > 1 {
					c.Sample("%s <- %x: %d packets", got.how, data, len(fs))
				}
			}
			inert := gen.Weights{12, 13, 9, 10, 60, 61, 62, 63, 0, 15, 16, 21, 30, 40, 59, 19, 18}
			c.Cases("inert", c.N(60000, 2000000), func(g *gen.G) { f(g, g.Stream(g.Intn(12), 1, inert)) })
			c.Cases("mixed", c.N(20000, 1000000), func(g *gen.G) { f(g, g.Stream(g.Intn(8), 2, nil)) })
			c.Cases("many", c.N(200, 4000), func(g *gen.G) { f(g, g.Stream(g.Near(1, 3000, 20+g.Intn(600)), 0, inert)) })
			c.Cases("sizes", c.N(64*80, 64*2000), func(g *gen.G) { // every tag at sizes around each boundary
				t := int(c.K()) % 64
				if t == 1 || t == 2 || t == 3 || t == 4 || t == 5 || t == 6 || t == 7 || t == 8 || t == 14 || t == 17 || t == 20 {
					f(g, gen.Cat(g.Header(t, g.Body(t, 1), false), gen.Plain(10, []byte("PGP"))))
					return
				}
				s := []int{0, 1, 190, 191, 192, 193, 254, 255, 256, 257, 447, 448, 511, 512, 513, 1023, 1024, 8382, 8383, 8384, 8385, 16383, 16384, 65534, 65535, 65536, 65537, 131072}
				b := g.Bytes(g.Near(0, 200000, s[int(c.K())/64%len(s)]))
				if t == 11 {
					b = gen.Cat([]byte{'b', 0, 0, 0, 0, 0}, b)
				}
				f(g, gen.Cat(g.Header(t, b, false), g.Header(10, []byte("PGP"), true)))
			})
			c.Cases("partial", c.N(3000, 60000), func(g *gen.G) {
				t := inert[g.Intn(len(inert))]
				b := g.Bytes(g.PickI(0, 1, 2, 3, 511, 512, 513, 1000, 5000, 192, 8384, 70000, g.Intn(3000)))
				k := uint(g.Intn(17))
				if len(b)>>k > 5000 {
					k = 6
				}
				f(g, gen.Cat(gen.PartialChain(t, b, k), gen.Plain(10, []byte("PGP"))))
			})
			c.Cases("very many", c.N(8, 60), func(g *gen.G) {
				n := g.Near(700, 400000, []int{65530, 65537, 131073, 40000, 99999, 270000, 66000, 10001}[c.K()%8])
				var b bytes.Buffer
				for i := 0; i < n; i++ {
					t := inert[g.Intn(len(inert))]
					b.Write(gen.Plain(t, g.Bytes(g.Intn(3))))
				}
				data := b.Bytes()
				if c.K() >= 4 { // and in a compressed packet
					data = gen.Cat(gen.Plain(8, gen.Cat([]byte{0}, data)), gen.Plain(13, []byte("last")))
				}
				o := model.Opt{UTC: true, Int: c.K()%2 == 0}
				want := model.Dump(data, o)
				ns, err, p := lib(data, o, false)
				if err != nil || p != "" {
					c.Fail(fmt.Sprintf("%d packets are not listed: %v %s", n, err, p))
				} else if s := model.Diff("", framesOnly(want.Packets), framesOnly(ns)); s != "" {
					c.Fail(fmt.Sprintf("%d packets: %s", n, s))
				}
				c.Seen(data[:100])
				c.Add("packets listed", n)
				c.Add("packets listed of very many", n)
			})
			c.Cases("large", c.N(24, 200), func(g *gen.G) {
				b := g.Bytes(g.Near(70000, 40<<20, g.PickI(1<<20, 1<<20+1, 1<<21-1, 3000000, 1<<22+1, 1<<23+9, 1<<24+1)))
				f(g, gen.Cat(g.Header(60, b, false), gen.Plain(13, []byte("after")), g.Header(11, gen.Cat([]byte{'b', 0, 0, 0, 0, 0}, b), true)))
			})
		},
	}
}

// --- C09

func init() {
	checks["C09"] = &Check{
		Rule: "fault enumeration: well-formed inputs of every kind are cut at every octet (long ones at sampled octets and around structure boundaries), cut inside nested data with all outer lengths repaired (subpacket areas, embedded signatures, key blocks, compressed data of each algorithm, version 5 fields), or damaged; an independent decoder says whether what remains is complete; the command must refuse (non-zero status, message, empty standard output; with --debug a message instead of a dump) or accept accordingly; non-trivial: inputs that have to be refused, distinct by octets",
		Need: []string{"had to be refused and was", "had to be accepted and was", "cut points"},
		Run: func(c *Ctx) {
			f := func(g *gen.G, data []byte, where string) {
				if looksArmored(data) {
					return
				}
				o := opts(g)
				o.Debug = g.One(20)
				want := model.Dump(data, o)
				if want.Unspec != "" {
					c.Count("unspecified layout")
					return
				}
				got := decode(g, data, o, g.One(2))
				switch {
				case got.panic != "":
					c.FailIn("panic: "+got.panic, data, "how", got.how)
				case got.bad != "":
					c.FailIn(where+": "+got.bad, data, "how", got.how)
				case want.Err && !got.err:
					c.FailIn(where+": incomplete or malformed input ("+want.Why+") is passed off as complete", data, "how", got.how)
				case !want.Err && got.err:
					c.FailIn(where+": complete, well-formed input is refused", data, "how", got.how)
				case want.Err:
					c.Count("had to be refused and was")
					c.Seen(data)
					if c.WantSample() && len(data) < 100 {
						c.Sample("%s <- %x: refused (%s)", got.how, data, want.Why)
					}
				default:
					c.Count("had to be accepted and was")
				}
			}
			before := func(g *gen.G) []byte { // packets in front
				var b []byte
				for i := 1 + g.Intn(3); i > 0; i-- {
					t := g.PickI(13, 1, 3, 3, 6, 5, 2, 4, 14, 18, 11, 9)
					x := g.Body(t, 0)
					if len(x) > 3000 {
						t, x = 13, []byte("x")
					}
					b = append(b, g.Header(t, x, false)...)
				}
				return b
			}
			c.Cases("cuts", c.N(2400, 60000), func(g *gen.G) {
				g.Max = 60
				t := gen.All[int(c.K())%len(gen.All)]
				data := g.Header(t, g.Body(t, 2), g.One(2))
				if g.One(3) {
					data = append(before(g), data...)
				}
				step := 1
				if len(data) > 300 {
					step = len(data)/150 + 1
				}
				for i := 0; i < len(data); i++ {
					if i > 60 && (i+int(c.K()))%step != 0 {
						continue
					}
					c.mark()
					c.Evals++
					c.Count("cut points")
					f(g, data[:i], "cut")
				}
				f(g, data, "whole")
			})
			c.Cases("nested cuts", c.N(30000, 1000000), func(g *gen.G) {
				g.Max = 60
				c.Count("cut points")
				cut := func(b []byte) []byte {
					if g.One(6) || len(b) == 0 {
						return b
					}
					if g.One(2) {
						return b[:len(b)-1-g.Intn(min(len(b), 6))]
					}
					return b[:g.Intn(len(b))]
				}
				var data []byte
				var where string
				sig := func(t byte, in []byte) []byte {
					b := append([]byte{t}, in...)
					a, z := gen.Cat(g.SubLen(len(b)), b), []byte(nil)
					if g.One(2) {
						a, z = z, a
					}
					return gen.Cat([]byte{4, 0x18, 1, 8}, gen.BE(2, uint64(len(a))), a, gen.BE(2, uint64(len(z))), z, []byte{1, 2}, g.MPIBits(8))
				}
				switch g.Intn(9) {
				case 0:
					where = "inside compressed data"
					alg := g.Pick(0, 1, 2, 3)
					data = g.Header(8, gen.Cat([]byte{alg}, g.Compress(alg, cut(g.Stream(1+g.Intn(2), 1, nil)))), true)
				case 1:
					where = "compressed stream"
					alg := g.Pick(1, 2, 3)
					data = g.Header(8, gen.Cat([]byte{alg}, cut(g.Compress(alg, g.Stream(1, 1, nil)))), true)
				case 2:
					where = "embedded signature"
					s := g.Sig(1)
					if len(s) > 20000 {
						return
					}
					data = g.Header(2, sig(32, cut(s)), true)
				case 3:
					where = "key block"
					data = g.Header(2, sig(38, gen.Cat([]byte{0}, cut(g.KeyBlock(1, 4)))), true)
				case 4:
					where = "subpacket"
					t := gen.SubTypes[g.Intn(len(gen.SubTypes))]
					data = g.Header(2, sig(t, cut(g.SubBody(t, 1))), true)
				case 5:
					where = "subpacket area"
					a := cut(g.Area(1, 20000))
					data = g.Header(2, gen.Cat([]byte{4, 0x18, 1, 8}, gen.BE(2, uint64(len(a))), a, []byte{0, 0, 1, 2}, g.MPIBits(8)), true)
				case 6:
					where = "user attribute"
					data = g.Header(17, cut(g.Attr()), true)
				case 7:
					where = "packet body"
					t := gen.All[g.Intn(len(gen.All))]
					data = g.Header(t, cut(g.Body(t, 2)), true)
				case 8:
					where = "signature in key block in compressed data"
					alg := g.Pick(0, 1, 2, 3)
					data = g.Header(8, gen.Cat([]byte{alg}, g.Compress(alg, g.Header(2, sig(38, gen.Cat([]byte{0}, g.Header(2, cut(g.Sig(0)), true))), g.One(2)))), true)
				}
				if g.One(4) {
					data = append(data, g.Stream(1, 1, nil)...)
				}
				if g.One(4) {
					data = append(before(g), data...)
				}
				f(g, data, where)
			})
			every := func(g *gen.G, n int, try func(i int)) { // every offset below n; the first ones and a spread of a long one's
				step := 1
				if n > 260 {
					step = n/130 + 1
				}
				for i := 0; i < n; i++ {
					if i > 70 && n-i > 12 && (i+int(c.K()))%step != 0 {
						continue
					}
					c.mark()
					c.Evals++
					c.Count("cut points")
					try(i)
				}
			}
			c.Cases("body cuts", c.N(4000, 100000), func(g *gen.G) { // the body ends early, the header says so
				g.Max = 30
				t := gen.All[int(c.K())%len(gen.All)]
				if g.One(3) {
					t = g.PickI(5, 5, 2, 6)
				}
				b := g.Body(t, 1)
				after := []byte(nil)
				if g.One(3) {
					after = gen.Plain(13, []byte("after"))
				}
				var first []byte
				if g.One(2) {
					first = before(g)
				}
				every(g, len(b), func(i int) { f(g, gen.Cat(first, gen.Plain(t, b[:i]), after), "body cut") })
			})
			c.Cases("algorithm cuts", c.N(256*6, 256*60), func(g *gen.G) { // the same for each public key algorithm and version
				g.Max, g.Tiny = 12, true
				a := byte(c.K())
				g.AlgIs = &a
				k := int(c.K()) / 256
				g.VersionIs = []byte{5, 4, 3}[k%3]
				t := g.PickI(1, 2, 5, 5, 7, 6, 14)
				b := g.Body(t, 0)
				if len(b) > 150 {
					b = b[:150]
				}
				every(g, len(b)+1, func(i int) { f(g, gen.Plain(t, b[:i]), "algorithm cut") })
			})
			c.Cases("integer cuts", c.N(2500, 60000), func(g *gen.G) { // integers of any size, cut
				g.Max, g.Tiny, g.Wide = 40, false, true
				t := []int{1, 2, 5, 6, 7, 14}[c.K()%6]
				a := g.Pick(1, 2, 3, 16, 17, 18, 19, 20, 22, 18)
				g.AlgIs = &a
				b := g.Body(t, 0)
				var first []byte
				if g.One(3) {
					first = before(g)
				}
				for j := 0; j < 14; j++ {
					i := len(b) - g.Intn(len(b)+1)
					if g.One(3) {
						i = len(b) - g.Intn(min(len(b), 40)+1)
					}
					c.mark()
					c.Evals++
					c.Count("cut points")
					f(g, gen.Cat(first, gen.Plain(t, b[:i])), "integer cut")
				}
			})
			c.Cases("subpacket cuts", c.N(3000, 100000), func(g *gen.G) { // every subpacket type's body ends early, all lengths say so
				g.Max = 30
				t := gen.SubTypes[int(c.K())%len(gen.SubTypes)]
				b := g.SubBody(t, 1)
				if len(b) > 3000 {
					return
				}
				every(g, len(b)+1, func(i int) {
					a := gen.Cat(g.SubLen(i+1), []byte{t | g.Pick(0, 0x80)}, b[:i])
					var z []byte
					if g.One(2) {
						z = []byte{2, 25, 1}
					}
					if g.One(2) {
						a = append(a, 2, 25, 1)
					}
					if g.One(2) {
						a, z = z, a
					}
					f(g, gen.Plain(2, gen.Cat([]byte{g.Pick(4, 4, 5), 0x18, 1, 8}, gen.BE(2, uint64(len(a))), a, gen.BE(2, uint64(len(z))), z, []byte{1, 2}, g.MPIBits(8))), "subpacket cut")
				})
			})
			c.Cases("attribute cuts", c.N(800, 20000), func(g *gen.G) { // the same in a user attribute
				t := byte(1)
				b := gen.Cat([]byte{16, 0, 1, g.Pick(1, 1, 2, 100, 110)}, make([]byte, 12), g.Bytes(g.Intn(40)))
				if g.One(3) {
					b = g.Bytes(g.Intn(50))
				}
				if g.One(8) {
					t = g.Byte()
				}
				every(g, len(b)+1, func(i int) {
					a := gen.Cat(g.SubLen(i+1), []byte{t}, b[:i])
					if g.One(2) {
						a = append(a, 2, 100, 1)
					}
					f(g, gen.Plain(17, a), "attribute cut")
				})
			})
			c.Cases("between", c.N(8000, 200000), func(g *gen.G) { // something that is no packet before, between or behind packets
				g.Max = 60
				var b []byte
				junk := []byte{g.Pick(0, 0, '\n', '\r', ' ', 0x7f, 0x40, 0x1a, byte(g.Intn(128)))}
				if g.One(3) {
					junk = append(junk, g.Pick(0, '\n', junk[0]))
				}
				if g.One(8) {
					junk = nil
				}
				n := g.Intn(3)
				at := g.Intn(n + 1)
				for i := 0; i <= n; i++ {
					if i == at {
						b = append(b, junk...)
					}
					if i < n {
						t := g.PickI(13, 11, 2, 6, 10, 60, 17, 18)
						x := g.Body(t, 0)
						if len(x) > 3000 {
							t, x = 13, []byte("x")
						}
						b = append(b, g.Header(t, x, false)...)
					}
				}
				where := "no packet at the top"
				switch g.Intn(4) {
				case 0:
					where = "no packet in compressed data"
					alg := g.Pick(0, 0, 1, 2, 3)
					b = g.Header(8, gen.Cat([]byte{alg}, g.Compress(alg, b)), g.One(2))
				case 1:
					where = "no packet in a key block"
					k := append([]byte{38, 0}, b...)
					a := gen.Cat(g.SubLen(len(k)), k)
					if len(a) > 60000 {
						return
					}
					b = g.Header(2, gen.Cat([]byte{4, 0x18, 1, 8}, gen.BE(2, uint64(len(a))), a, []byte{0, 0, 1, 2}, g.MPIBits(8)), g.One(2))
				}
				f(g, b, where)
			})
			c.Cases("octets", c.N(3000, 100000), func(g *gen.G) { // one octet of a body is another: lengths, counts, versions
				g.Max = 30
				t := gen.All[int(c.K())%len(gen.All)]
				b := g.Body(t, 1)
				every(g, len(b), func(i int) {
					x := append([]byte(nil), b...)
					switch g.Intn(6) {
					case 0:
						x[i]++
					case 1:
						x[i]--
					case 2:
						x[i] = 0xff
					case 3:
						x[i] = 0
					case 4:
						x[i] ^= 1 << uint(g.Intn(8))
					case 5:
						x[i] = g.Byte()
					}
					f(g, gen.Plain(t, x), "octet")
				})
			})
			c.Cases("damaged", c.N(60000, 2000000), func(g *gen.G) {
				g.Max = 100
				f(g, g.Damage(g.Stream(1+g.Intn(3), 2, nil)), "damaged")
			})
			c.Cases("whole", c.N(20000, 500000), func(g *gen.G) { f(g, g.Stream(1+g.Intn(4), 2, nil), "whole") })
			c.Cases("lengths", c.N(20000, 300000), func(g *gen.G) { // announced length against what is there
				n := g.Size(9000)
				have := n
				if g.One(3) {
					have = g.Intn(n + 1)
				}
				t := g.PickI(13, 60, 40, 9, 10, 12)
				h := g.Header(t, make([]byte, n), false)
				if have < n && len(h) > n-have {
					h = h[:len(h)-(n-have)]
				}
				f(g, h, "length")
			})
		},
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// --- C13

var zones = []string{"UTC", "Asia/Tokyo", "America/New_York", "Europe/Berlin", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia", "America/St_Johns", "Pacific/Chatham", "Africa/Casablanca", "America/Sao_Paulo", "Asia/Kathmandu"}

func zone(g *gen.G) *time.Location {
	switch g.Intn(4) {
	case 0:
		return time.UTC
	case 1:
		off := (g.Intn(26*4) - 12*4) * 900
		return time.FixedZone(fmt.Sprintf("fixed%+d", off), off)
	}
	if l, err := time.LoadLocation(zones[g.Intn(len(zones))]); err == nil {
		return l
	}
	return time.FixedZone("JST", 9*3600)
}

func timesOf(ns []*model.Node) (out []*model.Node) {
	model.Walk(ns, func(n *model.Node) {
		if strings.HasSuffix(n.Name, "reation time") || strings.HasPrefix(n.Name, "Signature Creation Time") || strings.HasPrefix(n.Name, "Signature Expiration Time") ||
			strings.HasPrefix(n.Name, "Key Expiration Time") || n.Name == "Valid days" {
			out = append(out, &model.Node{Name: n.Name, Value: n.Value, Note: n.Note})
		}
	})
	return
}

func init() {
	checks["C13"] = &Check{
		Rule: "keys, signatures and literal data with times over the whole 32-bit range (boundaries, leap days, daylight-saving changes, random), expirations with and without their creation time, in key and signature histories, embedded signatures and key blocks; shown in UTC or in a random local time zone; all time items are compared in order with dates computed by hand from the proleptic calendar; non-trivial: inputs with a time item, distinct by octets, options and zone",
		Need: []string{"times compared", "expiration dates compared", "times in a zone other than UTC"},
		Run: func(c *Ctx) {
			defer func(l *time.Location) { time.Local = l }(time.Local)
			f := func(g *gen.G, data []byte) {
				o := opts(g)
				o.Loc = zone(g)
				time.Local = o.Loc
				if looksArmored(data) {
					return
				}
				want := model.Dump(data, o)
				if want.Err || want.Unspec != "" {
					return
				}
				got := decode(g, data, o, g.One(3))
				if got.panic != "" || got.err || got.bad != "" {
					c.FailIn("well-formed input is not shown: "+got.panic+got.bad, data, "how", got.how, "zone", o.Loc.String())
					return
				}
				w := timesOf(want.Packets)
				if s := model.Diff("", w, timesOf(got.ns)); s != "" {
					c.FailIn(s, data, "how", got.how, "zone", o.Loc.String())
					return
				}
				if len(w) > 0 {
					c.Seen(data, []byte(optString(o)))
				}
				for _, n := range w {
					c.Count("times compared")
					if strings.Contains(n.Name, "Expiration") && n.Note != "" {
						c.Count("expiration dates compared")
					}
					if !strings.HasSuffix(n.Value, "Z") && strings.Contains(n.Value, "T") {
						c.Count("times in a zone other than UTC")
					}
				}
				if c.WantSample() && len(w) > 1 && len(data) < 200 {
					c.Sample("%s in %s <- %x: %v", got.how, o.Loc, data, func() (s []string) {
						for _, n := range w {
							s = append(s, n.Name+": "+n.Value+" "+n.Note)
						}
						return
					}())
				}
			}
			sub := func(t byte, v uint32) []byte { return gen.Cat([]byte{5, t}, gen.BE(4, uint64(v))) }
			sigBody := func(g *gen.G, h, u []byte) []byte {
				return gen.Cat([]byte{g.Pick(4, 4, 5), 0x13, 1, 8}, gen.BE(2, uint64(len(h))), h, gen.BE(2, uint64(len(u))), u, []byte{1, 2}, g.MPIBits(8))
			}
			var subs func(g *gen.G, depth int) []byte
			subs = func(g *gen.G, depth int) (a []byte) {
				for i := g.Intn(5); i > 0; i-- {
					switch g.Intn(9) {
					case 0, 1, 2:
						a = append(a, sub(g.Pick(2, 0x82), g.U32())...)
					case 3, 4:
						a = append(a, sub(g.Pick(3, 0x83), g.U32())...)
					case 5, 6:
						a = append(a, sub(g.Pick(9, 0x89), g.U32())...)
					case 7:
						if depth > 0 {
							b := append([]byte{32}, sigBody(g, subs(g, depth-1), subs(g, depth-1))...)
							if len(b) < 8000 {
								a = append(a, gen.Cat(g.SubLen(len(b)), b)...)
							}
						}
					case 8:
						if depth > 0 {
							b := []byte{38, 0}
							if g.One(2) {
								b = append(b, gen.Plain(6, gen.Cat([]byte{4}, gen.BE(4, uint64(g.U32())), []byte{1}, g.MPIBits(9), g.MPIBits(2)))...)
							}
							b = append(b, gen.Plain(2, sigBody(g, subs(g, depth-1), nil))...)
							if len(b) < 8000 {
								a = append(a, gen.Cat(g.SubLen(len(b)), b)...)
							}
						}
					}
				}
				return
			}
			packet := func(g *gen.G) []byte {
				switch g.Intn(10) {
				case 0, 1:
					v := g.Pick(4, 4, 5, 3)
					b := gen.Cat([]byte{v}, gen.BE(4, uint64(g.U32())))
					if v == 3 {
						b = append(b, gen.BE(2, uint64(g.Intn(65536)))...)
					}
					m := gen.Cat(g.MPIBits(9), g.MPIBits(2))
					b = append(b, 1)
					if v == 5 {
						b = append(b, gen.BE(4, uint64(len(m)))...)
					}
					return gen.Plain(g.PickI(6, 14), append(b, m...))
				case 2:
					return gen.Plain(g.PickI(5, 7), gen.Cat([]byte{4}, gen.BE(4, uint64(g.U32())), []byte{1}, g.MPIBits(9), g.MPIBits(2), []byte{254, 9, 101, 'G', 'N', 'U', 1}))
				case 3:
					return gen.Plain(11, gen.Cat([]byte{'b', 0}, gen.BE(4, uint64(g.U32())), []byte("x")))
				case 4:
					return gen.Plain(2, gen.Cat([]byte{3, 5, 0}, gen.BE(4, uint64(g.U32())), g.Bytes(8), []byte{1, 8, 1, 2}, g.MPIBits(9)))
				case 5:
					return gen.Plain(13, []byte("Alice"))
				}
				return gen.Plain(2, sigBody(g, subs(g, 2), subs(g, 2)))
			}
			c.Cases("histories", c.N(60000, 2000000), func(g *gen.G) {
				var b []byte
				for i := 1 + g.Intn(7); i > 0; i-- {
					p := packet(g)
					if g.One(12) {
						p = gen.Plain(8, g.Comp(gen.Cat(p, packet(g))))
					}
					b = append(b, p...)
				}
				f(g, b)
			})
			c.Cases("range", c.N(40000, 2000000), func(g *gen.G) { // spread over the whole range
				t := uint32(uint64(c.K()) * (1 << 32) / uint64(c.N(40000, 2000000)))
				t += uint32(g.Intn(100000))
				e := g.U32()
				f(g, gen.Cat(gen.Plain(6, gen.Cat([]byte{4}, gen.BE(4, uint64(t)), []byte{1}, g.MPIBits(9), g.MPIBits(2))),
					gen.Plain(2, sigBody(g, gen.Cat(sub(2, t^g.U32()), sub(3, e), sub(9, e+g.U32())), nil))))
			})
			c.Cases("mixed", c.N(15000, 500000), func(g *gen.G) { f(g, g.Stream(1+g.Intn(5), 2, gen.Weights{2, 2, 2, 6, 14, 5, 11, 8, 13})) })
		},
	}
}
