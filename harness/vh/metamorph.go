package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	pcontext "github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"

	"verif/gen"
	"verif/model"
)

// --- C08

func init() {
	type ctxt struct {
		name string
		f    func(g *gen.G, n byte) []byte
	}
	sub := func(t byte, in ...byte) []byte {
		b := append([]byte{t}, in...)
		a := append([]byte{byte(len(b))}, b...)
		return gen.Plain(2, gen.Cat([]byte{4, 0x13, 1, 8}, gen.BE(2, uint64(len(a))), a, []byte{0, 0, 1, 2, 0, 1, 1}))
	}
	usub := func(t byte, in ...byte) []byte {
		b := append([]byte{t}, in...)
		a := append([]byte{byte(len(b))}, b...)
		return gen.Plain(2, gen.Cat([]byte{4, 0x13, 1, 8, 0, 0}, gen.BE(2, uint64(len(a))), a, []byte{1, 2, 0, 1, 1}))
	}
	mat := func(g *gen.G) []byte { return gen.Cat(g.MPIBits(9), g.MPIBits(9), g.MPIBits(9), g.MPIBits(9)) }
	point := func(g *gen.G, n byte) []byte {
		bits := 0
		for t := n; t > 0; t >>= 1 {
			bits++
		}
		if bits == 0 {
			bits = 1
		}
		return gen.Cat(gen.BE(2, uint64(64+bits)), []byte{n}, g.Bytes(8))
	}
	p256 := []byte{8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7}
	sec := func(usage byte, opt ...byte) []byte {
		return gen.Plain(5, gen.Cat([]byte{4, 0, 0, 0, 1, 1, 0, 1, 1, 0, 1, 1, usage}, opt, make([]byte, 24)))
	}
	all := []ctxt{
		{"packet type, new format", func(g *gen.G, n byte) []byte { return gen.Plain(int(n&63), g.Body(int(n&63), 0)) }},
		{"packet type, old format", func(g *gen.G, n byte) []byte {
			b := g.Body(int(n&15), 0)
			return gen.Cat([]byte{0x80 | n&15<<2 | 2}, gen.BE(4, uint64(len(b))), b)
		}},
		{"public-key algorithm, session key", func(g *gen.G, n byte) []byte { return gen.Plain(1, gen.Cat([]byte{3}, g.Bytes(8), []byte{n}, mat(g))) }},
		{"public-key algorithm, signature v4", func(g *gen.G, n byte) []byte {
			return gen.Plain(2, gen.Cat([]byte{4, 0x13, n, 8, 0, 0, 0, 0, 1, 2}, mat(g)))
		}},
		{"public-key algorithm, signature v5", func(g *gen.G, n byte) []byte {
			return gen.Plain(2, gen.Cat([]byte{5, 0x13, n, 8, 0, 0, 0, 0, 1, 2}, mat(g)))
		}},
		{"public-key algorithm, signature v3", func(g *gen.G, n byte) []byte {
			return gen.Plain(2, gen.Cat([]byte{3, 5, 0, 0, 0, 0, 1}, g.Bytes(8), []byte{n, 8, 1, 2}, mat(g)))
		}},
		{"public-key algorithm, one-pass signature", func(g *gen.G, n byte) []byte { return gen.Plain(4, gen.Cat([]byte{3, 0, 8, n}, g.Bytes(8), []byte{1})) }},
		{"public-key algorithm, key v4", func(g *gen.G, n byte) []byte {
			return gen.Plain(6, gen.Cat([]byte{4, 0, 0, 0, 1, n}, g.PubMaterial(n)))
		}},
		{"public-key algorithm, key v3", func(g *gen.G, n byte) []byte {
			return gen.Plain(14, gen.Cat([]byte{3, 0, 0, 0, 1, 0, 0, n}, g.PubMaterial(n)))
		}},
		{"public-key algorithm, key v5", func(g *gen.G, n byte) []byte {
			m := g.PubMaterial(n)
			return gen.Plain(6, gen.Cat([]byte{5, 0, 0, 0, 1, n}, gen.BE(4, uint64(len(m))), m))
		}},
		{"public-key algorithm, revocation key", func(g *gen.G, n byte) []byte { return sub(12, append([]byte{0x80, n}, make([]byte, 20)...)...) }},
		{"public-key algorithm, signature target", func(g *gen.G, n byte) []byte { return sub(31, n, 8, 1, 2) }},
		{"revocation class", func(g *gen.G, n byte) []byte { return sub(12, append([]byte{n, 1}, make([]byte, 20)...)...) }},
		{"cipher, session key", func(g *gen.G, n byte) []byte { return gen.Plain(3, []byte{4, n, 0, 8}) }},
		{"cipher, secret key", func(g *gen.G, n byte) []byte { return sec(254, n, 0, 8) }},
		{"cipher, secret key usage octet", func(g *gen.G, n byte) []byte {
			if n == 0 {
				return gen.Plain(5, gen.Cat([]byte{4, 0, 0, 0, 1, 1, 0, 1, 1, 0, 1, 1, 0}, mat(g), []byte{1, 2}))
			}
			return sec(n, 0, 8)
		}},
		{"cipher, KDF", func(g *gen.G, n byte) []byte {
			return gen.Plain(6, gen.Cat([]byte{4, 0, 0, 0, 1, 18}, p256, point(g, 4), []byte{3, 1, 8, n}))
		}},
		{"cipher, preferences", func(g *gen.G, n byte) []byte { return sub(11, n, 9, n) }},
		{"cipher, AEAD data", func(g *gen.G, n byte) []byte { return gen.Plain(20, append([]byte{1, n, 1, 10}, make([]byte, 20)...)) }},
		{"hash, signature v4", func(g *gen.G, n byte) []byte {
			return gen.Plain(2, gen.Cat([]byte{4, 0x13, 1, n, 0, 0, 0, 0, 1, 2}, mat(g)))
		}},
		{"hash, signature v3", func(g *gen.G, n byte) []byte {
			return gen.Plain(2, gen.Cat([]byte{3, 5, 0, 0, 0, 0, 1}, g.Bytes(8), []byte{1, n, 1, 2}, mat(g)))
		}},
		{"hash, one-pass signature", func(g *gen.G, n byte) []byte { return gen.Plain(4, gen.Cat([]byte{3, 0, n, 1}, g.Bytes(8), []byte{1})) }},
		{"hash, S2K", func(g *gen.G, n byte) []byte {
			return gen.Plain(3, append([]byte{4, 9, g.Pick(0, 1, 3), n}, make([]byte, 12)...))
		}},
		{"hash, KDF", func(g *gen.G, n byte) []byte {
			return gen.Plain(6, gen.Cat([]byte{4, 0, 0, 0, 1, 18}, p256, point(g, 4), []byte{3, 1, n, 9}))
		}},
		{"KDF version", func(g *gen.G, n byte) []byte {
			return gen.Plain(6, gen.Cat([]byte{4, 0, 0, 0, 1, 18}, p256, point(g, 4), []byte{3, n, 8, 9}))
		}},
		{"hash, preferences", func(g *gen.G, n byte) []byte { return sub(21, n, 8) }},
		{"hash, signature target", func(g *gen.G, n byte) []byte { return sub(31, 1, n, 1, 2) }},
		{"compression, packet", func(g *gen.G, n byte) []byte {
			return gen.Plain(8, gen.Cat([]byte{n}, g.Compress(n, gen.Plain(13, []byte("x")))))
		}},
		{"compression, preferences", func(g *gen.G, n byte) []byte { return sub(22, n, 1) }},
		{"AEAD, packet", func(g *gen.G, n byte) []byte { return gen.Plain(20, append([]byte{1, 9, n, 10}, make([]byte, 20)...)) }},
		{"AEAD, secret key", func(g *gen.G, n byte) []byte { return sec(253, 9, n, 0, 8) }},
		{"AEAD, preferences", func(g *gen.G, n byte) []byte { return sub(34, n, 1) }},
		{"S2K, session key", func(g *gen.G, n byte) []byte { return gen.Plain(3, append([]byte{4, 9, n, 8}, make([]byte, 12)...)) }},
		{"S2K, secret key", func(g *gen.G, n byte) []byte { return sec(254, append([]byte{9, n, 8}, make([]byte, 12)...)...) }},
		{"S2K count", func(g *gen.G, n byte) []byte { return gen.Plain(3, []byte{4, 9, 3, 8, 1, 2, 3, 4, 5, 6, 7, 8, n}) }},
		{"GNU extension", func(g *gen.G, n byte) []byte { return sec(254, 9, 101, 'G', 'N', 'U', n, 1) }},
		{"usage", func(g *gen.G, n byte) []byte { return sec(n, 9, 1, 0, 8, 1, 2, 3) }},
		{"signature type, v4", func(g *gen.G, n byte) []byte {
			return gen.Plain(2, gen.Cat([]byte{4, n, 1, 8, 0, 0, 0, 0, 1, 2}, mat(g)))
		}},
		{"signature type, v5", func(g *gen.G, n byte) []byte {
			return gen.Plain(2, gen.Cat([]byte{5, n, 1, 8, 0, 0, 0, 0, 1, 2}, mat(g)))
		}},
		{"signature type, v3", func(g *gen.G, n byte) []byte {
			return gen.Plain(2, gen.Cat([]byte{3, 5, n, 0, 0, 0, 1}, g.Bytes(8), []byte{1, 8, 1, 2}, mat(g)))
		}},
		{"signature type, one-pass signature", func(g *gen.G, n byte) []byte { return gen.Plain(4, gen.Cat([]byte{3, n, 8, 1}, g.Bytes(8), []byte{1})) }},
		{"subpacket type, hashed", func(g *gen.G, n byte) []byte { return sub(n, g.SubBody(n, 0)...) }},
		{"subpacket type, unhashed", func(g *gen.G, n byte) []byte { return usub(n, g.SubBody(n, 0)...) }},
		{"subpacket type, attribute", func(g *gen.G, n byte) []byte {
			b := append([]byte{n, 16, 0, 1, 1}, make([]byte, 20)...)
			return gen.Plain(17, append([]byte{byte(len(b))}, b...))
		}},
		{"revocation reason", func(g *gen.G, n byte) []byte { return sub(29, n, 'w', 'h', 'y') }},
		{"exportable", func(g *gen.G, n byte) []byte { return sub(4, n) }},
		{"revocable", func(g *gen.G, n byte) []byte { return sub(7, n) }},
		{"primary", func(g *gen.G, n byte) []byte { return sub(25, n) }},
		{"trust", func(g *gen.G, n byte) []byte { return sub(5, n, 255-n) }},
		{"key flags 1", func(g *gen.G, n byte) []byte { return sub(27, n) }},
		{"key flags 2", func(g *gen.G, n byte) []byte { return sub(27, 0, n) }},
		{"key flags 3", func(g *gen.G, n byte) []byte { return sub(27, 0, 0, n) }},
		{"features", func(g *gen.G, n byte) []byte { return sub(30, n) }},
		{"key server preferences", func(g *gen.G, n byte) []byte { return sub(23, n) }},
		{"notation flags", func(g *gen.G, n byte) []byte { return sub(20, n, 0, 0, 0, 0, 1, 0, 1, 'n', 'v') }},
		{"literal format", func(g *gen.G, n byte) []byte { return gen.Plain(11, []byte{n, 0, 0, 0, 0, 1, 'x'}) }},
		{"one-pass flag", func(g *gen.G, n byte) []byte { return gen.Plain(4, gen.Cat([]byte{3, 0, 8, 1}, g.Bytes(8), []byte{n})) }},
		{"point format, ECDH key", func(g *gen.G, n byte) []byte {
			return gen.Plain(6, gen.Cat([]byte{4, 0, 0, 0, 1, 18}, p256, point(g, n), []byte{3, 1, 8, 9}))
		}},
		{"point format, ECDSA key", func(g *gen.G, n byte) []byte {
			return gen.Plain(6, gen.Cat([]byte{4, 0, 0, 0, 1, 19}, p256, point(g, n)))
		}},
		{"point format, EdDSA key", func(g *gen.G, n byte) []byte {
			return gen.Plain(6, gen.Cat([]byte{4, 0, 0, 0, 1, 22}, p256, point(g, n)))
		}},
		{"point format, session key", func(g *gen.G, n byte) []byte {
			return gen.Plain(1, gen.Cat([]byte{3}, g.Bytes(8), []byte{18}, point(g, n), []byte{2, 1, 2}))
		}},
		{"curve", func(g *gen.G, n byte) []byte {
			o := model.Curves[int(n)%len(model.Curves)].OID
			if n >= 128 {
				o = append([]byte(nil), o...)
				o[len(o)-1] += n & 7
			}
			return gen.Plain(6, gen.Cat([]byte{4, 0, 0, 0, 1, 19, byte(len(o))}, o, point(g, 4)))
		}},
		{"version, session key", func(g *gen.G, n byte) []byte { return gen.Plain(1, gen.Cat([]byte{n}, g.Bytes(8), []byte{1}, mat(g))) }},
		{"version, signature", func(g *gen.G, n byte) []byte {
			if n == 3 {
				n = 2
			}
			return gen.Plain(2, gen.Cat([]byte{n, 0x13, 1, 8, 0, 0, 0, 0, 1, 2}, mat(g)))
		}},
		{"version, symmetric session key", func(g *gen.G, n byte) []byte { return gen.Plain(3, []byte{n, 9, 0, 8}) }},
		{"version, one-pass signature", func(g *gen.G, n byte) []byte { return gen.Plain(4, gen.Cat([]byte{n, 0, 8, 1}, g.Bytes(8), []byte{1})) }},
		{"version, key", func(g *gen.G, n byte) []byte {
			if n == 5 {
				return gen.Plain(6, []byte{5, 0, 0, 0, 1, 1, 0, 0, 0, 6, 0, 1, 1, 0, 1, 1})
			}
			return gen.Plain(6, []byte{n, 0, 0, 0, 1, 1, 0, 1, 1, 0, 1, 1, 0, 1, 1})
		}},
		{"version, AEAD data", func(g *gen.G, n byte) []byte { return gen.Plain(20, append([]byte{n, 9, 1, 10}, make([]byte, 20)...)) }},
		{"chunk size", func(g *gen.G, n byte) []byte { return gen.Plain(20, append([]byte{1, 9, 1, n}, make([]byte, 20)...)) }},
		{"version, fingerprint", func(g *gen.G, n byte) []byte { return sub(33, append([]byte{n}, make([]byte, 20)...)...) }},
		{"version, recipient", func(g *gen.G, n byte) []byte { return sub(35, append([]byte{n}, make([]byte, 32)...)...) }},
		{"version, image", func(g *gen.G, n byte) []byte {
			b := append([]byte{1, 16, 0, n, 1}, make([]byte, 20)...)
			return gen.Plain(17, append([]byte{byte(len(b))}, b...))
		}},
		{"encoding, image", func(g *gen.G, n byte) []byte {
			b := append([]byte{1, 16, 0, g.Pick(1, 100, 105, 110), n}, make([]byte, 20)...)
			return gen.Plain(17, append([]byte{byte(len(b))}, b...))
		}},
	}
	checks["C08"] = &Check{
		Rule: fmt.Sprintf("exhaustive sweep: all 256 values of each of %d code fields in their contexts, several times with different surroundings and options; names, values and notes shown are compared with tables written from the specification; non-trivial: every pair of context and value whose layout is specified", len(all)),
		Need: []string{"codes compared"},
		Run: func(c *Ctx) {
			per := c.N(16, 300)
			c.Cases("sweep", len(all)*256*per, func(g *gen.G) {
				k := int(c.K())
				x, n := all[k/256%len(all)], byte(k)
				data := x.f(g, n)
				switch g.Intn(8) { // elsewhere
				case 0:
					data = gen.Plain(8, g.Comp(data))
				case 1:
					b := gen.Cat([]byte{38, 0}, data)
					if len(b) < 60000 {
						a := gen.Cat(g.SubLen(len(b)), b)
						data = gen.Plain(2, gen.Cat([]byte{4, 0x13, 1, 8}, gen.BE(2, uint64(len(a))), a, []byte{0, 0, 1, 2, 0, 1, 1}))
					}
				case 2: // a packet of the same kind in front
					data = gen.Cat(x.f(g, byte(g.Intn(256))), data)
				case 3:
					data = gen.Cat(g.Stream(1, 0, nil), data)
				}
				o := opts(g)
				if looksArmored(data) {
					return
				}
				want := model.Dump(data, o)
				if want.Err || want.Unspec != "" {
					c.Count("layout not specified for this value")
					return
				}
				got := decode(g, data, o, g.One(2))
				if got.panic != "" || got.err || got.bad != "" {
					c.FailIn(fmt.Sprintf("%s %d: well-formed input is not shown: %s", x.name, n, got.panic+got.bad), data, "how", got.how)
					return
				}
				if s := model.Diff("", stripDumps(want.Packets), stripDumps(got.ns)); s != "" {
					c.FailIn(fmt.Sprintf("%s %d: %s", x.name, n, s), data, "how", got.how)
					return
				}
				c.Count("codes compared")
				c.Seen([]byte(x.name), []byte{n})
				if c.WantSample() && k%97 == 0 {
					c.Sample("%s = %d <- %x", x.name, n, data)
				}
			})
		},
	}
}

func stripDumps(ns []*model.Node) []*model.Node {
	var out []*model.Node
	for _, n := range ns {
		out = append(out, &model.Node{Name: n.Name, Value: n.Value, Note: n.Note, Items: stripDumps(n.Items)})
	}
	return out
}

// --- C12

func init() {
	checks["C12"] = &Check{
		Rule: "packet sequences with every kind of item, each dumped with no option and with random sets of options spelled in random ways; monitors: the items without their octet dumps are the same with and without options, each octet dump is there exactly when an option for it is on and equals the octets of its item (reference decoder), and marked secret octets planted in secret keys, literal data, marker and private packets do not appear in text or JSON without their option; non-trivial: sequences with at least one item that an option affects, distinct by octets and options",
		Need: []string{"option sets compared", "dumps compared", "secrets looked for"},
		Run: func(c *Ctx) {
			f := func(g *gen.G, data []byte) {
				if looksArmored(data) {
					return
				}
				o := opts(g)
				switch g.Intn(4) {
				case 0: // one option alone
					o = model.Opt{UTC: o.UTC}
					*[]*bool{&o.Cert, &o.Int, &o.Literal, &o.Marker, &o.Private, &o.Debug}[g.Intn(6)] = true
				case 1: // all but one
					o = model.Opt{UTC: o.UTC, Cert: true, Int: true, Literal: true, Marker: true, Private: true}
					*[]*bool{&o.Cert, &o.Int, &o.Literal, &o.Marker, &o.Private}[g.Intn(5)] = false
				}
				want := model.Dump(data, o)
				if want.Err || want.Unspec != "" {
					return
				}
				base := decode(g, data, model.Opt{UTC: o.UTC}, g.One(4))
				got := decode(g, data, o, !g.One(4))
				if base.panic+got.panic != "" || base.err || got.err || base.bad != "" || got.bad != "" {
					c.FailIn("well-formed input is not shown with and without options: "+base.panic+got.panic+base.bad+got.bad, data, "how", got.how)
					return
				}
				if s := model.Diff("", stripDumps(base.ns), stripDumps(got.ns)); s != "" {
					c.FailIn("options change more than octet dumps: "+s, data, "how", got.how)
					return
				}
				if s := dumpDiff("", want.Packets, got.ns); s != "" {
					c.FailIn(s, data, "how", got.how)
					return
				}
				c.Count("option sets compared")
				n := 0
				model.Walk(got.ns, func(m *model.Node) {
					if m.Dump != "" {
						n++
					}
				})
				c.Add("dumps compared", n)
				if n > 0 {
					c.Seen(data, []byte(optString(o)))
				}
				if c.WantSample() && len(data) < 120 {
					c.Sample("%s <- %x: %d dumps", got.how, data, n)
				}
			}
			c.Cases("mixed", c.N(60000, 2000000), func(g *gen.G) { f(g, g.Stream(1+g.Intn(4), 2, nil)) })
			c.Cases("single", c.N(40000, 1500000), func(g *gen.G) {
				t := gen.All[int(c.K())%len(gen.All)]
				f(g, g.Header(t, g.Body(t, 2), true))
			})
			c.Cases("names", c.N(4000, 100000), func(g *gen.G) { // options of the library, by name and code, one after the other
				codes := []pcontext.OptCode{pcontext.ARMOR, pcontext.CERT, pcontext.DEBUG, pcontext.GDUMP, pcontext.INTEGER, pcontext.LITERAL, pcontext.MARKER, pcontext.PRIVATE, pcontext.UTC}
				names := []string{"armor", "cert", "debug", "gdump", "int", "literal", "marker", "private", "utc"}
				want := make([]bool, len(codes))
				cxt := pcontext.New()
				how := ""
				var pend []pcontext.OptFunc
				for n := g.Intn(14); n > 0; n-- {
					i, v := g.Intn(len(codes)), g.One(2)
					name, known := names[i], true
					switch g.Intn(8) {
					case 0:
						name = strings.ToUpper(name)
					case 1:
						name = strings.ToUpper(name[:1]) + name[1:]
					case 2: // no such option
						known = false
						name = []string{"", " " + name, name + " ", name + "s", name[:1], name[:2], name[:len(name)-1], name[1:], "-" + name[:1], "--" + name, "unknown", "integer", "all", "d", "certs", name + "," + names[0], name + "\x00", "json", "0", "5"}[g.Intn(20)]
						for _, x := range names {
							known = known || strings.EqualFold(x, name)
						}
						if known {
							continue
						}
					}
					if known {
						want[i] = v
					}
					how += fmt.Sprintf("%q=%v ", name, v)
					switch {
					case !known || g.One(2):
						pend = append(pend, pcontext.SetByString(name, v))
					default:
						pend = append(pend, pcontext.Set(codes[i], v))
					}
					if code := pcontext.GetOptCode(name); known && code != codes[i] || !known && code != pcontext.UNKNOWN {
						c.Fail(fmt.Sprintf("option name %q is taken for %v", name, code))
						return
					}
				}
				if g.One(2) {
					cxt = pcontext.New(pend...)
				} else {
					for _, p := range pend {
						p(cxt)
					}
				}
				if g.One(8) {
					cxt.Set(pcontext.UNKNOWN, true)
				}
				o := model.Opt{Cert: want[1], Debug: want[2], Int: want[4], Literal: want[5], Marker: want[6], Private: want[7], UTC: want[8]}
				for i, code := range codes {
					if cxt.Get(code) != want[i] {
						c.Fail(fmt.Sprintf("after %s option %s is %v", how, names[i], cxt.Get(code)))
						return
					}
				}
				for i, got := range []bool{cxt.Armor(), cxt.Cert(), cxt.Debug(), cxt.GDump(), cxt.Integer(), cxt.Literal(), cxt.Marker(), cxt.Private(), cxt.UTC()} {
					on := want[i] || want[2] && i != 0 && i != 8 // debug implies the others except the armor and UTC ones
					if got != on {
						c.Fail(fmt.Sprintf("after %s option %s is in effect: %v", how, names[i], got))
						return
					}
					if s := fmt.Sprintf(",%s:%v,", names[i], on); !strings.Contains(","+cxt.String()+",", s) {
						c.Fail(fmt.Sprintf("after %s the options are listed as %q", how, cxt))
						return
					}
				}
				data := g.Stream(1+g.Intn(3), 1, nil)
				if want[0] || looksArmored(data) {
					return
				}
				w := model.Dump(data, o)
				if w.Err || w.Unspec != "" {
					return
				}
				p, err := parse.New(cxt, bytes.NewReader(data))
				var info *result.Info
				if err == nil {
					info, err = p.Parse()
				}
				if err != nil {
					c.FailIn("well-formed input is refused: "+err.Error(), data, "how", how)
					return
				}
				if s := model.Diff("", w.Packets, nodes(info.Packets)); s != "" {
					c.FailIn(s, data, "how", how)
					return
				}
				for i, code := range codes {
					if cxt.Get(code) != want[i] {
						c.Fail(fmt.Sprintf("decoding changes the caller's option %s to %v", names[i], cxt.Get(code)))
						return
					}
				}
				c.Count("sets of named options compared")
				c.Seen(data, []byte(how))
			})
			c.Cases("secrets", c.N(12000, 400000), func(g *gen.G) {
				canary := g.Bytes(12)
				g.Read(canary)
				canary[0] = 0x77
				mpi := gen.Cat(gen.BE(2, 8*12-1), canary)
				pub := gen.Cat([]byte{4, 0, 0, 0, 1})
				var data []byte
				need := ""
				switch g.Intn(8) {
				case 0:
					need = "i"
					data = g.Header(g.PickI(5, 7), gen.Cat(pub, []byte{1}, g.MPIBits(9), g.MPIBits(9), []byte{0}, mpi, mpi, mpi, mpi, []byte{1, 2}), true)
				case 1:
					need = "i"
					data = g.Header(g.PickI(5, 7), gen.Cat(pub, []byte{g.Pick(17)}, g.MPIBits(9), g.MPIBits(9), g.MPIBits(9), g.MPIBits(9), []byte{0}, mpi, []byte{1, 2}), true)
				case 2:
					need = "i"
					data = g.Header(g.PickI(5, 7), gen.Cat(pub, []byte{g.Pick(19, 22)}, g.OID(), g.Point(), []byte{0}, mpi, []byte{1, 2}), true)
				case 3:
					need = "-"
					data = g.Header(g.PickI(5, 7), gen.Cat(pub, []byte{1}, g.MPIBits(9), g.MPIBits(9), []byte{254, 9, 0, 8}, g.Bytes(16), canary, canary), true)
				case 4:
					need = "l"
					data = g.Header(11, gen.Cat([]byte{'b', 0, 0, 0, 0, 0}, canary), true)
				case 5:
					need = "m"
					data = g.Header(10, gen.Cat([]byte("PGP"), canary), true)
				case 6:
					need = "p"
					data = g.Header(g.PickI(60, 61, 62, 63), gen.Cat(g.Bytes(3), canary), true)
				case 7:
					need = "i"
					m := gen.Cat(mpi)
					data = g.Header(5, gen.Cat([]byte{5, 0, 0, 0, 1, 22}, func() []byte { x := gen.Cat(g.OID(), g.Point()); return gen.Cat(gen.BE(4, uint64(len(x))), x) }(), []byte{0, 0}, gen.BE(4, uint64(len(m))), m, []byte{1, 2}), true)
				}
				if g.One(3) {
					data = g.Header(8, g.Comp(data), true)
				}
				args := []string{"-u"}
				for _, a := range []string{"c", "i", "l", "m", "p"} {
					if a != need && g.One(2) {
						args = append(args, "-"+a)
					}
				}
				if g.One(2) {
					args = append(args, "-j")
				}
				r := runB(data, args...)
				if r.Exit != 0 {
					c.Count("secret not decoded")
					return
				}
				c.Count("secrets looked for")
				c.Seen(data)
				out := strings.ToLower(string(r.Out))
				for _, form := range []string{model.Hex(canary[1:9]), fmt.Sprintf("%x", canary[1:9]), string(canary[1:9])} {
					if strings.Contains(out, form) {
						c.FailIn("secret octets in the output without their option: "+r.String(), data, "how", strings.Join(args, " "))
						return
					}
				}
			})
		},
	}
}

func dumpDiff(path string, want, got []*model.Node) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%s: %d items, should be %d", path, len(got), len(want))
	}
	for i, w := range want {
		p := path + "/" + w.Name
		if w.Dump != got[i].Dump {
			return fmt.Sprintf("%s: dump is %s, should be %s", p, clip(got[i].Dump), clip(w.Dump))
		}
		if s := dumpDiff(p, w.Items, got[i].Items); s != "" {
			return s
		}
	}
	return ""
}

// --- C14

func init() {
	checks["C14"] = &Check{
		Rule: "packet sequences with hostile texts and all kinds of items, each dumped as text (default indent, --indent N for N in -1..200) and as JSON (compact and indented); monitors: the JSON document is valid, its tree written out by an independent renderer equals the text output octet for octet at every indent, indented JSON compacts to the compact one, and the library's renderings agree with the command's; non-trivial: sequences that give a dump, distinct by octets and options",
		Need: []string{"text and JSON compared"},
		Run: func(c *Ctx) {
			f := func(g *gen.G, data []byte) {
				if looksArmored(data) {
					return
				}
				o := opts(g)
				a := flags(g, o)
				with := func(x ...string) []string { return append(append([]string{}, a...), x...) }
				txt, js := runB(data, a...), runB(data, with(func() string {
					if g.One(2) {
						return "-j"
					}
					return "--json"
				}())...)
				if txt.Panic+js.Panic != "" {
					c.FailIn("panic: "+txt.Panic+js.Panic, data, "how", strings.Join(a, " "))
					return
				}
				ns, err := tree(js.Out)
				if o.Debug && err != nil { // an error shown on standard output
					if w := model.Dump(data, o); !w.Err && w.Unspec == "" {
						c.FailIn("JSON output is not valid: "+js.String(), data, "how", strings.Join(a, " "))
					}
					return
				}
				if txt.Exit != js.Exit {
					c.FailIn("text and JSON output differ in success: "+txt.String()+" / "+js.String(), data, "how", strings.Join(a, " "))
					return
				}
				if txt.Exit != 0 {
					c.Count("refused in both formats")
					return
				}
				if err != nil {
					c.FailIn("JSON output is not valid: "+err.Error()+" "+js.String(), data, "how", strings.Join(a, " "))
					return
				}
				if s := firstDiff(model.Text(ns, "\t"), string(txt.Out)); s != "" {
					c.FailIn("text and JSON differ: "+s, data, "how", strings.Join(a, " "))
					return
				}
				n := g.PickI(1, 2, 3, 4, 5, 7, 8, 16, 40, 200, 0, -1)
				if g.One(5) {
					n = g.Near(-20, 3000, g.PickI(g.Intn(100), g.Intn(100), g.Intn(300), g.Intn(1500)))
					if n > 100 && len(data) > 200 {
						n = g.Intn(100)
					}
				}
				ia := fmt.Sprintf("--indent=%d", n)
				if g.One(2) && n >= 0 {
					ia = "--indent"
				}
				ext := []string{ia}
				if ia == "--indent" {
					ext = append(ext, strconv.Itoa(n))
				}
				unit := "\t"
				if n > 0 {
					unit = strings.Repeat(" ", n)
				}
				t2 := runB(data, with(ext...)...)
				if s := firstDiff(model.Text(ns, unit), string(t2.Out)); s != "" || t2.Exit != 0 {
					c.FailIn(fmt.Sprintf("text at indent %d differs: %s (exit %d)", n, s, t2.Exit), data, "how", strings.Join(a, " "))
					return
				}
				j2 := runB(data, with(append(ext, "-j")...)...)
				var buf bytes.Buffer
				if err := json.Compact(&buf, j2.Out); err != nil || !bytes.Equal(buf.Bytes(), bytes.TrimSpace(compact(js.Out))) || j2.Exit != 0 {
					c.FailIn(fmt.Sprintf("JSON at indent %d differs in more than white space: %s / %s", n, clip(string(j2.Out)), clip(string(js.Out))), data, "how", strings.Join(a, " "))
					return
				}
				if n > 0 && len(ns) > 0 {
					for _, l := range strings.Split(strings.TrimSpace(string(j2.Out)), "\n") {
						if w := len(l) - len(strings.TrimLeft(l, " ")); w%n != 0 || strings.HasPrefix(strings.TrimLeft(l, " "), "\t") {
							c.FailIn(fmt.Sprintf("JSON at indent %d: line %s", n, clip(l)), data, "how", strings.Join(a, " "))
							return
						}
					}
					if !bytes.Contains(j2.Out, []byte("\n"+unit+"\"Packet\"")) {
						c.FailIn(fmt.Sprintf("JSON at indent %d is not indented: %s", n, clip(string(j2.Out))), data, "how", strings.Join(a, " "))
						return
					}
				}
				info, err2, p := libInfo(bytes.NewReader(data), o, false)
				if err2 != nil || p != "" {
					c.FailIn("the library fails where the command does not: "+p, data, "how", strings.Join(a, " "))
					return
				}
				lt := info.ToString("\t").String()
				if lt != string(txt.Out) || info.String() != lt {
					c.FailIn("the library's text differs from the command's", data, "how", strings.Join(a, " "))
					return
				}
				s := ""
				for _, p := range info.Packets {
					s += p.String()
				}
				if s != lt {
					c.FailIn("the text of the packets differs from the text of the whole", data, "how", strings.Join(a, " "))
					return
				}
				u := []string{"", "--", "\t\t", "日"}[g.Intn(4)]
				if d := firstDiff(model.Text(ns, u), info.ToString(u).String()); d != "" {
					c.FailIn(fmt.Sprintf("text at indent %q differs: %s", u, d), data)
					return
				}
				if len(ns) > 0 {
					c.Seen(data, []byte(optString(o)), []byte(ia))
					c.Count("text and JSON compared")
				}
				model.Walk(ns, func(*model.Node) { c.Counts["items compared"]++ })
				if c.WantSample() && len(data) < 120 && len(ns) > 0 {
					c.Sample("%v indent %d <- %x: %d octets of text", a, n, data, len(txt.Out))
				}
			}
			c.Cases("mixed", c.N(12000, 400000), func(g *gen.G) { f(g, g.Stream(g.Intn(5), 2, nil)) })
			c.Cases("texts", c.N(12000, 400000), func(g *gen.G) { f(g, textPackets(g)) })
			c.Cases("nested", c.N(1500, 40000), func(g *gen.G) {
				if s := nestedSig(g, 1+g.Intn(g.PickI(6, 12, 25, 40))); s != nil {
					f(g, g.Header(2, s, true))
				}
			})
			c.Cases("runes", c.N(3000, 70000), func(g *gen.G) { // every rune of the first plane, in blocks
				var s []byte
				for i := 0; i < 16; i++ {
					s = append(s, string(rune(int(c.K())*16+i))...)
				}
				f(g, gen.Plain(13, s))
			})
		},
	}
}

func compact(b []byte) []byte {
	var w bytes.Buffer
	if json.Compact(&w, b) != nil {
		return b
	}
	return w.Bytes()
}

func firstDiff(want, got string) string {
	if want == got {
		return ""
	}
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	cut := func(s string) string {
		a, b := i-40, i+80
		if a < 0 {
			a = 0
		}
		if b > len(s) {
			b = len(s)
		}
		if a > b {
			a = b
		}
		return fmt.Sprintf("%q", s[a:b])
	}
	return fmt.Sprintf("at octet %d: %s, should be %s", i, cut(got), cut(want))
}

// textPackets are packets with text from the input in them.
func textPackets(g *gen.G) []byte {
	var b []byte
	for i := 1 + g.Intn(3); i > 0; i-- {
		t := g.Text(250)
		switch g.Intn(8) {
		case 0, 1:
			b = append(b, gen.Plain(13, t)...)
		case 2:
			b = append(b, gen.Plain(11, gen.Cat([]byte{g.Byte(), byte(len(t))}, t, gen.BE(4, uint64(g.U32())), g.Text(250)))...)
		case 3:
			s := gen.Cat([]byte{g.Pick(6, 24, 26, 28)}, t)
			a := gen.Cat(g.SubLen(len(s)), s)
			b = append(b, gen.Plain(2, gen.Cat([]byte{4, 0x13, 1, 8}, gen.BE(2, uint64(len(a))), a, []byte{0, 0, 1, 2, 0, 1, 1}))...)
		case 4:
			v := g.Text(250)
			s := gen.Cat([]byte{20, g.Pick(0x80, 0, g.Byte()), 0, 0, 0}, gen.BE(2, uint64(len(t))), gen.BE(2, uint64(len(v))), t, v)
			a := gen.Cat(g.SubLen(len(s)), s)
			b = append(b, gen.Plain(2, gen.Cat([]byte{4, 0x13, 1, 8, 0, 0}, gen.BE(2, uint64(len(a))), a, []byte{1, 2, 0, 1, 1}))...)
		case 5:
			s := gen.Cat([]byte{29, g.Byte()}, t)
			a := gen.Cat(g.SubLen(len(s)), s)
			b = append(b, gen.Plain(2, gen.Cat([]byte{4, 0x13, 1, 8}, gen.BE(2, uint64(len(a))), a, []byte{0, 0, 1, 2, 0, 1, 1}))...)
		case 6:
			b = append(b, gen.Plain(g.PickI(60, 10, 12, 17, 40), t)...)
		case 7:
			b = append(b, gen.Plain(8, g.Comp(gen.Plain(13, t)))...)
		}
	}
	return b
}

// --- C15

func init() {
	checks["C15"] = &Check{
		Rule: "packets whose texts, codes and data hold terminal escapes, newlines, C0 and C1 controls, bidirectional controls, invalid and overlong UTF-8, JSON and format metacharacters, in every field the dump shows; text and JSON output scanned octet by octet: valid UTF-8, no control character except the line feed that ends a line and the tabs that indent it, one line per item and per octet dump with the indentation of its level, no control character in any decoded JSON string; non-trivial: dumped inputs that contain a control character or invalid UTF-8, distinct by octets and options",
		Need: []string{"lines scanned", "JSON strings scanned"},
		Run: func(c *Ctx) {
			f := func(g *gen.G, data []byte) {
				if looksArmored(data) {
					return
				}
				o := opts(g)
				a := flags(g, o)
				txt := runB(data, a...)
				if txt.Panic != "" {
					c.FailIn("panic: "+txt.Panic, data)
					return
				}
				js := runB(data, append(append([]string{}, a...), "-j")...)
				if txt.Exit != 0 || js.Exit != 0 {
					return
				}
				if s := scan(string(txt.Out)); s != "" {
					c.FailIn(s, data, "how", strings.Join(a, " "))
					return
				}
				ns, err := tree(js.Out)
				if err != nil {
					if !o.Debug {
						c.FailIn("JSON output is not valid: "+js.String(), data, "how", strings.Join(a, " "))
					}
					return
				}
				lines, bad := 0, ""
				model.Walk(ns, func(n *model.Node) {
					lines++
					if n.Dump != "" {
						lines++
						for i := 0; i < len(n.Dump); i++ {
							if x := n.Dump[i]; !(i%3 == 2 && x == ' ' || i%3 < 2 && strings.IndexByte("0123456789abcdef", x) >= 0) {
								bad = "octet dump with other characters: " + clip(n.Dump)
								break
							}
						}
					}
					for _, s := range []string{n.Name, n.Value, n.Note} {
						c.Counts["JSON strings scanned"]++
						for _, r := range s {
							if unicode.IsControl(r) {
								bad = fmt.Sprintf("control character %U in JSON string %s", r, clip(s))
							}
						}
					}
				})
				if !utf8.Valid(js.Out) {
					bad = "JSON is not valid UTF-8"
				}
				for _, x := range js.Out {
					if x < 0x20 || x == 0x7f {
						bad = fmt.Sprintf("control character %#x in JSON output", x)
					}
				}
				if bad != "" {
					c.FailIn(bad, data, "how", strings.Join(a, " "))
					return
				}
				if n := strings.Count(string(txt.Out), "\n"); n != lines {
					c.FailIn(fmt.Sprintf("%d lines for %d items and dumps", n, lines), data, "how", strings.Join(a, " "))
					return
				}
				if s := shape(string(txt.Out), ns); s != "" {
					c.FailIn(s, data, "how", strings.Join(a, " "))
					return
				}
				c.Add("lines scanned", lines)
				hostile := !utf8.Valid(data)
				for _, x := range data {
					hostile = hostile || x < 0x20 || x == 0x7f
				}
				if hostile && lines > 0 {
					c.Seen(data, []byte(optString(o)))
				}
				if c.WantSample() && len(data) < 120 && lines > 0 {
					c.Sample("%v <- %q: %d lines", a, data, lines)
				}
			}
			c.Cases("texts", c.N(30000, 1000000), func(g *gen.G) { f(g, textPackets(g)) })
			c.Cases("runes", c.N(0x2200, 0x3200), func(g *gen.G) {
				r := int(c.K())
				s := []byte("a" + string(rune(r)) + "b")
				if g.One(4) && r < 256 {
					s = []byte{'a', byte(r), 'b'}
				}
				switch g.Intn(4) {
				case 0:
					f(g, gen.Plain(13, s))
				case 1:
					f(g, gen.Plain(11, gen.Cat([]byte{byte(r), byte(len(s))}, s, []byte{0, 0, 0, 0}, s)))
				default:
					x := gen.Cat([]byte{g.Pick(6, 24, 26, 28)}, s)
					if g.One(3) {
						x = gen.Cat([]byte{20, 0x80, 0, 0, 0, 0, byte(len(s)), 0, byte(len(s))}, s, s)
					} else if g.One(3) {
						x = gen.Cat([]byte{29, 0}, s)
					}
					a := gen.Cat([]byte{byte(len(x))}, x)
					f(g, gen.Plain(2, gen.Cat([]byte{4, 0x13, 1, 8, 0, byte(len(a))}, a, []byte{0, 0, 1, 2, 0, 1, 1})))
				}
			})
			c.Cases("mixed", c.N(20000, 800000), func(g *gen.G) { f(g, g.Stream(1+g.Intn(4), 2, nil)) })
			c.Cases("octets", c.N(256*40, 256*400), func(g *gen.G) { // every octet in every place of a small packet
				t := gen.All[g.Intn(len(gen.All))]
				g.Max = 30
				b := g.Body(t, 1)
				if len(b) > 0 && len(b) < 100 {
					b[g.Intn(len(b))] = byte(c.K())
				}
				f(g, gen.Plain(t, b))
			})
		},
	}
}

// scan looks at text output as a terminal would.
func scan(s string) string {
	if !utf8.ValidString(s) {
		return "output is not valid UTF-8: " + clip(s)
	}
	for _, l := range strings.SplitAfter(s, "\n") {
		if l == "" {
			continue
		}
		if !strings.HasSuffix(l, "\n") {
			return "last line is not ended: " + clip(l)
		}
		l = strings.TrimLeft(l[:len(l)-1], "\t")
		for _, r := range l {
			if unicode.IsControl(r) {
				return fmt.Sprintf("control character %U in line %s", r, clip(l))
			}
		}
	}
	return ""
}

// shape checks that each line is at its item's level.
func shape(s string, ns []*model.Node) string {
	lines := strings.Split(s, "\n")
	i := 0
	bad := ""
	var rec func(ns []*model.Node, lvl int)
	rec = func(ns []*model.Node, lvl int) {
		for _, n := range ns {
			if bad != "" || i >= len(lines) {
				return
			}
			l := lines[i]
			if w := len(l) - len(strings.TrimLeft(l, "\t")); w != lvl {
				bad = fmt.Sprintf("line %s at level %d, should be at %d", clip(l), w, lvl)
				return
			}
			i++
			if n.Dump != "" {
				if i < len(lines) && lines[i] != strings.Repeat("\t", lvl+1)+n.Dump {
					bad = "octet dump line " + clip(lines[i])
					return
				}
				i++
			}
			rec(n.Items, lvl+1)
		}
	}
	rec(ns, 0)
	return bad
}

// --- C23

func init() {
	checks["C23"] = &Check{
		Rule: "pairs and triples of messages made independently; when the reference decoder says that nothing may be carried from one to the next, the dump of the concatenation must be the concatenation of the tool's own dumps; when something may be carried, the part before must be unchanged and the part after may differ only in the cipher remark of encrypted data and in expiration dates; also with messages wrapped in compressed packets and key blocks; non-trivial: concatenations of at least two non-empty messages, distinct by octets",
		Need: []string{"independent concatenations compared", "carrying concatenations compared"},
		Run: func(c *Ctx) {
			msg := func(g *gen.G) []byte {
				switch g.Intn(9) {
				case 0: // encrypted message
					var b []byte
					for i := g.Intn(3); i > 0; i-- {
						t := g.PickI(1, 3)
						b = append(b, gen.Plain(t, g.Body(t, 0))...)
					}
					t := g.PickI(9, 18, 20)
					return append(b, gen.Plain(t, g.Body(t, 0))...)
				case 1: // key
					b := gen.Plain(6, gen.Cat([]byte{4}, gen.BE(4, uint64(g.U32())), []byte{1}, g.MPIBits(9), g.MPIBits(2)))
					b = append(b, gen.Plain(13, []byte("Alice"))...)
					for i := g.Intn(3); i > 0; i-- {
						b = append(b, gen.Plain(2, g.Sig(1))...)
					}
					return b
				case 2, 3: // signature with its own times
					a := gen.Cat([]byte{5, 2}, gen.BE(4, uint64(g.U32())), []byte{5, 3}, gen.BE(4, uint64(g.U32())))
					if g.One(2) {
						a = a[6:]
					}
					if g.One(3) {
						a = append(a, gen.Cat([]byte{5, 9}, gen.BE(4, uint64(g.U32())))...)
					}
					return gen.Plain(2, gen.Cat([]byte{4, 0x13, 1, 8}, gen.BE(2, uint64(len(a))), a, []byte{0, 0, 1, 2, 0, 1, 1}))
				case 4: // signature with an embedded one or a key block
					t := g.Pick(32, 38)
					x := append([]byte{t}, g.SubBody(t, 2)...)
					a := gen.Cat(g.SubLen(len(x)), x)
					if len(a) > 60000 {
						a = nil
					}
					a = append(a, gen.Cat([]byte{5, 3}, gen.BE(4, uint64(g.U32())), []byte{5, 9}, gen.BE(4, uint64(g.U32())))...)
					return gen.Plain(2, gen.Cat([]byte{4, 0x13, 1, 8}, gen.BE(2, uint64(len(a))), a, []byte{0, 0, 1, 2, 0, 1, 1}))
				case 5:
					return gen.Plain(11, g.Literal())
				case 6:
					return gen.Plain(8, g.Comp(g.Stream(1+g.Intn(3), 1, nil)))
				}
				t := gen.All[g.Intn(len(gen.All))]
				return gen.Plain(t, g.Body(t, 2))
			}
			c.Cases("concatenations", c.N(70000, 2500000), func(g *gen.G) {
				o := opts(g)
				var parts [][]byte
				var all []byte
				for i := 2 + g.Intn(3); i > 0; i-- {
					m := msg(g)
					if len(parts) > 0 && g.One(6) {
						m = g.Twin(parts[len(parts)-1])
					}
					if g.One(8) {
						m = gen.Plain(8, g.Comp(m))
					}
					parts = append(parts, m)
					all = append(all, m...)
				}
				if looksArmored(all) {
					return
				}
				w := model.Dump(all, o)
				if w.Err || w.Unspec != "" {
					return
				}
				var sep, want []*model.Node
				for _, p := range parts {
					m := model.Dump(p, o)
					if m.Err || m.Unspec != "" {
						return
					}
					want = append(want, m.Packets...)
					d := decode(g, p, o, false)
					if d.err || d.panic != "" {
						c.FailIn("a message alone is not shown: "+d.panic, p, "how", d.how)
						return
					}
					if s := model.Diff("", m.Packets, d.ns); s != "" && len(parts) > 1 {
						// decoded after other messages of this process; shown by the others' check if it is so alone, too
						ref, _ := spawn(p, "", append(flags(g, o), "-j")...)
						if ns, err := tree(ref.Out); err == nil && model.Diff("", ns, d.ns) != "" {
							c.FailIn("a message decoded after others: "+s, p, "how", d.how)
							return
						}
					}
					sep = append(sep, d.ns...)
				}
				if model.Diff("", framesOnly(w.Packets), framesOnly(want)) != "" {
					return // a changed octet made a length that takes in what follows
				}
				free := model.Diff("", w.Packets, want) == ""
				d := decode(g, all, o, g.One(4))
				if d.err || d.panic != "" || d.bad != "" {
					c.FailIn("messages shown alone are not shown together: "+d.panic+d.bad, all, "how", d.how)
					return
				}
				if free {
					if s := model.Diff("", sep, d.ns); s != "" {
						c.FailIn("together and alone differ: "+s, all, "how", d.how)
						return
					}
					c.Count("independent concatenations compared")
				} else {
					if s := model.Diff("", masked(sep), masked(d.ns)); s != "" {
						c.FailIn("together and alone differ: "+s, all, "how", d.how)
						return
					}
					if s := model.Diff("", carried(w.Packets), carried(d.ns)); s != "" {
						c.FailIn("something else is carried over: "+s, all, "how", d.how)
						return
					}
					first, _, _ := lib(parts[0], o, false)
					if len(d.ns) >= len(first) {
						if s := model.Diff("", first, d.ns[:len(first)]); s != "" {
							c.FailIn("what follows changes what is before: "+s, all, "how", d.how)
							return
						}
					}
					c.Count("carrying concatenations compared")
				}
				c.Seen(all)
				if c.WantSample() && len(all) < 150 {
					c.Sample("%d messages, nothing carried: %v <- %x", len(parts), free, all)
				}
			})
		},
	}
}

func isCarried(n *model.Node) bool {
	return n.Name == "Encrypted data" || strings.HasPrefix(n.Name, "Key Expiration Time") || strings.HasPrefix(n.Name, "Signature Expiration Time")
}

// masked is the tree without the remarks that may be carried from other packets.
func masked(ns []*model.Node) (out []*model.Node) {
	for _, n := range ns {
		x := *n
		if n.Name == "Encrypted data" {
			x.Value, x.Note = "", ""
		} else if isCarried(n) {
			x.Note = ""
		}
		x.Items = masked(n.Items)
		out = append(out, &x)
	}
	return
}

// carried are only those remarks.
func carried(ns []*model.Node) (out []*model.Node) {
	model.Walk(ns, func(n *model.Node) {
		if isCarried(n) {
			out = append(out, &model.Node{Name: n.Name, Value: n.Value, Note: n.Note})
		}
	})
	return
}
