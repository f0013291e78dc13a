package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"

	"github.com/spiegel-im-spiegel/gpgpdump/armtext"
	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"

	"verif/gen"
	"verif/model"
)

// --- C10

func init() {
	checks["C10"] = &Check{
		Rule: "packet sequences armored in random ways (block types, headers, line lengths 1-76, LF and CRLF, with and without checksum, text before and after, clear-signed messages in front, further blocks behind, very long lines around), dumped with and without -a by the command, the library and armtext.Get; the dump must be the one of the binary data; then damaged (checksum, changed, inserted and dropped characters, dropped and swapped lines, cut before the end line) and refused; non-trivial: blocks of at least one packet, distinct by octets",
		Need: []string{"armored dumps compared with binary ones", "damaged blocks refused", "cut blocks refused", "cut blocks before whole ones refused", "input without a block refused with -a", "first of several blocks dumped", "lines of megabytes"},
		Run: func(c *Ctx) {
			show := func(g *gen.G, data []byte, o model.Opt, a bool) (Obs, string) {
				args := append(flags(g, o), "-j")
				if a {
					args = append(args, []string{"-a", "--armor"}[g.Intn(2)])
				}
				return runB(data, args...), strings.Join(args, " ")
			}
			refused := func(g *gen.G, data []byte, a bool, what, event string) bool {
				o := opts(g)
				o.Debug = false
				r, how := show(g, data, o, a)
				if r.Panic != "" || r.Exit == 0 || len(r.Out) != 0 || len(r.Err) == 0 {
					c.FailIn(what+" is not refused: "+r.String(), data, "how", how)
					return false
				}
				if _, err, p := lib(data, o, a); err == nil || p != "" {
					c.FailIn(what+" is not refused by the library "+p, data, "how", optString(o))
					return false
				}
				c.Count(event)
				return true
			}
			body := func(g *gen.G) []byte {
				if g.One(30) {
					g.BigOne = 1
				}
				b := g.Stream(1+g.Intn(3), 1, nil)
				if g.One(4) { // sizes around multiples of the line and of buffers
					n := g.PickI(1, 2, 3, 45, 46, 47, 48, 49, 57, 58, 95, 96, 97, 384, 768, 1023, 1024, 1025, 3071, 3072, 3073, 4096, 6144) + g.Intn(3)
					b = gen.Plain(g.PickI(60, 13, 12), g.Bytes(n))
				}
				return b
			}
			transparent := func(g *gen.G, data []byte, big bool) {
				if looksArmored(data) {
					return
				}
				o := opts(g)
				a := g.Armoring()
				if g.One(4) {
					a.Pre = strings.Repeat("long line ", g.PickI(10, 6553, 6554, 20000)) + a.EOL + a.Pre
				}
				if g.One(4) {
					a.Post += strings.Repeat("long line ", g.PickI(10, 6553, 6554, 20000))
				}
				if big {
					switch g.Intn(5) {
					case 0:
						a.Pre = strings.Repeat("long line ", g.PickI(110000, 430000, 1800000)) + a.EOL + a.Pre
						c.Count("lines of megabytes")
					case 1:
						if !a.NoEOL && (a.Post == "" || strings.HasSuffix(a.Post, "\n")) {
							a.Post += strings.Repeat("long line ", g.PickI(110000, 430000, 1800000))
							c.Count("lines of megabytes")
						}
					case 2: // many lines
						a.Pre = strings.Repeat("line"+a.EOL, g.PickI(9999, 40000, 70000, 300000)) + a.Pre
					case 3:
						if !a.NoEOL && (a.Post == "" || strings.HasSuffix(a.Post, "\n")) {
							a.Post += strings.Repeat("line"+a.EOL, g.PickI(9999, 40000, 70000, 300000))
						}
					}
				}
				txt := a.Write(data)
				if g.One(4) { // further blocks do not count
					b := g.Armoring()
					x := b.Write(body(g))
					if g.One(3) {
						x = g.Damage(x)
					}
					if a.NoEOL && a.Post == "" || !strings.HasSuffix(string(txt), "\n") {
						txt = append(txt, a.EOL...)
					}
					txt = append(txt, x...)
					c.Count("first of several blocks dumped")
				}
				want := decodeAs(g, data, o, false, false, "")
				if want.panic != "" || want.bad != "" {
					c.FailIn("binary data: "+want.panic+want.bad, data)
					return
				}
				mode := g.One(2)
				if g.One(3) {
					ns, err, p := lib(txt, o, mode)
					if p != "" || (err != nil) != want.err || err == nil && model.Diff("", want.ns, ns) != "" {
						c.FailIn(fmt.Sprintf("library: binary and armored dumps differ: error %v, %s %s", err, p, model.Diff("", want.ns, ns)), txt, "how", optString(o))
						return
					}
				} else {
					r, how := show(g, txt, o, mode)
					ns, err := tree(r.Out)
					bad := r.Panic
					if bad == "" && want.err != (r.Exit != 0 || err != nil) {
						bad = "success differs: " + r.String()
					}
					if bad == "" && !want.err {
						bad = model.Diff("", want.ns, ns)
					}
					if bad != "" {
						c.FailIn("binary and armored dumps differ: "+bad, txt, "how", how)
						return
					}
				}
				if g.One(10) {
					buf, err := armtext.Get(bytes.NewReader(txt))
					if err != nil || !bytes.HasPrefix(buf.Bytes(), []byte("-----BEGIN PGP "+a.Type)) || bytes.Count(buf.Bytes(), []byte("\n-----END PGP")) != 1 {
						c.FailIn(fmt.Sprintf("armtext.Get does not give the block: error %v", err), txt)
						return
					}
				}
				c.Seen(txt)
				c.Count("armored dumps compared with binary ones")
				if !want.err {
					c.Count("of these with a dump")
				}
				if c.WantSample() && len(txt) < 500 {
					c.Sample("armor option %v: %q", mode, txt)
				}
			}
			c.Cases("transparent", c.N(40000, 1500000), func(g *gen.G) { transparent(g, body(g), false) })
			c.Cases("big", c.N(96, 2000), func(g *gen.G) {
				data := body(g)
				if g.One(3) {
					data = gen.Cat(gen.Plain(g.PickI(60, 13, 9), g.Bytes(g.Near(20000, 20<<20, g.PickI(100000, 1<<20, 3<<20+2, 6000001)))), gen.Plain(13, []byte("last")))
				}
				transparent(g, data, true)
			})
			plain := func(g *gen.G) gen.Armor {
				a := g.Armoring()
				a.Pre = ""
				for i := g.Intn(3); i > 0; i-- {
					a.Pre += []string{"Hello.", "x", "", "-----BEGIN CERTIFICATE-----", "=AAAA"}[g.Intn(5)] + a.EOL
				}
				return a
			}
			c.Cases("damaged", c.N(40000, 1500000), func(g *gen.G) {
				data := body(g)
				if len(data) < 6 {
					return
				}
				a := plain(g)
				a.Post = ""
				kind := g.Intn(8)
				a.Sum = kind != 4 && kind != 3
				if kind >= 5 && a.Line < 8 {
					a.Line = 64
				}
				txt := string(a.Write(data))
				blank := strings.Index(txt, "-----BEGIN PGP "+a.Type+"-----")
				start := blank + strings.Index(txt[blank:], a.EOL+a.EOL) + 2*len(a.EOL)
				end := strings.LastIndex(txt, a.EOL+"-----END")
				if a.Sum {
					end = strings.LastIndex(txt[:end], a.EOL+"=")
				}
				lines := strings.Split(txt[start:end], a.EOL)
				s := strings.Join(lines, "")
				what := ""
				const alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
				// places are counted without the last quantum, whose unused bits do not count
				at := g.Intn(len(s) - 4)
				pos := start // of place at in txt
				for i, n := 0, 0; ; i++ {
					if n+len(lines[i]) > at {
						pos += at - n
						break
					}
					n += len(lines[i])
					pos += len(lines[i]) + len(a.EOL)
				}
				switch kind {
				case 0, 1: // checksum
					what = "a wrong checksum"
					i := end + len(a.EOL) + 1 + g.Intn(4)
					x := alpha[g.Intn(64)]
					for x == txt[i] {
						x = alpha[g.Intn(64)]
					}
					txt = txt[:i] + string(x) + txt[i+1:]
				case 2:
					what = "a changed character"
					x := alpha[g.Intn(64)]
					for x == txt[pos] {
						x = alpha[g.Intn(64)]
					}
					txt = txt[:pos] + string(x) + txt[pos+1:]
				case 3:
					what = "an invalid character"
					txt = txt[:pos] + []string{"*", "-", "_", " ", "\x00", "\xff", "\t", "é", ",", ":"}[g.Intn(10)] + txt[pos+1:]
				case 4:
					what = "an inserted invalid character"
					txt = txt[:pos] + []string{"*", "-", "_", " ", "\x00", "\xff", "?", "é", ".", ":"}[g.Intn(10)] + txt[pos:]
				case 5:
					what = "a missing character"
					txt = txt[:pos] + txt[pos+1:]
				case 6, 7:
					what = "missing or changed lines"
					if len(lines) < 3 {
						return
					}
					i := g.Intn(len(lines) - 1)
					j := g.Intn(len(lines) - 1)
					nl := append([]string{}, lines...)
					if kind == 6 {
						nl = append(nl[:i], nl[i+1:]...)
					} else {
						nl[i], nl[j] = nl[j], nl[i]
					}
					if ns := strings.Join(nl, ""); ns == s {
						return
					} else if d := unb64(ns); d != nil && gen.CRC24(d) == gen.CRC24(data) {
						return // chance
					}
					txt = txt[:start] + strings.Join(nl, a.EOL) + txt[end:]
				}
				if refused(g, []byte(txt), g.One(2), what, "damaged blocks refused") {
					c.Count("refused: " + what)
					c.Seen([]byte(txt))
				}
			})
			c.Cases("octets", 256*12*c.N(1, 20), func(g *gen.G) { // every octet at every kind of place
				x, k := byte(c.K()), c.K()/256%12
				a := plain(g)
				a.Post, a.Line, a.Sum = "", g.PickI(64, 76, 60, 8), g.One(2)
				txt := string(a.Write(gen.Plain(60, noise(g, 200+g.Intn(200)))))
				blank := strings.Index(txt, "-----BEGIN PGP "+a.Type+"-----")
				start := blank + strings.Index(txt[blank:], a.EOL+a.EOL) + 2*len(a.EOL)
				i := start + (a.Line+len(a.EOL))*g.Intn(3) // the start of a line
				switch k % 4 {
				case 1:
					i += 1 + g.Intn(a.Line-1)
				case 2, 3: // the end of a line
					i += a.Line
				}
				ins := string([]byte{x})
				if k%4 == 3 {
					ins += ins
				}
				switch {
				case strings.ContainsRune("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=\n\r", rune(x)):
					return
				case strings.ContainsRune(" \t\v\f", rune(x)) && k%4 != 1:
					return // around lines it does not matter
				case k >= 8 && k%4 != 2: // in the place of a character
					txt = txt[:i] + ins + txt[i+len(ins):]
				default:
					txt = txt[:i] + ins + txt[i:]
				}
				if refused(g, []byte(txt), g.One(2), fmt.Sprintf("octet %#02x in the data", x), "damaged blocks refused") {
					c.Count("refused: an octet that is not base64")
					c.Seen([]byte(txt))
				}
			})
			c.Cases("cut", c.N(6000, 100000), func(g *gen.G) {
				g.Max = 100
				data := g.Stream(1, 0, nil)
				a := plain(g)
				a.Post = ""
				txt := a.Write(data)
				end := bytes.LastIndex(txt, []byte("-----END PGP")) + len("-----END PGP")
				for k := 0; k < 12; k++ {
					i := 1 + g.Intn(end-1)
					if k == 0 {
						i = end - 1
					}
					if len(bytes.Trim(txt[:i], "\r\n")) == 0 {
						continue
					}
					c.Evals++
					c.Seen(txt[:i])
					if !refused(g, txt[:i], g.One(2), "a cut block", "cut blocks refused") {
						return
					}
				}
				// without its end line, but something behind
				x := append(append([]byte{}, txt[:end-len("-----END PGP")]...), "\nmore text\n"...)
				if !refused(g, x, g.One(2), "a block without end", "cut blocks refused") {
					return
				}
				// with a whole block behind: the first one counts
				blank := strings.Index(string(txt), "-----BEGIN PGP "+a.Type+"-----")
				start := blank + strings.Index(string(txt[blank:]), a.EOL+a.EOL) + 2*len(a.EOL)
				for k := 0; k < 4; k++ {
					i := end - len("-----END PGP") - 1
					if k > 0 {
						i = start + g.Intn(end-start-len("-----END PGP")+1)
					}
					x := gen.Cat(txt[:i], []byte(strings.Repeat(a.EOL, 1+g.Intn(2))), plain(g).Write(g.Stream(1, 0, nil)))
					c.Evals++
					c.Seen(x)
					if !refused(g, x, g.One(2), "a cut block with a whole one behind", "cut blocks before whole ones refused") {
						return
					}
				}
			})
			c.Cases("no block", c.N(5000, 100000), func(g *gen.G) {
				var in []byte
				switch g.Intn(5) {
				case 0:
					in = g.Stream(1+g.Intn(2), 1, nil)
				case 1:
					in = nil
				case 2:
					in = []byte(plain(g).Pre)
				case 3: // only a clear-signed message
					in = []byte("-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA256\n\nHello.\n")
					if g.One(2) {
						in = append(in, "-----END PGP SIGNATURE-----\n"...)
					}
				case 4: // the line is not at the start
					in = []byte(" " + strings.ReplaceAll(string(gen.Armor{Type: "MESSAGE", Line: 64, EOL: "\n", Sum: true}.Write(g.Stream(1, 0, nil))), "\n", "\n "))
				}
				if looksArmored(in) && in[0] != ' ' {
					return
				}
				refused(g, in, true, "input without a block", "input without a block refused with -a")
			})
		},
	}
}

func unb64(s string) []byte {
	const alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	s = strings.TrimRight(s, "=")
	var out []byte
	acc, n := 0, 0
	for i := 0; i < len(s); i++ {
		v := strings.IndexByte(alpha, s[i])
		if v < 0 {
			return nil
		}
		acc, n = acc<<6|v, n+6
		if n >= 8 {
			n -= 8
			out = append(out, byte(acc>>n))
			acc &= 1<<n - 1
		}
	}
	return out
}

// --- C11

// feed delivers data in pieces.
type feed struct {
	b     []byte
	next  func() int // size of the next piece; 0: a read that gives nothing
	at    int        // reads end here with err (-1: never)
	err   error
	join  bool // give the error together with the last data
	pos   int
	calls int
}

func (f *feed) Read(p []byte) (int, error) {
	f.calls++
	stop := len(f.b)
	end := error(io.EOF)
	if f.at >= 0 && f.at <= stop {
		stop, end = f.at, f.err
	}
	if f.pos >= stop {
		return 0, end
	}
	n := f.next()
	if n > len(p) {
		n = len(p)
	}
	if n > stop-f.pos {
		n = stop - f.pos
	}
	copy(p, f.b[f.pos:f.pos+n])
	f.pos += n
	if f.join && f.pos == stop {
		return n, end
	}
	return n, nil
}

var deliveries = []string{"one octet", "half", "random", "empty reads", "whole", "last with EOF", "after 512"}

func newFeed(g *gen.G, b []byte, kind int) *feed {
	f := &feed{b: b, at: -1, next: func() int { return 1 << 30 }}
	switch deliveries[kind] {
	case "one octet":
		f.next = func() int { return 1 }
	case "half":
		f.next = func() int { return 1 + (len(b)-f.pos)/2 }
	case "random":
		m := g.PickI(2, 10, 600, 5000)
		f.next = func() int { return 1 + g.Intn(m) }
	case "empty reads":
		f.next = func() int { return g.PickI(0, 0, 1, 7, 1000) }
	case "last with EOF":
		f.join = true
		f.next = func() int { return g.PickI(1, 100, 100000) }
	case "after 512":
		n := g.PickI(511, 512, 513, 4095, 4096, 4097, 32768)
		f.next = func() int { return n }
	}
	return f
}

// libFrom decodes data from a reader that first gives front, which has been read.
func libFrom(g *gen.G, dir string, front, data []byte, o model.Opt, armor bool) (*result.Info, error, string, string) {
	all := gen.Cat(front, data)
	var r io.Reader
	what := ""
	switch g.Intn(6) {
	case 0:
		r, what = bytes.NewReader(all), "a bytes.Reader"
	case 1:
		r, what = strings.NewReader(string(all)), "a strings.Reader"
	case 2:
		r, what = bytes.NewBuffer(all), "a bytes.Buffer"
	case 3:
		r, what = io.NewSectionReader(bytes.NewReader(all), 0, int64(len(all))), "a section"
	case 4:
		r, what = bufio.NewReaderSize(bytes.NewReader(all), g.PickI(16, 600, 5000)), "a buffered reader"
	case 5:
		name := filepath.Join(dir, "inuse")
		must(os.WriteFile(name, all, 0o600))
		defer os.Remove(name)
		f, err := os.Open(name)
		must(err)
		defer f.Close()
		r, what = f, "a file"
	}
	_, err := io.ReadFull(r, make([]byte, len(front)))
	must(err)
	info, err, p := libInfo(r, o, armor)
	return info, err, p, what
}

// environment makes settings that should not matter.
func environment(g *gen.G) []string {
	var e []string
	vals := []string{"1", "0", "true", "false", "", "C", "ja_JP.UTF-8", "de_DE.ISO8859-1", "POSIX", "yes", "x", "40", "-1", "dumb", "always", "json", "utc", "/nonexistent"}
	for _, n := range []string{"LANG", "LC_ALL", "LC_TIME", "LC_CTYPE", "LANGUAGE", "COLUMNS", "LINES", "TERM", "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "DEBUG", "VERBOSE", "PAGER", "EDITOR", "CI", "POSIXLY_CORRECT",
		"GPGPDUMP", "GPGPDUMP_OPTS", "GPGPDUMP_DEBUG", "GPGPDUMP_INDENT", "GPGPDUMP_JSON", "GPGPDUMP_UTC", "GNUPGHOME", "HOME", "USER", "XDG_CONFIG_HOME", "TMPDIR", "DISPLAY", "SOURCE_DATE_EPOCH", "HTTP_PROXY", "NO_PROXY", "DATEMSK"} {
		if g.One(2) {
			e = append(e, n+"="+vals[g.Intn(len(vals))])
		}
	}
	for _, s := range append(append([]string{}, g.Strs...), g.HotStrs...) { // names that the code has
		if envName.MatchString(s) && s != "TZ" && !strings.HasPrefix(s, "GO") && g.One(2) {
			e = append(e, s+"="+vals[g.Intn(len(vals))])
		}
	}
	return e
}

var envName = regexp.MustCompile(`^[A-Z][A-Z0-9_]+$`)

type oddErr struct{}

func (oddErr) Error() string   { return "read failed" }
func (oddErr) Temporary() bool { return true }
func (oddErr) Timeout() bool   { return true }

func init() {
	checks["C11"] = &Check{
		Rule: "binary, armored and damaged inputs of up to megabytes, sizes around buffer boundaries more often; each delivered whole, in one-octet, halving, random, empty and boundary-sized reads, with EOF alone or with the last data, as a byte slice, by readers part of which was read before (memory, strings, files, sections, buffered), as a file, through a FIFO, and to the real binary through pipes written in pieces, with other environment variables (usual ones and every name the code has); all results must be equal (and, when well-formed, equal to the reference decoder's); and with a read error of several kinds injected at every offset (small inputs) or at chosen offsets (large ones), in the library and the command: refused, nothing on standard output; non-trivial: inputs of at least one octet, distinct by octets and delivery or fault point",
		Need: []string{"delivered as: one octet", "delivered as: half", "delivered as: random", "delivered as: empty reads", "delivered as: last with EOF", "delivered as: file", "delivered as: FIFO", "delivered as: pipe to the binary", "delivered as: reader in use", "with other environment variables", "read failures injected", "read failures of the system"},
		Run: func(c *Ctx) {
			dir := filepath.Join(c.Dir, fmt.Sprintf("in%d", c.Shard))
			must(os.MkdirAll(dir, 0o700))
			input := func(g *gen.G) []byte {
				switch g.Intn(10) {
				case 0:
					g.BigOne = 1
					return g.Stream(1+g.Intn(4), 1, nil)
				case 1:
					return gen.Plain(g.PickI(60, 11, 9, 63), g.Bytes(g.PickI(500, 506, 510, 511, 512, 513, 1018, 1024, 4088, 4090, 4096, 4097, 8190, 32760, 32768, 65530, 65536)+g.Intn(8)))
				case 2, 3:
					a := g.Armoring()
					return a.Write(g.Stream(1+g.Intn(2), 1, nil))
				case 4:
					return g.Damage(g.Stream(1+g.Intn(3), 1, nil))
				case 5: // text-like octets that a careless reader might change
					return gen.Plain(11, gen.Cat([]byte{'t', 0, 0, 0, 0, 0}, []byte("\xef\xbb\xbfa\r\nb\rc\n\x1a\x04\x00"), g.Text(100), []byte("\r\n\r\n \t\n")))
				case 6:
					return gen.Cat(g.Stream(1, 1, nil), gen.Plain(61, []byte{0, 0, 0, 10, 13, 26, 32}[:g.Intn(8)]))
				}
				return g.Stream(1+g.Intn(3), 2, nil)
			}
			same := func(g *gen.G, data []byte, ref Obs, got Obs, how string) bool {
				if !ref.same(got) || (len(ref.Err) == 0) != (len(got.Err) == 0) {
					c.FailIn("the result depends on the way the input arrives ("+how+"): "+got.String()+" instead of "+ref.String(), data)
					return false
				}
				c.Count("delivered as: " + how)
				c.Seen(data, []byte(how))
				return true
			}
			one := func(g *gen.G, data []byte, withBin bool) {
				o := opts(g)
				args := append(flags(g, o), []string{"-j", "-j", "--indent=1"}[g.Intn(3)])
				if g.One(6) {
					args = append(args, "-a")
				}
				ref := runB(data, args...)
				if ref.Panic != "" {
					c.FailIn("panic: "+ref.String(), data)
					return
				}
				for k := range deliveries {
					if len(data) > 20000 && k == 0 && !g.One(10) {
						continue
					}
					c.Evals++
					if !same(g, data, ref, run(newFeed(g, data, k), args...), deliveries[k]) {
						return
					}
				}
				// byte slice
				keep := append([]byte{}, data...)
				armor := strings.Contains(strings.Join(args, " "), "-a")
				p, err := parse.NewBytes(libCtx(o, armor), data)
				var s string
				if err == nil {
					info, e2 := p.Parse()
					if err = e2; err == nil {
						s = info.String()
					}
				}
				in2, err2, pn := libInfo(newFeed(g, data, g.Intn(len(deliveries))), o, armor)
				if pn != "" || (err == nil) != (err2 == nil) || err == nil && in2.String() != s {
					c.FailIn("byte slice and stream differ: "+pn, data)
					return
				}
				if !bytes.Equal(keep, data) {
					c.FailIn("the caller's octets were changed", keep)
					return
				}
				if g.One(2) { // readers of other kinds, what was read from them before does not count
					front := g.Bytes(g.PickI(0, 1, 20, 600))
					if g.One(2) {
						front = gen.Plain(13, front)
					}
					in3, err3, pn, what := libFrom(g, dir, front, data, o, armor)
					if pn != "" || (err == nil) != (err3 == nil) || err == nil && in3.String() != s {
						c.FailIn(fmt.Sprintf("byte slice and %s of which %d octets were read before differ: error %v %s", what, len(front), err3, pn), data, "front", fmt.Sprintf("%x", front))
						return
					}
					c.Count("delivered as: reader in use")
				}
				if !armor && !looksArmored(data) && (len(data) < 100000 || !o.Debug) {
					if w := model.Dump(data, o); w.Unspec == "" && !w.Err {
						if err2 != nil {
							c.FailIn("well-formed input refused", data)
							return
						}
						if d := model.Diff("", w.Packets, nodes(in2.Packets)); d != "" {
							c.FailIn("differs from the reference decoder: "+d, data)
							return
						}
						c.Count("compared with the reference decoder")
					}
				}
				if g.One(3) {
					names := []string{"x.gpg", "with space", "日本.asc", "-f", "-", "-", "--", "stdin", "clipboard", "a=b", ".hidden", "x%20y", "$HOME", "x", "~", "0", "*", " ", "a,b", "x\ny", "\xff\xfe", "http:", strings.Repeat("n", 255)}
					name := names[g.Intn(len(names))]
					if g.One(2) {
						name = filepath.Join(dir, name)
					} else { // relative
						must(os.Chdir(dir))
						defer os.Chdir("/")
					}
					must(os.WriteFile(name, data, 0o600))
					fa := [][]string{{"-f", name}, {"--file", name}, {"--file=" + name}, {"-f" + name}}[g.Intn(4)]
					ok := same(g, data, ref, run(strings.NewReader("\xffnot this"), append(fa, args...)...), "file")
					b, _ := os.ReadFile(name)
					os.Remove(name)
					if ok && !bytes.Equal(b, data) {
						c.FailIn("the input file was changed", data)
					}
					if !ok {
						return
					}
				}
				if g.One(20) {
					name := filepath.Join(dir, "fifo")
					must(syscall.Mkfifo(name, 0o600))
					go func() {
						f, err := os.OpenFile(name, os.O_WRONLY, 0)
						if err == nil {
							for b := data; len(b) > 0; {
								n := min(len(b), 1+len(data)/3)
								f.Write(b[:n])
								b = b[n:]
								time.Sleep(time.Millisecond)
							}
							f.Close()
						}
					}()
					ok := same(g, data, ref, run(strings.NewReader(""), append([]string{"-f", name}, args...)...), "FIFO")
					os.Remove(name)
					if !ok {
						return
					}
				}
				if withBin {
					cmd := exec.Command(binPath(), args...)
					pr, pw, err := os.Pipe()
					must(err)
					cmd.Stdin = pr
					var out, errw bytes.Buffer
					cmd.Stdout, cmd.Stderr = &out, &errw
					cmd.Dir = dir
					if g.One(2) {
						cmd.Env = append(os.Environ(), environment(g)...)
						c.Count("with other environment variables")
					}
					must(cmd.Start())
					pr.Close()
					go func() {
						for b := data; len(b) > 0; {
							n := min(len(b), 1+g.Intn(1+len(data)/2))
							if _, err := pw.Write(b[:n]); err != nil {
								break
							}
							b = b[n:]
							time.Sleep(2 * time.Millisecond)
						}
						pw.Close()
					}()
					cmd.Wait()
					got := Obs{Exit: cmd.ProcessState.ExitCode(), Out: out.Bytes(), Err: errw.Bytes()}
					if !same(g, data, ref, got, "pipe to the binary") {
						c.Fails[len(c.Fails)-1].Info["environment"] = fmt.Sprintf("%q", cmd.Env)
						return
					}
				}
				if c.WantSample() && len(data) < 60 {
					c.Sample("%v <- %x: exit %d, %d octets of output, the same for every delivery", args, data, ref.Exit, len(ref.Out))
				}
			}
			c.Cases("deliveries", c.N(6000, 200000), func(g *gen.G) { one(g, input(g), g.One(12)) })
			c.Cases("large", c.N(16, 200), func(g *gen.G) {
				n := g.Near(50000, 20<<20, g.PickI(1<<20, 3<<20+1, 5000000))
				data := gen.Cat(gen.Plain(13, []byte("first")), gen.Plain(g.PickI(9, 60, 11), gen.Cat([]byte{'b', 0, 0, 0, 0, 0}, make([]byte, n))), gen.Plain(g.PickI(13, 12), []byte("last"+[]string{"", "\n", "\r\n", " ", "\x00"}[g.Intn(5)])))
				if g.One(3) {
					data = gen.Armor{Type: "MESSAGE", Line: 64, EOL: "\n", Sum: true}.Write(data)
				}
				one(g, data, true)
			})
			c.Cases("huge", c.N(16, 64), func(g *gen.G) { // nothing is lost, whatever the size
				n := []int{1<<20 + 1, 3 << 20, 1<<22 + 3, 1<<23 + 1, 17 << 20, 33<<20 + 5, 65<<20 + 1, 130 << 20}[c.K()%8]
				n = g.Near(1<<20, 600<<20, n)
				b := make([]byte, n)
				g.Read(b[:1000])
				g.Read(b[n-1000:])
				last := []byte("last" + []string{"", "\n", "\r\n", " ", "\x00", "\x1a", "\n\n\n", "="}[g.Intn(8)])
				data := gen.Cat(gen.Plain(13, []byte("first")), gen.Plain(g.PickI(9, 60, 18), b), gen.Plain(g.PickI(13, 12), last))
				o := model.Opt{UTC: true}
				ref := runB(data, "-u", "-j")
				if ns, err := tree(ref.Out); err != nil || ref.Exit != 0 || model.Diff("", model.Dump(data, o).Packets, ns) != "" {
					c.Fail(fmt.Sprintf("a packet of %d octets between two small ones is not shown as such: %s", n, ref.String()))
					return
				}
				name := filepath.Join(dir, "huge")
				must(os.WriteFile(name, data, 0o600))
				defer os.Remove(name)
				small := data[:8]
				if !same(g, small, ref, run(strings.NewReader(""), "-f", name, "-u", "-j"), "huge file") {
					return
				}
				got, killed := spawn(data, dir, "-u", "-j")
				if killed || !same(g, small, ref, got, "huge standard input") {
					return
				}
				f, err := os.Open(name)
				must(err)
				defer f.Close()
				if info, err, p := libInfo(f, o, false); err != nil || p != "" || model.Diff("", nodesOf(ref.Out), nodes(info.Packets)) != "" {
					c.Fail(fmt.Sprintf("a packet of %d octets between two small ones is not shown as such by the library: %v %s", n, err, p))
				}
			})
			fault := func(g *gen.G, data []byte, at int) bool {
				o := opts(g)
				o.Debug = false
				errs := []error{errors.New("read failed"), io.ErrUnexpectedEOF, io.ErrClosedPipe, oddErr{}, syscall.EIO, fmt.Errorf("lost: %w", io.EOF), os.ErrDeadlineExceeded}
				mk := func() *feed {
					f := newFeed(g, data, g.Intn(len(deliveries)))
					f.at, f.err, f.join = at, errs[g.Intn(len(errs))], g.One(2) && at > 0
					return f
				}
				f := mk()
				info, err, p := libInfo(f, o, g.One(4))
				if p != "" || err == nil {
					n := 0
					if info != nil {
						n = len(info.Packets)
					}
					c.FailIn(fmt.Sprintf("reading fails (%v) after %d of %d octets, and the library reports %d packets and no error %s", f.err, at, len(data), n, p), data)
					return false
				}
				f = mk()
				args := flags(g, o)
				if r := run(f, args...); r.Panic != "" || r.Exit == 0 || len(r.Out) > 0 || len(r.Err) == 0 {
					c.FailIn(fmt.Sprintf("reading fails (%v) after %d of %d octets: %s", f.err, at, len(data), r.String()), data)
					return false
				}
				c.Count("read failures injected")
				c.Seen(data, []byte{byte(at), byte(at >> 8), byte(at >> 16)}, []byte("fault"))
				return true
			}
			c.Cases("faults", c.N(800, 30000), func(g *gen.G) {
				g.Max = 100
				data := g.Stream(1+g.Intn(2), 1, nil)
				if g.One(3) {
					data = g.Armoring().Write(data)
				}
				step := 1 + len(data)/300
				for i := 0; i <= len(data); i += step {
					c.mark()
					c.Evals++
					if !fault(g, data, i) {
						return
					}
				}
				fault(g, data, len(data))
			})
			c.Cases("faults in large input", c.N(400, 10000), func(g *gen.G) {
				g.BigOne = 1
				data := input(g)
				if len(data) > 0 {
					for i := 0; i < 8; i++ {
						at := g.Intn(len(data) + 1)
						if k := g.PickI(512, 4096, 8192, 32768, 65536); g.One(2) && k <= len(data) {
							at = k
						}
						c.Evals++
						if !fault(g, data, at) {
							return
						}
					}
				}
			})
			c.Cases("system faults", c.N(32, 200), func(g *gen.G) {
				what := ""
				var o Obs
				switch c.K() % 4 {
				case 0:
					what = "a directory"
					o = run(strings.NewReader(""), "-f", dir)
				case 1:
					what = "memory that cannot be read"
					o = run(strings.NewReader(""), "-f", "/proc/self/mem")
				case 2:
					what = "a directory as standard input"
					d, err := os.Open(dir)
					must(err)
					cmd := exec.Command(binPath())
					var out, errw bytes.Buffer
					cmd.Stdin, cmd.Stdout, cmd.Stderr = d, &out, &errw
					cmd.Run()
					d.Close()
					o = Obs{Exit: cmd.ProcessState.ExitCode(), Out: out.Bytes(), Err: errw.Bytes()}
				case 3:
					what = "standard input that is write-only"
					f, err := os.OpenFile(filepath.Join(dir, "wo"), os.O_WRONLY|os.O_CREATE, 0o600)
					must(err)
					cmd := exec.Command(binPath(), "-u")
					var out, errw bytes.Buffer
					cmd.Stdin, cmd.Stdout, cmd.Stderr = f, &out, &errw
					cmd.Run()
					f.Close()
					o = Obs{Exit: cmd.ProcessState.ExitCode(), Out: out.Bytes(), Err: errw.Bytes()}
				}
				if o.Exit == 0 || len(o.Out) > 0 || len(o.Err) == 0 || o.Panic != "" {
					c.Fail(what + " is read without failure: " + o.String())
				}
				c.Count("read failures of the system")
			})
		},
	}
}
