package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/metrics"
	"strings"
	"syscall"
	"time"

	"verif/gen"
	"verif/model"
)

// --- the real binary

func binPath() string { return filepath.Join(os.Getenv("VERIF_BUILD"), "gpgpdump") }

// spawn runs the real binary. killed is set if it did not end by itself.
func spawn(stdin []byte, dir string, args ...string) (o Obs, killed bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, binPath(), args...)
	cmd.Stdin = bytes.NewReader(stdin)
	cmd.Dir = dir
	var out, errw bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errw
	err := cmd.Run()
	o.Out, o.Err = out.Bytes(), errw.Bytes()
	if ee, ok := err.(*exec.ExitError); ok {
		o.Exit = ee.ExitCode()
	} else if err != nil && cmd.ProcessState == nil {
		must(err)
	}
	if cmd.ProcessState != nil {
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			o.Panic = "signal " + ws.Signal().String()
		}
	}
	for _, s := range []string{"Panic:", "panic:", "fatal error:", "goroutine 1 ["} {
		if bytes.Contains(o.Err, []byte(s)) {
			o.Panic = clip(string(o.Err))
		}
	}
	return o, ctx.Err() != nil
}

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// cpuTime is the CPU time used by this process so far, in seconds.
func cpuTime() float64 {
	var ru syscall.Rusage
	must(syscall.Getrusage(syscall.RUSAGE_SELF, &ru))
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// --- C01

func init() {
	checks["C01"] = &Check{
		Rule:   "hostile inputs: random octets, damaged and nested packet sequences, headers announcing up to 4 GiB at every level, long chains of tiny packets, chunks and subpackets, damaged armor, damaged compressed data; decoded with random options by the command (text and JSON) and the library in a worker process whose CPU time per case and memory are watched; monitors: no panic, octets allocated in proportion to input plus output, no goroutines left behind, and for a part of them the real binary ends by itself with status 0 or 1; non-trivial: at least one octet of input with bit 7 set at the start or an armor line, distinct by octets",
		Need:   []string{"ended with a dump", "ended with an error", "allocation measured", "runs of the real binary"},
		CPU:    60,
		Assume: []string{"a case that needs more than 60 s of CPU time (they take milliseconds) or 3 GB counts as not ending"},
		Run: func(c *Ctx) {
			f := func(g *gen.G, data []byte, withBin bool) {
				o := opts(g)
				if len(data) > 0 && (data[0] >= 0x80 || bytes.Contains(data, []byte("-----BEGIN PGP"))) {
					c.Seen(data)
				}
				armor := g.One(8) && c.phase != "many"
				before := allocated()
				info, err, p := libInfo(bytes.NewReader(data), o, armor)
				if p != "" {
					c.FailIn("panic in the library: "+p, data, "how", optString(o))
					return
				}
				var txt, js int
				if err == nil {
					txt = info.ToString("\t").Len()
					if r, jerr := info.JSON(0); jerr == nil {
						js = int(r.(interface{ Len() int }).Len())
					}
					c.Count("ended with a dump")
				} else {
					c.Count("ended with an error")
				}
				used := allocated() - before
				// bzip2 works with up to 3.6 MB per stream, and compressed data expands: judged by memory in use only
				// (as is deep nesting, where a dump holds every level again at the levels above it)
				if !bytes.Contains(data, []byte("BZh")) && (!mayExpand(data) || c.phase == "many" && looksArmored(data)) && c.phase != "deep" {
					c.Count("allocation measured")
					if lim := uint64(8<<20) + 4000*uint64(len(data)) + 40*uint64(txt+js); used > lim {
						c.FailIn(fmt.Sprintf("%d octets allocated for %d octets of input and %d of output", used, len(data), txt+js), data, "how", optString(o))
					}
				}
				args := flags(g, o)
				if armor {
					args = append(args, "-a")
				}
				if g.One(2) {
					args = append(args, "-j")
				}
				if g.One(4) {
					args = append(args, fmt.Sprintf("--indent=%d", g.PickI(1, 2, 8, -1)))
				}
				if r := runB(data, args...); r.Panic != "" || r.Exit != 0 && r.Exit != 1 {
					c.FailIn("panic in the command: "+r.String(), data, "how", strings.Join(args, " "))
					return
				} else if (r.Exit == 0) != (err == nil) && !o.Debug {
					c.FailIn("library and command disagree: "+r.String(), data, "how", strings.Join(args, " "))
				}
				if withBin {
					r, killed := spawn(data, c.Dir, args...)
					c.Count("runs of the real binary")
					if killed || r.Panic != "" || r.Exit != 0 && r.Exit != 1 {
						c.FailIn("the program does not end properly: "+r.String(), data, "how", strings.Join(args, " "))
					}
				}
				if c.WantSample() && len(data) < 100 && len(data) > 8 {
					c.Sample("%v <- %x: error %v", args, data, err)
				}
			}
			g0 := runtime.NumGoroutine()
			c.Cases("random octets", c.N(20000, 800000), func(g *gen.G) {
				b := g.Bytes(g.Size(3000))
				if len(b) > 0 {
					b[0] |= 0x80
				}
				f(g, b, g.One(100))
			})
			c.Cases("random bodies", c.N(40000, 1500000), func(g *gen.G) { // a good header around anything
				t := gen.All[g.Intn(len(gen.All))]
				b := g.Bytes(g.Size(400))
				if len(b) > 0 {
					b[0] = g.Pick(0, 1, 2, 3, 4, 5, 6, 100, 255)
				}
				f(g, g.Header(t, b, true), g.One(200))
			})
			c.Cases("damaged", c.N(60000, 2000000), func(g *gen.G) { f(g, g.Damage(g.Stream(1+g.Intn(3), 3, nil)), g.One(200)) })
			c.Cases("valid", c.N(10000, 200000), func(g *gen.G) { f(g, g.Stream(1+g.Intn(4), 3, nil), g.One(100)) })
			c.Cases("cut", c.N(600, 20000), func(g *gen.G) { // every prefix
				g.Max = 60
				t := gen.All[int(c.K())%len(gen.All)]
				b := g.Header(t, g.Body(t, 2), g.One(2))
				for i := 0; i <= len(b) && i < 250; i++ {
					c.mark()
					c.Evals++
					f(g, b[:i], false)
				}
			})
			c.Cases("announced", c.N(12000, 300000), func(g *gen.G) { f(g, announced(g), g.One(60)) })
			c.Cases("armored", c.N(8000, 200000), func(g *gen.G) {
				a := g.Armoring()
				b := a.Write(g.Stream(1+g.Intn(2), 1, nil))
				if !g.One(3) {
					b = g.Damage(b)
				}
				f(g, b, g.One(60))
			})
			c.Cases("deep", c.N(48, 400), func(g *gen.G) { // as deep as a signature can be
				in := []byte{4, 0, 1, 8, 0, 0, 0, 0, 1, 2, 0, 0}
				if g.One(4) { // an error at the bottom
					in = in[:10]
				}
				d := 0
				if !c.Quick() && g.One(8) {
					d = 5000
				} else {
					d = g.PickI(10, 100, 300, 700)
				}
				for i := 0; i < d; i++ {
					b := append([]byte{32}, in...)
					if g.One(10) {
						b = gen.Cat([]byte{38, 0}, gen.Plain(2, in))
					}
					a := gen.Cat(g.SubLen(len(b)), b)
					if len(a) > 65000 {
						break
					}
					in = gen.Cat([]byte{4, 0, 1, 8}, gen.BE(2, uint64(len(a))), a, []byte{0, 0, 1, 2}, []byte{0, 0})
				}
				f(g, gen.Plain(2, in), false)
			})
			c.Cases("many", c.N(64, 640), func(g *gen.G) {
				data := many(g, int(c.K()))
				before := cpuTime()
				f(g, data, g.One(3))
				if t := cpuTime() - before; t > 30 {
					c.Fail(fmt.Sprintf("%.0f s of CPU time for an input of many small parts", t))
				} else if c.K() < 16 {
					c.Sample("many small parts, kind %d: %d octets, %.2f s of CPU time", c.K(), len(data), t)
				}
			})
			c.Cases("after", 1, func(g *gen.G) {
				for i := 0; i < 50 && runtime.NumGoroutine() > g0+2; i++ {
					time.Sleep(20 * time.Millisecond)
				}
				if n := runtime.NumGoroutine(); n > g0+20 {
					c.Fail(fmt.Sprintf("%d goroutines left behind", n-g0))
				}
			})
		},
	}
}

// mayExpand says whether data could hold compressed data.
func mayExpand(b []byte) bool {
	fs, _ := model.Frames(b)
	for _, f := range fs {
		if f.Tag == 8 {
			return true
		}
	}
	if len(fs) == 0 { // not split: any header of a compressed packet counts
		return bytes.IndexByte(b, 0xc8) >= 0 || bytes.IndexByte(b, 0xa0) >= 0 || bytes.IndexByte(b, 0xa1) >= 0 || bytes.IndexByte(b, 0xa2) >= 0 || bytes.IndexByte(b, 0xa3) >= 0 || looksArmored(b)
	}
	return false
}

// announced is data with lengths much larger than what is there.
func announced(g *gen.G) []byte {
	big := []uint64{0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, 0x7ffffff0, 0x40000000, 0x10000000, 0x1000000, 0x10000, 0xffff, 0xfff}
	l4 := func() []byte { return gen.BE(4, big[g.Intn(len(big))]) }
	tag := byte(gen.All[g.Intn(len(gen.All))])
	tail := g.Bytes(g.Size(100))
	sig := func(a []byte) []byte {
		return gen.Plain(2, gen.Cat([]byte{4, 0, 1, 8}, gen.BE(2, uint64(len(a))), a, []byte{0, 0, 1, 2}, g.MPIBits(9)))
	}
	switch g.Intn(12) {
	case 0:
		return gen.Cat([]byte{0xc0 | tag, 255}, l4(), tail)
	case 1:
		return gen.Cat([]byte{0x80 | tag<<2&0x3c | 2}, l4(), tail)
	case 2: // partial lengths up to 1 GiB
		return gen.Cat([]byte{0xc0 | tag, byte(224 + g.Intn(31))}, tail)
	case 3:
		return sig(gen.Cat([]byte{255}, l4(), []byte{g.Byte()}, tail))
	case 4:
		return gen.Plain(17, gen.Cat([]byte{255}, l4(), []byte{1}, tail))
	case 5:
		return gen.Plain(2, gen.Cat([]byte{4, 0, 1, 8, 0xff, 0xff}, tail))
	case 6: // version 5 keys
		return gen.Plain(g.PickI(5, 6, 7, 14), gen.Cat([]byte{5, 0, 0, 0, 1, g.Alg()}, l4(), tail))
	case 7:
		return gen.Plain(5, gen.Cat([]byte{5, 0, 0, 0, 1, 1, 0, 0, 0, 6}, g.MPIBits(8), g.MPIBits(8), []byte{g.Pick(0, 254, 255, 253, 9), byte(g.Intn(30))}, tail, l4(), tail))
	case 8: // integers
		return gen.Plain(g.PickI(6, 5, 2, 1), gen.Cat([]byte{g.Pick(3, 4), 0, 0, 0, 1, g.Alg(), 0xff, 0xff}, tail))
	case 9: // notation lengths
		b := gen.Cat([]byte{20, 0x80, 0, 0, 0, 0xff, 0xff, 0xff, 0xff}, tail)
		return sig(gen.Cat(g.SubLen(len(b)), b))
	case 10: // key block with announced lengths
		b := gen.Cat([]byte{38, 0, 0xc0 | tag, 255}, l4(), tail)
		return sig(gen.Cat(g.SubLen(len(b)), b))
	}
	return gen.Plain(8, gen.Cat([]byte{0, 0xc0 | tag, 255}, l4(), tail))
}

// many is a long input made of many small parts.
func many(g *gen.G, k int) []byte {
	n := 200000
	switch k % 16 {
	case 0:
		return bytes.Repeat([]byte{0xc0 | 60, 0}, n)
	case 1:
		return bytes.Repeat([]byte{0x80 | 13<<2, 1, 'x'}, n)
	case 2: // one packet in chunks of one octet
		return gen.PartialChain(g.PickI(60, 13, 9), make([]byte, n), 0)
	case 3:
		b := bytes.Repeat([]byte{2, 25, 1}, 21000)
		s := gen.Plain(2, gen.Cat([]byte{4, 0, 1, 8}, gen.BE(2, uint64(len(b))), b, gen.BE(2, uint64(len(b))), b, []byte{1, 2}, g.MPIBits(9)))
		return bytes.Repeat(s, 3)
	case 4:
		return gen.Plain(13, bytes.Repeat([]byte("\x1b[31m日本"), n/10))
	case 5:
		return gen.Plain(17, bytes.Repeat([]byte{2, 100, 1}, n))
	case 6:
		return bytes.Repeat(gen.Plain(8, []byte{1, 3, 0}), n/10)
	case 7:
		return gen.Plain(8, gen.Cat([]byte{1}, g.Compress(1, bytes.Repeat([]byte{0xc0 | 60, 0}, n))))
	case 8:
		a := g.Armoring()
		a.Line = 64
		return a.Write(bytes.Repeat([]byte{0xc0 | 61, 1, 0}, n/2))
	case 9:
		return bytes.Repeat(gen.Plain(6, gen.Cat([]byte{4, 0, 0, 0, 1, 1}, g.MPIBits(9), g.MPIBits(2))), n/20)
	case 10: // nested compressed packets
		in := gen.Plain(13, []byte("x"))
		for i := 0; i < 200; i++ {
			in = gen.Plain(8, append([]byte{0}, in...))
		}
		return in
	case 11: // many lines
		return gen.Armor{Type: "MESSAGE", Line: 64, EOL: "\n", Sum: true}.Write(gen.Plain(60, make([]byte, 8<<20)))
	case 12:
		return gen.Armor{Type: "MESSAGE", Line: 4, EOL: "\r\n", Sum: true}.Write(gen.Plain(13, bytes.Repeat([]byte("x"), 1<<20)))
	case 13:
		return gen.Armor{Type: "MESSAGE", Line: 64, EOL: "\n", Pre: strings.Repeat("line\n", 2*n), Post: strings.Repeat("-----BEGIN PGP\n", n)}.Write(gen.Plain(12, make([]byte, 100)))
	case 14: // names, notations and preferences
		b := gen.Cat([]byte{20, 0, 0, 0, 0}, gen.BE(2, 30000), gen.BE(2, 30000), bytes.Repeat([]byte("\x1b"), 30000), bytes.Repeat([]byte{0xc3, 0xa9}, 15000))
		b = gen.Cat([]byte{255}, gen.BE(4, uint64(len(b))), b)
		b2 := append([]byte{22}, g.Bytes(60000)...)
		b2 = gen.Cat([]byte{255}, gen.BE(4, uint64(len(b2))), b2)
		return bytes.Repeat(gen.Plain(2, gen.Cat([]byte{4, 0, 1, 8}, gen.BE(2, uint64(len(b))), b, gen.BE(2, uint64(len(b2))), b2, []byte{1, 2}, g.MPIBits(9))), 10)
	}
	return gen.Plain(11, gen.Cat([]byte{'b', 0, 0, 0, 0, 0}, g.Bytes(2000000)))
}
