package main

import (
	"bytes"
	"compress/flate"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"

	"verif/gen"
	"verif/model"
)

// --- C18

const giB = int64(1) << 30

// zeroSeg is a piece of a deflate stream that gives segSize zeros.
const segSize = 1 << 22

func deflate(head []byte, zeros int64, w io.Writer) {
	var buf bytes.Buffer
	fw, _ := flate.NewWriter(&buf, 9)
	fw.Write(head)
	fw.Flush()
	w.Write(buf.Bytes())
	buf.Reset()
	fw.Reset(&buf)
	fw.Write(make([]byte, segSize))
	fw.Flush()
	seg := append([]byte{}, buf.Bytes()...)
	for ; zeros >= segSize; zeros -= segSize {
		w.Write(seg)
	}
	buf.Reset()
	fw.Reset(&buf)
	fw.Write(make([]byte, zeros))
	fw.Close()
	w.Write(buf.Bytes())
}

func adler(head []byte, zeros int64) uint32 {
	const m = 65521
	a, b := uint64(1), uint64(0)
	for _, x := range head {
		a = (a + uint64(x)) % m
		b = (b + a) % m
	}
	b = (b + a*(uint64(zeros)%m)) % m // a stays for zeros
	return uint32(b<<16 | a)
}

var bzSeg []byte

const bzSegSize = 1 << 25

func bzip(head []byte, zeros int64, w io.Writer) {
	if bzSeg == nil {
		bzSeg = bzZeros(bzSegSize)
	}
	if len(head) > 0 {
		w.Write(gen.Bzip2(head, 9, 800000))
	}
	for ; zeros >= bzSegSize; zeros -= bzSegSize {
		w.Write(bzSeg) // streams may be concatenated
	}
	if zeros > 0 {
		w.Write(bzZeros(zeros))
	}
}

func bzZeros(n int64) []byte {
	cmd := exec.Command("bzip2", "-9c")
	cmd.Stdin = io.LimitReader(zeroReader{}, n)
	b, err := cmd.Output()
	must(err)
	return b
}

type zeroReader struct{}

func (zeroReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0
	}
	return len(p), nil
}

// bomb is a compressed packet with a literal packet of zeros and possibly another one behind.
type bomb struct {
	alg  byte
	size int64
	tail bool
}

func (k bomb) packet() (pkt []byte, zlen int, lit int64) {
	var head, tail []byte
	if k.tail {
		tail = gen.Plain(13, []byte("inside, behind"))
	}
	lit = k.size - 6 - int64(len(tail))
	head = gen.Cat([]byte{0xcb, 255}, gen.BE(4, uint64(uint32(lit))), []byte{'b', 0, 0, 0, 0, 0})
	zeros := k.size - int64(len(head)) - int64(len(tail))
	if lit >= 1<<32 { // the header cannot say so; it is not looked at
		lit = 0
	}
	var z bytes.Buffer
	z.WriteByte(k.alg)
	switch k.alg {
	case 1:
		deflateT(head, zeros, tail, &z)
	case 2:
		z.Write([]byte{0x78, 0xda})
		deflateT(head, zeros, tail, &z)
		z.Write(gen.BE(4, uint64(adlerT(head, zeros, tail))))
	case 3:
		bzip(head, zeros, &z)
		if len(tail) > 0 {
			z.Write(gen.Bzip2(tail, 9, 1000))
		}
	}
	return gen.Cat([]byte{0xc8, 255}, gen.BE(4, uint64(z.Len())), z.Bytes()), z.Len(), lit
}

// shown says whether n is this packet with its content shown completely.
func (k bomb) shown(n *model.Node, zlen int, lit int64) bool {
	var data *model.Node
	var pk []*model.Node
	for _, x := range n.Items {
		if x.Name == "Compressed data" {
			data = x
		}
		if tagOf(x) >= 0 {
			pk = append(pk, x)
		}
	}
	want := 1
	if k.tail {
		want = 2
	}
	return tagOf(n) == 8 && data != nil && data.Note == fmt.Sprintf("%d bytes", zlen-1) && n.Note == fmt.Sprintf("%d bytes", zlen) &&
		data.Value == "" && len(pk) == want && tagOf(pk[0]) == 11 && pk[0].Note == fmt.Sprintf("%d bytes", lit) && has(pk[0], "Literal data", fmt.Sprintf("%d bytes", lit-6)) && !(k.tail && tagOf(pk[1]) != 13)
}

// watched runs the real binary under a watch on memory and CPU time.
func watched(cpuLimit float64, args ...string) (r Obs, peak int, used float64, killed string) {
	cmd := exec.Command(binPath(), args...)
	var out, errw bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errw
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(50 * time.Millisecond)
	defer tick.Stop()
	for run := true; run; {
		select {
		case <-done:
			run = false
		case <-tick.C:
			cpu, rss := procUse(cmd.Process.Pid)
			peak = max(peak, rss)
			if rss > 9<<10 {
				killed = fmt.Sprintf("%d MB of memory", rss)
			} else if cpu > cpuLimit {
				killed = fmt.Sprintf("no end after %.0f s of CPU time", cpu)
			}
			if killed != "" {
				cmd.Process.Kill()
				<-done
				return
			}
		}
	}
	ru := cmd.ProcessState.SysUsage().(*syscall.Rusage)
	if peak = max(peak, int(ru.Maxrss/1024)); peak > 9<<10 {
		killed = fmt.Sprintf("%d MB of memory", peak)
	}
	used = float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec)/1e6
	return Obs{Exit: cmd.ProcessState.ExitCode(), Out: out.Bytes(), Err: errw.Bytes()}, peak, used, killed
}

func init() {
	checks["C18"] = &Check{
		Rule:  "compressed data packets (ZIP, ZLIB, BZip2; one literal, or one literal and a user ID behind it) whose content is just under 1 GiB, exactly 1 GiB, just over, up to 64 GiB, and of sizes around powers of two from 1 MiB to 512 MiB, several of them in one input and in successive executions of one process, given to the real binary from a file with a packet before and behind, under a watch on resident memory and CPU time; monitors: the content is shown with its exact size below the limit, replaced by the remark from the limit on, the packets around are shown, memory stays below 9 GiB, and time for a huge content is like that for one of 1 GiB; non-trivial: all, distinct by algorithm, size and layout",
		Need:  []string{"shown completely", "reported as too large", "just under the limit", "exactly at the limit", "far beyond the limit", "several packets in one input", "executions in one process"},
		Procs: 3, CPU: 600, MemMB: 4000,
		Assume: []string{"memory is bounded if the resident set stays below 9 GiB where 1 GiB of content needs 2 to 4 GiB"},
		Run: func(c *Ctx) {
			var list []bomb
			for _, alg := range []byte{1, 2, 3} {
				list = append(list, bomb{alg, giB - 1, false}, bomb{alg, giB, false})
			}
			list = append(list, bomb{1, 64 * giB, false}, bomb{2, 40 * giB, true}, bomb{3, 12 * giB, false}, bomb{2, giB + 1, false}, bomb{1, giB - 1, true}, bomb{1, giB + giB/4, true})
			small := []int64{20, 22, 24, 25, 26, 27, 28, 29}
			for i, e := range small {
				for j := byte(1); j <= 3; j++ {
					list = append(list, bomb{j, int64(1)<<e + int64(i%3) - 1, j == 2})
				}
			}
			list = append(list, bomb{1, 100000000, false}, bomb{2, 900000000, true}, bomb{1, 1000000000, false}, bomb{2, 1 << 19, false}, bomb{1, giB - giB/100, true}, bomb{1, 3 * giB / 4, false})
			if !c.Quick() {
				for _, alg := range []byte{1, 2, 3} {
					for _, d := range []int64{-2, 1, 2, 7, 4096, -4096, 1 << 20, -(1 << 20), giB, 3 * giB} {
						list = append(list, bomb{alg, giB + d, d%2 == 0})
					}
				}
			}
			for i, v := range c.hints.Hot { // sizes that the code seems to distinguish
				if v >= 4096 && v <= 2*giB && len(list) < 80 {
					list = append(list, bomb{byte(1 + i%3), v + 1, i%2 == 0}, bomb{byte(1 + (i+1)%3), v, false})
				}
			}
			c.Cases("sizes", len(list), func(g *gen.G) {
				k := list[c.K()]
				pkt, zlen, lit := k.packet()
				name := filepath.Join(c.Dir, fmt.Sprintf("bomb%d", c.K()))
				must(os.WriteFile(name, gen.Cat(gen.Plain(13, []byte("before")), pkt, gen.Plain(13, []byte("behind"))), 0o600))
				defer os.Remove(name)
				pkt = nil
				how := fmt.Sprintf("algorithm %d, content of %d octets (1 GiB%+d), %d compressed", k.alg, k.size, k.size-giB, zlen)

				cpuLimit := 240.0
				if k.size > 8*giB {
					cpuLimit = 150 // 1 GiB takes 10 to 20 s
				}
				r, peak, used, killed := watched(cpuLimit, "-j", "-f", name)
				if killed != "" {
					c.Fail(killed, "how", how)
					return
				}
				ns, terr := tree(r.Out)
				if r.Exit != 0 || terr != nil || len(ns) != 3 || tagOf(ns[0]) != 13 || tagOf(ns[1]) != 8 || tagOf(ns[2]) != 13 || len(r.Err) > 0 {
					c.Fail("the input is not dumped: "+r.String(), "how", how)
					return
				}
				var data *model.Node
				var pk []*model.Node
				for _, n := range ns[1].Items {
					if n.Name == "Compressed data" {
						data = n
					}
					if tagOf(n) >= 0 {
						pk = append(pk, n)
					}
				}
				if data == nil || data.Note != fmt.Sprintf("%d bytes", zlen-1) || ns[1].Note != fmt.Sprintf("%d bytes", zlen) {
					c.Fail("wrong size of the compressed data: "+clip(string(r.Out)), "how", how)
					return
				}
				if k.size < giB {
					want := 1
					if k.tail {
						want = 2
					}
					if data.Value != "" || len(pk) != want || tagOf(pk[0]) != 11 || pk[0].Note != fmt.Sprintf("%d bytes", lit) || !has(pk[0], "Literal data", fmt.Sprintf("%d bytes", lit-6)) || k.tail && tagOf(pk[1]) != 13 {
						c.Fail("the content is not shown completely: "+clip(string(r.Out)), "how", how)
						return
					}
					c.Count("shown completely")
					if k.size == giB-1 {
						c.Count("just under the limit")
					}
				} else {
					if !strings.HasPrefix(data.Value, "<") || len(data.Value) < 3 || len(pk) != 0 {
						c.Fail("the content is not reported as too large: "+clip(string(r.Out)), "how", how)
						return
					}
					c.Count("reported as too large")
					if k.size == giB {
						c.Count("exactly at the limit")
					}
					if k.size > 8*giB {
						c.Count("far beyond the limit")
					}
				}
				c.Seen([]byte(how))
				c.Sample("%s: peak %d MB, %.1f s of CPU time: %s", how, peak, used, clip(string(r.Out)))
			})
			// the limit is for each packet
			const m = int64(1) << 20
			groups := [][]bomb{
				{{1, 500 * m, false}, {2, 400 * m, true}, {1, 300 * m, false}},
				{{1, 5 * giB / 8, true}, {1, 5 * giB / 8, false}},
				{{2, giB + 5, false}, {2, 100 * m, false}, {1, 90 * m, true}},
				{{3, 200 * m, false}, {1, giB, false}, {3, 900 * m, false}},
				{{1, 1 * m, false}, {1, giB - 1, false}, {1, 1 * m, true}},
			}
			c.Cases("several", len(groups), func(g *gen.G) {
				ks := groups[c.K()]
				name := filepath.Join(c.Dir, fmt.Sprintf("several%d", c.K()))
				defer os.Remove(name)
				var all []byte
				zlens, lits := make([]int, len(ks)), make([]int64, len(ks))
				for i, k := range ks {
					var p []byte
					p, zlens[i], lits[i] = k.packet()
					all = append(all, p...)
				}
				must(os.WriteFile(name, all, 0o600))
				how := fmt.Sprintf("packets (algorithm, size, tail) %v", ks)
				r, peak, used, killed := watched(400, "-j", "-f", name)
				if killed != "" {
					c.Fail(killed, "how", how)
					return
				}
				ns, terr := tree(r.Out)
				if r.Exit != 0 || terr != nil || len(ns) != len(ks) {
					c.Fail("the input is not dumped: "+r.String(), "how", how)
					return
				}
				for i, k := range ks {
					if got := k.shown(ns[i], zlens[i], lits[i]); got != (k.size < giB) {
						c.Fail(fmt.Sprintf("packet %d is not shown as it should be: %s", i, clip(string(r.Out))), "how", how)
						return
					}
				}
				c.Count("several packets in one input")
				c.Seen([]byte(how))
				c.Sample("%s: peak %d MB, %.1f s of CPU time", how, peak, used)
			})
			c.Cases("one process", 3, func(g *gen.G) {
				k := bomb{byte(1 + c.K()), 200 * m, c.K() == 1}
				p, zlen, lit := k.packet()
				for i := 0; i < 7; i++ { // more than 1 GiB all together
					r := runB(p, "-j")
					ns, terr := tree(r.Out)
					if r.Panic != "" || r.Exit != 0 || terr != nil || len(ns) != 1 || !k.shown(ns[0], zlen, lit) {
						c.Fail(fmt.Sprintf("execution %d with a content of %d octets: %s", i+1, k.size, r.String()))
						return
					}
					c.Count("executions in one process")
					c.Evals++
					runtime.GC()
				}
				c.Seen([]byte(fmt.Sprint("one process", k)))
			})
		},
	}
}

func deflateT(head []byte, zeros int64, tail []byte, w io.Writer) {
	if len(tail) == 0 {
		deflate(head, zeros, w)
		return
	}
	var buf bytes.Buffer
	fw, _ := flate.NewWriter(&buf, 9)
	fw.Write(head)
	fw.Flush()
	w.Write(buf.Bytes())
	buf.Reset()
	fw.Reset(&buf)
	fw.Write(make([]byte, segSize))
	fw.Flush()
	seg := append([]byte{}, buf.Bytes()...)
	for ; zeros >= segSize; zeros -= segSize {
		w.Write(seg)
	}
	buf.Reset()
	fw.Reset(&buf)
	fw.Write(make([]byte, zeros))
	fw.Write(tail)
	fw.Close()
	w.Write(buf.Bytes())
}

func adlerT(head []byte, zeros int64, tail []byte) uint32 {
	const m = 65521
	x := adler(head, zeros)
	a, b := uint64(x&0xffff), uint64(x>>16)
	for _, y := range tail {
		a = (a + uint64(y)) % m
		b = (b + a) % m
	}
	return uint32(b<<16 | a)
}

func has(n *model.Node, name, note string) bool {
	for _, x := range n.Items {
		if x.Name == name && x.Note == note {
			return true
		}
	}
	return false
}
