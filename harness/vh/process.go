package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/spiegel-im-spiegel/gocli/rwi"
	"github.com/spiegel-im-spiegel/gpgpdump/facade"

	"verif/gen"
	"verif/model"
)

// closedPort is a port of the loopback on which nobody listens.
func closedPort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	p := l.Addr().(*net.TCPAddr).Port
	l.Close()
	return p
}

// --- C16

type badWriter struct {
	left  int
	short bool
	err   error
	buf   bytes.Buffer
}

func (w *badWriter) Write(p []byte) (int, error) {
	if len(p) <= w.left {
		w.left -= len(p)
		w.buf.Write(p)
		return len(p), nil
	}
	n := w.left
	w.left = 0
	w.buf.Write(p[:n])
	if w.short {
		return n, nil
	}
	return n, w.err
}

func init() {
	checks["C16"] = &Check{
		Rule: "command lines made from a grammar: every dump option in every spelling, repeated and combined, valid and damaged input from standard input and files; wrong options, values, commands, arguments and files at random places; version, help and completion in all spellings; Web commands with wrong arguments, refused connections and answers of a stand-in for the Web; run by the real binary (a third) and in process; the exit status must be 0 exactly when the request is valid and the library decodes the input, with the dump on standard output and nothing on standard error, otherwise the reverse; output failures injected at every offset of the dump and with /dev/full; non-trivial: command lines with at least one argument or a non-empty input, distinct by both",
		Need: []string{"dumps", "refused: input", "refused: option", "refused: option value", "refused: command", "refused: file", "refused: argument", "refused: request", "informed", "scripts", "output failures injected", "output failures injected: Web", "output failures injected: version", "answered", "runs of the real binary", "full device"},
		Run: func(c *Ctx) {
			dir := filepath.Join(c.Dir, fmt.Sprintf("p%d", c.Shard))
			must(os.MkdirAll(filepath.Join(dir, "d"), 0o700))
			port := closedPort()
			w := newWeb(filepath.Join(dir, "w"))
			exec1 := func(g *gen.G, bin bool, in []byte, args []string) Obs {
				if bin {
					o, killed := spawn(in, dir, args...)
					if killed {
						o.Panic = "no end"
					}
					c.Count("runs of the real binary")
					return o
				}
				return runB(in, args...)
			}
			judge := func(o Obs, kind string, wantOut []byte) string {
				switch {
				case o.Panic != "":
					return "does not end properly"
				case kind == "dump":
					if o.Exit != 0 || len(o.Err) > 0 || !bytes.Equal(o.Out, wantOut) {
						return "should be a dump"
					}
				case kind == "inform":
					if o.Exit != 0 || len(o.Out) > 0 || len(o.Err) == 0 {
						return "should be text on standard error and success"
					}
				case kind == "script":
					if o.Exit != 0 || len(o.Out) == 0 || len(o.Err) > 0 {
						return "should be a script on standard output"
					}
				case kind == "refuse":
					if o.Exit == 0 || o.Exit > 125 || len(o.Out) > 0 || len(bytes.TrimSpace(o.Err)) == 0 {
						return "should be refused with a message"
					}
				}
				return ""
			}
			input := func(g *gen.G) []byte {
				switch g.Intn(6) {
				case 0:
					return g.Damage(g.Stream(1+g.Intn(2), 1, nil))
				case 1:
					b := g.Armoring().Write(g.Stream(1, 1, nil))
					if g.One(3) {
						b = g.Damage(b)
					}
					return b
				case 2:
					return []byte([]string{"", "Hello.\n", "\n", "\x00", "-----BEGIN PGP MESSAGE-----\n", "\xff", "\x80", "{}"}[g.Intn(8)])
				}
				return g.Stream(1+g.Intn(3), 2, nil)
			}
			c.Cases("dumps", c.N(9000, 300000), func(g *gen.G) {
				in := input(g)
				o := opts(g)
				o.Debug = false
				args := flags(g, o)
				js, unit, armor := false, "\t", false
				if g.One(3) {
					js = true
					args = append(args, []string{"-j", "--json", "--json=true"}[g.Intn(3)])
				}
				if g.One(4) {
					n := g.PickI(1, 2, 4, 8)
					unit = strings.Repeat(" ", n)
					args = append(args, fmt.Sprintf("--indent=%d", n))
				}
				if g.One(5) {
					armor = true
					args = append(args, "-a")
				}
				g.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
				stdin := in
				if g.One(3) {
					name := filepath.Join(dir, fmt.Sprintf("f%d", c.K()))
					must(os.WriteFile(name, in, 0o600))
					defer os.Remove(name)
					args = append(args, "--file="+name)
					stdin = g.Bytes(4)
				}
				info, err, p := libInfo(bytes.NewReader(in), o, armor)
				if p != "" {
					return // C01
				}
				kind := "refuse"
				var want []byte
				if err == nil {
					kind = "dump"
					if js {
						r, e := info.JSON(len(strings.ReplaceAll(unit, "\t", "")))
						if e != nil {
							return
						}
						want, _ = io.ReadAll(r)
					} else {
						want = []byte(info.ToString(unit).String())
					}
					c.Count("dumps")
				} else {
					c.Count("refused: input")
				}
				r := exec1(g, g.One(3), stdin, args)
				if bad := judge(r, kind, want); bad != "" {
					c.FailIn(bad+": "+r.String(), in, "how", strings.Join(args, " "))
					return
				}
				if len(args) > 0 || len(in) > 0 {
					c.Seen([]byte(strings.Join(args, " ")), in)
				}
				if c.WantSample() && len(in) < 80 {
					c.Sample("gpgpdump %s <- %x: exit %d", strings.Join(args, " "), in, r.Exit)
				}
			})
			good := gen.Plain(13, []byte("Alice"))
			goodFile := filepath.Join(dir, "good")
			must(os.WriteFile(goodFile, good, 0o600))
			c.Cases("refusals", c.N(3000, 60000), func(g *gen.G) {
				o := opts(g)
				o.Debug = false
				args := flags(g, o)
				ins := func(s ...string) {
					i := g.Intn(len(args) + 1)
					args = append(args[:i:i], append(append([]string{}, s...), args[i:]...)...)
				}
				kind := ""
				switch g.Intn(6) {
				case 0:
					kind = "option"
					ins([]string{"--nosuch", "-Z", "-uZ", "--utcc", "-x", "--no-utc", "---", "--raw", "--keyid=1", "--port=80", "--secure", "-gc", "--INT", "-U", "--keyserver=x"}[g.Intn(15)])
				case 1:
					kind = "option value"
					ins([]string{"--indent=x", "--indent=", "--indent=1.5", "--utc=maybe", "--json=2", "--indent=99999999999999999999", "--debug=x", "-u=no?", "--armor=", "--version=2", "--clipboard=x"}[g.Intn(11)])
				case 2:
					kind = "option value"
					args = append(args, []string{"-f", "--file", "--indent"}[g.Intn(3)])
				case 3:
					kind = "command"
					ins([]string{"nosuch", "dump", "file.gpg", "VERSION", "hkps", "fetc", "git hub", "comp"}[g.Intn(8)])
				case 4:
					kind = "file"
					ins([]string{"--file=" + filepath.Join(dir, "missing"), "--file=" + dir, "-f" + filepath.Join(dir, "d"), "--file=" + filepath.Join(dir, "missing", "x"), "--file=" + goodFile + "/x", "--file=" + strings.Repeat("x", 5000), "--file=-", "-f-"}[g.Intn(8)])
				case 5:
					kind = "argument"
					bad := [][]string{{"completion", "tcsh"}, {"completion", "bash", "zsh"}, {"completion", ""}, {"fetch"}, {"fetch", "a", "b"}, {"hkp"}, {"hkp", "a", "b"}, {"hkp", "--keyserver=", "x"}, {"github"}, {"github", "a", "b"},
						{"hkp", "--port=x", "x"}, {"fetch", "--nosuch", "x"}, {"completion", "--nosuch"}, {"version", "--nosuch"}, {"fetch", "--raw=2", "x"}, {"github", "--keyid"}, {"cmp", "csh"}, {"--clipboard", "-f", goodFile}, {"--file=" + goodFile, "--clipboard"}}[g.Intn(19)]
					args = append(args, bad...)
				}
				r := exec1(g, g.One(4), good, args)
				if bad := judge(r, "refuse", nil); bad != "" {
					c.Fail(bad+": "+r.String(), "how", fmt.Sprintf("%q", args))
					return
				}
				c.Count("refused: " + kind)
				c.Seen([]byte(strings.Join(args, " ")))
			})
			c.Cases("requests", c.N(200, 3000), func(g *gen.G) { // nobody answers
				u := fmt.Sprintf("http://127.0.0.1:%d/x", port)
				args := [][]string{{"fetch", u}, {"fetch", "--raw", u}, {"f", "-u", u}, {"hkp", "--keyserver", "127.0.0.1", "--port", fmt.Sprint(port), "0x1234"}, {"h", "--raw", "--keyserver=127.0.0.1", fmt.Sprintf("--port=%d", port), "x y&z"},
					{"hkp", "--secure", "--keyserver=127.0.0.1", fmt.Sprintf("--port=%d", port), "x"}, {"fetch", "://"}, {"fetch", "nosuch://x"}, {"fetch", ""}, {"fetch", "http://"}, {"fetch", goodFile}, {"fetch", "file://" + goodFile}, {"fetch", "http://127.0.0.1:99999/"}, {"hkp", "--keyserver=127.0.0.1", "--port=99999", "x"}, {"fetch", "http://[::1"}}[g.Intn(15)]
				r := exec1(g, g.One(3), good, args)
				if bad := judge(r, "refuse", nil); bad != "" {
					c.Fail(bad+": "+r.String(), "how", fmt.Sprintf("%q", args))
					return
				}
				c.Count("refused: request")
				c.Seen([]byte(strings.Join(args, " ")))
			})
			c.Cases("answers", c.N(600, 12000), func(g *gen.G) { // somebody answers
				g.Max = 300
				var body []byte
				switch g.Intn(6) {
				case 0:
					body = []byte([]string{"", "Hello.\n", "-----BEGIN PGP MESSAGE-----\n", "no key"}[g.Intn(4)])
				case 1:
					body = g.Damage(g.Armoring().Write(g.Stream(1, 1, nil)))
				default:
					body = g.Armoring().Write(g.Stream(1+g.Intn(2), 1, nil))
				}
				body = []byte(strings.ToValidUTF8(string(body), "?"))
				if len(body) == 0 {
					body = []byte("\n")
				}
				w.expect(func(r *http.Request, seq int) []piece {
					b := body
					if strings.HasSuffix(r.URL.Path, "/gpg_keys") {
						b, _ = json.Marshal([]map[string]interface{}{{"key_id": "0123456789ABCDEF", "raw_key": string(body)}})
					}
					return []piece{{b: []byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", len(b), b))}}
				})
				o := opts(g)
				o.Debug = false
				fl := flags(g, o)
				if g.One(3) {
					fl = append(fl, "-j")
				}
				kind := []string{"fetch", "hkp", "hkp secure", "github user", "github key"}[g.Intn(5)]
				args := append(simpleReq(g, w, kind, "word", body).args, append(fl, "-a")...)
				raw := g.One(3)
				if raw {
					args = append(args, "--raw")
				}
				if g.One(4) { // one argument too many, or none
					if g.One(2) {
						args = append(args, []string{"word", "", "http://www.example/word"}[g.Intn(3)])
						if g.One(4) {
							args = append(args, "third")
						}
					} else {
						var a []string
						for i, s := range args {
							if i == 0 || strings.HasPrefix(s, "-") {
								a = append(a, s)
							}
						}
						args = a
					}
					r := exec1(g, g.One(4), good, args)
					if bad := judge(r, "refuse", nil); bad != "" {
						c.FailIn(bad+": "+r.String(), body, "how", fmt.Sprintf("%q", args))
						return
					}
					if a := w.asked(); len(a) > 0 {
						c.Fail(fmt.Sprintf("wrong arguments, and yet a request: %v", a), "how", fmt.Sprintf("%q", args))
						return
					}
					c.Count("refused: argument")
					c.Seen([]byte(strings.Join(args, " ")))
					return
				}
				ref := runB(body, append(fl, "-a")...)
				if ref.Panic != "" {
					return // C01
				}
				want, k := ref.Out, "dump"
				if raw {
					want = body
				} else if ref.Exit != 0 {
					want, k = nil, "refuse"
				}
				r := exec1(g, g.One(6), good, args)
				if bad := judge(r, k, want); bad != "" {
					c.FailIn(bad+": "+r.String(), body, "how", fmt.Sprintf("%q", args))
					return
				}
				c.Count("answered")
				c.Seen(body, []byte(strings.Join(args, " ")))
				if k == "dump" && len(want) > 0 {
					for i := 0; i < 4; i++ {
						c.mark()
						c.Evals++
						n := g.Intn(len(want))
						bw := &badWriter{left: n, short: g.One(4), err: []error{errors.New("disk full"), syscall.ENOSPC, syscall.EPIPE, io.ErrClosedPipe}[g.Intn(4)]}
						var ew bytes.Buffer
						code := facade.Execute(rwi.New(rwi.WithReader(bytes.NewReader(nil)), rwi.WithWriter(bw), rwi.WithErrorWriter(&ew)), args)
						if code == 0 || ew.Len() == 0 {
							c.FailIn(fmt.Sprintf("writing fails after %d of %d octets: exit %d, message %q", n, len(want), code, ew.String()), body, "how", strings.Join(args, " "))
							return
						}
						if !bytes.HasPrefix(want, bw.buf.Bytes()) {
							c.FailIn("what was written before the failure is not the beginning of the output", body, "how", strings.Join(args, " "))
							return
						}
						c.Count("output failures injected: Web")
					}
				}
			})
			infos := [][]string{{"version"}, {"ver"}, {"v"}, {"-v"}, {"--version"}, {"--version=true"}, {"-uv"}, {"-v", "-j"}, {"--help"}, {"-h"}, {"help"}, {"help", "fetch"}, {"help", "version"}, {"fetch", "--help"}, {"hkp", "-h"}, {"github", "--help"}, {"completion", "--help"}, {"version", "-h"}, {"-j", "--help"}, {"-v", "-f", goodFile}, {"help", "completion"}}
			scripts := [][]string{{"completion"}, {"completion", "bash"}, {"completion", "zsh"}, {"completion", "fish"}, {"completion", "powershell"}, {"compl", "BASH"}, {"cmp", "Zsh"}, {"completion", "PowerShell"}, {"completion", "-u", "fish"}}
			c.Cases("information", 2*(len(infos)+len(scripts)), func(g *gen.G) {
				k := int(c.K()) / 2
				kind, args := "inform", []string(nil)
				if k < len(infos) {
					args = infos[k]
				} else {
					kind, args = "script", scripts[k-len(infos)]
				}
				r := exec1(g, c.K()%2 == 0, good, args)
				bad := judge(r, kind, nil)
				if bad == "" && kind == "inform" && len(args) == 1 && strings.HasPrefix(strings.TrimLeft(args[0], "-"), "v") {
					// nobody can read the version
					for n := 0; n < len(r.Err); n += 5 {
						bw := &badWriter{left: n, err: syscall.ENOSPC}
						var ow bytes.Buffer
						if code := facade.Execute(rwi.New(rwi.WithReader(bytes.NewReader(nil)), rwi.WithWriter(&ow), rwi.WithErrorWriter(bw)), args); code == 0 || ow.Len() > 0 {
							bad = fmt.Sprintf("standard error fails after %d octets: exit %d, output %q", n, code, ow.String())
						}
						c.Count("output failures injected: version")
					}
				}
				if bad == "" && kind == "inform" && strings.HasPrefix(strings.TrimLeft(args[0], "-"), "v") && !strings.Contains(strings.Join(args, " "), "-h") && !bytes.Contains(r.Err, []byte("gpgpdump")) {
					bad = "should be the version"
				}
				if bad == "" && kind == "script" {
					if !bytes.Contains(r.Out, []byte("gpgpdump")) {
						bad = "script does not know the program"
					}
					if len(args) == 1 || strings.EqualFold(args[1], "bash") {
						cmd := exec.Command("bash", "-n")
						cmd.Stdin = bytes.NewReader(r.Out)
						if e := cmd.Run(); e != nil {
							bad = "bash refuses the script"
						}
						c.Count("bash scripts parsed by bash")
					}
				}
				if bad != "" {
					c.Fail(bad+": "+r.String(), "how", fmt.Sprintf("%q", args))
					return
				}
				c.Count(map[string]string{"inform": "informed", "script": "scripts"}[kind])
				c.Seen([]byte(strings.Join(args, " ")))
			})
			c.Cases("output failures", c.N(1200, 40000), func(g *gen.G) {
				var args []string
				var in []byte
				if g.One(8) {
					args = scripts[g.Intn(len(scripts))]
				} else {
					g.Max = 200
					in = g.Stream(1+g.Intn(2), 1, nil)
					o := opts(g)
					o.Debug = false
					args = flags(g, o)
					if g.One(2) {
						args = append(args, "-j")
					}
					if g.One(3) {
						args = append(args, "--indent=2")
					}
				}
				ref := runB(in, args...)
				if ref.Exit != 0 || len(ref.Out) == 0 {
					return
				}
				step := 1 + len(ref.Out)/25
				for k := 0; k < len(ref.Out); k += 1 + g.Intn(step) {
					c.mark()
					c.Evals++
					w := &badWriter{left: k, short: g.One(4), err: []error{errors.New("disk full"), syscall.ENOSPC, syscall.EPIPE, io.ErrClosedPipe}[g.Intn(4)]}
					var ew bytes.Buffer
					a := args
					if a == nil {
						a = []string{}
					}
					code := facade.Execute(rwi.New(rwi.WithReader(bytes.NewReader(in)), rwi.WithWriter(w), rwi.WithErrorWriter(&ew)), a)
					if code == 0 || ew.Len() == 0 {
						c.FailIn(fmt.Sprintf("writing fails after %d of %d octets: exit %d, message %q", k, len(ref.Out), code, ew.String()), in, "how", strings.Join(args, " "))
						return
					}
					if !bytes.HasPrefix(ref.Out, w.buf.Bytes()) {
						c.FailIn("what was written before the failure is not the beginning of the dump", in, "how", strings.Join(args, " "))
						return
					}
					c.Count("output failures injected")
					c.Seen(in, []byte(strings.Join(args, " ")), []byte(fmt.Sprint(k)))
				}
				if g.One(10) {
					full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
					if err != nil {
						return
					}
					defer full.Close()
					cmd := exec.Command(binPath(), args...)
					var ew bytes.Buffer
					cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(in), full, &ew
					cmd.Run()
					if cmd.ProcessState.ExitCode() == 0 || ew.Len() == 0 {
						c.FailIn(fmt.Sprintf("success (%d) on a full device, message %q", cmd.ProcessState.ExitCode(), ew.String()), in, "how", strings.Join(args, " "))
					}
					c.Count("full device")
				}
			})
		},
	}
}

// --- C17

func init() {
	checks["C17"] = &Check{
		Rule:   "worker processes built with the race detector; in each round 2 to 16 goroutines decode, render as text and render as JSON inputs that are the same, shared or different, each with its own context, starting together, with yields injected between reads of the input; the first rounds start in a fresh process; monitors: no race reported, each result equal to the one obtained alone before or afterwards, in three repetitions, the shared input octets unchanged; non-trivial: rounds in which at least two decodings overlapped, distinct by inputs and order of completion",
		Need:   []string{"decodings compared", "rounds with overlapping decodings", "decodings of shared octets"},
		CPU:    240,
		Env:    []string{"GORACE=halt_on_error=1 exitcode=66"},
		Assume: []string{"the race detector sees only races between accesses that were executed"},
		Run: func(c *Ctx) {
			time.Local = time.FixedZone("X", 5*3600+45*60)
			one := func(data []byte, o model.Opt, armor bool, how int) string {
				var r io.Reader = bytes.NewReader(data)
				if how%3 == 1 {
					r = &yield{data, 1 + how%700}
				}
				info, err, p := libInfo(r, o, armor)
				if p != "" {
					return "panic " + p
				}
				if err != nil {
					return "error " + err.Error()
				}
				j, err := info.JSON(how % 2)
				if err != nil {
					return "error " + err.Error()
				}
				jb, _ := io.ReadAll(j)
				if how%2 == 1 {
					var w bytes.Buffer
					w.Write(compact(jb))
					jb = w.Bytes()
				}
				return info.String() + "\n" + strings.TrimSpace(string(jb))
			}
			round := func(g *gen.G, cold bool) {
				n := g.PickI(2, 3, 4, 8, 16)
				type job struct {
					data  []byte
					o     model.Opt
					armor bool
					how   int
					got   string
				}
				jobs := make([]*job, n)
				var pool [][]byte
				for i := 0; i < 1+g.Intn(4); i++ {
					g.BigOne = 200
					b := g.Stream(1+g.Intn(3), 2, nil)
					if g.One(6) {
						b = g.Damage(b)
					}
					twin := g.Twin(b)
					if g.One(8) {
						b = g.Armoring().Write(b)
					}
					pool = append(pool, b)
					if g.One(2) {
						pool = append(pool, twin)
					}
				}
				var sums []uint64
				for _, b := range pool {
					sums = append(sums, sum(b))
				}
				for i := range jobs {
					jobs[i] = &job{data: pool[g.Intn(len(pool))], o: opts(g), armor: g.One(20), how: g.Intn(4200)}
				}
				if len(pool) < n {
					c.Count("decodings of shared octets")
				}
				alone := func() (out []string) {
					for _, j := range jobs {
						out = append(out, one(j.data, j.o, j.armor, j.how))
					}
					return
				}
				var ref []string
				if !cold {
					ref = alone()
				}
				order := ""
				for rep := 0; rep < 3; rep++ {
					var in, peak int32
					var mu sync.Mutex
					var wg sync.WaitGroup
					start := make(chan struct{})
					order = ""
					for i, j := range jobs {
						wg.Add(1)
						go func(i int, j *job) {
							defer wg.Done()
							<-start
							if k := atomic.AddInt32(&in, 1); k > 1 {
								atomic.StoreInt32(&peak, k)
							}
							j.got = one(j.data, j.o, j.armor, j.how)
							atomic.AddInt32(&in, -1)
							mu.Lock()
							order += string(rune('a' + i))
							mu.Unlock()
						}(i, j)
					}
					close(start)
					wg.Wait()
					if ref == nil {
						ref = alone()
					}
					if peak > 1 {
						c.Count("rounds with overlapping decodings")
						c.Seen([]byte(order), []byte(fmt.Sprint(sums)))
					}
					for i, j := range jobs {
						if j.got != ref[i] {
							c.FailIn(fmt.Sprintf("together with %d others: %s, alone: %s (%s)", n-1, clip(j.got), clip(ref[i]), firstDiff(ref[i], j.got)), j.data, "how", optString(j.o))
							return
						}
						c.Count("decodings compared")
					}
				}
				for i, j := range jobs { // and what all agree on is right
					if j.armor || looksArmored(j.data) {
						continue
					}
					o := j.o
					o.Loc = time.Local
					if w := model.Dump(j.data, o); !w.Err && w.Unspec == "" {
						if t := model.Text(w.Packets, "\t"); !strings.HasPrefix(ref[i], t+"\n{") {
							c.FailIn(fmt.Sprintf("in a process that decodes other inputs: %s", firstDiff(t, ref[i])), j.data, "how", optString(o))
							return
						}
						c.Count("results equal to the reference decoder's")
					}
				}
				for i, b := range pool {
					if sum(b) != sums[i] {
						c.FailIn("the caller's octets were changed", b)
						return
					}
				}
				if c.WantSample() {
					c.Sample("%d goroutines over %d inputs, completed in order %s", n, len(pool), order)
				}
			}
			c.Cases("cold", c.N(8, 8), func(g *gen.G) { round(g, true) })
			c.Cases("rounds", c.N(2500, 60000), func(g *gen.G) { round(g, g.One(2)) })
		},
	}
}

func sum(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// yield gives n octets at a time and lets others run in between.
type yield struct {
	b []byte
	n int
}

func (y *yield) Read(p []byte) (int, error) {
	if len(y.b) == 0 {
		return 0, io.EOF
	}
	time.Sleep(time.Microsecond)
	n := copy(p[:min(len(p), y.n)], y.b)
	y.b = y.b[n:]
	return n, nil
}

// --- C25

func init() {
	checks["C25"] = &Check{
		Rule: "random sequences of 2 to 8 executions of the command through facade.Execute in one process - dumps with all options, formats, indents, from files and standard input, good and damaged input, --debug, wrong options and commands, version, help, completion, failing requests, and fetch, hkp and github with a stand-in for the Web - and each single one also by the real binary in a fresh process; exit status, standard output, standard error and the requests made must be equal; non-trivial: every step that is not the first of its sequence, distinct by the command lines and inputs up to it",
		Need: []string{"steps compared", "steps after a failed one", "steps after one with --debug", "steps after one with JSON", "steps after one from a file", "steps after one with a version flag", "steps with requests"},
		Env:  []string{"TZ=Asia/Kolkata"},
		Run: func(c *Ctx) {
			dir := filepath.Join(c.Dir, fmt.Sprintf("s%d", c.Shard))
			must(os.MkdirAll(dir, 0o700))
			port := closedPort()
			w := newWeb(filepath.Join(c.Dir, fmt.Sprintf("w%d", c.Shard)))
			w.expect(func(r *http.Request, seq int) []piece { return nil })
			c.Cases("sequences", c.N(1400, 40000), func(g *gen.G) {
				hist := ""
				var last []byte
				var failed, dbg, js, file, ver, steps bool
				for i := 2 + g.Intn(7); i > 0; i-- {
					var args []string
					var in []byte
					g.Max = 2000
					net := false
					switch g.Intn(14) {
					case 12, 13:
						net = true
						body := g.Armoring().Write(g.Stream(1+g.Intn(2), 1, nil))
						page, _ := json.Marshal([]map[string]string{{"key_id": "00000000000000AA", "raw_key": strings.ToValidUTF8(string(body), "?")}, {"key_id": "00000000000000BB", "raw_key": "x"}})
						w.expect(func(r *http.Request, seq int) []piece {
							b := body
							if strings.HasSuffix(r.URL.Path, "/gpg_keys") {
								b = page
							}
							return []piece{{b: []byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", len(b), b))}}
						})
						args = [][]string{{"fetch", fmt.Sprintf("http://127.0.0.1:%d/", w.port())}, {"hkp", "--keyserver=keys.example", "--port=80", "x"}, {"hkp", "--keyserver=127.0.0.1", fmt.Sprintf("--port=%d", w.securePort()), "--secure", "x"}, {"hkp", "x"}, {"github", "x"}, {"github", "--keyid=AA", "x"}, {"github", "--keyid=00000000000000aa", "x"}, {"github", "--keyid=00000000000000bb", "x"}}[g.Intn(8)]
						for _, f := range []string{"--raw", "-j", "--indent=3", "-l", "--debug", "-u"} {
							if g.One(4) {
								args = append(args, f)
							}
						}
					case 0:
						args = [][]string{{"version"}, {"-v"}, {"--help"}, {"help", "hkp"}, {"completion"}, {"completion", "zsh"}, {"completion", "fish"}, {"-v", "-j", "--indent=3"}, {"--version"}}[g.Intn(9)]
					case 1:
						args = [][]string{{"--nosuch"}, {"-u", "nosuch"}, {"--indent=x"}, {"-f"}, {"completion", "x"}, {"fetch"}, {"--clipboard", "-f", "x"}, {"hkp", "--keyserver=", "x"}, {"-f", "missing", "--debug"}, {"--debug", "fetch"}, {"--debug", "-j", "completion", "x"}}[g.Intn(11)]
					case 2:
						args = [][]string{{"fetch", "--raw", fmt.Sprintf("http://127.0.0.1:%d/", port)}, {"hkp", "--keyserver=127.0.0.1", fmt.Sprintf("--port=%d", port), "--secure", "x"}, {"fetch", "-j", "--indent=1", fmt.Sprintf("http://127.0.0.1:%d/", port)}}[g.Intn(3)]
						if g.One(3) {
							args = append(args, "--debug")
						}
					default:
						in = g.Stream(1+g.Intn(2), 1, nil)
						if last != nil && g.One(3) {
							in = g.Twin(last)
						}
						last = in
						if g.One(4) {
							in = g.Damage(in)
						}
						if g.One(5) {
							in = g.Armoring().Write(in)
						}
						args = flags(g, opts(g))
						if g.One(3) {
							args = append(args, "-j")
						}
						if g.One(3) {
							args = append(args, fmt.Sprintf("--indent=%d", g.PickI(0, 1, 4)))
						}
						if g.One(8) {
							args = append(args, "-a")
						}
						if g.One(4) {
							name := filepath.Join(dir, "f")
							must(os.WriteFile(name, in, 0o600))
							args = append(args, "-f", name)
							in = []byte{0xb4, 1, 'x'}
						}
					}
					if len(args) == 0 {
						args = []string{}
					}
					got := runB(in, args...)
					asked := w.asked()
					w.again()
					ref, _ := spawn(in, dir, args...)
					line := strings.Join(args, " ")
					if got.Exit != ref.Exit || !bytes.Equal(got.Out, ref.Out) || !bytes.Equal(got.Err, ref.Err) {
						if strings.Contains(line, "127.0.0.1") && got.Exit == ref.Exit && (len(got.Out) == 0) == (len(ref.Out) == 0) {
							// messages of the network carry port numbers
						} else {
							c.FailIn("in sequence: "+got.String()+", alone: "+ref.String(), in, "how", line, "before", hist)
							return
						}
					}
					if net {
						a, b := fmt.Sprint(asked), fmt.Sprint(w.asked())
						if a != b {
							c.FailIn("in sequence it asks for "+a+", alone for "+b, in, "how", line, "before", hist)
							return
						}
						c.Count("steps with requests")
					}
					w.again()
					c.Count("steps compared")
					if steps {
						c.Evals++
						c.Seen([]byte(hist), []byte(line), in)
						for k, v := range map[string]bool{"a failed one": failed, "one with --debug": dbg, "one with JSON": js, "one from a file": file, "one with a version flag": ver} {
							if v {
								c.Count("steps after " + k)
							}
						}
					}
					steps = true
					failed, dbg, js, file, ver = got.Exit != 0, strings.Contains(line, "--debug"), strings.Contains(line, "-j"), strings.Contains(line, "-f "), strings.Contains(line, "-v") || strings.Contains(line, "--version")
					hist += fmt.Sprintf("gpgpdump %s <%x>; ", line, sum(in))
				}
				if c.WantSample() {
					c.Sample("%s", hist)
				}
			})
			// The same with the reference decoder instead of the fresh process: far more steps.
			c.Cases("histories", c.N(3000, 100000), func(g *gen.G) {
				var data []byte
				hist := ""
				for i := 3 + g.Intn(8); i > 0; i-- {
					switch {
					case data == nil || g.One(3):
						data = g.Stream(1+g.Intn(3), 1, nil)
					case g.One(8):
						runB(g.Damage(data), "-j", "--debug")
					case !g.One(4):
						data = g.Twin(data)
					}
					o := opts(g)
					if looksArmored(data) {
						continue
					}
					w := model.Dump(data, o)
					d := decode(g, data, o, true)
					hist += fmt.Sprintf("gpgpdump %s <%x>; ", d.how, sum(data))
					if d.panic != "" {
						c.FailIn("panic: "+d.panic, data, "how", d.how, "before", hist)
						return
					}
					if w.Unspec != "" {
						continue
					}
					if w.Err != d.err || d.bad != "" || !w.Err && model.Diff("", w.Packets, d.ns) != "" {
						ref, _ := spawn(data, dir, strings.Fields(d.how)[1:]...)
						ns, err := tree(ref.Out)
						alone := ref.Exit != 0 || err != nil
						if alone == d.err && d.bad == "" && (alone || model.Diff("", ns, d.ns) == "") {
							continue // so it is alone, too
						}
						c.FailIn(fmt.Sprintf("refused: %v %s, alone: %s; %s", d.err, d.bad, clip(ref.String()), model.Diff("", ns, d.ns)), data, "how", d.how, "before", hist)
						return
					}
					c.Count("steps compared with the reference decoder")
					c.Seen([]byte(hist))
				}
			})
		},
	}
}

// --- C24

func init() {
	checks["C24"] = &Check{
		Rule:   "the real binary, and batches of executions in one process, run under strace as an unprivileged user in a scratch directory, with well-formed, damaged and armored input (file names and texts with paths and shell commands in them) from standard input and files, all options, version, help and completion; the recorded system calls are checked one by one: only reading opens, of the named file and of system files the Go runtime and time zone lookup need, no creation, removal, renaming, attribute change, no second program, no socket, writes only to descriptors 1 and 2; the scratch directory is compared before and after; non-trivial: executions traced, distinct by command line and input",
		Need:   []string{"executions traced", "system calls checked", "opens checked", "executions of the real binary traced", "failed decodings traced", "large executions traced"},
		CPU:    200,
		Assume: []string{"what a process does without system calls has no effect outside it", "reading from the clipboard, which starts another program, is not covered"},
		Run: func(c *Ctx) {
			dir, err := os.MkdirTemp("", "side")
			must(err)
			defer os.RemoveAll(dir)
			must(os.Chmod(os.Getenv("VERIF_BUILD"), 0o755))
			must(os.Chmod(dir, 0o777))
			home := filepath.Join(dir, "home")
			must(os.MkdirAll(home, 0o777))
			must(os.Chmod(home, 0o777))
			logDir := filepath.Join(dir, "log")
			must(os.MkdirAll(logDir, 0o777))
			must(os.Chmod(logDir, 0o777))
			traced := func(in []byte, argv ...string) (log string, out, errw []byte, code int) {
				lf := filepath.Join(logDir, "trace")
				os.Remove(lf)
				cmd := exec.Command("strace", append([]string{"-f", "-qq", "-y", "-s", "200", "-o", lf, "-e", "trace=file,network,process,desc,signal"}, argv...)...)
				cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}}
				cmd.Dir = home
				cmd.Env = []string{"HOME=" + home, "TMPDIR=" + home, "PATH=/usr/bin:/bin", "TZ=Asia/Tokyo", "XDG_CONFIG_HOME=" + home, "VERIF_TIER=" + c.Tier}
				cmd.Stdin = bytes.NewReader(in)
				var o, e bytes.Buffer
				cmd.Stdout, cmd.Stderr = &o, &e
				if er := cmd.Run(); er != nil && cmd.ProcessState == nil {
					must(er)
				}
				b, er := os.ReadFile(lf)
				must(er)
				return string(b), o.Bytes(), e.Bytes(), cmd.ProcessState.ExitCode()
			}
			paths := []string{"/etc/passwd", "../../tmp/x", "/tmp/evil", "x.txt", "$(touch /tmp/x)", "`id`", "; rm -rf x", "out.bin", "~/.ssh/id", "http://127.0.0.1/", "home/x"}
			input := func(g *gen.G) []byte {
				g.Max = 3000
				switch g.Intn(8) {
				case 0, 1:
					n := paths[g.Intn(len(paths))]
					return gen.Cat(gen.Plain(11, gen.Cat([]byte{'b', byte(len(n))}, []byte(n), gen.BE(4, 1), g.Bytes(30))), gen.Plain(13, []byte(paths[g.Intn(len(paths))])))
				case 2:
					s := gen.Cat([]byte{g.Pick(24, 26)}, []byte(paths[g.Intn(len(paths))]))
					a := gen.Cat([]byte{byte(len(s))}, s)
					return gen.Plain(2, gen.Cat([]byte{4, 0x13, 1, 8}, gen.BE(2, uint64(len(a))), a, []byte{0, 0, 1, 2, 0, 1, 1}))
				case 3:
					return g.Damage(g.Stream(1+g.Intn(3), 1, nil))
				case 4:
					return g.Armoring().Write(g.Stream(1+g.Intn(2), 1, nil))
				case 5:
					t := gen.All[g.Intn(len(gen.All))]
					return gen.Plain(t, g.Body(t, 2))
				}
				return g.Stream(1+g.Intn(3), 2, nil)
			}
			binary := func(g *gen.G, in []byte) {
				o := opts(g)
				args := flags(g, o)
				if g.One(3) {
					args = append(args, "-j")
				}
				named := ""
				stdin := in
				switch g.Intn(6) {
				case 0, 1:
					named = filepath.Join(home, []string{"in.gpg", "a b", ".x"}[g.Intn(3)])
					must(os.WriteFile(named, in, 0o644))
					args = append(args, "-f", named)
					stdin = nil
				case 2:
					args = [][]string{{"version"}, {"-v"}, {"--help"}, {"completion"}, {"completion", "zsh"}, {"completion", "fish"}, {"completion", "powershell"}, {"--nosuch"}, {"-f", filepath.Join(home, "missing")}, {"help", "github"}}[g.Intn(10)]
				}
				before := snapshot(home)
				log, _, _, code := traced(stdin, append([]string{binPath()}, args...)...)
				how := strings.Join(args, " ")
				if s := snapshot(home); s != before {
					c.FailIn("the file system changed: "+firstDiff(before, s), in, "how", how)
					return
				}
				if named != "" {
					os.Remove(named)
				}
				n, opens, bad := effects(log, binPath(), home, named, c.Counts)
				if bad != "" {
					c.FailIn(bad, in, "how", how)
					return
				}
				if n == 0 {
					must(errors.New("nothing traced: " + clip(log)))
				}
				c.Add("system calls checked", n)
				c.Add("opens checked", opens)
				c.Count("executions traced")
				c.Count("executions of the real binary traced")
				if code != 0 {
					c.Count("failed decodings traced")
				}
				c.Seen(in, []byte(how))
				if c.WantSample() {
					c.Sample("gpgpdump %s: %d system calls, %d opens", how, n, opens)
				}
			}
			c.Cases("binary", c.N(240, 6000), func(g *gen.G) { binary(g, input(g)) })
			c.Cases("big", c.N(32, 400), func(g *gen.G) { // large inputs, packets, dumps
				in := gen.Plain(g.PickI(60, 13, 9, 11), gen.Cat([]byte{'b', 0, 0, 0, 0, 0}, g.Bytes(g.Near(1000, 30<<20, g.PickI(100000, 1<<20, 1<<22+5, 10000000)))))
				switch g.Intn(4) {
				case 0:
					in = g.Armoring().Write(in)
				case 1:
					in = gen.Plain(8, gen.Cat([]byte{2}, g.Compress(2, in)))
				case 2:
					in = bytes.Repeat(gen.Plain(10, []byte("PGP")), g.Near(1000, 300000, 100000))
				}
				c.Count("large executions traced")
				binary(g, in)
			})
			// batches: a helper process executes many command lines in a row
			c.Cases("batches", c.N(48, 600), func(g *gen.G) {
				const per = 60
				var list bytes.Buffer
				var ins [][]byte
				var hows []string
				for i := 0; i < per; i++ {
					in := input(g)
					args := flags(g, opts(g))
					if g.One(3) {
						args = append(args, "-j")
					}
					ins = append(ins, in)
					hows = append(hows, strings.Join(args, " "))
					fmt.Fprintf(&list, "%x %s\n", append([]byte{}, in...), strings.Join(args, " "))
				}
				before := snapshot(home)
				self, _ := os.Executable()
				log, out, errw, code := traced(list.Bytes(), self, "dumps")
				if code != 0 || !bytes.Contains(out, []byte("done")) {
					if bytes.Contains(errw, []byte("panic")) {
						c.Fail("the helper does not end: "+clip(string(errw)), "inputs", list.String())
						return
					}
					must(fmt.Errorf("helper: exit %d, %s", code, clip(string(errw))))
				}
				i := strings.Index(log, "vh-start-of-dumps")
				j := strings.Index(log, "vh-end-of-dumps")
				if i < 0 || j < i {
					must(errors.New("marks not traced"))
				}
				i = strings.Index(log[i:], "\n") + i + 1
				j = strings.LastIndex(log[:j], "\n") + 1
				n, opens, bad := effects(log[i:j], "", home, "", c.Counts)
				if bad == "" {
					if s := snapshot(home); s != before {
						bad = "the file system changed: " + firstDiff(before, s)
					}
				}
				if bad != "" {
					c.Fail(bad, "inputs", list.String())
					return
				}
				c.Add("system calls checked", n)
				c.Add("opens checked", opens)
				c.Add("executions traced", per)
				c.Evals += per - 1
				for k := range ins {
					c.Seen(ins[k], []byte(hows[k]))
				}
			})
		},
	}
	helpers["dumps"] = func([]string) {
		b, _ := io.ReadAll(os.Stdin)
		type job struct {
			in   []byte
			args []string
		}
		var jobs []job
		for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
			p := strings.SplitN(l, " ", 2)
			var in []byte
			fmt.Sscanf(p[0], "%x", &in)
			jobs = append(jobs, job{in, append([]string{}, strings.Fields(p[1])...)})
		}
		os.Stdout.WriteString("vh-start-of-dumps\n")
		for _, j := range jobs {
			runB(j.in, j.args...)
		}
		os.Stdout.WriteString("vh-end-of-dumps\n")
		os.Stdout.WriteString("done\n")
	}
}

func snapshot(dir string) string {
	var l []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		s := fmt.Sprintf("%s %v %d %d", p, fi.Mode(), fi.Size(), fi.ModTime().UnixNano())
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			s += fmt.Sprintf(" %x", sum(b))
		}
		l = append(l, s)
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// mayRead are files that a Go program and its time zone lookup may look at.
func mayRead(p string) bool {
	for _, s := range []string{"/etc/localtime", "/etc/ld.so", "/etc/zoneinfo", "/usr/share/zoneinfo", "/usr/share/lib/zoneinfo", "/usr/lib/", "/lib/", "/lib64/", "/usr/lib64/", "/sys/", "/proc/", "/dev/null", "/usr/local/go", "/etc/timezone"} {
		if strings.HasPrefix(p, s) {
			return true
		}
	}
	return strings.HasSuffix(p, "/lib/time/zoneinfo.zip")
}

// effects checks recorded system calls.
func effects(log, prog, home, named string, counts map[string]int64) (n, opens int, bad string) {
	execs := 0
	pending := map[string]string{}
	for _, l := range strings.Split(log, "\n") {
		if l == "" {
			continue
		}
		// PID CALL(ARGS) = RESULT
		sp := strings.IndexByte(l, ' ')
		if sp < 0 {
			continue
		}
		pid, r := l[:sp], strings.TrimLeft(l[sp:], " ")
		if i := strings.Index(r, " <unfinished ...>"); i >= 0 {
			pending[pid] = r[:i]
			r = r[:i]
		} else if strings.HasPrefix(r, "<... ") {
			if i := strings.Index(r, "resumed>"); i >= 0 {
				r = pending[pid] + r[i+len("resumed>"):]
				delete(pending, pid)
			}
		}
		if strings.HasPrefix(r, "---") || strings.HasPrefix(r, "+++") {
			continue
		}
		p := strings.IndexByte(r, '(')
		if p < 0 {
			continue
		}
		call, args := r[:p], r[p+1:]
		n++
		fail := func(what string) { bad = what + ": " + l }
		path := func(k int) string { // k-th quoted string
			s := args
			for ; ; k-- {
				i := strings.IndexByte(s, '"')
				if i < 0 {
					return ""
				}
				j := strings.IndexByte(s[i+1:], '"')
				if j < 0 {
					return ""
				}
				if k == 0 {
					return s[i+1 : i+1+j]
				}
				s = s[i+1+j+1:]
			}
		}
		switch call {
		case "execve", "execveat":
			execs++
			if prog == "" || execs > 2 || execs == 2 && !strings.Contains(args, "\""+prog+"\"") {
				if !(execs == 1 && strings.Contains(args, prog)) || prog == "" {
					fail("another program is started")
				}
			}
			if execs == 2 && !strings.Contains(l, "unfinished") && !strings.Contains(l, "resumed") {
				fail("another program is started")
			}
		case "open", "openat", "openat2", "creat":
			opens++
			f := path(0)
			if call == "creat" || strings.Contains(args, "O_WRONLY") || strings.Contains(args, "O_RDWR") || strings.Contains(args, "O_CREAT") || strings.Contains(args, "O_TRUNC") || strings.Contains(args, "O_APPEND") {
				if f != "/dev/null" {
					fail("a file is opened for writing")
				}
			} else if f != named && !mayRead(f) && !(strings.HasPrefix(f, home) && strings.HasSuffix(f, "/missing")) {
				fail("another file is read")
			}
		case "fork", "vfork":
			fail("another process is started")
		case "clone", "clone3":
			if !strings.Contains(args, "CLONE_THREAD") {
				fail("another process is started")
			}
		case "socket", "connect", "bind", "listen", "accept", "accept4", "sendto", "sendmsg", "sendmmsg", "recvfrom", "recvmsg", "socketpair", "shutdown":
			fail("the network is used")
		case "unlink", "unlinkat", "rename", "renameat", "renameat2", "mkdir", "mkdirat", "rmdir", "link", "linkat", "symlink", "symlinkat", "chmod", "fchmod", "fchmodat", "fchmodat2", "chown", "fchown", "lchown", "fchownat",
			"truncate", "ftruncate", "mknod", "mknodat", "utime", "utimes", "utimensat", "futimesat", "setxattr", "lsetxattr", "fsetxattr", "removexattr", "fremovexattr", "lremovexattr", "fallocate", "chdir", "fchdir", "chroot", "mount", "umount2", "pivot_root", "swapon", "acct", "inotify_add_watch",
			"copy_file_range", "sendfile", "splice", "memfd_create":
			fail("the file system is changed")
		case "kill", "pidfd_send_signal", "rt_sigqueueinfo", "tkill":
			fail("a signal is sent")
		case "write", "writev", "pwrite64", "pwritev", "pwritev2":
			if !(strings.HasPrefix(args, "1<") || strings.HasPrefix(args, "2<") || strings.HasPrefix(args, "1,") || strings.HasPrefix(args, "2,") || strings.Contains(strings.SplitN(args, ",", 2)[0], "eventfd") || strings.Contains(strings.SplitN(args, ",", 2)[0], "anon_inode")) {
				fail("something else is written to")
			}
		case "mmap":
			if strings.Contains(args, "MAP_SHARED") && strings.Contains(args, "PROT_WRITE") && !strings.Contains(args, "MAP_ANONYMOUS") {
				fail("a file is mapped for writing")
			}
		}
		counts["system call "+call]++
		if bad != "" {
			return
		}
	}
	return
}
