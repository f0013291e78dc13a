package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verif/gen"
)

// --- C27

func init() {
	checks["C27"] = &Check{
		Rule:   "the real binary runs fetch, hkp (HTTP and HTTPS) and github (by user, by key ID) against the stand-in for the Web, which stops at a chosen point: in the tunnel through the proxy, before the answer, within its header, within the body at any octet, after up to three redirects, on the first or a later page of keys; then the process gets SIGINT; monitors: it ends, with a non-zero status and a message (by the default action of the signal only where it comes before the handler is there: such a case is repeated with the signal 20 ms to 5 s later), without output (with --raw at most the part of the body sent), and without another request; non-trivial: interrupts delivered while the server held the answer back, distinct by command, point and octets sent",
		Need:   []string{"interrupted: tunnel", "interrupted: answer", "interrupted: header", "interrupted: body", "interrupted: later page", "interrupted after a redirect", "fetch", "hkp", "hkp secure", "github user", "github key"},
		CPU:    200,
		Assume: []string{"a process that has not ended 60 s after the interrupt, while the server holds the answer back, does not react to it"},
		Run: func(c *Ctx) {
			// commands started from here must not ignore the interrupt, as they would if this
			// process was started in the background with the interrupt ignored
			signal.Notify(make(chan os.Signal, 1), os.Interrupt)
			w := newWeb(filepath.Join(c.Dir, fmt.Sprintf("i%d", c.Shard)))
			c.Cases("interrupts", c.N(6000, 40000), func(g *gen.G) {
				kinds := []string{"fetch", "hkp", "hkp secure", "github user", "github key", "github key"}
				r := simpleReq(g, w, kinds[g.Intn(len(kinds))], word(g), nil)
				if r.kind == "fetch" {
					r = simpleReq(g, w, "fetch", "path", nil)
				}
				body := g.Armoring().Write(g.Stream(1+g.Intn(3), 1, nil))
				if g.One(20) {
					body = g.Armoring().Write(gen.Plain(60, g.Bytes(g.PickI(100000, 1<<20))))
				}
				body = []byte(strings.ToValidUTF8(string(body), "?"))
				points := []string{"answer", "header", "body", "body", "body"}
				secure := r.kind != "hkp" && !strings.HasPrefix(r.args[len(r.args)-1], "http://")
				if secure && !(r.kind == "hkp secure") && !(r.kind == "fetch" && strings.Contains(r.args[1], "127.0.0.1")) {
					points = append(points, "tunnel")
				}
				point := points[g.Intn(len(points))]
				before := 0 // complete pages before
				if r.kind == "github key" && point != "tunnel" {
					before = g.PickI(0, 1, 1, 2)
				}
				hops := 0
				if point != "tunnel" && g.One(5) {
					hops = 1 + g.Intn(3)
				}
				full := func(n int) []byte {
					var l []map[string]interface{}
					for i := 0; i < n; i++ {
						l = append(l, map[string]interface{}{"key_id": fmt.Sprintf("%016X", g.Uint64()|1<<63), "raw_key": "other"})
					}
					if n < 100 {
						l = append(l, map[string]interface{}{"key_id": "0123456789ABCDEF", "raw_key": string(body)})
					}
					b, _ := json.Marshal(l)
					return b
				}
				head := func(n int) []byte {
					return []byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nConnection: close\r\nContent-Length: %d\r\n\r\n", n))
				}
				first := [][]byte{}
				for i := 0; i < before; i++ {
					first = append(first, full(100))
				}
				last := body
				if r.kind == "github key" {
					last = full(g.PickI(0, 1, 99))
				}
				cut := g.Intn(len(last))
				if r.kind == "github key" { // the JSON text is complete with its last octet
					cut = g.Intn(len(last) - 1)
				}
				h := head(len(last))
				hcut := 1 + g.Intn(len(h)-2)
				waits := []time.Duration{0, 20 * time.Millisecond, 200 * time.Millisecond, time.Second, 5 * time.Second}
				how := ""
				var errw bytes.Buffer
				var state *os.ProcessState
				for try, wait := range waits {
					at, hold := make(chan struct{}), make(chan struct{})
					hopsLeft := hops
					pages := append([][]byte{}, first...)
					held := false
					w.mu.Lock()
					w.tunnel = nil
					if point == "tunnel" {
						w.tunnel = func(*http.Request) bool {
							if !held {
								held = true
								close(at)
							}
							<-hold
							return true
						}
					}
					w.mu.Unlock()
					w.expect(func(q *http.Request, seq int) []piece {
						if hopsLeft > 0 {
							hopsLeft--
							return []piece{{b: []byte(fmt.Sprintf("HTTP/1.1 %d Moved\r\nConnection: close\r\nLocation: %s\r\nContent-Length: 0\r\n\r\n", g.PickI(301, 302, 303, 307, 308), q.URL.RequestURI()))}}
						}
						if len(pages) > 0 {
							p := pages[0]
							pages = pages[1:]
							return []piece{{b: append(head(len(p)), p...)}}
						}
						if held { // again?
							return nil
						}
						held = true
						stop := piece{at: at, hold: hold}
						switch point {
						case "answer":
							return []piece{stop}
						case "header":
							return []piece{{b: h[:hcut]}, stop}
						}
						return []piece{{b: append(append([]byte{}, h...), last[:cut]...)}, stop}
					})
					raw := g.One(3)
					args := r.args
					if raw {
						args = append([]string{"--raw"}, args...)
						args[0], args[1] = args[1], args[0]
					}
					o := opts(g)
					o.Debug = false
					args = append(args, flags(g, o)...)
					ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
					defer cancel()
					cmd := exec.CommandContext(ctx, binPath(), args...)
					cmd.Dir = c.Dir
					var out bytes.Buffer
					errw.Reset()
					cmd.Stdout, cmd.Stderr = &out, &errw
					must(cmd.Start())
					ended := make(chan struct{})
					go func() { cmd.Wait(); close(ended) }()
					how = fmt.Sprintf("%q stopped at %s (%d pages, %d redirects before; %d octets of header, %d of %d of the body)", args, point, before, hops, hcut, cut, len(last))
					fail := func(s string) {
						c.FailIn(fmt.Sprintf("%s: exit %v, %d octets on standard output, standard error %q", s, cmd.ProcessState, out.Len(), clip(errw.String())), body, "how", how)
					}
					select {
					case <-at:
					case <-ended:
						close(hold)
						fail("ended before the request that was to be interrupted")
						return
					}
					if try > 0 || g.One(2) {
						time.Sleep(time.Duration(g.Intn(3000))*time.Microsecond + wait)
					}
					asked := len(w.asked())
					cmd.Process.Signal(os.Interrupt)
					select {
					case <-ended:
					case <-time.After(60 * time.Second):
						cmd.Process.Kill()
						<-ended
						close(hold)
						fail("goes on in spite of the interrupt")
						return
					}
					close(hold)
					state = cmd.ProcessState
					ws := state.Sys().(syscall.WaitStatus)
					switch {
					case ws.Signaled() && ws.Signal() != syscall.SIGINT:
						fail("killed by another signal")
					case ws.Signaled(): // the default action: the handler was not there yet
						c.Count("default action")
						if out.Len() > 0 && !raw {
							fail("output in spite of the interrupt")
						} else if try+1 < len(waits) {
							continue
						} else {
							fail("killed by the interrupt")
						}
					case ws.ExitStatus() == 0 || len(bytes.TrimSpace(errw.Bytes())) == 0:
						fail("no error in spite of the interrupt")
					case out.Len() > 0 && !(raw && point == "body" && r.kind != "github key" && bytes.HasPrefix(last[:cut], out.Bytes())):
						fail("output in spite of the interrupt")
					case len(w.asked()) != asked:
						fail(fmt.Sprintf("%d more requests after the interrupt", len(w.asked())-asked))
					}
					break
				}
				c.Count("interrupted: " + point)
				if before > 0 {
					c.Count("interrupted: later page")
				}
				if hops > 0 {
					c.Count("interrupted after a redirect")
				}
				c.Count(r.kind)
				c.Seen([]byte(how))
				if c.WantSample() {
					c.Sample("%s: %v %q", how, state, clip(errw.String()))
				}
			})
		},
	}
}
