package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/gen"
)

// web is a stand-in for the Web on the loopback: an origin server with and without TLS,
// and a proxy that leads every other host name to it. It records the requests it gets.
type web struct {
	mu     sync.Mutex
	log    []request
	answer func(r *http.Request, seq int) []piece
	plain  net.Listener
	secure net.Listener
	cert   tls.Certificate
	other  tls.Certificate
	badTLS bool
	tunnel func(r *http.Request) bool // if it is true, nothing comes back from the tunnel
}

type request struct {
	method, host, uri, secure string
	target                    string // host:port of the CONNECT
	bodyLen                   int64
}

// piece is a part of a response, written in one call; a negative pause resets the connection.
type piece struct {
	b     []byte
	pause time.Duration
	reset bool
	at    chan struct{} // closed when this piece's turn comes ...
	hold  chan struct{} // ... and then nothing happens until this is closed
}

func (w *web) port() int       { return w.plain.Addr().(*net.TCPAddr).Port }
func (w *web) securePort() int { return w.secure.Addr().(*net.TCPAddr).Port }

func makeCert(names []string, ips []net.IP) (tls.Certificate, []byte) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "stand-in"}, NotBefore: time.Unix(0, 0), NotAfter: time.Now().Add(1000 * time.Hour),
		DNSNames: names, IPAddresses: ips, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, BasicConstraintsValid: true, IsCA: true, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	must(err)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

// newWeb starts the stand-in and points this process and those it starts at it.
func newWeb(dir string) *web {
	w := &web{}
	var p []byte
	w.cert, p = makeCert([]string{"github.com", "api.github.com", "keys.example", "www.example", "localhost"}, []net.IP{net.IPv4(127, 0, 0, 1)})
	w.other, _ = makeCert([]string{"github.com", "api.github.com", "keys.example", "www.example", "localhost"}, []net.IP{net.IPv4(127, 0, 0, 1)})
	must(os.MkdirAll(dir, 0o700))
	f := filepath.Join(dir, "roots.pem")
	must(os.WriteFile(f, p, 0o600))
	var err error
	w.plain, err = net.Listen("tcp", "127.0.0.1:0")
	must(err)
	w.secure, err = net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go w.serve(w.plain, false)
	go w.serve(w.secure, true)
	proxy := fmt.Sprintf("http://127.0.0.1:%d", w.port())
	for k, v := range map[string]string{"SSL_CERT_FILE": f, "SSL_CERT_DIR": dir, "HTTP_PROXY": proxy, "HTTPS_PROXY": proxy, "NO_PROXY": "", "http_proxy": proxy, "https_proxy": proxy, "no_proxy": ""} {
		os.Setenv(k, v)
	}
	return w
}

func (w *web) serve(l net.Listener, secure bool) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		go w.conn(c, secure, "")
	}
}

func (w *web) conn(raw net.Conn, secure bool, target string) {
	defer raw.Close()
	raw.SetDeadline(time.Now().Add(100 * time.Second))
	c := raw
	kind := "http"
	if secure {
		kind = "https"
		w.mu.Lock()
		cert := w.cert
		if w.badTLS {
			cert = w.other
		}
		w.mu.Unlock()
		t := tls.Server(raw, &tls.Config{Certificates: []tls.Certificate{cert}})
		if t.Handshake() != nil {
			return
		}
		c = t
	}
	br := bufio.NewReader(c)
	r, err := http.ReadRequest(br)
	if err != nil {
		return
	}
	if r.Method == "CONNECT" && !secure {
		w.mu.Lock()
		f := w.tunnel
		w.mu.Unlock()
		if f != nil && f(r) {
			return
		}
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\n\r\n")
		w.conn(raw, true, r.RequestURI)
		return
	}
	w.mu.Lock()
	w.log = append(w.log, request{method: r.Method, host: r.Host, uri: r.URL.RequestURI(), secure: kind, target: target, bodyLen: r.ContentLength})
	ps := w.answer(r, len(w.log)-1)
	w.mu.Unlock()
	for _, p := range ps {
		if p.pause > 0 {
			time.Sleep(p.pause)
		}
		if p.hold != nil {
			close(p.at)
			<-p.hold
		}
		if p.reset {
			if t, ok := raw.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
			return
		}
		if _, err := c.Write(p.b); err != nil {
			return
		}
	}
	if t, ok := c.(*tls.Conn); ok {
		t.Close()
	}
}

// expect sets what to answer and forgets what was asked so far.
func (w *web) expect(f func(r *http.Request, seq int) []piece) {
	w.mu.Lock()
	w.log, w.answer = nil, f
	w.mu.Unlock()
}

// again forgets what was asked so far.
func (w *web) again() {
	w.mu.Lock()
	w.log = nil
	w.mu.Unlock()
}

func (w *web) asked() []request {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]request{}, w.log...)
}

var statuses = map[int]string{200: "OK", 201: "Created", 203: "Non-Authoritative Information"}

// respond writes a response; fault says how it fails, if it does.
func respond(g *gen.G, status int, body []byte, fault string) []piece {
	h := fmt.Sprintf("HTTP/1.1 %d %s\r\nConnection: close\r\n", status, statuses[status])
	if g.One(2) {
		h += "Content-Type: " + []string{"text/plain", "application/pgp-keys", "application/octet-stream", "text/html; charset=utf-16", "application/json"}[g.Intn(5)] + "\r\n"
	}
	kind := g.Intn(4) // content length, chunked, until the end, gzip with one of them
	if fault == "body cut" && kind == 2 {
		kind = 0
	}
	if kind == 3 && (fault == "" || fault == "body cut" || fault == "bad encoding") || fault == "bad encoding" {
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		z.Write(body)
		z.Close()
		body = b.Bytes()
		h += "Content-Encoding: gzip\r\n"
		kind = g.Intn(3)
		if fault == "body cut" {
			kind = g.Intn(2)
		}
		if fault == "bad encoding" {
			body = append([]byte{}, body...)
			if g.One(2) {
				body = body[:1+g.Intn(len(body)-1)]
			} else {
				body[len(body)-1-g.Intn(8)] ^= byte(1 + g.Intn(255)) // its checksum or length
			}
		}
	}
	switch kind {
	case 0, 3:
		h += fmt.Sprintf("Content-Length: %d\r\n", len(body))
	case 1:
		h += "Transfer-Encoding: chunked\r\n"
	}
	h += "\r\n"
	var ps []piece
	cut := len(body)
	if fault == "body cut" && len(body) > 0 {
		cut = g.Intn(len(body))
		if g.One(4) {
			cut = len(body) - 1
		}
	}
	pauses := 0
	for i := 0; i < cut; {
		n := 1 + g.Intn(3+len(body))
		if g.One(3) {
			n = 1 + g.Intn(40)
		}
		if len(ps) > 40 {
			n = cut
		}
		n = min(n, cut-i)
		b := body[i : i+n]
		if kind == 1 {
			b = []byte(fmt.Sprintf("%x\r\n%s\r\n", n, b))
		}
		p := piece{b: b}
		if g.One(5) && pauses < 5 {
			p.pause = time.Duration(g.Intn(1500)) * time.Microsecond
			pauses++
		}
		ps = append(ps, p)
		i += n
	}
	switch {
	case fault == "body cut" && g.One(4):
		ps = append(ps, piece{reset: true, pause: time.Millisecond})
	case fault == "body cut":
	case kind == 1:
		ps = append(ps, piece{b: []byte("0\r\n\r\n")})
	}
	if len(ps) > 0 && !ps[0].reset && g.One(2) {
		ps[0].b = append([]byte(h), ps[0].b...)
		return ps
	}
	return append([]piece{{b: []byte(h)}}, ps...)
}

func init() {
	checks["C21"] = &Check{
		Rule:   "the fetch, hkp (HTTP and HTTPS) and github (by user, by key ID) commands, in process and as the real binary, against a stand-in for the Web on the loopback: an origin server, a proxy and TLS with an own root; bodies: armored and binary packets, well-formed and damaged, other text, empty, up to 8 MB; framed by length, chunks, end of connection or gzip, in pieces with pauses, behind up to three redirects; with every dump option, JSON and indent before and after the command; faults: every status 400-599, body cut anywhere (end or reset), bad gzip, garbage or nothing as a response, refused connection, untrusted certificate; monitors: output and status equal to those of the same octets given locally, raw output equal to the body, faults always an error; on the server's side exactly the expected requests; non-trivial: requests the server answered with a body, distinct by command line and response",
		Need:   []string{"dumps compared", "refusals compared", "raw bodies compared", "fault: body cut", "fault: error status", "fault: bad encoding", "fault: no response", "fault: refused", "fault: untrusted", "fetch", "hkp", "hkp secure", "github user", "github key", "redirected", "bodies of megabytes", "key texts that are binary packets", "slow answers", "runs of the real binary"},
		CPU:    200,
		Assume: []string{"the HTTP and TLS implementation of the Go library is part of what is run, not of what is judged"},
		Run: func(c *Ctx) {
			dir := filepath.Join(c.Dir, fmt.Sprintf("w%d", c.Shard))
			w := newWeb(dir)
			nobody := closedPort()
			faults := []string{"body cut", "error status", "bad encoding", "no response", "refused", "untrusted"}
			commands := func(g *gen.G, big bool) {
				// the content
				var body []byte
				switch g.Intn(10) {
				case 0:
					body = g.Stream(1+g.Intn(3), 1, nil)
				case 1:
					body = []byte([]string{"", "no key found", "<html><body>-----BEGIN PGP PUBLIC KEY BLOCK-----</body></html>", "\x00", "\r\n", "-----BEGIN PGP PUBLIC KEY BLOCK-----\n\n"}[g.Intn(6)])
				case 2:
					body = g.Damage(g.Armoring().Write(g.Stream(1, 1, nil)))
				case 3:
					g.BigOne, g.Max = 2, 300000
					body = g.Armoring().Write(g.Stream(2, 1, nil))
				default:
					body = g.Armoring().Write(g.Stream(1+g.Intn(3), 1, nil))
				}
				if big {
					body = gen.Cat(gen.Plain(g.PickI(60, 13, 9), g.Bytes(g.Near(20000, 20<<20, g.PickI(100000, 1<<20, 3<<20+2, 6000001)))), gen.Plain(13, []byte("last")))
					if !g.One(4) {
						body = g.Armoring().Write(body)
					}
					c.Count("bodies of megabytes")
				}
				o := opts(g)
				o.Debug = false
				fl := flags(g, o)
				if g.One(4) {
					fl = append(fl, "-j")
				}
				if g.One(4) {
					fl = append(fl, fmt.Sprintf("--indent=%d", g.PickI(1, 2, 5)))
				}
				local := append([]string{}, fl...)
				raw := g.One(4)
				fault := ""
				if g.One(2) {
					fault = faults[g.Intn(len(faults))]
				}
				port := w.port()
				sport := w.securePort()
				if fault == "refused" {
					port, sport = nobody, nobody
				}
				// the command
				var args []string
				var want []request
				kind := []string{"fetch", "hkp", "hkp secure", "github user", "github key"}[g.Intn(5)]
				if fault == "refused" && strings.HasPrefix(kind, "github") {
					kind = "hkp"
				}
				if fault == "untrusted" && (kind == "hkp" || kind == "fetch") {
					kind = "hkp secure"
				}
				hostPort := func(h string, p int) string { return fmt.Sprintf("%s:%d", h, p) }
				pages := [][]byte{body}
				user := word(g)
				switch kind {
				case "fetch":
					path := []string{"/", "/x.asc", "/a/b/c?q=1&r=%26", "/%2F..%20x", "/pks?x=y%3D", "/?"}[g.Intn(6)]
					var u string
					switch g.Intn(4) {
					case 0:
						u = "http://" + hostPort("127.0.0.1", port) + path
						want = []request{{"GET", hostPort("127.0.0.1", port), path, "http", "", 0}}
					case 1:
						u = "https://" + hostPort("127.0.0.1", sport) + path
						want = []request{{"GET", hostPort("127.0.0.1", sport), path, "https", "", 0}}
					default:
						if fault == "refused" {
							u = "http://" + hostPort("127.0.0.1", port) + path
						} else if g.One(2) {
							u = "http://www.example:8080" + path
							want = []request{{"GET", "www.example:8080", path, "http", "", 0}}
						} else {
							u = "https://www.example" + path
							want = []request{{"GET", "www.example", path, "https", "www.example:443", 0}}
						}
					}
					args = []string{[]string{"fetch", "fch", "f"}[g.Intn(3)], u}
					if g.One(4) {
						local = append(local, "-a")
						fl = append(fl, "-a")
					}
				case "hkp", "hkp secure":
					local = append(local, "-a")
					s := "http"
					host, p, tg := "127.0.0.1", port, ""
					if kind == "hkp secure" {
						s, p = "https", sport
					}
					args = []string{[]string{"hkp", "h"}[g.Intn(2)]}
					if fault != "refused" && g.One(2) {
						host, p = "keys.example", 1+g.Intn(65535)
						tg = ""
						if s == "https" {
							tg = hostPort(host, p)
						}
					}
					if fault != "refused" && g.One(8) { // default port
						host, p = "keys.example", 11371
						if s == "https" {
							tg = hostPort(host, p)
						}
					} else {
						args = append(args, fmt.Sprintf("--port=%d", p))
					}
					args = append(args, "--keyserver="+host)
					if s == "https" {
						args = append(args, "--secure")
					}
					args = append(args, user)
					q := url.Values{"op": {"get"}, "search": {user}}
					want = []request{{"GET", hostPort(host, p), "/pks/lookup?" + q.Encode(), s, tg, 0}}
				case "github user":
					local = append(local, "-a")
					args = []string{[]string{"github", "gh", "g"}[g.Intn(3)], user}
					want = []request{{"GET", "github.com", "/" + url.PathEscape(user) + ".gpg", "https", "github.com:443", 0}}
				case "github key":
					local = append(local, "-a")
					id := fmt.Sprintf("%016X", g.Uint64())
					typed := []string{id, strings.ToLower(id), "0x" + id, "0X" + id}[g.Intn(4)]
					args = []string{[]string{"github", "gh"}[g.Intn(2)], "--keyid=" + typed, user}
					if len(body) == 0 {
						body = []byte("x")
					}
					if g.One(8) { // packets, but not armored
						body = []byte("\u02a0" + strings.Repeat("x", 160))
						c.Count("key texts that are binary packets")
					}
					body = []byte(strings.ToValidUTF8(string(body), "?"))
					n := 1 + g.Intn(3)
					pages = nil
					for i := 0; i < n; i++ {
						var l []map[string]interface{}
						for j := 0; j < 100 && (i < n-1 || j < 1+g.Intn(5)); j++ {
							l = append(l, map[string]interface{}{"id": j, "key_id": fmt.Sprintf("%016X", g.Uint64()), "raw_key": "other"})
						}
						if i == n-1 {
							l[g.Intn(len(l))] = map[string]interface{}{"id": 7, "key_id": id, "raw_key": string(body)}
						}
						b, _ := json.Marshal(l)
						pages = append(pages, b)
						want = append(want, request{"GET", "api.github.com", fmt.Sprintf("/users/%s/gpg_keys?page=%d&per_page=100", url.PathEscape(user), i+1), "https", "api.github.com:443", 0})
					}
				}
				if raw {
					args = append(args, "--raw")
				}
				if g.One(2) {
					args = append(fl, args...)
				} else {
					args = append(args, fl...)
				}
				// the answer
				hops := 0
				if g.One(6) && fault != "refused" {
					hops = 1 + g.Intn(3)
				}
				status := g.PickI(200, 200, 200, 201, 203)
				if fault == "error status" {
					status = 400 + g.Intn(200)
				}
				faultAt := len(pages) - 1
				if fault == "body cut" && len(pages[faultAt]) == 0 {
					fault = ""
				}
				hopsLeft, page := hops, 0
				var sent int
				w.mu.Lock()
				w.badTLS = fault == "untrusted"
				w.mu.Unlock()
				w.expect(func(r *http.Request, seq int) []piece {
					if hopsLeft > 0 {
						hopsLeft--
						b := g.Armoring().Write(gen.Plain(13, []byte("redirect")))
						st := g.PickI(301, 302, 303, 307, 308)
						loc := r.URL.RequestURI()
						if g.One(2) {
							loc = fmt.Sprintf("http://127.0.0.1:%d%s", w.port(), loc)
						}
						return []piece{{b: []byte(fmt.Sprintf("HTTP/1.1 %d Moved\r\nConnection: close\r\nLocation: %s\r\nContent-Length: %d\r\n\r\n%s", st, loc, len(b), b))}}
					}
					k := min(page, len(pages)-1)
					page++
					f, st := "", 200
					if k == faultAt {
						f, st = fault, status
						if f == "no response" {
							return [][]piece{nil, {{reset: true}}, {{b: []byte("HTTP/1.1 200 OK\r\nContent-Le")}}, {{b: []byte("garbage\r\n\r\n")}}, {{b: []byte("HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\nabc")}}, {{b: []byte("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nabc")}}, {{b: []byte("HTTP/1.1 200 OK\r\n\x00: x\r\n\r\nabc")}}}[g.Intn(7)]
						}
					}
					sent++
					return respond(g, st, pages[k], f)
				})
				bin := g.One(5)
				var got Obs
				if bin {
					var killed bool
					got, killed = spawn(nil, c.Dir, args...)
					if killed {
						got.Panic = "no end"
					}
					c.Count("runs of the real binary")
				} else {
					got = runB(nil, args...)
				}
				asked := w.asked()
				how := fmt.Sprintf("%q fault %q, status %d, %d redirects", args, fault, status, hops)
				c.Count(kind)
				bad := ""
				ref := runB(body, local...)
				switch {
				case got.Panic != "":
					bad = "does not end properly"
				case (fault == "bad encoding" || fault == "body cut") && kind == "github key" && got.Exit == 0:
					// the fault may lie after the end of the JSON text, which is complete then
					if raw && !bytes.Equal(got.Out, body) || !raw && !bytes.Equal(got.Out, ref.Out) {
						bad = "neither an error nor the key"
					}
					c.Count("fault after the end of the JSON text")
				case fault != "":
					if got.Exit == 0 || len(bytes.TrimSpace(got.Err)) == 0 {
						bad = "no error"
					} else if len(got.Out) > 0 && !(raw && fault != "error status" && bytes.HasPrefix(body, got.Out)) {
						bad = "output in spite of the fault"
					}
					c.Count("fault: " + fault)
				case raw:
					if got.Exit != 0 || !bytes.Equal(got.Out, body) || len(got.Err) > 0 {
						bad = "raw output is not the body: " + firstDiff(string(body), string(got.Out))
					}
					c.Count("raw bodies compared")
				default:
					if got.Exit != ref.Exit || !bytes.Equal(got.Out, ref.Out) || (len(got.Err) == 0) != (len(ref.Err) == 0) {
						bad = "given locally: " + ref.String() + ", from the Web:"
					}
					if ref.Exit == 0 {
						c.Count("dumps compared")
					} else {
						c.Count("refusals compared")
					}
				}
				if hops > 0 {
					c.Count("redirected")
				}
				if bad == "" && fault != "refused" && fault != "untrusted" {
					// what the server saw: the expected requests, the first one again for each redirect
					var exp []string
					for i, r := range want {
						exp = append(exp, reqString(r))
						if i == 0 {
							break
						}
					}
					if len(asked) == 0 || reqString(asked[0]) != exp[0] {
						bad = fmt.Sprintf("asked for %v instead of %v;", asked, want)
					} else if len(asked) != len(want)+hops {
						bad = fmt.Sprintf("%d requests instead of %d: %v;", len(asked), len(want)+hops, asked)
					} else {
						for i := 1; i < len(want); i++ {
							if a := asked[i+hops]; reqString(a) != reqString(want[i]) {
								bad = fmt.Sprintf("request %d is %v instead of %v;", i+1, a, want[i])
							}
						}
						for _, a := range asked {
							if a.method != "GET" || a.bodyLen > 0 {
								bad = fmt.Sprintf("odd request %v;", a)
							}
						}
					}
				}
				if bad == "" && (fault == "refused" || fault == "untrusted") && len(asked) > 0 && hops == 0 {
					bad = fmt.Sprintf("asked %v", asked)
				}
				if bad != "" {
					c.FailIn(bad+" "+got.String(), body, "how", how)
					return
				}
				if sent > 0 {
					c.Seen(body, []byte(how))
				}
				if c.WantSample() {
					c.Sample("%s, %d octets: exit %d", how, len(body), got.Exit)
				}
			}
			c.Cases("commands", c.N(5000, 150000), func(g *gen.G) { commands(g, false) })
			c.Cases("big", c.N(80, 2000), func(g *gen.G) { commands(g, true) })
			c.Cases("slow", c.N(8, 16), func(g *gen.G) { // a server that takes its time
				d := []int{62, 35, 31, 21, 16, 11, 6, 3, 95, 80, 45, 25, 13, 8, 5, 2}[c.K()]
				body := g.Armoring().Write(g.Stream(2, 1, nil))
				body = []byte(strings.ToValidUTF8(string(body), "?"))
				w.mu.Lock()
				w.badTLS = false
				w.mu.Unlock()
				var reqs []webCmd
				for _, kind := range []string{"fetch", "hkp", "hkp secure", "github user", "github key"} {
					for _, where := range []string{"answer", "body"} {
						reqs = append(reqs, simpleReq(g, w, kind, where, body))
					}
				}
				w.expect(func(r *http.Request, seq int) []piece {
					b := body
					if strings.HasSuffix(r.URL.Path, "/gpg_keys") {
						b, _ = json.Marshal([]map[string]interface{}{{"key_id": "0123456789ABCDEF", "raw_key": string(body)}})
					}
					h := []byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: %d\r\n\r\n", len(b)))
					wait := time.Duration(d) * time.Second
					if strings.Contains(r.URL.RequestURI(), "answer") {
						return []piece{{b: h, pause: wait}, {b: b}}
					}
					return []piece{{b: append(h, b[:len(b)/2]...)}, {b: b[len(b)/2:], pause: wait}}
				})
				ref := runB(body, "-a", "-u")
				res := make([]Obs, len(reqs))
				var wg sync.WaitGroup
				for i := range reqs {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						var killed bool
						res[i], killed = spawn(nil, c.Dir, append(reqs[i].args, "-u", "-a")...)
						if killed {
							res[i].Panic = "no end"
						}
					}(i)
				}
				wg.Wait()
				for i, got := range res {
					if got.Panic != "" || got.Exit != ref.Exit || !bytes.Equal(got.Out, ref.Out) || (len(got.Err) == 0) != (len(ref.Err) == 0) {
						c.FailIn(fmt.Sprintf("the server waits %d s before the %s: given locally: %s, from the Web: %s", d, reqs[i].where, ref.String(), got.String()), body, "how", fmt.Sprint(reqs[i].args))
						return
					}
					c.Count("slow answers")
					c.Seen(body, []byte(fmt.Sprint(reqs[i].args, d)))
				}
			})
		},
	}
}

// reqString is what is compared of a request: query parameters in any order.
func reqString(r request) string {
	u, q := r.uri, ""
	if i := strings.IndexByte(u, '?'); i >= 0 {
		u, q = u[:i], u[i+1:]
	}
	if p, err := url.PathUnescape(u); err == nil && !strings.Contains(strings.ToLower(u), "%2f") {
		u = p
	}
	if u == "/pks/lookup" || strings.HasSuffix(u, "/gpg_keys") {
		v, err := url.ParseQuery(q)
		var l []string
		for k, x := range v {
			if u == "/pks/lookup" && k != "op" && k != "search" { // not specified
				continue
			}
			l = append(l, fmt.Sprintf("%s=%q", k, x))
		}
		sort.Strings(l)
		q = fmt.Sprint(l, err)
	}
	return fmt.Sprint(r.method, " ", r.secure, " ", r.target, " ", r.host, " ", u, "?", q)
}

// word makes an argument that is not an option.
func word(g *gen.G) string {
	switch g.Intn(5) {
	case 0:
		return []string{"0x1234ABCD", "alice@example.com", "Alice Example", "a&op=index", "a%20b", "x#y", "a/b", "a?b", "名前", "a+b", "..", "\xff\xfe", "a=b;c", "\"'`$(x)", "%", "a\nb"}[g.Intn(16)]
	}
	var b []byte
	for i := 1 + g.Intn(12); i > 0; i-- {
		b = append(b, byte(0x20+g.Intn(95)))
	}
	if b[0] == '-' {
		b[0] = 'x'
	}
	return string(b)
}

type webCmd struct {
	kind, where string
	args        []string
}

// simpleReq is a Web command whose request has the given word in its path or query.
func simpleReq(g *gen.G, w *web, kind, word string, body []byte) webCmd {
	r := webCmd{kind: kind, where: word}
	switch kind {
	case "fetch":
		r.args = []string{"fetch", []string{fmt.Sprintf("http://127.0.0.1:%d/", w.port()), fmt.Sprintf("https://127.0.0.1:%d/", w.securePort()), "http://www.example/", "https://www.example/"}[g.Intn(4)] + word}
	case "hkp":
		r.args = []string{"hkp", "--keyserver=127.0.0.1", fmt.Sprintf("--port=%d", w.port()), word}
	case "hkp secure":
		r.args = []string{"hkp", "--keyserver=127.0.0.1", fmt.Sprintf("--port=%d", w.securePort()), "--secure", word}
	case "github user":
		r.args = []string{"github", word}
	case "github key":
		r.args = []string{"github", "--keyid=0123456789ABCDEF", word}
	}
	return r
}
