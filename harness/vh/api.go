package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"sync"

	"github.com/spiegel-im-spiegel/fetch"
	"github.com/spiegel-im-spiegel/gpgpdump/github"
	"github.com/spiegel-im-spiegel/gpgpdump/hkp"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/reader"

	"verif/gen"
	"verif/model"
)

// --- C22

type failWriter struct{ after int }

func (w *failWriter) Write(p []byte) (int, error) {
	if w.after >= len(p) {
		w.after -= len(p)
		return len(p), nil
	}
	n := w.after
	w.after = 0
	return n, errors.New("write failed")
}

func init() {
	checks["C22"] = &Check{
		Rule: "random sequences of up to 60 operations (Read, ReadByte, ReadBytes, ReadAt, Seek with every whence, Read2EOF, WriteTo with working and failing writers, DumpString, Rest, Len, Size, GetBody) with sizes and offsets around zero, the cursor, the end and the limits of int64, on readers over 0 to 300 octets (also around powers of two up to 131073), each step compared with a cursor model; plus every pair of operations over all small sizes and offsets; non-trivial: sequences with at least one successful and one failed operation, distinct by script",
		Need: []string{"steps that gave octets", "steps refused", "Read", "ReadByte", "ReadBytes", "ReadAt", "Seek", "Read2EOF", "WriteTo", "WriteTo failing", "DumpString"},
		Run: func(c *Ctx) {
			ops := []string{"Read", "ReadByte", "ReadBytes", "ReadAt", "Seek", "Read2EOF", "WriteTo", "WriteTo failing", "DumpString"}
			step := func(r *reader.Reader, data []byte, pos *int64, op string, n, off int64, whence int) (bad string, ok bool) {
				total := int64(len(data))
				fail := func(f string, a ...interface{}) (string, bool) { return fmt.Sprintf(f, a...), false }
				want := *pos
				var got []byte
				var err error
				var mustFail bool
				switch op {
				case "Read":
					if n < 0 || n > total+5000 {
						n = n & 511
					}
					p := bytes.Repeat([]byte{0xee}, int(n))
					k, e := r.Read(p)
					err = e
					mustFail = n > total-*pos
					if e == nil && int64(k) != n || e != nil && k != 0 {
						return fail("Read(%d) = %d, %v", n, k, e)
					}
					if e == nil {
						got = p
					} else if !bytes.Equal(p, bytes.Repeat([]byte{0xee}, int(n))) {
						return fail("failed Read(%d) wrote to the buffer", n)
					}
				case "ReadByte":
					b, e := r.ReadByte()
					n, err = 1, e
					mustFail = total-*pos < 1
					if e == nil {
						got = []byte{b}
					}
				case "ReadBytes":
					b, e := r.ReadBytes(n)
					err = e
					mustFail = n < 0 || n > total-*pos
					got = b
					if e != nil && len(b) > 0 {
						return fail("ReadBytes(%d) gives octets and %v", n, e)
					}
				case "ReadAt":
					if n < 0 || n > total+5000 {
						n = n & 511
					}
					p := make([]byte, n)
					k, e := r.ReadAt(p, off)
					err = e
					if off < 0 || off > total {
						mustFail = true
					} else {
						want = off
						mustFail = n > total-off
					}
					if e == nil && int64(k) != n || e != nil && k != 0 {
						return fail("ReadAt(%d, %d) = %d, %v", n, off, k, e)
					}
					if e == nil {
						got = p
					}
				case "Seek":
					base := map[int]int64{io.SeekStart: 0, io.SeekCurrent: *pos, io.SeekEnd: total}
					b, known := base[whence]
					to := b + off
					mustFail = !known || off > 0 && to < b || to < 0 || to > total
					if off < 0 && to > b {
						mustFail = true
					}
					at, e := r.Seek(off, whence)
					err = e
					if !mustFail {
						want = to
					}
					if e == nil && at != want {
						return fail("Seek(%d, %d) = %d", off, whence, at)
					}
					n = 0
				case "Read2EOF":
					b, e := r.Read2EOF()
					err = e
					n = total - *pos
					mustFail = n == 0
					got = b
				case "WriteTo", "WriteTo failing":
					var buf bytes.Buffer
					n = total - *pos
					var k int64
					if op == "WriteTo" || n == 0 {
						k, err = r.WriteTo(&buf)
						got = buf.Bytes()
						if err == nil && k != n {
							return fail("WriteTo = %d", k)
						}
					} else {
						k, err = r.WriteTo(&failWriter{after: int(off&0xff) % int(n)})
						mustFail = true
						if k > n {
							return fail("failing WriteTo = %d of %d", k, n)
						}
					}
				case "DumpString":
					s := r.DumpString(off)
					w := ""
					if off >= 0 && off < total {
						w = model.Hex(data[off:])
					}
					if s != w {
						return fail("DumpString(%d) = %q instead of %q", off, clip(s), clip(w))
					}
					n = 0
				}
				if (err != nil) != mustFail {
					return fail("%s(size %d, offset %d, whence %d) at %d of %d: error %v", op, n, off, whence, *pos, total, err)
				}
				if err == nil {
					if n > 0 || len(got) > 0 {
						if want < 0 || want+n > total || !bytes.Equal(got, data[want:want+n]) {
							return fail("%s(size %d, offset %d) at %d gives wrong octets %x", op, n, off, *pos, got)
						}
					}
					want += n
				}
				if rest := r.Rest(); rest != total-want || rest < 0 {
					return fail("Rest = %d after %s(size %d, offset %d, whence %d) at %d of %d, should be %d", rest, op, n, off, whence, *pos, total, total-want)
				}
				if at, e := r.Seek(0, io.SeekCurrent); e != nil || at != want {
					return fail("cursor at %d after %s(size %d, offset %d, whence %d) at %d of %d, should be at %d", at, op, n, off, whence, *pos, total, want)
				}
				*pos = want
				if r.Len() != len(data) || r.Size() != total {
					return fail("size changed")
				}
				return "", err == nil
			}
			run := func(data []byte, script []func(r *reader.Reader, pos *int64) (string, bool), text func() string) (good, refused int) {
				orig := append([]byte{}, data...)
				r := reader.New(data)
				var pos int64
				defer func() {
					if e := recover(); e != nil {
						if _, is := e.(stop); is {
							panic(e)
						}
						c.FailIn(fmt.Sprintf("panic: %v", e), orig, "script", text())
					}
				}()
				for _, f := range script {
					bad, ok := f(r, &pos)
					if bad != "" {
						c.FailIn(bad, orig, "script", text())
						return
					}
					if ok {
						good++
					} else {
						refused++
					}
				}
				if !bytes.Equal(data, orig) || !bytes.Equal(r.GetBody(), orig) {
					c.FailIn("the octets changed", orig, "script", text())
				}
				return
			}
			c.Cases("scripts", c.N(150000, 6000000), func(g *gen.G) {
				size := g.PickI(0, 1, 2, 3, 8, 255+g.Intn(3), g.Intn(300), g.Intn(300), g.Intn(300))
				if g.One(12) {
					size = g.PickI(511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 300+g.Intn(9000))
				} else if g.One(200) {
					size = g.PickI(32767, 32768, 65535, 65536, 65537, 1<<17+1)
				}
				if g.One(6) {
					size = g.Near(0, 100000, size)
				}
				data := g.Bytes(size)
				total := int64(len(data))
				num := func(pos int64) int64 {
					switch g.Intn(6) {
					case 0:
						return []int64{0, 1, -1, 2, total, total + 1, total - 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, -total, -total - 1, 1 << 31, 1 << 32, -(1 << 31)}[g.Intn(15)]
					case 1:
						return total - pos + int64(g.Intn(5)) - 2
					case 2:
						return -pos + int64(g.Intn(3)) - 1
					}
					return int64(g.Intn(int(total) + 3))
				}
				var text []string
				var script []func(r *reader.Reader, pos *int64) (string, bool)
				for i := 1 + g.Intn(60); i > 0; i-- {
					op := ops[g.Intn(len(ops))]
					w := g.PickI(0, 0, 1, 1, 2, 2, 3, -1)
					s1, s2 := g.Int63(), g.Int63()
					script = append(script, func(r *reader.Reader, pos *int64) (string, bool) {
						g.Seed(s1 ^ s2)
						n, off := num(*pos), num(*pos)
						text = append(text, fmt.Sprintf("%s(%d,%d,%d)", op, n, off, w))
						c.Count(op)
						return step(r, data, pos, op, n, off, w)
					})
				}
				good, refused := run(data, script, func() string { return strings.Join(text, " ") })
				c.Add("steps that gave octets", good)
				c.Add("steps refused", refused)
				if good > 0 && refused > 0 {
					c.Seen(data, []byte(strings.Join(text, " ")))
				}
				if c.WantSample() && len(text) < 8 {
					c.Sample("%d octets: %s", len(data), strings.Join(text, " "))
				}
			})
			c.Cases("pairs", len(ops)*len(ops)*5, func(g *gen.G) {
				k := int(c.K())
				a, b, size := ops[k%len(ops)], ops[k/len(ops)%len(ops)], k/len(ops)/len(ops)
				data := []byte{1, 2, 3, 4}[:size]
				for n1 := int64(-2); n1 <= 6; n1++ {
					for n2 := int64(-2); n2 <= 6; n2++ {
						for w1 := -1; w1 <= 3; w1++ {
							for w2 := -1; w2 <= 3; w2++ {
								if a != "Seek" && w1 > -1 || b != "Seek" && w2 > -1 {
									continue
								}
								for s := int64(0); s <= int64(size); s++ {
									c.Evals++
									first := func(r *reader.Reader, pos *int64) (string, bool) {
										return step(r, data, pos, "Seek", 0, s, io.SeekStart)
									}
									run(append([]byte{}, data...), []func(r *reader.Reader, pos *int64) (string, bool){first,
										func(r *reader.Reader, pos *int64) (string, bool) { return step(r, data, pos, a, n1, (n1+n2)/2, w1) },
										func(r *reader.Reader, pos *int64) (string, bool) { return step(r, data, pos, b, n2, n1, w2) }},
										func() string {
											return fmt.Sprintf("Seek(%d) %s(%d,%d,%d) %s(%d,%d,%d)", s, a, n1, (n1+n2)/2, w1, b, n2, n1, w2)
										})
									c.Count("pairs of operations")
								}
							}
						}
					}
				}
			})
		},
	}
}

// --- a stand-in for the HTTP client

type webReq struct {
	u    *url.URL
	req  *http.Request // after the options
	post bool
}

type webClient struct {
	reqs   []webReq
	answer func(n int, u *url.URL) (body io.ReadCloser, err error)
}

type webBody struct {
	io.Reader
	closed int
}

func (b *webBody) Close() error { b.closed++; return nil }

type webResp struct {
	req  *http.Request
	body io.ReadCloser
}

func (r *webResp) Request() *http.Request { return r.req }
func (r *webResp) Header() http.Header    { return http.Header{} }
func (r *webResp) Body() io.ReadCloser    { return r.body }
func (r *webResp) Close()                 { io.Copy(io.Discard, r.body); r.body.Close() }
func (r *webResp) DumpBodyAndClose() ([]byte, error) {
	defer r.body.Close()
	return io.ReadAll(r.body)
}

func (w *webClient) do(u *url.URL, post bool, opts []fetch.RequestOpts) (fetch.Response, error) {
	cp := *u
	req, err := http.NewRequest("GET", u.String(), nil) // as the real client does
	if err == nil {
		for _, o := range opts {
			req = o(req)
		}
	}
	w.reqs = append(w.reqs, webReq{u: &cp, req: req, post: post})
	if err != nil {
		return nil, err
	}
	if e := req.Context().Err(); e != nil {
		return nil, e
	}
	b, e := w.answer(len(w.reqs), &cp)
	if e != nil {
		return nil, e
	}
	return &webResp{req, b}, nil
}

func (w *webClient) Get(u *url.URL, opts ...fetch.RequestOpts) (fetch.Response, error) {
	return w.do(u, false, opts)
}

func (w *webClient) Post(u *url.URL, payload io.Reader, opts ...fetch.RequestOpts) (fetch.Response, error) {
	return w.do(u, true, opts)
}

type ctxKey struct{}

// --- C19

func searchText(g *gen.G) string {
	var s []byte
	if g.One(6) { // key IDs and fingerprints
		n := g.PickI(8, 16, 32, 40, 64, 1+g.Intn(70))
		for len(s) < n {
			s = append(s, "0123456789ABCDEF"[g.Intn(16)])
			if g.One(8) {
				s = append(s, ' ')
			}
		}
		if g.One(3) {
			s = bytes.ToLower(s)
		}
		if g.One(2) {
			s = bytes.ReplaceAll(s, []byte(" "), nil)
		}
		return []string{"", "", "0x", "0X", "=", "*", "@", " "}[g.Intn(8)] + string(s)
	}
	if g.One(60) {
		n := g.Near(0, 200000, g.PickI(100, 255, 256, 257, 1023, 1025, 2049, 4097, 70000))
		for len(s) < n {
			s = append(s, g.Text(200)...)
		}
		return string(s)
	}
	for i := g.Intn(4); i >= 0; i-- {
		switch g.Intn(6) {
		case 0:
			s = append(s, []string{"0x7E20B81C", "0xB4DA3BAE7E20B81C", "alice@example.com", "Alice <alice@example.com>", "a&op=vindex", "x#frag", "a+b c", "%41%2", "=?&;/", "a;b", "search=1&op=index", "日本語", "\x00\n\r", "..", "\"'<>", "{}|\\^`", "&options=mr", "%00", "\u200b", "+"}[g.Intn(20)]...)
		case 1:
			s = append(s, g.Bytes(g.Intn(8))...)
		case 2:
			s = append(s, byte(g.Intn(256)))
		default:
			s = append(s, g.Text(40)...)
		}
	}
	if g.One(50) {
		s = nil
	}
	return string(s)
}

func init() {
	checks["C19"] = &Check{
		Rule: "key servers (names, IPv4 and IPv6 addresses; default, usual and extreme ports; both protocols) and search texts (key IDs, addresses, query and URL metacharacters, percent signs, controls, invalid UTF-8, every octet, empty) through hkp.New(...).Fetch with a stand-in client that records every request and answers with random bodies and failures; monitors: one GET, the URL (also after being printed and parsed again) has the scheme, host, port and path asked for and exactly the parameters op=get and search with the exact text, the context is passed on, the body comes back octet for octet and its failures too; non-trivial: every request made, distinct by server and text",
		Need: []string{"requests", "answers returned", "request failures returned", "body failures returned", "secure requests", "cancelled"},
		Run: func(c *Ctx) {
			f := func(g *gen.G, s string) {
				host := []string{"keys.gnupg.net", "127.0.0.1", "[::1]", "localhost", "pgp.mit.edu", "KEYS.Example.COM", "xn--wgv71a119e.jp", "a-b.c_d.example", "[2001:db8::1]", "keys.openpgp.org."}[g.Intn(10)]
				port, prt := 11371, hkp.HKP
				var so []hkp.ServerOptFunc
				if !g.One(4) {
					port = g.Near(1, 65535, g.PickI(80, 443, 1, 65535, 8080, 11371, 11372, 1+g.Intn(65535)))
					if g.One(12) { // no such port
						port = g.PickI(0, 0, -1, -80, 65536, 65536+80, 1<<31, -1<<31)
					}
					so = append(so, hkp.WithPort(port))
				}
				if g.One(2) {
					prt = hkp.Protocol(g.PickI(int(hkp.HKP), int(hkp.HKPS), int(hkp.HKPS)))
					so = append(so, hkp.WithProtocol(prt))
				}
				if g.One(2) && len(so) == 2 {
					so[0], so[1] = so[1], so[0]
				}
				sch := "http"
				if prt == hkp.HKPS {
					sch = "https"
					c.Count("secure requests")
				}
				srv := hkp.New(host, so...)
				want := fmt.Sprintf("%s://%s:%d", sch, host, port)
				valid := 0 < port && port < 65536
				if srv.String() != want || srv.URL() == nil || srv.URL().String() != want {
					c.Fail("server "+want+" is "+srv.String(), "search", fmt.Sprintf("%q", s))
					return
				}
				body := g.Bytes(g.Size(5000))
				cerr := errors.New("no route")
				mode := g.Intn(6)
				w := &webClient{answer: func(n int, u *url.URL) (io.ReadCloser, error) {
					switch mode {
					case 0:
						return nil, cerr
					case 1:
						fd := newFeed(g, body, g.Intn(len(deliveries)))
						fd.at, fd.err = g.Intn(len(body)+1), io.ErrUnexpectedEOF
						return &webBody{Reader: fd}, nil
					}
					return &webBody{Reader: newFeed(g, body, g.Intn(len(deliveries)))}, nil
				}}
				ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, s))
				defer cancel()
				if mode == 2 {
					cancel()
					c.Count("cancelled")
				}
				rc, err := srv.Fetch(ctx, w, s)
				how := fmt.Sprintf("server %s, search %q", want, s)
				if !valid && err != nil && (len(w.reqs) == 0 || len(w.reqs) == 1 && w.reqs[0].req == nil) {
					c.Count("error and no request for a port that cannot be")
					return
				}
				if len(w.reqs) != 1 || w.reqs[0].post {
					c.Fail(fmt.Sprintf("%d requests", len(w.reqs)), "how", how)
					return
				}
				r := w.reqs[0]
				if r.req == nil {
					c.Fail("the URL is not valid: "+r.u.String(), "how", how)
					return
				}
				for i, u := range []*url.URL{r.u, r.req.URL} { // as given and as sent
					q, qe := url.ParseQuery(u.RawQuery)
					if qe != nil || u.Scheme != sch || u.Host != fmt.Sprintf("%s:%d", host, port) || u.Path != "/pks/lookup" || u.EscapedPath() != "/pks/lookup" ||
						len(q) != 2 || len(q["op"]) != 1 || q["op"][0] != "get" || len(q["search"]) != 1 || q["search"][0] != s || u.Fragment != "" || u.User != nil || u.Opaque != "" || u.ForceQuery {
						c.Fail(fmt.Sprintf("request %d to %s with parameters %q", i, u.String(), q), "how", how)
						return
					}
					for j := 0; j < len(u.RawQuery); j++ {
						if x := u.RawQuery[j]; x <= ' ' || x >= 0x7f || x == ';' || x == '#' {
							c.Fail("the query has unescaped characters: "+u.RawQuery, "how", how)
							return
						}
					}
				}
				if r.req.Method != "GET" || r.req.Body != nil || r.req.Context().Value(ctxKey{}) != s {
					c.Fail("request without the caller's context, or not a plain GET", "how", how)
					return
				}
				c.Count("requests")
				c.Seen([]byte(want), []byte(s))
				switch mode {
				case 0, 2:
					if err == nil || rc != nil {
						c.Fail("a failed request is not reported", "how", how)
						return
					}
					c.Count("request failures returned")
				default:
					if err != nil {
						c.Fail("error for a good answer: "+err.Error(), "how", how)
						return
					}
					b, e := io.ReadAll(rc)
					rc.Close()
					if mode == 1 {
						if e == nil || !bytes.HasPrefix(body, b) {
							c.Fail("a body cut short is not reported", "how", how)
							return
						}
						c.Count("body failures returned")
					} else {
						if e != nil || !bytes.Equal(b, body) {
							c.FailIn(fmt.Sprintf("the answer was changed: %x, %v", b, e), body, "how", how)
							return
						}
						c.Count("answers returned")
					}
				}
				if c.WantSample() {
					c.Sample("%s -> %s", how, r.u)
				}
			}
			c.Cases("texts", c.N(200000, 6000000), func(g *gen.G) { f(g, searchText(g)) })
			c.Cases("sequences", c.N(3000, 100000), func(g *gen.G) { // several texts, one server: one after the other and at once
				port := g.PickI(80, 443, 11371, 8080, 1+g.Intn(65535))
				so := []hkp.ServerOptFunc{hkp.WithPort(port)}
				sch := "http"
				if g.One(2) {
					sch = "https"
					so = append(so, hkp.WithProtocol(hkp.HKPS))
				}
				srv := hkp.New("keys.example", so...)
				want := fmt.Sprintf("%s://keys.example:%d", sch, port)
				n := 2 + g.Intn(5)
				texts := make([]string, n)
				for i := range texts {
					texts[i] = searchText(g)
					if i > 0 && g.One(4) {
						texts[i] = texts[g.Intn(i)]
					}
				}
				together := g.One(3)
				bads := make([]string, n)
				one := func(i int) {
					body := []byte(fmt.Sprintf("answer %d to %q", i, texts[i]))
					fail := (int(c.K())+i)%5 == 0
					w := &webClient{answer: func(k int, u *url.URL) (io.ReadCloser, error) {
						if fail {
							return nil, errors.New("no route")
						}
						return &webBody{Reader: bytes.NewReader(body)}, nil
					}}
					rc, err := srv.Fetch(context.Background(), w, texts[i])
					switch {
					case len(w.reqs) != 1 || w.reqs[0].req == nil:
						bads[i] = fmt.Sprintf("%d requests", len(w.reqs))
						return
					case w.reqs[0].u.String() != want+"/pks/lookup?"+url.Values{"op": {"get"}, "search": {texts[i]}}.Encode():
						u := w.reqs[0].u
						q := u.Query()
						if u.Scheme != sch || u.Host != fmt.Sprintf("keys.example:%d", port) || u.Path != "/pks/lookup" || len(q) != 2 || len(q["op"]) != 1 || q.Get("op") != "get" || len(q["search"]) != 1 || q.Get("search") != texts[i] {
							bads[i] = "request for " + u.String()
							return
						}
					}
					if fail {
						if err == nil {
							bads[i] = "a failed request is not reported"
						}
						return
					}
					if err != nil {
						bads[i] = err.Error()
						return
					}
					b, err := io.ReadAll(rc)
					rc.Close()
					if err != nil || !bytes.Equal(b, body) {
						bads[i] = fmt.Sprintf("answer %q, error %v", b, err)
					}
				}
				if together {
					var wg sync.WaitGroup
					for i := range texts {
						wg.Add(1)
						go func(i int) { defer wg.Done(); one(i) }(i)
					}
					wg.Wait()
				} else {
					for i := range texts {
						one(i)
						if g.One(3) {
							srv.URL().Host = "changed.example" // the caller's copy
						}
					}
				}
				for i, b := range bads {
					if b != "" {
						c.Fail(fmt.Sprintf("search %d of %d (at once: %v) with one server: %s", i+1, n, together, b), "how", fmt.Sprintf("server %s, searches %q", want, texts))
						return
					}
				}
				if srv.String() != want {
					c.Fail("server "+want+" has become "+srv.String(), "how", fmt.Sprintf("%q", texts))
					return
				}
				c.Count("sequences of searches with one server")
				c.Add("requests", n)
			})
			c.Cases("octets", 65536, func(g *gen.G) { f(g, string([]byte{byte(c.K()), byte(c.K() >> 8)})) })
			c.Cases("no server", 1, func(g *gen.G) {
				defer func() {
					if e := recover(); e != nil {
						if _, is := e.(stop); is {
							panic(e)
						}
						c.Fail(fmt.Sprintf("panic without a server: %v", e))
					}
				}()
				var s *hkp.Server
				w := &webClient{answer: func(int, *url.URL) (io.ReadCloser, error) { return &webBody{Reader: strings.NewReader("x")}, nil }}
				if _, err := s.Fetch(context.Background(), w, "x"); err == nil || len(w.reqs) > 0 || s.String() != "" || s.URL() != nil {
					c.Fail("a request without a server")
				}
			})
		},
	}
}

// --- C20

type ghKey struct {
	id  string
	raw *string
	nul bool
	sub []string
}

func userName(g *gen.G) string {
	if g.One(2) {
		return []string{"spiegel-im-spiegel", "octocat", "a", "A-1", "x-0123456789"}[g.Intn(5)]
	}
	if g.One(2) {
		return []string{"a/b", "../x", "a?b=c", "a#b", "a b", "a%2fb", "日本", "a.gpg", "a&page=2", "%", "a\\b", "a;b", "@x", ":x", "a//b", "+", "a\x00b", "a\nb", "é", "*~!$'(),"}[g.Intn(20)]
	}
	s := string(g.Text(20))
	for strings.TrimSpace(s) == "" {
		s = "u" + s
	}
	return s
}

func init() {
	checks["C20"] = &Check{
		Rule: "simulated GitHub accounts with 0 to 2000 keys (around multiples of 100 more often) with random IDs in any case and near misses (same start, same end, shorter, longer), the wanted one first, last, in the middle, on a page boundary, twice or missing; with null entries, entries without text, subkeys and e-mail entries with the wanted ID, escapes in the text, unknown fields; wanted IDs with and without 0x in any case; user names with URL metacharacters; answers that fail, end early or are not the expected JSON on any page; each request is recorded and checked against the paging protocol; non-trivial: lookups with at least one request, distinct by account and ID",
		Need: []string{"found on page 1", "found on page 2", "found on page 3", "found on page 4", "not found", "without text", "failures returned", "profile texts returned", "pages requested", "found in a large account"},
		Run: func(c *Ctx) {
			hexid := func(g *gen.G) string {
				return fmt.Sprintf("%016X", g.Uint64())
			}
			mix := func(g *gen.G, s string) string {
				b := []byte(s)
				switch g.Intn(3) {
				case 0:
					return strings.ToLower(s)
				case 1:
					for i := range b {
						if g.One(2) {
							b[i] = bytes.ToLower(b[i : i+1])[0]
						}
					}
				}
				return string(b)
			}
			ctxOK := func(r webReq, v interface{}) bool { return r.req != nil && r.req.Context().Value(ctxKey{}) == v }
			c.Cases("profiles", c.N(40000, 300000), func(g *gen.G) {
				user := userName(g)
				body := g.Bytes(g.Size(5000))
				mode := g.Intn(5)
				w := &webClient{answer: func(n int, u *url.URL) (io.ReadCloser, error) {
					if mode == 0 {
						return nil, errors.New("no route")
					}
					fd := newFeed(g, body, g.Intn(len(deliveries)))
					if mode == 1 {
						fd.at, fd.err = g.Intn(len(body)+1), io.ErrUnexpectedEOF
					}
					return &webBody{Reader: fd}, nil
				}}
				ctx := context.WithValue(context.Background(), ctxKey{}, user)
				var b []byte
				var err error
				if g.One(2) {
					b, err = github.Get(ctx, w, user)
				} else {
					b, err = github.GetKey(ctx, w, user, "")
				}
				how := fmt.Sprintf("user %q", user)
				if len(w.reqs) != 1 || w.reqs[0].post || !ctxOK(w.reqs[0], user) {
					c.Fail(fmt.Sprintf("%d requests, or without the caller's context", len(w.reqs)), "how", how)
					return
				}
				for _, u := range []*url.URL{w.reqs[0].u, w.reqs[0].req.URL} {
					if u.Scheme != "https" || u.Host != "github.com" || u.Path != "/"+user+".gpg" || strings.Count(u.EscapedPath(), "/") != 1 || u.RawQuery != "" || u.Fragment != "" || u.User != nil || u.ForceQuery {
						c.Fail("request to "+u.String(), "how", how)
						return
					}
				}
				c.Count("requests for profiles")
				if mode < 2 {
					if err == nil {
						c.Fail("a failure is not reported", "how", how)
						return
					}
					c.Count("failures returned")
				} else {
					if err != nil || !bytes.Equal(b, body) {
						c.FailIn(fmt.Sprintf("the answer was changed: %x, %v", b, err), body, "how", how)
						return
					}
					c.Count("profile texts returned")
				}
				c.Seen([]byte(user), body)
			})
			lookup := func(g *gen.G, long bool) {
				user := userName(g)
				n := g.PickI(0, 1, 2, 5, 99, 100, 101, 150, 199, 200, 201, 299, 300, 301, 399, 400, 420, g.Intn(250))
				if g.One(60) {
					n = g.PickI(500, 900, 999, 1000, 1001, 1099, 1100, 1500, 2000)
				}
				if g.One(4) {
					n = g.Near(0, 2500, n)
				}
				if long {
					n = g.Near(2500, 20000, g.PickI(3000, 5000, 6500, 9999, 10000, 12000)) // hot numbers may be pages, too
					if p := g.Near(25, 1100, 0); p > 0 && g.One(2) {
						n = 100*p + g.Intn(200)
					}
					if c.K() == 0 {
						n = 110000
					}
				}
				want := hexid(g)
				switch g.Intn(10) {
				case 0:
					want = want[8:]
				case 1:
					want = want[16-1-g.Intn(15):]
				case 2:
					want = fmt.Sprintf("%016X", g.Uint64()>>uint(4*(1+g.Intn(15))))
				case 3:
					want += hexid(g) + hexid(g)[8:] // a fingerprint
				case 4:
					want = []string{"alice", "0", "A B C D", "0x", "key 0", "%", "[", "x0", "X", "0A0X"}[g.Intn(10)] + want
				}
				keys := make([]ghKey, n)
				for i := range keys {
					id := hexid(g)
					h := (len(want) + 1) / 2
					switch g.Intn(16) { // near misses
					case 0:
						id = want[:h] + id[min(h, 16):]
					case 1:
						id = id[:16-min(16, h)] + want[h:]
					case 2:
						id = want[h:] // short
					case 5:
						id = id[:1+g.Intn(15)] + want
					case 6:
						id = want + id[:1+g.Intn(15)]
					case 7:
						id = id[:1] + want + id[1:2]
					case 8:
						id = want[:len(want)-1]
					case 9:
						id = strings.TrimLeft(want, "0")
					case 10:
						id = ""
					case 3:
						id = want + "0"
					case 4:
						id = "0x" + hexid(g)
					}
					if strings.EqualFold(id, want) {
						id = "0000000000000000"
					}
					raw := fmt.Sprintf("-----BEGIN PGP PUBLIC KEY BLOCK-----\n\nkey %d \u00e9\"\\/<>&\u2028\t%s", i, g.Text(30))
					raw = strings.ToValidUTF8(raw, "?")
					keys[i] = ghKey{id: mix(g, id), raw: &raw}
					if g.One(8) {
						keys[i].nul = true
					} else if g.One(8) {
						keys[i].raw = nil
					}
					if g.One(6) {
						keys[i].sub = []string{want, id}
					}
				}
				if n > 0 && !g.One(4) || long {
					at := g.PickI(0, n-1, g.Intn(n))
					if long {
						at = n - 1 - g.Intn(100)
					}
					if g.One(3) && !long {
						at = min(n-1, g.PickI(99, 100, 101, 199, 200, 299, 300))
					}
					keys[at].id = mix(g, want)
					keys[at].nul = g.One(20)
					if g.One(6) && n > 1 { // twice
						keys[g.Intn(n)].id = mix(g, want)
					}
				}
				asked := []string{want, mix(g, want), "0x" + want, "0X" + mix(g, want), "0x" + mix(g, want)}[g.Intn(5)]
				if strings.HasPrefix(strings.ToLower(want), "0x") { // one prefix is ignored
					asked = "0x" + mix(g, want)
				}
				// what should happen
				found, page := -1, (n/100)+1
				for i, k := range keys {
					if !k.nul && strings.EqualFold(k.id, want) {
						found, page = i, i/100+1
						break
					}
				}
				bad, badPage := 0, 0
				if g.One(4) {
					bad, badPage = 1+g.Intn(6), 1+g.Intn(page)
				}
				w := &webClient{}
				w.answer = func(_ int, u *url.URL) (io.ReadCloser, error) {
					q := u.Query()
					p, _ := strconv.Atoi(q.Get("page"))
					pp, _ := strconv.Atoi(q.Get("per_page"))
					if p < 1 || pp < 1 || pp > 100 || len(w.reqs) > n/100+100 {
						return nil, errors.New("bad request")
					}
					var list []interface{}
					for i := (p - 1) * pp; i < p*pp && i < n; i++ {
						k := keys[i]
						if k.nul {
							list = append(list, nil)
							continue
						}
						m := map[string]interface{}{"id": i, "primary_key_id": nil, "key_id": k.id, "raw_key": k.raw, "public_key": want, "emails": []interface{}{map[string]interface{}{"email": want, "verified": true}},
							"can_sign": true, "created_at": "2016-03-24T11:31:04-06:00", "expires_at": nil, "revoked": false, "name": want, "new_field": []int{1}}
						subs := []interface{}{}
						for _, s := range k.sub {
							t := "not this"
							subs = append(subs, map[string]interface{}{"id": 1, "primary_key_id": i, "key_id": s, "raw_key": t, "subkeys": []interface{}{}})
						}
						if g.One(6) { // an odd key: many subkeys and addresses, any capabilities, old, odd numbers
							for j := g.Intn(25); j > 0; j-- {
								subs = append(subs, map[string]interface{}{"id": j, "primary_key_id": i, "key_id": hexid(g), "raw_key": nil, "subkeys": []interface{}{}})
							}
							if g.One(8) {
								subs = append(subs, nil)
							}
							var mails []interface{}
							for j := g.Intn(12); j > 0; j-- {
								mails = append(mails, map[string]interface{}{"email": hexid(g) + "@example.com", "verified": g.One(2)})
							}
							m["emails"] = mails
							for _, f := range []string{"can_sign", "can_certify", "can_encrypt_comms", "can_encrypt_storage", "revoked"} {
								if m[f] = g.One(2); g.One(4) {
									delete(m, f)
								}
							}
							m["id"] = []interface{}{0, -1, 1 << 40, i}[g.Intn(4)]
							m["primary_key_id"] = []interface{}{nil, 0, i, 1}[g.Intn(4)]
							m["public_key"] = []interface{}{nil, "", g.Text(20)}[g.Intn(2)]
							t := []interface{}{nil, "2001-01-01T00:00:00Z", "2116-03-24T11:31:04-06:00"}
							m["created_at"], m["expires_at"] = t[g.Intn(3)], t[g.Intn(3)]
						}
						m["subkeys"] = subs
						if g.One(40) {
							m["subkeys"], m["emails"] = nil, nil
						}
						if k.raw == nil && g.One(2) {
							delete(m, "raw_key")
						}
						list = append(list, m)
					}
					if list == nil {
						list = []interface{}{}
					}
					var buf bytes.Buffer
					e := json.NewEncoder(&buf)
					e.SetEscapeHTML(g.One(2))
					if g.One(4) {
						e.SetIndent("", "  ")
					}
					must(e.Encode(list))
					b := buf.Bytes()
					if p == badPage {
						switch bad {
						case 1:
							return nil, errors.New("no route")
						case 2:
							b = b[:g.Intn(len(bytes.TrimSpace(b)))]
						case 3:
							b = []byte(`{"message":"Not Found"}`)
						case 4:
							b = []byte("<html>")
						case 5:
							b = []byte(`[{"key_id":12}]`)
						case 6:
							fd := newFeed(g, b, g.Intn(len(deliveries)))
							fd.at, fd.err = g.Intn(len(bytes.TrimSpace(b))), io.ErrUnexpectedEOF
							return &webBody{Reader: fd}, nil
						}
					}
					return &webBody{Reader: newFeed(g, b, g.Intn(len(deliveries)))}, nil
				}
				ctx := context.WithValue(context.Background(), ctxKey{}, user)
				b, err := github.GetKey(ctx, w, user, asked)
				how := fmt.Sprintf("user %q, %d keys, wanted %s as %q at %d, failure %d on page %d", user, n, want, asked, found, bad, badPage)
				last := page
				if bad > 0 {
					last = badPage
				}
				for i, r := range w.reqs {
					if r.post || r.req == nil || !ctxOK(r, user) {
						c.Fail("a request that is not a GET with the caller's context", "how", how)
						return
					}
					for _, u := range []*url.URL{r.u, r.req.URL} {
						q, qe := url.ParseQuery(u.RawQuery)
						if u.Scheme != "https" || u.Host != "api.github.com" || u.Path != "/users/"+user+"/gpg_keys" || strings.Count(u.EscapedPath(), "/") != 3 || u.Fragment != "" || u.User != nil ||
							qe != nil || len(q) != 2 || len(q["page"]) != 1 || q["page"][0] != strconv.Itoa(i+1) || len(q["per_page"]) != 1 || q["per_page"][0] != "100" {
							c.Fail(fmt.Sprintf("request %d is for %s", i+1, u), "how", how)
							return
						}
					}
					c.Count("pages requested")
				}
				if len(w.reqs) != last {
					c.Fail(fmt.Sprintf("%d requests instead of %d", len(w.reqs), last), "how", how)
					return
				}
				switch {
				case bad > 0:
					if err == nil {
						c.Fail("a failure is not reported", "how", how)
						return
					}
					c.Count("failures returned")
				case found < 0:
					if err == nil {
						c.Fail(fmt.Sprintf("key %q returned", b), "how", how)
						return
					}
					c.Count("not found")
				case keys[found].raw == nil:
					if err == nil {
						c.Fail(fmt.Sprintf("key %q returned for one without text", b), "how", how)
						return
					}
					c.Count("without text")
				default:
					if err != nil || string(b) != *keys[found].raw {
						c.Fail(fmt.Sprintf("key %q, error %v, should be %q", clip(string(b)), err, *keys[found].raw), "how", how)
						return
					}
					if page < 5 {
						c.Count(fmt.Sprintf("found on page %d", page))
					} else {
						c.Count("found on a later page")
					}
					if long {
						c.Count("found in a large account")
					}
				}
				c.Seen([]byte(how))
				if c.WantSample() {
					c.Sample("%s: %d requests, error %v", how, len(w.reqs), err != nil)
				}
			}
			c.Cases("lookups", c.N(20000, 250000), func(g *gen.G) { lookup(g, false) })
			c.Cases("sequences", c.N(4000, 100000), func(g *gen.G) { // several lookups with one client, of accounts that change, some with pages of more than 100
				type acc struct {
					keys []string
					text []string
					pp   int
				}
				users := []string{"alice", "Alice", "bob", "alice-2", "al"}
				ids := []string{hexid(g), hexid(g), hexid(g), hexid(g)}
				accs := map[string]*acc{}
				change := func(u string, step int) {
					a := &acc{pp: g.PickI(100, 100, 100, 101, 150, 250)}
					n := g.PickI(0, 1, 3, 100, 101, 150, 230)
					for i := 0; i < n; i++ {
						id := hexid(g)
						a.keys = append(a.keys, id)
						a.text = append(a.text, fmt.Sprintf("text of key %d of %s at step %d", i, u, step))
					}
					for _, id := range ids {
						if n > 0 && g.One(2) {
							a.keys[g.Intn(n)] = id
						}
					}
					accs[u] = a
				}
				for _, u := range users {
					change(u, 0)
				}
				bad := false
				w := &webClient{}
				w.answer = func(_ int, u *url.URL) (io.ReadCloser, error) {
					if bad {
						return nil, errors.New("no route")
					}
					if strings.HasSuffix(u.Path, ".gpg") && u.Host == "github.com" {
						a := accs[strings.TrimSuffix(strings.TrimPrefix(u.Path, "/"), ".gpg")]
						if a == nil {
							return nil, errors.New("bad request")
						}
						return &webBody{Reader: strings.NewReader(strings.Join(a.text, "\n"))}, nil
					}
					a := accs[strings.TrimSuffix(strings.TrimPrefix(u.Path, "/users/"), "/gpg_keys")]
					p, _ := strconv.Atoi(u.Query().Get("page"))
					if a == nil || p < 1 {
						return nil, errors.New("bad request")
					}
					list := []interface{}{}
					for i := (p - 1) * a.pp; i < p*a.pp && i < len(a.keys); i++ {
						list = append(list, map[string]interface{}{"key_id": a.keys[i], "raw_key": a.text[i]})
					}
					b, _ := json.Marshal(list)
					return &webBody{Reader: bytes.NewReader(b)}, nil
				}
				how := ""
				for i := 2 + g.Intn(8); i > 0; i-- {
					u, id := users[g.Intn(len(users))], ids[g.Intn(len(ids))]
					if g.One(3) {
						change(u, i)
					}
					a := accs[u]
					bad = g.One(8)
					if g.One(4) {
						id = ""
					}
					w.reqs = nil
					b, err := github.GetKey(context.Background(), w, u, id)
					how += fmt.Sprintf("%s/%s ", u, id)
					want, ok, over := "", false, false
					if id == "" {
						want, ok = strings.Join(a.text, "\n"), true
					}
					for k := range a.keys {
						if a.keys[k] == id {
							want, ok, over = a.text[k], true, a.pp > 100
							break
						}
					}
					switch {
					case bad || !ok:
						if err == nil {
							c.Fail(fmt.Sprintf("%q instead of an error", clip(string(b))), "how", how)
							return
						}
					case err != nil || string(b) != want:
						c.Fail(fmt.Sprintf("%q, error %v instead of %q", clip(string(b)), err, clip(want)), "how", how, "keys", fmt.Sprint(len(a.keys)), "per page", fmt.Sprint(a.pp))
						return
					case over:
						c.Count("found on a page of more than 100")
					}
					if len(w.reqs) == 0 {
						c.Fail("an answer without a request", "how", how)
						return
					}
					c.Count("lookups in a sequence")
				}
				c.Seen([]byte(how))
			})
			c.Cases("large accounts", c.N(24, 200), func(g *gen.G) { lookup(g, true) })
		},
	}
}
