package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/spiegel-im-spiegel/gocli/rwi"
	"github.com/spiegel-im-spiegel/gpgpdump/facade"
	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	pcontext "github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"

	"verif/gen"
	"verif/model"
)

// Obs is what one execution of the command showed.
type Obs struct {
	Exit  int
	Out   []byte
	Err   []byte
	Panic string
}

// run executes the command in this process.
func run(in io.Reader, args ...string) (o Obs) {
	var out, errw bytes.Buffer
	defer func() {
		o.Out, o.Err = out.Bytes(), errw.Bytes()
		if e := recover(); e != nil {
			o.Panic = fmt.Sprint(e)
		} else if i := bytes.Index(o.Err, []byte("Panic:")); i >= 0 && bytes.Contains(o.Err, []byte("\n -> 0 : ")) {
			o.Panic = string(o.Err[i:])
		}
	}()
	if args == nil { // cobra would take the harness's own arguments
		args = []string{}
	}
	o.Exit = int(facade.Execute(rwi.New(rwi.WithReader(in), rwi.WithWriter(&out), rwi.WithErrorWriter(&errw)), args))
	return
}

func runB(data []byte, args ...string) Obs { return run(bytes.NewReader(data), args...) }

func (o Obs) same(p Obs) bool {
	return o.Exit == p.Exit && bytes.Equal(o.Out, p.Out) && (o.Panic == "") == (p.Panic == "")
}

func (o Obs) String() string {
	return fmt.Sprintf("exit %d, stdout %s, stderr %s%s", o.Exit, clip(string(o.Out)), clip(string(o.Err)), func() string {
		if o.Panic != "" {
			return ", panic " + clip(o.Panic)
		}
		return ""
	}())
}

func clip(s string) string {
	if len(s) > 400 {
		s = s[:200] + " ... " + s[len(s)-150:]
	}
	return fmt.Sprintf("%q", s)
}

// tree decodes JSON output.
func tree(b []byte) ([]*model.Node, error) {
	var t struct{ Packet []*model.Node }
	d := json.NewDecoder(bytes.NewReader(b))
	d.DisallowUnknownFields() // errors are written as JSON, too
	if err := d.Decode(&t); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, errors.New("data after the JSON document")
	}
	return t.Packet, nil
}

func nodesOf(b []byte) []*model.Node {
	ns, _ := tree(b)
	return ns
}

// lib decodes through the library.
func lib(data []byte, o model.Opt, armor bool) (ns []*model.Node, err error, pnc string) {
	info, err, pnc := libInfo(bytes.NewReader(data), o, armor)
	if pnc != "" || err != nil {
		return nil, err, pnc
	}
	return nodes(info.Packets), nil, ""
}

func libCtx(o model.Opt, armor bool) *pcontext.Context {
	if o.UTC && o.Int { // by name, as callers may, too
		n := pcontext.SetByString
		return pcontext.New(n("armor", armor), n("CERT", o.Cert), n("debug", o.Debug), n("Int", o.Int), n("literal", o.Literal), n("marker", o.Marker), n("private", o.Private), n("utc", o.UTC))
	}
	if o.Literal != o.Marker { // afterwards, and only those that are on
		c := pcontext.New()
		for _, s := range []struct {
			code pcontext.OptCode
			on   bool
		}{{pcontext.ARMOR, armor}, {pcontext.CERT, o.Cert}, {pcontext.DEBUG, o.Debug}, {pcontext.INTEGER, o.Int}, {pcontext.LITERAL, o.Literal}, {pcontext.MARKER, o.Marker}, {pcontext.PRIVATE, o.Private}, {pcontext.UTC, o.UTC}} {
			if s.on {
				c.Set(s.code, true)
			}
		}
		return c
	}
	return pcontext.New(
		pcontext.Set(pcontext.ARMOR, armor), pcontext.Set(pcontext.CERT, o.Cert), pcontext.Set(pcontext.DEBUG, o.Debug),
		pcontext.Set(pcontext.INTEGER, o.Int), pcontext.Set(pcontext.LITERAL, o.Literal), pcontext.Set(pcontext.MARKER, o.Marker),
		pcontext.Set(pcontext.PRIVATE, o.Private), pcontext.Set(pcontext.UTC, o.UTC))
}

func libInfo(r io.Reader, o model.Opt, armor bool) (info *result.Info, err error, pnc string) {
	defer func() {
		if e := recover(); e != nil {
			pnc = fmt.Sprint(e)
			if pnc == "" {
				pnc = "panic"
			}
		}
	}()
	p, err := parse.New(libCtx(o, armor), r)
	if err != nil {
		return nil, err, ""
	}
	info, err = p.Parse()
	if err == nil && info == nil {
		return nil, errors.New("nil result"), ""
	}
	return info, err, ""
}

func nodes(its []*result.Item) []*model.Node {
	if len(its) == 0 {
		return nil
	}
	ns := make([]*model.Node, len(its))
	for i, t := range its {
		ns[i] = &model.Node{Name: t.Name, Value: t.Value, Dump: t.Dump, Note: t.Note, Items: nodes(t.Items)}
	}
	return ns
}

// opts makes a random set of options.
func opts(g *gen.G) model.Opt {
	var o model.Opt
	for _, p := range []*bool{&o.Cert, &o.Int, &o.Literal, &o.Marker, &o.Private} {
		*p = g.One(3)
	}
	o.Debug = g.One(4)
	o.UTC = g.One(2)
	return o
}

// flags spells options as arguments, in one of the ways a user may.
func flags(g *gen.G, o model.Opt) []string {
	var a []string
	short := ""
	add := func(on bool, s, l string) {
		if !on {
			if g.One(25) {
				a = append(a, "--"+l+"=false")
			}
			return
		}
		switch {
		case s != "" && g.One(3):
			short += s
		case s != "" && g.One(2):
			a = append(a, "-"+s)
		case g.One(4):
			a = append(a, "--"+l+"=true")
		default:
			a = append(a, "--"+l)
		}
	}
	add(o.Cert, "c", "cert")
	add(o.Int, "i", "int")
	add(o.Literal, "l", "literal")
	add(o.Marker, "m", "marker")
	add(o.Private, "p", "private")
	add(o.UTC, "u", "utc")
	add(o.Debug, "", "debug")
	if short != "" {
		a = append(a, "-"+short)
	}
	g.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
	return a
}

func optString(o model.Opt) string {
	var s []string
	for _, x := range []struct {
		f bool
		n string
	}{{o.Cert, "cert"}, {o.Debug, "debug"}, {o.Int, "int"}, {o.Literal, "literal"}, {o.Marker, "marker"}, {o.Private, "private"}, {o.UTC, "utc"}} {
		if x.f {
			s = append(s, x.n)
		}
	}
	if o.Loc != nil {
		s = append(s, "TZ="+o.Loc.String())
	}
	return strings.Join(s, ",")
}

// looksArmored says whether the tool would take binary data for text with an armor block.
func looksArmored(b []byte) bool {
	return bytes.Contains(b, []byte("-----BEGIN PGP")) && bytes.Contains(b, []byte("-----END PGP"))
}
