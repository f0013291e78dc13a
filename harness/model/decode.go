package model

import (
	"bytes"
	"compress/bzip2"
	"compress/flate"
	"compress/zlib"
	"fmt"
	"io"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"
)

// Node is one item of the expected output.
type Node struct {
	Name  string  `json:"name"`
	Value string  `json:"value,omitempty"`
	Dump  string  `json:"dump,omitempty"`
	Note  string  `json:"note,omitempty"`
	Items []*Node `json:"Item,omitempty"`
}

func (n *Node) add(c ...*Node) { n.Items = append(n.Items, c...) }

// Opt are the options that decide what is shown.
type Opt struct {
	Cert, Debug, Int, Literal, Marker, Private, UTC bool
	Loc                                             *time.Location // local time zone (nil: the process's)
}

// Result is what the model expects.
type Result struct {
	Packets []*Node
	Err     bool   // the input has to be refused
	Why     string // why, for reports
	Unspec  string // not empty: the model takes no position on this input
}

type malformed string

type dec struct {
	o         Opt
	mode      int // 0 none, 1 public-key session key, 2 symmetric-key session key
	keyT      *uint32
	sigT      *uint32
	unspec    string
	nopenComp int
}

type cur struct {
	b []byte
	p int
}

func (c *cur) rest() int { return len(c.b) - c.p }
func (c *cur) take(n int, what string) []byte {
	if n < 0 || n > c.rest() {
		panic(malformed(what))
	}
	s := c.b[c.p : c.p+n]
	c.p += n
	return s
}
func (c *cur) u8(what string) byte { return c.take(1, what)[0] }
func (c *cur) be(n int, what string) uint32 {
	v := uint32(0)
	for _, b := range c.take(n, what) {
		v = v<<8 | uint32(b)
	}
	return v
}
func (c *cur) left() []byte { return c.b[c.p:] }

const hexd = "0123456789abcdef"

// Hex is the form in which octets are dumped.
func Hex(b []byte) string {
	if len(b) == 0 {
		return ""
	}
	o := make([]byte, 0, 3*len(b))
	for i, x := range b {
		if i > 0 {
			o = append(o, ' ')
		}
		o = append(o, hexd[x>>4], hexd[x&15])
	}
	return string(o)
}

func hexIf(b []byte, f bool) string {
	if f {
		return Hex(b)
	}
	return ""
}

// Dump decodes a packet stream.
func Dump(data []byte, o Opt) (r Result) {
	d := &dec{o: o}
	defer func() {
		if e := recover(); e != nil {
			m, ok := e.(malformed)
			if !ok {
				panic(e)
			}
			r = Result{Err: true, Why: string(m)}
		}
		r.Unspec = d.unspec
	}()
	r.Packets = d.stream(data, true)
	return r
}

// Frame is one packet of a stream.
type Frame struct {
	Tag  int
	Body []byte
}

// NextFrame takes one packet off the stream (RFC 4880, 4.2).
func nextFrame(c *cur) Frame {
	h := c.u8("tag octet")
	if h < 0x80 {
		panic(malformed("bit 7 of tag octet not set"))
	}
	if h < 0xc0 { // old format
		t := int(h>>2) & 15
		var n int
		switch h & 3 {
		case 0:
			n = int(c.be(1, "length"))
		case 1:
			n = int(c.be(2, "length"))
		case 2:
			n = int(c.be(4, "length"))
		case 3:
			n = c.rest()
		}
		return Frame{t, c.take(n, "packet body")}
	}
	t := int(h & 0x3f)
	var body []byte
	for first := true; ; first = false {
		l := c.u8("length")
		partial := false
		var n int
		switch {
		case l < 192:
			n = int(l)
		case l < 224:
			n = (int(l)-192)*256 + 192 + int(c.u8("length"))
		case l < 255:
			n, partial = 1<<(l-224), true
		default:
			n = int(c.be(4, "length"))
		}
		s := c.take(n, "packet body")
		if first && !partial {
			return Frame{t, s}
		}
		body = append(body, s...)
		if !partial {
			return Frame{t, body}
		}
	}
}

// Frames splits a stream; ok is false if it is malformed.
func Frames(b []byte) (fs []Frame, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, m := e.(malformed); !m {
				panic(e)
			}
			ok = false
		}
	}()
	c := &cur{b: b}
	for c.rest() > 0 {
		fs = append(fs, nextFrame(c))
	}
	return fs, true
}

func (d *dec) stream(b []byte, expand bool) (out []*Node) {
	c := &cur{b: b}
	for c.rest() > 0 {
		f := nextFrame(c)
		out = append(out, d.packet(f, expand))
	}
	return
}

func nbytes(n int) string { return strconv.Itoa(n) + " bytes" }

func raw(name string, b []byte, dump bool) *Node {
	return &Node{Name: name, Note: nbytes(len(b)), Dump: hexIf(b, dump)}
}

func (d *dec) packet(f Frame, expand bool) *Node {
	n := &Node{Name: TagName(f.Tag), Note: nbytes(len(f.Body)), Dump: hexIf(f.Body, d.o.Debug)}
	c := &cur{b: f.Body}
	dbg := d.o.Debug
	switch f.Tag {
	case 1:
		d.mode = 1
		n.add(d.version(c.u8("version"), 3, 0))
		n.add(keyID(c.take(8, "key ID")))
		alg := c.u8("algorithm")
		n.add(d.code("Public-key Algorithm", PubName(alg), alg))
		d.sesMaterial(n, alg, c)
		d.trailing(n, c)
	case 2:
		d.signature(n, c)
	case 3:
		d.mode = 2
		v := c.u8("version")
		n.add(d.version(v, 4, 5))
		if v == 4 {
			s := c.u8("cipher")
			n.add(d.code("Symmetric Algorithm", SymName(s), s))
			d.s2k(n, c)
		}
		d.trailing(n, c)
	case 4:
		n.add(d.version(c.u8("version"), 3, 0))
		s := c.u8("type")
		n.add(d.code("Signiture Type", SigName(s), s))
		h := c.u8("hash")
		n.add(d.code("Hash Algorithm", HashName(h), h))
		a := c.u8("algorithm")
		n.add(d.code("Public-key Algorithm", PubName(a), a))
		n.add(keyID(c.take(8, "key ID")))
		fl := c.u8("flag")
		v := "other than one pass signature"
		if fl == 0 {
			v = "another one pass signature"
		}
		n.add(&Node{Name: "Encrypted session key", Value: v, Note: "flag " + hexByte(fl)})
		d.trailing(n, c)
	case 5, 7:
		v := c.u8("version")
		n.add(d.version(v, 4, 5))
		pub := &Node{Name: "Public-Key"}
		sec := &Node{Name: "Secret-Key"}
		n.add(pub)
		alg, known := d.pubkey(pub, v, c)
		n.add(sec)
		if !known {
			d.unspec = "secret key packet whose public part has no known layout"
			return n
		}
		d.seckey(sec, v, alg, c)
		d.trailing(n, c)
	case 6, 14:
		v := c.u8("version")
		n.add(d.version(v, 4, 5))
		d.pubkey(n, v, c)
		d.trailing(n, c)
	case 8:
		d.compressed(n, c, expand)
	case 9:
		x := raw("Encrypted data", f.Body, dbg)
		switch d.mode {
		case 1:
			x.Value = "sym alg is specified in pub-key encrypted session key"
		case 2:
			x.Value = "sym alg is specified in sym-key encrypted session key"
		default:
			x.Value = "sym alg is IDEA, simple string-to-key"
		}
		n.add(x)
		d.mode = 0
	case 10:
		n.add(raw("Literal data", f.Body, d.o.Marker || dbg))
	case 11:
		fm := c.u8("format")
		v := string(rune(fm))
		if fm < 0x20 || (fm >= 0x7f && fm < 0xa0) {
			v = fmt.Sprintf("(U+%04X)", fm)
		}
		n.add(&Node{Name: "Literal data format", Value: v, Note: FormatNote(fm)})
		lit := d.o.Literal || dbg
		n.add(text("File name", c.take(int(c.u8("file name length")), "file name"), lit))
		tb := c.take(4, "time")
		t := be32(tb)
		tn := d.timeItem("Creation time", tb, t)
		if t == 0 {
			tn.Value = "null"
		}
		n.add(tn)
		n.add(raw("Literal data", c.left(), lit))
	case 12:
		n.add(raw("Trust", f.Body, true))
	case 13:
		n.add(text("User ID", f.Body, dbg))
	case 17:
		n.add(d.subpackets("Subpacket", f.Body, 17))
	case 18:
		x := raw("Encrypted data", f.Body, dbg)
		switch d.mode {
		case 1:
			x.Note = "plain text + MDC SHA1(20 bytes); sym alg is specified in pub-key encrypted session key"
		case 2:
			x.Note = "plain text + MDC SHA1(20 bytes); sym alg is specified in sym-key encrypted session key"
		}
		n.add(x)
		d.mode = 0
	case 19:
		x := raw("MDC", f.Body, dbg)
		x.Note = "SHA-1 (20 bytes)"
		n.add(x)
	case 20:
		n.add(d.version(c.u8("version"), 1, 0))
		s := c.u8("cipher")
		n.add(d.code("Symmetric Algorithm", SymName(s), s))
		a := c.u8("aead")
		n.add(d.code("AEAD Algorithm", AEADName(a), a))
		k := c.u8("chunk size")
		v := unknown
		if k <= 57 {
			v = strconv.FormatUint(uint64(64)<<k, 10)
		}
		n.add(&Node{Name: "Chunk size", Value: v, Dump: Hex([]byte{k})})
		iv := 0
		if a == 1 || a == 2 {
			iv = 16
		}
		n.add(&Node{Name: "IV", Dump: Hex(c.take(iv, "IV"))})
		if c.rest() > 0 {
			n.add(raw("Encrypted data and authentication tag", c.left(), dbg))
		}
		d.mode = 0
	case 60, 61, 62, 63:
		n.Dump = hexIf(f.Body, d.o.Private || dbg)
	}
	return n
}

func be32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

func (d *dec) trailing(n *Node, c *cur) {
	if c.rest() > 0 {
		n.add(raw("Unknown data", c.left(), d.o.Debug))
	}
}

func (d *dec) code(name, value string, b byte) *Node {
	return &Node{Name: name, Value: value, Dump: hexIf([]byte{b}, d.o.Debug)}
}

func (d *dec) version(v, current, draft byte) *Node {
	note := "unknown"
	switch {
	case v < current:
		note = "old"
	case v == current:
		note = "current"
	case draft != 0 && v == draft:
		note = "draft"
	}
	return &Node{Name: "Version", Value: strconv.Itoa(int(v)), Note: note, Dump: hexIf([]byte{v}, d.o.Debug)}
}

func keyIDText(b []byte) string {
	s := ""
	for _, x := range b {
		s += string([]byte{hexd[x>>4], hexd[x&15]})
	}
	return "0x" + s
}

func keyID(b []byte) *Node { return &Node{Name: "Key ID", Value: keyIDText(b)} }

func text(name string, b []byte, dump bool) *Node {
	if len(b) == 0 {
		return &Node{Name: name, Note: "0 byte"}
	}
	if !utf8.Valid(b) {
		return &Node{Name: name, Note: "invalid text string", Dump: Hex(b)}
	}
	var s strings.Builder
	for _, r := range string(b) {
		if unicode.Is(unicode.Cc, r) {
			fmt.Fprintf(&s, "(U+%04X)", r)
		} else {
			s.WriteRune(r)
		}
	}
	return &Node{Name: name, Value: s.String(), Dump: hexIf(b, dump)}
}

// --- times

// Stamp is the RFC 3339 form of a time, computed by hand.
func Stamp(t int64, o Opt) string {
	off := 0
	if !o.UTC {
		loc := o.Loc
		if loc == nil {
			loc = time.Local
		}
		_, off = time.Unix(t, 0).In(loc).Zone()
	}
	l := t + int64(off)
	days := l / 86400
	sec := l % 86400
	if sec < 0 {
		sec += 86400
		days--
	}
	// civil from days (proleptic Gregorian), counting from 0000-03-01
	z := days + 719468
	era := z / 146097
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y := yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	day := doy - (153*mp+2)/5 + 1
	m := mp + 3
	if m > 12 {
		m -= 12
		y++
	}
	z3 := "Z"
	if off != 0 {
		sg := "+"
		a := off
		if a < 0 {
			sg, a = "-", -a
		}
		a /= 60
		z3 = fmt.Sprintf("%s%02d:%02d", sg, a/60, a%60)
	}
	return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%s", y, m, day, sec/3600, sec/60%60, sec%60, z3)
}

func (d *dec) timeItem(name string, b []byte, t uint32) *Node {
	return &Node{Name: name, Value: Stamp(int64(t), d.o), Dump: hexIf(b, d.o.Debug)}
}

func (d *dec) expire(name string, b []byte, start *uint32) *Node {
	e := be32(b)
	n := &Node{Name: name, Value: strconv.FormatFloat(float64(e)/86400, 'g', -1, 64) + " days after", Dump: hexIf(b, d.o.Debug)}
	if start != nil && *start > 0 {
		n.Note = Stamp(int64(*start)+int64(e), d.o)
	}
	return n
}

// --- integers and key material

func (d *dec) mpi(n *Node, name string, c *cur) []byte {
	bits := int(c.be(2, "integer length"))
	b := c.take((bits+7)/8, "integer")
	n.add(&Node{Name: name, Note: strconv.Itoa(bits) + " bits", Dump: hexIf(b, d.o.Int || d.o.Debug)})
	return b
}

func (d *dec) point(n *Node, alg string, c *cur) {
	b := d.mpi(n, "", c)
	n.Items[len(n.Items)-1].Name = PointName(alg, b)
}

// ecparm is a size octet and that many octets; absent altogether it is empty.
func ecparm(c *cur) []byte {
	if c.rest() == 0 {
		return nil
	}
	return c.take(int(c.u8("")), "EC parameter")
}

func (d *dec) blob(n *Node, name string, c *cur) {
	n.add(raw(name, c.left(), d.o.Debug))
}

func fam(alg byte) string {
	switch alg {
	case 1, 2, 3:
		return "RSA"
	case 16, 20:
		return "ELG"
	case 17:
		return "DSA"
	case 18:
		return "ECDH"
	case 19:
		return "ECDSA"
	case 22:
		return "EdDSA"
	}
	return ""
}

func unknownMPI(alg byte) string {
	return "Multi-precision integers of Unknown (pub " + strconv.Itoa(int(alg)) + ")"
}

func (d *dec) pubMaterial(n *Node, alg byte, c *cur) {
	oid := func() {
		o := c.take(int(c.u8("OID length")), "OID")
		n.add(&Node{Name: "ECC Curve OID", Value: CurveName(o), Dump: Hex(o)})
	}
	switch fam(alg) {
	case "RSA":
		d.mpi(n, "RSA public modulus n", c)
		d.mpi(n, "RSA public encryption exponent e", c)
	case "DSA":
		d.mpi(n, "DSA p", c)
		d.mpi(n, "DSA q (q is a prime divisor of p-1)", c)
		d.mpi(n, "DSA g", c)
		d.mpi(n, "DSA y (= g^x mod p where x is secret)", c)
	case "ELG":
		d.mpi(n, "ElGamal prime p", c)
		d.mpi(n, "ElGamal group generator g", c)
		d.mpi(n, "ElGamal public key value y (= g^x mod p where x is secret)", c)
	case "ECDH":
		oid()
		d.point(n, "ECDH", c)
		k := ecparm(c)
		x := &Node{Name: "KDF parameters", Note: nbytes(len(k)), Dump: hexIf(k, d.o.Int || d.o.Debug)}
		if len(k) >= 3 && k[0] == 1 {
			x.add(d.code("Hash Algorithm", HashName(k[1]), k[1]), d.code("Symmetric Algorithm", SymName(k[2]), k[2]))
		} else {
			x.Value = unknown
		}
		n.add(x)
	case "ECDSA":
		oid()
		d.point(n, "ECDSA", c)
	case "EdDSA":
		oid()
		d.point(n, "EdDSA", c)
	default:
		d.blob(n, unknownMPI(alg), c)
	}
}

func (d *dec) sigMaterial(n *Node, alg byte, c *cur) {
	switch fam(alg) {
	case "RSA":
		d.mpi(n, "RSA signature value m^d mod n", c)
	case "DSA":
		d.mpi(n, "DSA value r", c)
		d.mpi(n, "DSA value s", c)
	case "ELG":
		d.mpi(n, "ElGamal a = g^k mod p", c)
		d.mpi(n, "ElGamal b = (h - a*x)/k mod p - 1", c)
	case "ECDH":
		d.blob(n, "Multi-precision integers of ECDH", c)
	case "ECDSA":
		d.mpi(n, "ECDSA value r", c)
		d.mpi(n, "ECDSA value s", c)
	case "EdDSA":
		d.mpi(n, "EC point r", c)
		d.mpi(n, "EdDSA value s in the little endian representation", c)
	default:
		d.blob(n, unknownMPI(alg), c)
	}
}

func (d *dec) sesMaterial(n *Node, alg byte, c *cur) {
	switch f := fam(alg); f {
	case "RSA":
		d.mpi(n, "RSA m^e mod n; m = sym alg(1 byte) + checksum(2 bytes) + PKCS#1 block encoding EME-PKCS1-v1_5", c)
	case "ELG":
		d.mpi(n, "ElGamal g^k mod p", c)
		d.mpi(n, "ElGamal m * y^k mod p; m = sym alg(1 byte) + checksum(2 bytes) + PKCS#1 block encoding EME-PKCS1-v1_5", c)
	case "ECDH":
		d.point(n, "ECDH", c)
		k := ecparm(c)
		n.add(&Node{Name: "symmetric key (encoded)", Note: nbytes(len(k)), Dump: hexIf(k, d.o.Int || d.o.Debug)})
	case "":
		d.blob(n, unknownMPI(alg), c)
	default:
		d.blob(n, "Multi-precision integers of "+f, c)
	}
}

// pubkey decodes the part after the version; known is false if its end is not known.
func (d *dec) pubkey(n *Node, v byte, c *cur) (alg byte, known bool) {
	d.keyT = nil
	if v < 3 || v > 5 {
		return 0, false
	}
	tb := c.take(4, "creation time")
	t := be32(tb)
	d.keyT = &t
	n.add(d.timeItem("Public key creation time", tb, t))
	if v == 3 {
		n.add(&Node{Name: "Valid days", Value: strconv.Itoa(int(c.be(2, "days"))), Note: "0 is forever"})
	}
	alg = c.u8("algorithm")
	n.add(d.code("Public-key Algorithm", PubName(alg), alg))
	if v < 5 {
		d.pubMaterial(n, alg, c)
		return alg, fam(alg) != ""
	}
	m := &cur{b: c.take(int(c.be(4, "key material length")), "key material")}
	d.pubMaterial(n, alg, m)
	d.trailing(n, m)
	return alg, true
}

func (d *dec) seckey(n *Node, v, alg byte, c *cur) {
	usage := c.u8("usage")
	opt := c
	if v == 5 {
		opt = nil
		if l := int(c.u8("optional fields length")); l > 0 {
			opt = &cur{b: c.take(l, "optional fields")}
		}
	}
	if opt != nil && usage != 0 {
		sym := usage
		hasIV := true
		if usage >= 253 {
			sym = opt.u8("cipher")
		}
		n.add(d.code("Symmetric Algorithm", SymName(sym), sym))
		if usage == 253 {
			a := opt.u8("aead")
			n.add(d.code("AEAD Algorithm", AEADName(a), a))
		}
		if usage >= 253 {
			hasIV = d.s2k(n, opt)
		}
		if hasIV {
			name := "IV"
			if usage == 253 {
				name = "nonce for the AEAD"
			}
			n.add(&Node{Name: name, Dump: Hex(opt.take(SymIV(sym), "IV"))})
		}
	}
	if v == 5 && opt != nil {
		d.trailing(n, opt)
	}
	m := c
	if v == 5 {
		l := int(c.be(4, "key material length"))
		if l == 0 {
			return
		}
		m = &cur{b: c.take(l, "key material")}
	}
	switch usage {
	case 0:
		n.Note = "s2k usage 0; plain secret-key material"
		d.secPlain(n, alg, m)
		n.add(&Node{Name: "2-octet checksum", Dump: Hex(c.take(2, "checksum"))})
	case 253:
		n.Note = "s2k usage 253; encrypted secret-key material and AEAD authentication tag"
		d.secEnc(n, alg, m)
	case 254:
		n.Note = "s2k usage 254; encrypted secret-key material and 20-octet SHA-1 hash"
		d.secEnc(n, alg, m)
	default:
		n.Note = "s2k usage " + strconv.Itoa(int(usage)) + "; encrypted secret-key material and 2-octet checksum"
		d.secEnc(n, alg, m)
	}
	if v == 5 {
		d.trailing(n, m)
	}
}

func (d *dec) secPlain(n *Node, alg byte, c *cur) {
	switch fam(alg) {
	case "RSA":
		d.mpi(n, "RSA secret exponent d", c)
		d.mpi(n, "RSA secret prime value p", c)
		d.mpi(n, "RSA secret prime value q (p < q)", c)
		d.mpi(n, "RSA u, the multiplicative inverse of p, mod q", c)
	case "DSA":
		d.mpi(n, "DSA secret exponent x", c)
	case "ELG":
		d.mpi(n, "ElGamal secret exponent x", c)
	case "ECDH":
		d.mpi(n, "ECDH secret key", c)
	case "ECDSA":
		d.mpi(n, "ECDSA secret key", c)
	case "EdDSA":
		d.mpi(n, "EdDSA secret key", c)
	default:
		if c.rest() < 2 {
			d.unspec = "plain secret key of unknown algorithm without room for a checksum"
			panic(malformed("secret key"))
		}
		b := c.take(c.rest()-2, "")
		n.add(raw("Multi-precision integers of unknown secret key (pub "+strconv.Itoa(int(alg))+")", b, d.o.Debug))
	}
}

func (d *dec) secEnc(n *Node, alg byte, c *cur) {
	name := "Multi-precision integers of unknown encrypted key (pub " + strconv.Itoa(int(alg)) + ")"
	switch f := fam(alg); f {
	case "RSA":
		name = "RSA encrypted key (d, p, q, u)"
	case "ELG":
		name = "Elgamal encrypted key"
	case "":
	default:
		name = f + " encrypted key"
	}
	d.blob(n, name, c)
	c.p = len(c.b)
}

// s2k adds the specifier and says whether an IV follows.
func (d *dec) s2k(n *Node, c *cur) (hasIV bool) {
	t := c.u8("S2K type")
	x := d.code("String-to-Key (S2K) Algorithm", S2KName(t), t)
	n.add(x)
	switch t {
	case 0, 1, 3:
		h := c.u8("hash")
		x.add(d.code("Hash Algorithm", HashName(h), h))
		if t != 0 {
			x.add(&Node{Name: "Salt", Dump: Hex(c.take(8, "salt"))})
		}
		if t == 3 {
			k := c.u8("count")
			x.add(&Node{Name: "Count", Value: strconv.FormatInt((16+int64(k&15))<<(k>>4+6), 10), Dump: Hex([]byte{k})})
		}
	case 101:
		if c.rest() < 4 || string(c.left()[:3]) != "GNU" {
			return true
		}
		c.take(3, "")
		e := 1000 + int(c.u8(""))
		g := &Node{Name: "GNU-divert-to-card", Value: "Extension Number " + strconv.Itoa(e)}
		if e == 1002 {
			g.add(&Node{Name: "Serial Number", Dump: Hex(c.take(int(c.u8("serial number length")), "serial number"))})
		}
		x.add(g)
		return false
	}
	return true
}

// --- compressed data

func (d *dec) compressed(n *Node, c *cur, expand bool) {
	alg := c.u8("compression algorithm")
	n.add(d.code("Compression Algorithm", CompName(alg), alg))
	if c.rest() == 0 {
		return
	}
	n.add(raw("Compressed data", c.left(), d.o.Debug))
	var r io.Reader
	switch alg {
	case 0:
		r = bytes.NewReader(c.left())
	case 1:
		r = flate.NewReader(bytes.NewReader(c.left()))
	case 2:
		z, err := zlib.NewReader(bytes.NewReader(c.left()))
		if err != nil {
			panic(malformed("ZLIB data"))
		}
		r = z
	case 3:
		r = bzip2.NewReader(bytes.NewReader(c.left()))
	default:
		return
	}
	data, err := io.ReadAll(r)
	if err != nil {
		panic(malformed("compressed data"))
	}
	if expand {
		n.Items = append(n.Items, d.stream(data, false)...)
	}
}

// --- signatures

func (d *dec) signature(n *Node, c *cur) {
	outer := d.sigT
	d.sigT = nil
	defer func() { d.sigT = outer }()
	v := c.u8("version")
	n.add(d.version(v, 4, 5))
	sigcode := func(m *Node) {
		s := c.u8("signature type")
		m.add(d.code("Signiture Type", SigName(s), s))
	}
	algs := func() byte {
		a := c.u8("algorithm")
		n.add(d.code("Public-key Algorithm", PubName(a), a))
		h := c.u8("hash")
		n.add(d.code("Hash Algorithm", HashName(h), h))
		return a
	}
	switch v {
	case 3:
		l := int(c.u8("hashed material length"))
		hm := &Node{Name: "Hashed material", Note: nbytes(l)}
		n.add(hm)
		if l == 5 {
			sigcode(hm)
			tb := c.take(4, "creation time")
			hm.add(d.timeItem("Signature creation time", tb, be32(tb)))
		} else {
			hm.Value = unknown
			hm.Dump = hexIf(c.take(l, "hashed material"), d.o.Debug)
		}
		n.add(keyID(c.take(8, "key ID")))
		a := algs()
		n.add(&Node{Name: "Hash left 2 bytes", Dump: Hex(c.take(2, "hash value"))})
		d.sigMaterial(n, a, c)
	case 4, 5:
		sigcode(n)
		a := algs()
		for _, area := range []string{"Hashed Subpacket", "Unhashed Subpacket"} {
			if l := int(c.be(2, "subpacket area length")); l > 0 {
				n.add(d.subpackets(area, c.take(l, "subpacket area"), 2))
			}
		}
		n.add(&Node{Name: "Hash left 2 bytes", Dump: Hex(c.take(2, "hash value"))})
		d.sigMaterial(n, a, c)
	}
	d.trailing(n, c)
}

func (d *dec) subpackets(name string, b []byte, tag int) *Node {
	n := raw(name, b, d.o.Debug)
	type sp struct {
		t byte
		b []byte
	}
	var all []sp
	for c := (&cur{b: b}); c.rest() > 0; {
		l := int(c.u8(""))
		switch {
		case l < 192:
		case l < 255:
			l = (l-192)*256 + 192 + int(c.u8("subpacket length"))
		default:
			l = int(c.be(4, "subpacket length"))
		}
		if l == 0 {
			panic(malformed("subpacket of length 0"))
		}
		x := c.take(l, "subpacket")
		all = append(all, sp{x[0], x[1:]})
	}
	for _, x := range all {
		n.add(d.subpacket(x.t, x.b, tag))
	}
	return n
}

func flag(n *Node, cond bool, v string) {
	if cond {
		n.add(&Node{Name: "Flag", Value: v})
	}
}

func unknownFlag(n *Node, octet int, b byte) {
	flag(n, b != 0, "Unknown flag"+strconv.Itoa(octet)+"("+hexByte(b)+")")
}

func moreFlags(n *Node, from int, b []byte) {
	for i, x := range b {
		unknownFlag(n, from+i, x)
	}
}

func (d *dec) subpacket(typ byte, b []byte, tag int) *Node {
	name := SubName(typ)
	dbg := d.o.Debug
	n := raw(name, b, dbg)
	c := &cur{b: b}
	t := int(typ & 0x7f)
	if tag == 17 {
		if t == 1 {
			h := c.take(2, "image header length")
			hl := int(h[1])<<8 | int(h[0])
			if hl > len(b) {
				panic(malformed("image header"))
			}
			v := c.u8("image header version")
			vn := &Node{Name: "Version", Value: strconv.Itoa(int(v))}
			n.add(vn)
			switch {
			case v == 1:
			case isPriv(int(v)):
				vn.Note = "private or experimental use"
				e := c.u8("image encoding")
				en := &Node{Name: "Encoding", Value: unknown, Note: "(enc " + strconv.Itoa(int(e)) + ")"}
				if e == 1 {
					en.Value = "JPEG"
				}
				n.add(en)
			default:
				vn.Note = unknown
			}
			n.add(&Node{Name: "Image data", Note: nbytes(len(b) - hl)})
		}
		return n
	}
	yes := func(no, yes string) {
		if c.u8("flag") == 0 {
			n.Value = no
		} else {
			n.Value = yes
		}
	}
	switch t {
	case 2:
		tb := c.take(4, "time")
		v := be32(tb)
		d.sigT = &v
		return d.timeItem(name, tb, v)
	case 3:
		x := d.expire(name, c.take(4, "expiration"), d.sigT)
		d.sigT = nil
		return x
	case 4:
		yes("Not exportable", "Exportable")
		n.Dump = Hex(c.left())
	case 5:
		n.add(&Node{Name: "Level", Value: strconv.Itoa(int(c.u8("level")))})
		n.add(&Node{Name: "Trust amount", Value: strconv.Itoa(int(c.u8("amount")))})
	case 6, 24, 26, 28:
		return text(name, b, dbg)
	case 7:
		yes("Not revocable", "Revocablee")
	case 9:
		x := d.expire(name, c.take(4, "expiration"), d.keyT)
		d.keyT = nil
		return x
	case 11:
		for _, a := range b {
			n.add(d.code("Symmetric Algorithm", SymName(a), a))
		}
	case 12:
		k := c.u8("class")
		v := "Unknown"
		if k&0x80 != 0 {
			v = "Normal"
			if k&0x40 != 0 {
				v = "Sensitive"
			}
		}
		n.add(&Node{Name: "Class", Value: v, Dump: Hex([]byte{k})})
		a := c.u8("algorithm")
		n.add(d.code("Public-key Algorithm", PubName(a), a))
		n.add(raw("Fingerprint", c.left(), true))
	case 16:
		return &Node{Name: name, Value: keyIDText(c.take(8, "key ID"))}
	case 20:
		f := c.take(4, "flags")
		flag(n, f[0]&0x80 != 0, "Human-readable")
		unknownFlag(n, 1, f[0]&0x7f)
		moreFlags(n, 2, f[1:])
		nl, vl := int(c.be(2, "name length")), int(c.be(2, "value length"))
		n.add(text("Name", c.take(nl, "name"), dbg))
		v := c.take(vl, "value")
		if f[0]&0x80 != 0 {
			n.add(text("Value", v, dbg))
		} else {
			n.add(&Node{Name: "Value", Dump: Hex(v)})
		}
	case 21:
		for _, a := range b {
			n.add(d.code("Hash Algorithm", HashName(a), a))
		}
	case 22:
		for _, a := range b {
			n.add(d.code("Compression Algorithm", CompName(a), a))
		}
	case 23:
		f := c.u8("flags")
		flag(n, f&0x80 != 0, "No-modify")
		unknownFlag(n, 1, f&0x7f)
		moreFlags(n, 2, c.left())
	case 25:
		yes("Not primary", "Primary")
	case 27:
		f := c.u8("flags")
		for i, s := range []string{"This key may be used to certify other keys.", "This key may be used to sign data.",
			"This key may be used to encrypt communications.", "This key may be used to encrypt storage.",
			"The private component of this key may have been split by a secret-sharing mechanism.",
			"This key may be used for authentication."} {
			flag(n, f>>uint(i)&1 != 0, s)
		}
		unknownFlag(n, 1, f&0x40)
		flag(n, f&0x80 != 0, "The private component of this key may be in the possession of more than one person.")
		if c.rest() > 0 {
			f = c.u8("")
			flag(n, f&4 != 0, "This key may be used as an additional decryption subkey (ADSK).")
			flag(n, f&8 != 0, "This key may be used for timestamping.")
			unknownFlag(n, 2, f&^0x0c)
			moreFlags(n, 3, c.left())
		}
	case 29:
		n.Value = ReasonName(c.u8("reason"))
		if c.rest() > 0 {
			n.add(text("Additional resultrmation", c.left(), dbg))
		}
	case 30:
		f := c.u8("flags")
		flag(n, f&1 != 0, "Modification Detection (packets 18 and 19)")
		flag(n, f&2 != 0, "AEAD Encrypted Data Packet (packet 20) and version 5 Symmetric-Key Encrypted Session Key Packets (packet 3)")
		flag(n, f&4 != 0, "Version 5 Public-Key Packet format and corresponding new fingerprint format")
		unknownFlag(n, 1, f&0xf8)
		moreFlags(n, 2, c.left())
	case 31:
		a := c.u8("algorithm")
		n.add(d.code("Public-key Algorithm", PubName(a), a))
		h := c.u8("hash")
		n.add(d.code("Hash Algorithm", HashName(h), h))
		n.add(raw("Hash", c.left(), true))
	case 32:
		e := raw(TagName(2), b, dbg)
		d.signature(e, c)
		n.add(e)
	case 33, 35:
		v := c.u8("version")
		x := &Node{Name: "Version", Value: strconv.Itoa(int(v)), Note: unknown}
		switch v {
		case 4:
			x.Note = "need 20 octets length"
		case 5:
			x.Note = "need 32 octets length"
		}
		n.add(x, raw("Fingerprint", c.left(), true))
	case 34:
		for _, a := range b {
			n.add(d.code("AEAD Algorithm", AEADName(a), a))
		}
	case 37:
		n.add(raw("certification digests", b, d.o.Cert || dbg))
	case 38:
		k := c.u8("type")
		n.add(&Node{Name: "Type", Value: strconv.Itoa(int(k))})
		x := raw("Key data", c.left(), dbg)
		n.add(x)
		if k == 0 {
			outer := d.keyT
			d.keyT = nil
			x.Items = d.stream(c.left(), false)
			d.keyT = outer
		}
	}
	return n
}
