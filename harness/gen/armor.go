package gen

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"strings"
)

// CRC24 is the checksum of RFC 4880, 6.1.
func CRC24(b []byte) uint32 {
	c := uint32(0xb704ce)
	for _, x := range b {
		c ^= uint32(x) << 16
		for i := 0; i < 8; i++ {
			c <<= 1
			if c&0x1000000 != 0 {
				c ^= 0x1864cfb
			}
		}
	}
	return c & 0xffffff
}

// Armor describes how data is armored.
type Armor struct {
	Type    string
	Headers []string
	Line    int    // characters per line
	EOL     string // line ending
	Sum     bool   // checksum line
	Pre     string
	Post    string
	NoEOL   bool // no line ending at the very end
}

var armorTypes = []string{"MESSAGE", "PUBLIC KEY BLOCK", "PRIVATE KEY BLOCK", "SIGNATURE", "MESSAGE, PART 1/2", "MESSAGE, PART 3", "SECRET KEY BLOCK", "ARMORED FILE", "signed message", "Signed Message", "SIGN", "SIGNE", "X", "message", "MESSAGE, PART 12/34", "PUBLIC KEY", "UNSIGNED MESSAGE", "KEY BLOCK - SIGNED"}

var armorHeaders = []string{"Version: GnuPG v2.2.27", "Comment: hello: world", "Hash: SHA256", "MessageID: 1234", "Charset: UTF-8", "X-Unknown: 日本語", "Comment: https://example.com/",
	"Version: 1", "Comment: -----BEGIN PGP", "Comment: " + "a long header, as some programs write them to advertise themselves, well past seventy-six characters"}

var texts = []string{"Hello, world.", "", "some text before", "- dash", "-- ", "--BEGIN PGP MESSAGE--", "-----BEGIN CERTIFICATE-----", "BEGIN PGP", "=AAAA", "日本語のテキスト", "  -----BEGIN PGP MESSAGE-----",
	"-----END PGP NOTHING-----", "-----BEGIN", "> -----BEGIN PGP SIGNATURE-----", "Subject: x"}

// Armoring makes a random, valid way of armoring.
func (g *G) Armoring() Armor {
	a := Armor{Type: armorTypes[g.Intn(len(armorTypes))], Line: g.PickI(64, 64, 76, 60, 4, 1, 3, 5, 7, 63, 65, 75), EOL: "\n", Sum: !g.One(6), NoEOL: g.One(6)}
	if g.One(3) {
		a.EOL = "\r\n"
	}
	for i := g.PickI(0, 0, 1, 2, 4); i > 0; i-- {
		a.Headers = append(a.Headers, armorHeaders[g.Intn(len(armorHeaders))])
	}
	for i := g.PickI(0, 0, 0, 1, 3); i > 0; i-- {
		a.Pre += texts[g.Intn(len(texts))] + a.EOL
	}
	for i := g.PickI(0, 0, 1, 3); i > 0; i-- {
		a.Post += texts[g.Intn(len(texts))] + a.EOL
	}
	if g.One(4) { // a clear-signed message in front
		a.Pre += "-----BEGIN PGP SIGNED MESSAGE-----" + a.EOL + "Hash: SHA256" + a.EOL + a.EOL + "text" + a.EOL + "- -----BEGIN PGP MESSAGE-----" + a.EOL + texts[g.Intn(4)] + a.EOL
		a.Type = "SIGNATURE"
	}
	if g.One(12) {
		a.Pre += strings.Repeat("x", g.PickI(100, 1000, 4095, 4096, 4097, 30000, 65535, 65536, 65537, 70000, 200000)) + a.EOL
	}
	return a
}

// Write armors data.
func (a Armor) Write(data []byte) []byte {
	var w bytes.Buffer
	w.WriteString(a.Pre)
	fmt.Fprintf(&w, "-----BEGIN PGP %s-----%s", a.Type, a.EOL)
	for _, h := range a.Headers {
		w.WriteString(h + a.EOL)
	}
	w.WriteString(a.EOL)
	s := base64.StdEncoding.EncodeToString(data)
	for len(s) > 0 {
		n := a.Line
		if n > len(s) {
			n = len(s)
		}
		w.WriteString(s[:n] + a.EOL)
		s = s[n:]
	}
	if a.Sum {
		w.WriteString("=" + base64.StdEncoding.EncodeToString(BE(3, uint64(CRC24(data)))) + a.EOL)
	}
	fmt.Fprintf(&w, "-----END PGP %s-----", a.Type)
	if !a.NoEOL || a.Post != "" {
		w.WriteString(a.EOL)
	}
	w.WriteString(a.Post)
	return w.Bytes()
}
