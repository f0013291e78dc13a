From 8263837ff15d89dc39af7d476eb15727c11f69fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:33 +0000
Subject: [PATCH 01/25] fix: parse the whole input and report read errors

Without --armor, binary input whose first text line exceeded the line
scanner's 64 KiB limit was cut off at that point, and a failing reader
was treated as the end of the input.
---
 parse/parser.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/parse/parser.go b/parse/parser.go
index 6af8a24..191153b 100644
--- a/parse/parser.go
+++ b/parse/parser.go
@@ -25,20 +25,16 @@ func New(cxt *context.Context, reader io.Reader) (*Parser, error) {
 	if reader == nil {
 		return nil, errs.Wrap(ecode.ErrNullPointer)
 	}
-	var r io.Reader
-	var err error
-	switch {
-	case cxt.Armor():
-		r, err = newReaderArmor(reader)
-	default:
-		buf := &bytes.Buffer{}
-		r, err = newReaderArmor(io.TeeReader(reader, buf))
-		if err != nil {
-			r, err = buf, nil
-		}
+	data, err := io.ReadAll(reader)
+	if err != nil {
+		return nil, errs.Wrap(err)
 	}
+	r, err := newReaderArmor(bytes.NewReader(data))
 	if err != nil {
-		return nil, err
+		if cxt.Armor() {
+			return nil, err
+		}
+		r = bytes.NewReader(data) //not ASCII armor text: binary data
 	}
 	return newParser(cxt, r, result.New())
 }
-- 
2.43.0


From ed377b01a6aa2eb3c7a6aa26b924b10b70e7a68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:34 +0000
Subject: [PATCH 02/25] fix: do not panic on a v5 secret key cut before its key
 material length

---
 parse/tags/seckey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 1884833..4dad0f6 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -175,10 +175,10 @@ func (p *seckeyInfo) getField1() (*reader.Reader, error) {
 func (p *seckeyInfo) getField2() (*reader.Reader, error) {
 	if p.pubVer.Number() == 5 {
 		l, err := p.reader.ReadBytes(4)
-		ll := binary.BigEndian.Uint32(l)
 		if err != nil {
 			return nil, errs.New("illegal length of key materia", errs.WithCause(err))
 		}
+		ll := binary.BigEndian.Uint32(l)
 		if ll == 0 {
 			return nil, nil
 		}
-- 
2.43.0


From c1158b70a61e5def9fac7f83e8ef28aa3ab850d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:35 +0000
Subject: [PATCH 03/25] fix: report malformed v3 signature packets

---
 parse/tags/tag02.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse/tags/tag02.go b/parse/tags/tag02.go
index 8bf520d..83d3492 100644
--- a/parse/tags/tag02.go
+++ b/parse/tags/tag02.go
@@ -46,8 +46,8 @@ func (t *tag02) Parse() (*result.Item, error) {
 		}
 	case version.IsOld():
 		if version.Number() == 3 {
-			_, err2 := t.parseV3(rootInfo)
-			if err2 != nil {
+			_, err := t.parseV3(rootInfo)
+			if err != nil {
 				return rootInfo, errs.Wrap(err)
 			}
 		}
-- 
2.43.0


From a628816f1ff34db1cae8f60ba5055895abc00e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:36 +0000
Subject: [PATCH 04/25] fix: read the image attribute header length as
 little-endian

RFC 4880 5.12.1. Read as big-endian, the standard 16-octet header made
the reported image size negative.
---
 parse/tags/sub01.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse/tags/sub01.go b/parse/tags/sub01.go
index aae8d73..80e42fd 100644
--- a/parse/tags/sub01.go
+++ b/parse/tags/sub01.go
@@ -3,6 +3,7 @@ package tags
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 
 	"github.com/spiegel-im-spiegel/errs"
@@ -29,7 +30,10 @@ func (s *sub01) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.Wrap(err)
 	}
-	length := binary.BigEndian.Uint16(l)
+	length := binary.LittleEndian.Uint16(l) //header length is little-endian
+	if int(length) > s.reader.Len() {
+		return rootInfo, errs.New(fmt.Sprintf("illegal length of image header (%d bytes)", length), errs.WithCause(io.ErrUnexpectedEOF))
+	}
 	ver, err := s.reader.ReadByte()
 	if err != nil {
 		return rootInfo, errs.New("illegal version", errs.WithCause(err))
-- 
2.43.0


From 9d9188e086f218fba69dd876c7b6768784f85ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:37 +0000
Subject: [PATCH 05/25] fix: do not panic reading a negative number of octets

A plain secret key of an unknown algorithm with fewer than two octets
left asked for one.
---
 parse/reader/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/reader/reader.go b/parse/reader/reader.go
index f0bd4c6..8de4395 100644
--- a/parse/reader/reader.go
+++ b/parse/reader/reader.go
@@ -112,7 +112,7 @@ func (r *Reader) ReadBytes(size int64) ([]byte, error) {
 	if r.offset >= rl {
 		return nil, errs.Wrap(io.EOF, errs.WithContext("size", size))
 	}
-	if r.offset+size > rl {
+	if size < 0 || size > rl-r.offset {
 		return nil, errs.Wrap(io.ErrUnexpectedEOF, errs.WithContext("size", size))
 	}
 	b := r.buffer[r.offset : r.offset+size]
-- 
2.43.0


From d3e90f6bc82a24d9a826faac1dfdf63542807f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:38 +0000
Subject: [PATCH 06/25] fix: leave the reader's offset at the end after reading
 to EOF

---
 parse/reader/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/reader/reader.go b/parse/reader/reader.go
index 8de4395..a125f14 100644
--- a/parse/reader/reader.go
+++ b/parse/reader/reader.go
@@ -127,7 +127,7 @@ func (r *Reader) Read2EOF() ([]byte, error) {
 		return nil, errs.Wrap(io.EOF)
 	}
 	b := r.buffer[r.offset:]
-	r.offset += rl
+	r.offset = rl
 	return b, nil
 }
 
-- 
2.43.0


From 4788ffe43bc0ae2dd0c1d1ca2b8f38b4fb96cf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:10 +0000
Subject: [PATCH 07/25] fix: read the IV of a v5 secret key from its optional
 fields

It was read after them, out of the key material length.
---
 parse/tags/seckey.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 4dad0f6..9ad88be 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -81,7 +81,7 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 		}
 		//[Optional] If secret data is encrypted (string-to-key usage octet not zero), an Initial Vector (IV) of the same length as the cipher's block size.
 		if usage != 0 && hasIV {
-			iv, err := p.iv(values.SymID(symid), usage == 253)
+			iv, err := p.iv(rOpt, values.SymID(symid), usage == 253)
 			if err != nil {
 				return err
 			}
@@ -192,9 +192,9 @@ func (p *seckeyInfo) getField2() (*reader.Reader, error) {
 }
 
 //iv returns context.Item for Initialization Vector
-func (p *seckeyInfo) iv(symid values.SymID, isAEAD bool) (*result.Item, error) {
+func (p *seckeyInfo) iv(r *reader.Reader, symid values.SymID, isAEAD bool) (*result.Item, error) {
 	sz64 := int64(symid.IVLen())
-	iv, err := p.reader.ReadBytes(sz64)
+	iv, err := r.ReadBytes(sz64)
 	if err != nil {
 		return nil, errs.New(fmt.Sprintf("illegal s2k iv (length: %d bytes)", sz64), errs.WithCause(err))
 	}
-- 
2.43.0


From e02b352c843c57c90adcc3ea49bddda0e827e659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:11 +0000
Subject: [PATCH 08/25] fix: take the S2K usage octet as the symmetric
 algorithm when it is one

RFC 4880 5.5.3: a usage octet other than 0, 254 and 255 (253 in the
draft) is itself the algorithm; no algorithm octet follows it.
---
 parse/tags/seckey.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 9ad88be..3adb7ef 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -37,8 +37,11 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 		return err
 	} else if rOpt != nil {
 		//[Optional] If string-to-key usage octet was 255, 254, or 253, a one-octet symmetric encryption algorithm.
+		//Any other value (not zero) is a symmetric-key encryption algorithm identifier.
 		var symid values.SymID
-		if usage != 0 { //encrypted secret-key
+		switch usage {
+		case 0: //plain secret-key
+		case 253, 254, 255:
 			alg, err := rOpt.ReadByte()
 			if err != nil {
 				return errs.New(
@@ -49,6 +52,9 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 			}
 			symid = values.SymID(alg)
 			parent.Add(symid.ToItem(p.cxt.Debug()))
+		default:
+			symid = values.SymID(usage)
+			parent.Add(symid.ToItem(p.cxt.Debug()))
 		}
 		//[Optional] If string-to-key usage octet was 253, a one-octet AEAD algorithm.
 		if usage == 253 {
-- 
2.43.0


From 4cfb6ccd8d1f85889df4c3588477fd18a73b273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:12 +0000
Subject: [PATCH 09/25] fix: show expiration dates past 2106 without wrapping
 around

---
 parse/values/datetime.go | 6 +++---
 parse/values/expire.go   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse/values/datetime.go b/parse/values/datetime.go
index c363c63..1a51b0b 100644
--- a/parse/values/datetime.go
+++ b/parse/values/datetime.go
@@ -57,10 +57,10 @@ func (dt *DateTime) RFC3339() string {
 	if dt == nil {
 		return ""
 	}
-	return unixtime2RFC3339(dt.UnixTime(), dt.utcFlag)
+	return unixtime2RFC3339(int64(dt.UnixTime()), dt.utcFlag)
 }
-func unixtime2RFC3339(ut uint32, utcFlag bool) string {
-	t := time.Unix(int64(ut), 0)
+func unixtime2RFC3339(ut int64, utcFlag bool) string {
+	t := time.Unix(ut, 0)
 	if utcFlag {
 		t = t.In(time.UTC)
 	}
diff --git a/parse/values/expire.go b/parse/values/expire.go
index d6cf645..b5e90d3 100644
--- a/parse/values/expire.go
+++ b/parse/values/expire.go
@@ -33,7 +33,7 @@ func (e *Expire) ToItem(name string, dumpFlag bool) *result.Item {
 	start := e.start.UnixTime()
 	var endDay string
 	if start > 0 {
-		endDay = unixtime2RFC3339(start+exp, e.start.utcFlag)
+		endDay = unixtime2RFC3339(int64(start)+int64(exp), e.start.utcFlag)
 	}
 	return result.NewItem(
 		result.Name(name),
-- 
2.43.0


From 25293b7fad1c3954a0d505821dfac2d6806fe160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:57 +0000
Subject: [PATCH 10/25] fix: do not compute a signature's expiration from
 another signature's creation time

---
 parse/tags/tag02.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parse/tags/tag02.go b/parse/tags/tag02.go
index 83d3492..a858fb2 100644
--- a/parse/tags/tag02.go
+++ b/parse/tags/tag02.go
@@ -24,6 +24,11 @@ func newTag02(cxt *context.Context, tag values.TagID, body []byte) Tags {
 
 // Parse parsing tag02 instance
 func (t *tag02) Parse() (*result.Item, error) {
+	//the creation time belongs to this signature only (an embedded signature has its own)
+	outer := t.cxt.SigCreationTime
+	t.cxt.SigCreationTime = nil
+	defer func() { t.cxt.SigCreationTime = outer }()
+
 	rootInfo := t.ToItem()
 	// [00] One-octet version number.
 	v, err := t.reader.ReadByte()
-- 
2.43.0


From 7824bebd9f600ddd56124318786f9476e1f6116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:58 +0000
Subject: [PATCH 11/25] fix: do not compute a key's expiration from another
 key's creation time

---
 parse/tags/pubkey.go | 1 +
 parse/tags/sub38.go  | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/parse/tags/pubkey.go b/parse/tags/pubkey.go
index bfd6f65..59b4ff3 100644
--- a/parse/tags/pubkey.go
+++ b/parse/tags/pubkey.go
@@ -28,6 +28,7 @@ func newPubkey(cxt *context.Context, reader *reader.Reader, pubVer *values.Versi
 
 //Parse Public-key packet
 func (p *pubkeyInfo) Parse(parent *result.Item) error {
+	p.cxt.KeyCreationTime = nil //forget the preceding key
 	switch true {
 	case p.pubVer.IsDraft():
 		return p.parseV5(parent)
diff --git a/parse/tags/sub38.go b/parse/tags/sub38.go
index 9c8d71e..0cc55ea 100644
--- a/parse/tags/sub38.go
+++ b/parse/tags/sub38.go
@@ -47,6 +47,11 @@ func (s *sub38) Parse() (*result.Item, error) {
 }
 
 func (s *sub38) parseKeyData(rootInfo *result.Item) error {
+	//the keys in this key block are not the key that the signature is for
+	outer := s.cxt.KeyCreationTime
+	s.cxt.KeyCreationTime = nil
+	defer func() { s.cxt.KeyCreationTime = outer }()
+
 	sp, err := NewPackets(s.cxt, s.reader)
 	if err != nil {
 		return errs.Wrap(err)
-- 
2.43.0


From be998fd1a56de699b4fdea8044ffd3dd7f58d96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:59 +0000
Subject: [PATCH 12/25] fix: report truncated packets in a key block subpacket

The subpacket reader wraps io.EOF, so the packet reader took a packet
cut after its header for the end of the key block, and it cannot return
a short read, so a packet of indeterminate length was refused.
---
 parse/tags/sub38.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parse/tags/sub38.go b/parse/tags/sub38.go
index 0cc55ea..6941630 100644
--- a/parse/tags/sub38.go
+++ b/parse/tags/sub38.go
@@ -1,6 +1,7 @@
 package tags
 
 import (
+	"bytes"
 	"io"
 	"strconv"
 
@@ -52,7 +53,14 @@ func (s *sub38) parseKeyData(rootInfo *result.Item) error {
 	s.cxt.KeyCreationTime = nil
 	defer func() { s.cxt.KeyCreationTime = outer }()
 
-	sp, err := NewPackets(s.cxt, s.reader)
+	if s.reader.Rest() == 0 {
+		return nil
+	}
+	b, err := s.reader.Read2EOF()
+	if err != nil {
+		return errs.Wrap(err)
+	}
+	sp, err := NewPackets(s.cxt, bytes.NewReader(b))
 	if err != nil {
 		return errs.Wrap(err)
 	}
-- 
2.43.0


From ca49a562086f3f6a0fa6fcb3f351d0462df04b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:25 +0000
Subject: [PATCH 13/25] fix: report AEAD encrypted data packets cut inside
 their IV

---
 parse/tags/tag20.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/tag20.go b/parse/tags/tag20.go
index ba9bb51..2379344 100644
--- a/parse/tags/tag20.go
+++ b/parse/tags/tag20.go
@@ -59,7 +59,7 @@ func (t *tag20) Parse() (*result.Item, error) {
 	//A starting initialization vector of size specified by the AEAD algorithm.
 	iv, err := t.iv(aeadid)
 	if err != nil {
-		return rootInfo, nil
+		return rootInfo, errs.Wrap(err)
 	}
 	rootInfo.Add(iv)
 
-- 
2.43.0


From 6a806e1deaf5d333da9e0382fe097435dd0cec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:26 +0000
Subject: [PATCH 14/25] fix: do not show an overflowed chunk size for AEAD
 encrypted data

---
 parse/tags/tag20.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parse/tags/tag20.go b/parse/tags/tag20.go
index 2379344..fe4955a 100644
--- a/parse/tags/tag20.go
+++ b/parse/tags/tag20.go
@@ -50,10 +50,13 @@ func (t *tag20) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.New("illegal chunk size", errs.WithCause(err))
 	}
-	chunkSize := uint64(1) << (c + 6)
+	chunkSize := values.Unknown
+	if c < 64-6 {
+		chunkSize = strconv.FormatUint(uint64(1)<<(c+6), 10)
+	}
 	rootInfo.Add(result.NewItem(
 		result.Name("Chunk size"),
-		result.Value(strconv.FormatUint(chunkSize, 10)),
+		result.Value(chunkSize),
 		result.DumpStr(values.DumpByteString(byte(c), true)),
 	))
 	//A starting initialization vector of size specified by the AEAD algorithm.
-- 
2.43.0


From edb6165a6d372c5aefa65dd02c7182a04babfae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:26 +0000
Subject: [PATCH 15/25] fix: end the scope of session keys at AEAD encrypted
 data

A following encrypted data packet was said to use a session key packet
that belongs to the AEAD encrypted data.
---
 parse/tags/tag20.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse/tags/tag20.go b/parse/tags/tag20.go
index fe4955a..9ed30ef 100644
--- a/parse/tags/tag20.go
+++ b/parse/tags/tag20.go
@@ -69,6 +69,7 @@ func (t *tag20) Parse() (*result.Item, error) {
 	if t.reader.Rest() > 0 {
 		rootInfo.Add(values.RawData(t.reader, "Encrypted data and authentication tag", t.cxt.Debug()))
 	}
+	t.cxt.ResetAlg()
 	return rootInfo, nil
 }
 
-- 
2.43.0


From fed9d5f7319b7142b197b7f70618d89791f15b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:28 +0000
Subject: [PATCH 16/25] fix: do not write the literal data format octet as a
 raw control character

---
 parse/tags/tag11.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse/tags/tag11.go b/parse/tags/tag11.go
index ad2e7e9..65de90b 100644
--- a/parse/tags/tag11.go
+++ b/parse/tags/tag11.go
@@ -2,6 +2,7 @@ package tags
 
 import (
 	"fmt"
+	"unicode"
 
 	"github.com/spiegel-im-spiegel/errs"
 	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
@@ -27,7 +28,11 @@ func (t *tag11) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.New("illegal format", errs.WithCause(err))
 	}
-	rootInfo.Add(values.LiteralFormat(f).ToItem())
+	format := values.LiteralFormat(f).ToItem()
+	if unicode.IsControl(rune(f)) { //do not output control characters
+		format.Value = fmt.Sprintf("(%U)", f)
+	}
+	rootInfo.Add(format)
 	flen, err := t.reader.ReadByte()
 	if err != nil {
 		return rootInfo, errs.New("illegal length of file name", errs.WithCause(err))
-- 
2.43.0


From 7e0a7d947ac4a5d3a6d758580d8d79b13e9d59d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:29 +0000
Subject: [PATCH 17/25] fix: number unknown key flags after the second octet
 from 3

---
 parse/tags/sub27.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/sub27.go b/parse/tags/sub27.go
index 93ccf0e..c6473c1 100644
--- a/parse/tags/sub27.go
+++ b/parse/tags/sub27.go
@@ -52,7 +52,7 @@ func (s *sub27) Parse() (*result.Item, error) {
 	if s.reader.Rest() > 0 {
 		flags, _ := s.reader.Read2EOF()
 		for i, flag := range flags {
-			rootInfo.Add(values.Flag2Item(flag, fmt.Sprintf("Unknown flag%d(%#02x)", i+2, flag)))
+			rootInfo.Add(values.Flag2Item(flag, fmt.Sprintf("Unknown flag%d(%#02x)", i+3, flag)))
 		}
 	}
 	return rootInfo, nil
-- 
2.43.0


From 42c6b89ad5c3acbb4624643f9ffa2df7b69fc37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:29 +0000
Subject: [PATCH 18/25] fix: do not dereference a nil key server

---
 hkp/hkp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hkp/hkp.go b/hkp/hkp.go
index d51767a..0171661 100644
--- a/hkp/hkp.go
+++ b/hkp/hkp.go
@@ -75,12 +75,15 @@ func (s *Server) String() string {
 //URL returns url.URL instance
 func (s *Server) URL() *url.URL {
 	if s == nil {
-		s = nil
+		return nil
 	}
 	return &url.URL{Scheme: s.prt.String(), Host: fmt.Sprintf("%s:%d", s.host, s.port)}
 }
 
 func (s *Server) Fetch(ctx context.Context, cli fetch.Client, userID string) (io.ReadCloser, error) {
+	if s == nil {
+		return nil, errs.Wrap(ecode.ErrNullPointer)
+	}
 	values := url.Values{
 		"search": {userID},
 		"op":     {"get"},
-- 
2.43.0


From 463d30bc93a7de4a7832d34cf6b3606bd733f899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:30 +0000
Subject: [PATCH 19/25] fix: do not keep --debug from a previous execution

---
 facade/facade.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/facade/facade.go b/facade/facade.go
index a0769d7..742d8a5 100644
--- a/facade/facade.go
+++ b/facade/facade.go
@@ -35,6 +35,7 @@ var (
 
 //newRootCmd returns cobra.Command instance for root command
 func newRootCmd(ui *rwi.RWI, args []string) *cobra.Command {
+	debugFlag = false //set by parseContext
 	rootCmd := &cobra.Command{
 		Use:   Name,
 		Short: "OpenPGP packet visualizer",
-- 
2.43.0


From 015f3197f57ae634771f470a640bc184dc1e9b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:50 +0000
Subject: [PATCH 20/25] fix: escape the GitHub user name in request URLs

A name that does not form a URL made a nil URL (and a panic), and
characters such as '?' or '/' asked for something else than that user.
---
 github/github.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/github/github.go b/github/github.go
index 1f31e9e..9968309 100644
--- a/github/github.go
+++ b/github/github.go
@@ -19,7 +19,11 @@ var maxKeysStr = strconv.Itoa(maxKeys)
 
 //Get returns OpenPGP ASCII armor text from GitHub user profile
 func Get(ctx context.Context, cli fetch.Client, username string) ([]byte, error) {
-	resp, err := cli.Get(makeURL(username), fetch.WithContext(ctx))
+	u, err := makeURL(username)
+	if err != nil {
+		return nil, errs.Wrap(ecode.ErrInvalidRequest, errs.WithCause(err), errs.WithContext("username", username))
+	}
+	resp, err := cli.Get(u, fetch.WithContext(ctx))
 	if err != nil {
 		return nil, errs.Wrap(err, errs.WithContext("username", username))
 	}
@@ -30,9 +34,9 @@ func Get(ctx context.Context, cli fetch.Client, username string) ([]byte, error)
 	return b, nil
 }
 
-func makeURL(username string) *url.URL {
-	u, _ := fetch.URL(fmt.Sprintf("https://github.com/%s.gpg", username))
-	return u
+func makeURL(username string) (*url.URL, error) {
+	u, err := fetch.URL(fmt.Sprintf("https://github.com/%s.gpg", url.PathEscape(username)))
+	return u, errs.Wrap(err, errs.WithContext("username", username))
 }
 
 //GetKey returns JSON text for GitHub OpenPGP API
@@ -86,7 +90,7 @@ func makeURLAPI(username string, page int) (*url.URL, error) {
 	if page < 1 {
 		page = 1
 	}
-	u, err := url.Parse(fmt.Sprintf("https://api.github.com/users/%s/gpg_keys", username))
+	u, err := url.Parse(fmt.Sprintf("https://api.github.com/users/%s/gpg_keys", url.PathEscape(username)))
 	if err != nil {
 		return nil, errs.Wrap(err, errs.WithContext("username", username), errs.WithContext("page", page))
 	}
-- 
2.43.0


From 6037e472b826b2dfe882c9924268007f160c5a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:51 +0000
Subject: [PATCH 21/25] fix: ignore null entries in GitHub's list of keys

---
 github/github.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/github/github.go b/github/github.go
index 9968309..aa7c02f 100644
--- a/github/github.go
+++ b/github/github.go
@@ -50,6 +50,9 @@ func GetKey(ctx context.Context, cli fetch.Client, username string, keyID string
 			return nil, errs.Wrap(err, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
 		}
 		for _, k := range keys {
+			if k == nil {
+				continue
+			}
 			if strings.EqualFold(k.KeyID, strings.TrimPrefix(strings.ToLower(keyID), "0x")) {
 				if k.RawKey == nil {
 					return nil, errs.Wrap(ecode.ErrNoKey, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
-- 
2.43.0


From 6b151add96289df085aad4f01964ac1d3456b214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:40 +0000
Subject: [PATCH 22/25] fix: account for octets left over in v5 public key
 material

---
 parse/tags/pubkey.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parse/tags/pubkey.go b/parse/tags/pubkey.go
index 59b4ff3..b553991 100644
--- a/parse/tags/pubkey.go
+++ b/parse/tags/pubkey.go
@@ -125,7 +125,14 @@ func (p *pubkeyInfo) parseV5(parent *result.Item) error {
 		return errs.New(fmt.Sprintf("illegal key material data (size: %d bytes)", sz64), errs.WithCause(err))
 	}
 	// [10] series of multiprecision integers comprising the key material.
-	return pubkey.New(p.cxt, p.pubID, reader.New(b)).ParsePub(parent) //TODO: new logic for key material
+	r := reader.New(b)
+	if err := pubkey.New(p.cxt, p.pubID, r).ParsePub(parent); err != nil { //TODO: new logic for key material
+		return err
+	}
+	if r.Rest() > 0 {
+		parent.Add(values.RawData(r, "Unknown data", p.cxt.Debug()))
+	}
+	return nil
 }
 
 //PubID returns pubID
-- 
2.43.0


From c64bbe4abc5ebd69fc796a8c2af3f93ced26aaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:56 +0000
Subject: [PATCH 23/25] fix: copy from the reader's offset in WriteTo

---
 parse/reader/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse/reader/reader.go b/parse/reader/reader.go
index a125f14..7b5ff73 100644
--- a/parse/reader/reader.go
+++ b/parse/reader/reader.go
@@ -49,9 +49,9 @@ func (r *Reader) ReadByte() (byte, error) {
 	return b[0], errs.Wrap(err)
 }
 
-//WriteTo is copying buffer to io.Writer (io.WriterTo compatible)
+//WriteTo is copying rest of buffer to io.Writer (io.WriterTo compatible)
 func (r *Reader) WriteTo(w io.Writer) (int64, error) {
-	size, err := bytes.NewReader(r.buffer).WriteTo(w)
+	size, err := bytes.NewReader(r.buffer[r.offset:]).WriteTo(w)
 	if err == nil {
 		r.offset = r.Size()
 	}
-- 
2.43.0


From cc78dd53cae9534583e9a9475ac277d05d076f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:58 +0000
Subject: [PATCH 24/25] fix: do not panic dumping from a negative offset

---
 parse/reader/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/reader/reader.go b/parse/reader/reader.go
index 7b5ff73..9409ca1 100644
--- a/parse/reader/reader.go
+++ b/parse/reader/reader.go
@@ -138,7 +138,7 @@ func (r *Reader) GetBody() []byte {
 
 //DumpString returns string of byte dump (not move offset)
 func (r *Reader) DumpString(off int64) string {
-	if off >= r.Size() {
+	if off < 0 || off >= r.Size() {
 		return ""
 	}
 	data := r.buffer[off:]
-- 
2.43.0


From 27a50e03bd0fc24c379f38f301f38adfa36b0a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:49 +0000
Subject: [PATCH 25/25] fix: accept ASCII armor text with lines longer than 64
 KiB

---
 armtext/armtext.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/armtext/armtext.go b/armtext/armtext.go
index 957941a..fb8ec03 100644
--- a/armtext/armtext.go
+++ b/armtext/armtext.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 
 	"github.com/spiegel-im-spiegel/errs"
@@ -22,6 +23,7 @@ func Get(r io.Reader) (*bytes.Buffer, error) {
 	armorFlag := false
 	armorEndFlag := false
 	scn := bufio.NewScanner(r)
+	scn.Buffer(nil, math.MaxInt32) //text around the block may have long lines
 	for scn.Scan() {
 		str := scn.Text()
 		if !armorFlag {
-- 
2.43.0

