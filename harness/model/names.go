// Package model is an independent reference decoder for OpenPGP packets: given the
// octets and the options it says what gpgpdump has to show. It imports nothing from
// the code under test.
package model

import "strconv"

const unknown = "Unknown"
const privAlg = "Private/Experimental algorithm"

func isPriv(c int) bool { return c >= 100 && c <= 110 }

func PubName(c byte) string {
	n := unknown
	switch {
	case isPriv(int(c)):
		n = privAlg
	case c == 1:
		n = "RSA (Encrypt or Sign)"
	case c == 2:
		n = "RSA Encrypt-Only"
	case c == 3:
		n = "RSA Sign-Only"
	case c == 16:
		n = "Elgamal (Encrypt-Only)"
	case c == 17:
		n = "DSA (Digital Signature Algorithm)"
	case c == 18:
		n = "ECDH public key algorithm"
	case c == 19:
		n = "ECDSA public key algorithm"
	case c == 20:
		n = "Reserved (formerly Elgamal Encrypt or Sign)"
	case c == 21:
		n = "Reserved for Diffie-Hellman"
	case c == 22:
		n = "EdDSA"
	}
	return n + " (pub " + strconv.Itoa(int(c)) + ")"
}

var symTab = []string{"Plaintext or unencrypted data", "IDEA", "TripleDES (168 bit key derived from 192)",
	"CAST5 (128 bit key, as per)", "Blowfish (128 bit key, 16 rounds)", "Reserved", "Reserved",
	"AES with 128-bit key", "AES with 192-bit key", "AES with 256-bit key", "Twofish with 256-bit key",
	"Camellia with 128-bit key", "Camellia with 192-bit key", "Camellia with 256-bit key"}

func SymName(c byte) string {
	n := unknown
	if int(c) < len(symTab) {
		n = symTab[c]
	} else if isPriv(int(c)) {
		n = privAlg
	}
	return n + " (sym " + strconv.Itoa(int(c)) + ")"
}

// SymIV is the cipher's block size; 0 for ciphers that are not known.
func SymIV(c byte) int {
	switch {
	case c <= 6:
		return 8
	case c <= 13:
		return 16
	}
	return 0
}

var hashTab = []string{"Unknown", "MD5", "SHA-1", "RIPE-MD/160", "Reserved", "Reserved", "Reserved", "Reserved",
	"SHA2-256", "SHA2-384", "SHA2-512", "SHA2-224", "SHA3-256", "Reserved", "SHA3-512"}

func HashName(c byte) string {
	n := unknown
	if int(c) < len(hashTab) {
		n = hashTab[c]
	} else if isPriv(int(c)) {
		n = privAlg
	}
	return n + " (hash " + strconv.Itoa(int(c)) + ")"
}

func CompName(c byte) string {
	n := unknown
	switch c {
	case 0:
		n = "Uncompressed"
	case 1:
		n = "ZIP <RFC1951>"
	case 2:
		n = "ZLIB <RFC1950>"
	case 3:
		n = "BZip2"
	}
	return n + " (comp " + strconv.Itoa(int(c)) + ")"
}

func AEADName(c byte) string {
	n := unknown
	switch {
	case c == 1:
		n = "EAX mode"
	case c == 2:
		n = "OCB mode <RFC7253>"
	case isPriv(int(c)):
		n = privAlg
	}
	return n + " (aead " + strconv.Itoa(int(c)) + ")"
}

func S2KName(c byte) string {
	n := unknown
	switch {
	case c == 0:
		n = "Simple S2K"
	case c == 1:
		n = "Salted S2K"
	case c == 2:
		n = "Reserved"
	case c == 3:
		n = "Iterated and Salted S2K"
	case isPriv(int(c)):
		n = privAlg
	}
	return n + " (s2k " + strconv.Itoa(int(c)) + ")"
}

var sigTab = map[byte]string{
	0x00: "Signature of a binary document", 0x01: "Signature of a canonical text document", 0x02: "Standalone signature",
	0x10: "Generic certification of a User ID and Public-Key packet", 0x11: "Persona certification of a User ID and Public-Key packet",
	0x12: "Casual certification of a User ID and Public-Key packet", 0x13: "Positive certification of a User ID and Public-Key packet",
	0x16: "Attested Key Signature", 0x18: "Subkey Binding Signature", 0x19: "Primary Key Binding Signature",
	0x1f: "Signature directly on a key", 0x20: "Key revocation signature", 0x28: "Subkey revocation signature",
	0x30: "Certification revocation signature", 0x40: "Timestamp signature", 0x50: "Third-Party Confirmation signature"}

func hexByte(b byte) string { return "0x" + string([]byte{hexd[b>>4], hexd[b&15]}) }

func SigName(c byte) string {
	n, ok := sigTab[c]
	if !ok {
		n = unknown
	}
	return n + " (" + hexByte(c) + ")"
}

var subTab = []string{"Reserved", "Image Attribute", "Signature Creation Time", "Signature Expiration Time",
	"Exportable Certification", "Trust Signature", "Regular Expression", "Revocable", "Reserved", "Key Expiration Time",
	"Placeholder for backward compatibility", "Preferred Symmetric Algorithms", "Revocation Key", "Reserved", "Reserved",
	"Reserved", "Issuer", "Reserved", "Reserved", "Reserved", "Notation Data", "Preferred Hash Algorithms",
	"Preferred Compression Algorithms", "Key Server Preferences", "Preferred Key Server", "Primary User ID", "Policy URI",
	"Key Flags", "Signer's User ID", "Reason for Revocation", "Features", "Signature Target", "Embedded Signature",
	"Issuer Fingerprint", "Preferred AEAD Algorithms", "Intended Recipient Fingerprint", "Reserved",
	"Attested Certifications", "Key Block"}

func SubName(c byte) string {
	t := int(c & 0x7f)
	n := unknown
	if t < len(subTab) {
		n = subTab[t]
	} else if isPriv(t) {
		n = "Private or experimental"
	}
	if c >= 0x80 {
		n += " <critical>"
	}
	return n + " (sub " + strconv.Itoa(t) + ")"
}

var tagTab = []string{"Reserved", "Public-Key Encrypted Session Key Packet", "Signature Packet",
	"Symmetric-Key Encrypted Session Key Packet", "One-Pass Signature Packet", "Secret-Key Packet", "Public-Key Packet",
	"Secret-Subkey Packet", "Compressed Data Packet", "Symmetrically Encrypted Data Packet",
	"Marker Packet (Obsolete Literal Packet)", "Literal Data Packet", "Trust Packet", "User ID Packet",
	"Public-Subkey Packet", unknown, unknown, "User Attribute Packet", "Sym. Encrypted Integrity Protected Data Packet",
	"Modification Detection Code Packet", "AEAD Encrypted Data Packet"}

func TagName(t int) string {
	n := unknown
	if t < len(tagTab) {
		n = tagTab[t]
	} else if t >= 60 && t <= 63 {
		n = "Private or Experimental Values"
	}
	return n + " (tag " + strconv.Itoa(t) + ")"
}

func ReasonName(c byte) string {
	n := "Unknown reason"
	switch {
	case c == 0:
		n = "No reason specified (key revocations or cert revocations)"
	case c == 1:
		n = "Key is superseded (key revocations)"
	case c == 2:
		n = "Key material has been compromised (key revocations)"
	case c == 3:
		n = "Key is retired and no longer used (key revocations)"
	case c == 32:
		n = "User ID resultrmation is no longer valid (cert revocations)"
	case isPriv(int(c)):
		n = "(Private Use)"
	}
	return n + " (" + strconv.Itoa(int(c)) + ")"
}

func FormatNote(c byte) string {
	switch c {
	case 'b':
		return "binary"
	case 't':
		return "text"
	case 'u':
		return "UTF-8 text"
	case 'l', '1':
		return "local"
	}
	return "unknown"
}

// Curves maps OIDs to the names shown for them.
var Curves = []struct {
	OID  []byte
	Name string
}{
	{[]byte{0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07}, "nistp256 (256bits key size)"},
	{[]byte{0x2b, 0x81, 0x04, 0x00, 0x0a}, "secp256k1 (256bits key size)"},
	{[]byte{0x2b, 0x81, 0x04, 0x00, 0x22}, "nistp384 (384bits key size)"},
	{[]byte{0x2b, 0x81, 0x04, 0x00, 0x23}, "nistp521 (521bits key size)"},
	{[]byte{0x2b, 0x24, 0x03, 0x03, 0x02, 0x08, 0x01, 0x01, 0x07}, "brainpoolP256r1 (256bits key size)"},
	{[]byte{0x2b, 0x24, 0x03, 0x03, 0x02, 0x08, 0x01, 0x01, 0x0b}, "brainpoolP384r1 (384bits key size)"},
	{[]byte{0x2b, 0x24, 0x03, 0x03, 0x02, 0x08, 0x01, 0x01, 0x0d}, "brainpoolP512r1 (512bits key size)"},
	{[]byte{0x2b, 0x06, 0x01, 0x04, 0x01, 0xda, 0x47, 0x0f, 0x01}, "ed25519 (256bits key size)"},
	{[]byte{0x2b, 0x06, 0x01, 0x04, 0x01, 0x97, 0x55, 0x01, 0x05, 0x01}, "cv25519 (256bits key size)"},
}

func CurveName(oid []byte) string {
	for _, c := range Curves {
		if string(c.OID) == string(oid) {
			return c.Name
		}
	}
	return unknown
}

func PointName(alg string, mpi []byte) string {
	n := unknown
	if len(mpi) > 0 {
		switch mpi[0] {
		case 0x04:
			n = "uncompressed format"
		case 0x40:
			n = "Native point format of the curve follows"
		case 0x41:
			n = "Only X coordinate follows"
		case 0x42:
			n = "Only Y coordinate follows"
		}
	}
	return alg + " EC point (" + n + ")"
}
