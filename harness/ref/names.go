package ref

import "fmt"

// Assigned numbers, transcribed from RFC 4880 / RFC 4880bis as the documented
// output of the program names them.

var pubNames = map[int]string{
	1: "RSA (Encrypt or Sign)", 2: "RSA Encrypt-Only", 3: "RSA Sign-Only",
	16: "Elgamal (Encrypt-Only)", 17: "DSA (Digital Signature Algorithm)",
	18: "ECDH public key algorithm", 19: "ECDSA public key algorithm",
	20: "Reserved (formerly Elgamal Encrypt or Sign)", 21: "Reserved for Diffie-Hellman", 22: "EdDSA",
}

var symNames = map[int]string{
	0: "Plaintext or unencrypted data", 1: "IDEA", 2: "TripleDES (168 bit key derived from 192)",
	3: "CAST5 (128 bit key, as per)", 4: "Blowfish (128 bit key, 16 rounds)", 5: "Reserved", 6: "Reserved",
	7: "AES with 128-bit key", 8: "AES with 192-bit key", 9: "AES with 256-bit key",
	10: "Twofish with 256-bit key", 11: "Camellia with 128-bit key", 12: "Camellia with 192-bit key", 13: "Camellia with 256-bit key",
}

var hashNames = map[int]string{
	0: "Unknown", 1: "MD5", 2: "SHA-1", 3: "RIPE-MD/160", 4: "Reserved", 5: "Reserved", 6: "Reserved", 7: "Reserved",
	8: "SHA2-256", 9: "SHA2-384", 10: "SHA2-512", 11: "SHA2-224", 12: "SHA3-256", 13: "Reserved", 14: "SHA3-512",
}

var compNames = map[int]string{0: "Uncompressed", 1: "ZIP <RFC1951>", 2: "ZLIB <RFC1950>", 3: "BZip2"}

var aeadNames = map[int]string{1: "EAX mode", 2: "OCB mode <RFC7253>"}

var s2kNames = map[int]string{0: "Simple S2K", 1: "Salted S2K", 2: "Reserved", 3: "Iterated and Salted S2K"}

var sigNames = map[int]string{
	0x00: "Signature of a binary document", 0x01: "Signature of a canonical text document", 0x02: "Standalone signature",
	0x10: "Generic certification of a User ID and Public-Key packet", 0x11: "Persona certification of a User ID and Public-Key packet",
	0x12: "Casual certification of a User ID and Public-Key packet", 0x13: "Positive certification of a User ID and Public-Key packet",
	0x16: "Attested Key Signature", 0x18: "Subkey Binding Signature", 0x19: "Primary Key Binding Signature",
	0x1f: "Signature directly on a key", 0x20: "Key revocation signature", 0x28: "Subkey revocation signature",
	0x30: "Certification revocation signature", 0x40: "Timestamp signature", 0x50: "Third-Party Confirmation signature",
}

var tagNames = map[int]string{
	0: "Reserved", 1: "Public-Key Encrypted Session Key Packet", 2: "Signature Packet",
	3: "Symmetric-Key Encrypted Session Key Packet", 4: "One-Pass Signature Packet", 5: "Secret-Key Packet",
	6: "Public-Key Packet", 7: "Secret-Subkey Packet", 8: "Compressed Data Packet", 9: "Symmetrically Encrypted Data Packet",
	10: "Marker Packet (Obsolete Literal Packet)", 11: "Literal Data Packet", 12: "Trust Packet", 13: "User ID Packet",
	14: "Public-Subkey Packet", 17: "User Attribute Packet", 18: "Sym. Encrypted Integrity Protected Data Packet",
	19: "Modification Detection Code Packet", 20: "AEAD Encrypted Data Packet",
	60: "Private or Experimental Values", 61: "Private or Experimental Values", 62: "Private or Experimental Values", 63: "Private or Experimental Values",
}

var subNames = map[int]string{
	0: "Reserved", 1: "Image Attribute", 2: "Signature Creation Time", 3: "Signature Expiration Time", 4: "Exportable Certification",
	5: "Trust Signature", 6: "Regular Expression", 7: "Revocable", 8: "Reserved", 9: "Key Expiration Time",
	10: "Placeholder for backward compatibility", 11: "Preferred Symmetric Algorithms", 12: "Revocation Key",
	13: "Reserved", 14: "Reserved", 15: "Reserved", 16: "Issuer", 17: "Reserved", 18: "Reserved", 19: "Reserved",
	20: "Notation Data", 21: "Preferred Hash Algorithms", 22: "Preferred Compression Algorithms", 23: "Key Server Preferences",
	24: "Preferred Key Server", 25: "Primary User ID", 26: "Policy URI", 27: "Key Flags", 28: "Signer's User ID",
	29: "Reason for Revocation", 30: "Features", 31: "Signature Target", 32: "Embedded Signature", 33: "Issuer Fingerprint",
	34: "Preferred AEAD Algorithms", 35: "Intended Recipient Fingerprint", 36: "Reserved", 37: "Attested Certifications", 38: "Key Block",
}

var literalNames = map[int]string{0x62: "binary", 0x74: "text", 0x75: "UTF-8 text", 0x31: "local", 0x6c: "local"}

var pointNames = map[int]string{
	0x04: "uncompressed format", 0x40: "Native point format of the curve follows",
	0x41: "Only X coordinate follows", 0x42: "Only Y coordinate follows",
}

var reasonNames = map[int]string{
	0: "No reason specified (key revocations or cert revocations)", 1: "Key is superseded (key revocations)",
	2: "Key material has been compromised (key revocations)", 3: "Key is retired and no longer used (key revocations)",
	32: "User ID resultrmation is no longer valid (cert revocations)",
}

type curve struct {
	name string
	oid  string
}

var curves = []curve{
	{"nistp256 (256bits key size)", "\x2a\x86\x48\xce\x3d\x03\x01\x07"},
	{"secp256k1 (256bits key size)", "\x2b\x81\x04\x00\x0a"},
	{"nistp384 (384bits key size)", "\x2b\x81\x04\x00\x22"},
	{"nistp521 (521bits key size)", "\x2b\x81\x04\x00\x23"},
	{"brainpoolP256r1 (256bits key size)", "\x2b\x24\x03\x03\x02\x08\x01\x01\x07"},
	{"brainpoolP384r1 (384bits key size)", "\x2b\x24\x03\x03\x02\x08\x01\x01\x0b"},
	{"brainpoolP512r1 (512bits key size)", "\x2b\x24\x03\x03\x02\x08\x01\x01\x0d"},
	{"ed25519 (256bits key size)", "\x2b\x06\x01\x04\x01\xda\x47\x0f\x01"},
	{"cv25519 (256bits key size)", "\x2b\x06\x01\x04\x01\x97\x55\x01\x05\x01"},
}

func private(id byte) bool { return 100 <= id && id <= 110 }

func get(t map[int]string, id byte, def string) string {
	if s, ok := t[int(id)]; ok {
		return s
	}
	return def
}

func algName(t map[int]string, id byte) string {
	if private(id) {
		return "Private/Experimental algorithm"
	}
	return get(t, id, "Unknown")
}

func PubName(id byte) string  { return fmt.Sprintf("%s (pub %d)", algName(pubNames, id), id) }
func SymName(id byte) string  { return fmt.Sprintf("%s (sym %d)", algName(symNames, id), id) }
func HashName(id byte) string { return fmt.Sprintf("%s (hash %d)", algName(hashNames, id), id) }
func AEADName(id byte) string { return fmt.Sprintf("%s (aead %d)", algName(aeadNames, id), id) }
func S2KName(id byte) string  { return fmt.Sprintf("%s (s2k %d)", algName(s2kNames, id), id) }
func CompName(id byte) string {
	return fmt.Sprintf("%s (comp %d)", get(compNames, id, "Unknown"), id)
}

// SigName: the type octet is shown in hexadecimal with at least two characters after 0x.
func SigName(id byte) string { return fmt.Sprintf("%s (%#02x)", get(sigNames, id, "Unknown"), id) }

func TagName(t int) string {
	return fmt.Sprintf("%s (tag %d)", get(tagNames, byte(t), "Unknown"), t)
}

func SubName(typ byte) string {
	c := ""
	if typ >= 0x80 {
		c = " <critical>"
	}
	id := typ & 0x7f
	n := "Private or experimental"
	if !private(id) {
		n = get(subNames, id, "Unknown")
	}
	return fmt.Sprintf("%s%s (sub %d)", n, c, id)
}

// SymIV is the block size of the cipher (the length of its IV); 0 when unknown.
func SymIV(id byte) int {
	switch {
	case id <= 6:
		return 8
	case id <= 13:
		return 16
	}
	return 0
}

// AEADIV is the nonce length of the AEAD mode; 0 when unknown.
func AEADIV(id byte) int {
	switch id {
	case 1:
		return 16
	case 2:
		return 15
	}
	return 0
}
