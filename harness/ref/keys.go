package ref

import "fmt"

func mpi(n *Node, name string, c *cur, o *Opts) bool {
	bits, ok := c.u16()
	if !ok {
		return false
	}
	b, ok := c.takeN((bits + 7) >> 3)
	if !ok {
		return false
	}
	n.add(&Node{K: KMPI, Name: name, Note: fmt.Sprintf("%d bits", bits), Dump: hexIf(b, o.Integer)})
	return true
}

func mpis(n *Node, c *cur, o *Opts, names ...string) bool {
	for _, s := range names {
		if !mpi(n, s, c, o) {
			return false
		}
	}
	return true
}

// point is an MPI holding an EC point; its first octet tells the format.
func point(n *Node, name string, c *cur, o *Opts) bool {
	bits, ok := c.u16()
	if !ok {
		return false
	}
	b, ok := c.takeN((bits + 7) >> 3)
	if !ok {
		return false
	}
	f := "Unknown"
	if len(b) > 0 {
		f = get(pointNames, b[0], "Unknown")
	}
	n.add(&Node{K: KMPI, Name: name + " EC point (" + f + ")", Note: fmt.Sprintf("%d bits", bits), Dump: hexIf(b, o.Integer)})
	return true
}

func oid(n *Node, c *cur) bool {
	l, ok := c.u8()
	if !ok {
		return false
	}
	b, ok := c.takeN(int(l))
	if !ok {
		return false
	}
	v := "Unknown"
	for _, cv := range curves {
		if len(b) == len(cv.oid) && string(b) == cv.oid {
			v = cv.name
			break
		}
	}
	n.add(&Node{K: KAlg, Name: "ECC Curve OID", Value: v, Dump: Hex(b)})
	return true
}

// rest of a body whose layout the algorithm does not define.
func opaque(n *Node, name string, c *cur, o *Opts) {
	n.add(&Node{K: KMPI, Name: name, Note: nbytes(c.rest()), Dump: hexIf(c.b[c.off:], o.Debug)})
}

func publicKey(n *Node, v byte, c *cur, o *Opts, st *State) (byte, bool) {
	if v != 3 && v != 4 && v != 5 {
		return 0, true
	}
	t, b, ok := c.u32()
	if !ok {
		return 0, false
	}
	st.KeyTime = &t
	n.add(tm("Public key creation time", t, b, o))
	if v == 3 {
		d, ok := c.u16()
		if !ok {
			return 0, false
		}
		n.add(&Node{K: KNum, Name: "Valid days", Value: fmt.Sprintf("%d", d), Note: "0 is forever"})
	}
	p, ok := c.u8()
	if !ok {
		return 0, false
	}
	n.add(pub(p, o))
	if v == 5 {
		l, _, ok := c.u32()
		if !ok {
			return p, false
		}
		k, ok := c.takeN(int(l))
		if !ok {
			return p, false
		}
		return p, pubMaterial(n, p, &cur{b: k}, o)
	}
	return p, pubMaterial(n, p, c, o)
}

func pubMaterial(n *Node, p byte, c *cur, o *Opts) bool {
	switch p {
	case 1, 2, 3:
		return mpis(n, c, o, "RSA public modulus n", "RSA public encryption exponent e")
	case 16, 20:
		return mpis(n, c, o, "ElGamal prime p", "ElGamal group generator g", "ElGamal public key value y (= g^x mod p where x is secret)")
	case 17:
		return mpis(n, c, o, "DSA p", "DSA q (q is a prime divisor of p-1)", "DSA g", "DSA y (= g^x mod p where x is secret)")
	case 18:
		return oid(n, c) && point(n, "ECDH", c, o) && kdf(n, c, o)
	case 19:
		return oid(n, c) && point(n, "ECDSA", c, o)
	case 22:
		return oid(n, c) && point(n, "EdDSA", c, o)
	}
	opaque(n, fmt.Sprintf("Multi-precision integers of Unknown (pub %d)", p), c, o)
	return true
}

// lenField is a length octet and as many octets; a missing field is empty.
func lenField(c *cur) ([]byte, bool) {
	if c.rest() == 0 {
		return nil, true
	}
	l, _ := c.u8()
	return c.takeN(int(l))
}

func kdf(n *Node, c *cur, o *Opts) bool {
	b, ok := lenField(c)
	if !ok {
		return false
	}
	k := &Node{K: KMPI, Name: "KDF parameters", Note: nbytes(len(b)), Dump: hexIf(b, o.Integer)}
	if len(b) > 2 && b[0] == 1 {
		k.add(hash(b[1], o))
		k.add(sym(b[2], o))
	} else {
		k.Value = "Unknown"
	}
	n.add(k)
	return true
}

func sesKey(n *Node, p byte, c *cur, o *Opts) bool {
	switch p {
	case 1, 2, 3:
		return mpis(n, c, o, "RSA m^e mod n; m = sym alg(1 byte) + checksum(2 bytes) + PKCS#1 block encoding EME-PKCS1-v1_5")
	case 16, 20:
		return mpis(n, c, o, "ElGamal g^k mod p", "ElGamal m * y^k mod p; m = sym alg(1 byte) + checksum(2 bytes) + PKCS#1 block encoding EME-PKCS1-v1_5")
	case 17:
		opaque(n, "Multi-precision integers of DSA", c, o)
	case 18:
		if !point(n, "ECDH", c, o) {
			return false
		}
		b, ok := lenField(c)
		if !ok {
			return false
		}
		n.add(&Node{K: KMPI, Name: "symmetric key (encoded)", Note: nbytes(len(b)), Dump: hexIf(b, o.Integer)})
	case 19:
		opaque(n, "Multi-precision integers of ECDSA", c, o)
	case 22:
		opaque(n, "Multi-precision integers of EdDSA", c, o)
	default:
		opaque(n, fmt.Sprintf("Multi-precision integers of Unknown (pub %d)", p), c, o)
	}
	return true
}

func sigMaterial(n *Node, p byte, c *cur, o *Opts) bool {
	switch p {
	case 1, 2, 3:
		return mpis(n, c, o, "RSA signature value m^d mod n")
	case 16, 20:
		return mpis(n, c, o, "ElGamal a = g^k mod p", "ElGamal b = (h - a*x)/k mod p - 1")
	case 17:
		return mpis(n, c, o, "DSA value r", "DSA value s")
	case 18:
		opaque(n, "Multi-precision integers of ECDH", c, o)
		return true
	case 19:
		return mpis(n, c, o, "ECDSA value r", "ECDSA value s")
	case 22:
		return mpis(n, c, o, "EC point r", "EdDSA value s in the little endian representation")
	}
	opaque(n, fmt.Sprintf("Multi-precision integers of Unknown (pub %d)", p), c, o)
	return true
}

// s2k: string-to-key specifier; hasIV is false for keys stored outside.
func s2k(n *Node, c *cur, o *Opts) (hasIV bool, ok bool) {
	id, ok := c.u8()
	if !ok {
		return true, false
	}
	o.seen("s2k", id)
	s := alg("String-to-Key (S2K) Algorithm", S2KName(id), id, o)
	n.add(s)
	switch id {
	case 0, 1, 3:
		h, ok := c.u8()
		if !ok {
			return true, false
		}
		s.add(hash(h, o))
		if id != 0 {
			b, ok := c.take(8)
			if !ok {
				return true, false
			}
			s.add(&Node{K: KBytes, Name: "Salt", Dump: Hex(b)})
		}
		if id == 3 {
			x, ok := c.u8()
			if !ok {
				return true, false
			}
			cnt := (16 + uint64(x&15)) << (uint(x>>4) + 6)
			s.add(&Node{K: KCount, Name: "Count", Value: fmt.Sprintf("%d", cnt), Dump: fmt.Sprintf("%02x", x)})
		}
	case 101:
		if c.rest() >= 4 && c.b[c.off] == 'G' && c.b[c.off+1] == 'N' && c.b[c.off+2] == 'U' {
			c.off += 3
			x, _ := c.u8()
			g := &Node{K: KNum, Name: "GNU-divert-to-card", Value: fmt.Sprintf("Extension Number %d", 1000+int(x))}
			if x == 2 {
				l, ok := c.u8()
				if !ok {
					return false, false
				}
				b, ok := c.takeN(int(l))
				if !ok {
					return false, false
				}
				g.add(&Node{K: KBytes, Name: "Serial Number", Dump: Hex(b)})
			}
			s.add(g)
			return false, true
		}
	}
	return true, true
}

func secretKey(n *Node, v byte, p byte, c *cur, o *Opts) bool {
	usage, ok := c.u8()
	if !ok {
		return false
	}
	opt := c // in version 5 the optional fields are counted
	if v == 5 {
		l, ok := c.u8()
		if !ok {
			return false
		}
		b, ok := c.takeN(int(l))
		if !ok {
			return false
		}
		opt = &cur{b: b}
		if l == 0 {
			opt = nil
		}
	}
	if opt != nil {
		if usage != 0 {
			sid := usage
			if usage >= 253 {
				if sid, ok = opt.u8(); !ok {
					return false
				}
			}
			n.add(sym(sid, o))
			if usage == 253 {
				a, ok := opt.u8()
				if !ok {
					return false
				}
				n.add(aead(a, o))
			}
			hasIV := true
			if usage >= 253 {
				if hasIV, ok = s2k(n, opt, o); !ok {
					return false
				}
			}
			if hasIV {
				iv, ok := opt.take(SymIV(sid))
				if !ok {
					return false
				}
				x := &Node{K: KBytes, Name: "IV", Dump: Hex(iv)}
				if usage == 253 {
					x.Name = "nonce for the AEAD"
				}
				n.add(x)
			}
		}
		if v == 5 {
			n.unknown(opt, o)
		}
	}
	mat := c
	if v == 5 {
		l, _, ok := c.u32()
		if !ok {
			return false
		}
		b, ok := c.takeN(int(l))
		if !ok {
			return false
		}
		if l == 0 {
			return true
		}
		mat = &cur{b: b}
	}
	switch usage {
	case 0:
		n.Note = "s2k usage 0; plain secret-key material"
		if !secPlain(n, p, mat, o) {
			return false
		}
		chk, ok := c.take(2)
		if !ok {
			return false
		}
		n.add(&Node{K: KBytes, Name: "2-octet checksum", Dump: Hex(chk)})
	case 253:
		n.Note = "s2k usage 253; encrypted secret-key material and AEAD authentication tag"
		secEnc(n, p, mat, o)
	case 254:
		n.Note = "s2k usage 254; encrypted secret-key material and 20-octet SHA-1 hash"
		secEnc(n, p, mat, o)
	default:
		n.Note = fmt.Sprintf("s2k usage %d; encrypted secret-key material and 2-octet checksum", usage)
		secEnc(n, p, mat, o)
	}
	if v == 5 {
		n.unknown(mat, o)
	}
	return true
}

func secPlain(n *Node, p byte, c *cur, o *Opts) bool {
	switch p {
	case 1, 2, 3:
		return mpis(n, c, o, "RSA secret exponent d", "RSA secret prime value p", "RSA secret prime value q (p < q)", "RSA u, the multiplicative inverse of p, mod q")
	case 16, 20:
		return mpis(n, c, o, "ElGamal secret exponent x")
	case 17:
		return mpis(n, c, o, "DSA secret exponent x")
	case 18:
		return mpis(n, c, o, "ECDH secret key")
	case 19:
		return mpis(n, c, o, "ECDSA secret key")
	case 22:
		return mpis(n, c, o, "EdDSA secret key")
	}
	if c.rest() < 2 {
		return false
	}
	b, _ := c.takeN(c.rest() - 2)
	n.add(&Node{K: KMPI, Name: fmt.Sprintf("Multi-precision integers of unknown secret key (pub %d)", p), Note: nbytes(len(b)), Dump: hexIf(b, o.Debug)})
	return true
}

func secEnc(n *Node, p byte, c *cur, o *Opts) {
	var s string
	switch p {
	case 1, 2, 3:
		s = "RSA encrypted key (d, p, q, u)"
	case 16, 20:
		s = "Elgamal encrypted key"
	case 17:
		s = "DSA encrypted key"
	case 18:
		s = "ECDH encrypted key"
	case 19:
		s = "ECDSA encrypted key"
	case 22:
		s = "EdDSA encrypted key"
	default:
		s = fmt.Sprintf("Multi-precision integers of unknown encrypted key (pub %d)", p)
	}
	opaque(n, s, c, o)
	c.off = len(c.b)
}
