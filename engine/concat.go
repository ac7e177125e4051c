package main

import "sort"

// Canonical form of values assembled from narrower ones (shifts, ors and
// extensions in any order and width), so that equal values are equal terms.

type piece struct {
	t *Term
	s uint8
}

// pieces splits x into atoms at disjoint bit positions; nil if it is not of
// that form.
func (b *TB) pieces(x *Term) []piece {
	switch x.op {
	case OZext:
		return []piece{{x.a0, 0}}
	case OShl:
		if x.a1.op == OConst && x.a0.op == OZext && uint64(x.a0.a0.w)+x.a1.c <= uint64(x.w) {
			return []piece{{x.a0.a0, uint8(x.a1.c)}}
		}
	case OOr:
		p := b.pieces(x.a0)
		if p == nil {
			return nil
		}
		q := b.pieces(x.a1)
		if q == nil {
			return nil
		}
		return joinPieces(p, q)
	}
	return nil
}

func joinPieces(p, q []piece) []piece {
	if len(p)+len(q) > 16 {
		return nil
	}
	r := append(append(make([]piece, 0, len(p)+len(q)), p...), q...)
	sort.SliceStable(r, func(i, j int) bool { return r[i].s < r[j].s })
	for i := 1; i < len(r); i++ {
		if r[i-1].s+r[i-1].t.w > r[i].s {
			return nil
		}
	}
	return r
}

func (b *TB) concat(w uint8, ps []piece) *Term {
	if len(ps) == 0 {
		return b.Const(w, 0)
	}
	var t *Term
	for _, p := range ps {
		var z *Term
		if p.t.w == w {
			return p.t
		}
		z = b.mk(OZext, w, 0, p.t, nil, nil, "")
		if p.s > 0 {
			z = b.mk(OShl, w, 0, z, b.Const(w, uint64(p.s)), nil, "")
		}
		if t == nil {
			t = z
		} else {
			t = b.mk(OOr, w, 0, t, z, nil, "")
		}
	}
	return t
}

func (b *TB) shiftPieces(ps []piece, d int, w uint8) []piece {
	r := make([]piece, 0, len(ps))
	for _, p := range ps {
		s := int(p.s) + d
		if s+int(p.t.w) <= 0 || s >= int(w) {
			continue
		}
		if s < 0 || s+int(p.t.w) > int(w) {
			return nil
		}
		r = append(r, piece{p.t, uint8(s)})
	}
	return r
}
