package stub

import "sort"

// Bzip2 is a small bzip2 encoder (one block, no run-length first stage beyond
// what short inputs need), for native replays.
func Bzip2(plain []byte) []byte {
	w := &bits{}
	w.put(0x425a6839, 32) // BZh9
	crc := bzcrc(plain)
	if len(plain) > 0 {
		w.put(0x314159, 24)
		w.put(0x265359, 24)
		w.put(uint64(crc), 32)
		w.put(0, 1)
		src := rle1(plain)
		n := len(src)
		rot := make([]int, n)
		for i := range rot {
			rot[i] = i
		}
		sort.Slice(rot, func(a, b int) bool {
			for k := 0; k < n; k++ {
				x, y := src[(rot[a]+k)%n], src[(rot[b]+k)%n]
				if x != y {
					return x < y
				}
			}
			return rot[a] < rot[b]
		})
		last := make([]byte, n)
		ptr := 0
		for i, r := range rot {
			last[i] = src[(r+n-1)%n]
			if r == 0 {
				ptr = i
			}
		}
		w.put(uint64(ptr), 24)
		var used [256]bool
		for _, b := range src {
			used[b] = true
		}
		var syms []byte
		for i := 0; i < 16; i++ {
			any := false
			for j := 0; j < 16; j++ {
				any = any || used[i*16+j]
			}
			w.put(b2u(any), 1)
		}
		for i := 0; i < 16; i++ {
			any := false
			for j := 0; j < 16; j++ {
				any = any || used[i*16+j]
			}
			if any {
				for j := 0; j < 16; j++ {
					w.put(b2u(used[i*16+j]), 1)
					if used[i*16+j] {
						syms = append(syms, byte(i*16+j))
					}
				}
			}
		}
		// move to front and zero runs
		var out []int
		run := 0
		flush := func() {
			for run > 0 {
				if run&1 == 1 {
					out = append(out, 0)
					run = (run - 1) / 2
				} else {
					out = append(out, 1)
					run = (run - 2) / 2
				}
			}
		}
		mtf := append([]byte{}, syms...)
		for _, b := range last {
			i := 0
			for mtf[i] != b {
				i++
			}
			copy(mtf[1:i+1], mtf[:i])
			mtf[0] = b
			if i == 0 {
				run++
			} else {
				flush()
				out = append(out, i+1)
			}
		}
		flush()
		alpha := len(syms) + 2
		out = append(out, alpha-1)
		w.put(2, 3) // two tables, the least allowed
		w.put(uint64((len(out)+49)/50), 15)
		for i := 0; i < (len(out)+49)/50; i++ {
			w.put(0, 1)
		}
		l := uint(1)
		for 1<<l < alpha {
			l++
		}
		short := 1<<l - alpha // symbols with a code of l-1 bits: a complete code
		for t := 0; t < 2; t++ {
			cur := l
			if short > 0 {
				cur = l - 1
			}
			w.put(uint64(cur), 5)
			for i := 0; i < alpha; i++ {
				if i >= short && cur < l {
					w.put(2, 2)
					cur = l
				}
				w.put(0, 1)
			}
		}
		for _, s := range out {
			if s < short {
				w.put(uint64(s), l-1)
			} else {
				w.put(uint64(s+short), l)
			}
		}
	}
	w.put(0x177245, 24)
	w.put(0x385090, 24)
	var tot uint32
	if len(plain) > 0 {
		tot = crc
	}
	w.put(uint64(tot), 32)
	return w.bytes()
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func rle1(p []byte) (out []byte) {
	for i := 0; i < len(p); {
		n := 1
		for i+n < len(p) && p[i+n] == p[i] && n < 255 {
			n++
		}
		if n >= 4 {
			out = append(out, p[i], p[i], p[i], p[i], byte(n-4))
		} else {
			out = append(out, p[i:i+n]...)
		}
		i += n
	}
	return
}

func bzcrc(p []byte) uint32 {
	c := uint32(0xffffffff)
	for _, b := range p {
		c ^= uint32(b) << 24
		for i := 0; i < 8; i++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
	}
	return ^c
}

type bits struct {
	b []byte
	n uint
}

func (w *bits) put(v uint64, n uint) {
	for i := int(n) - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		if v>>uint(i)&1 == 1 {
			w.b[len(w.b)-1] |= 0x80 >> (w.n % 8)
		}
		w.n++
	}
}

func (w *bits) bytes() []byte { return w.b }
