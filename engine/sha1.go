package main

import "math/bits"

// sha1Block is the compression function of SHA-1 on concrete data.
func sha1Block(h *[5]uint32, p []byte) {
	var w [80]uint32
	for len(p) >= 64 {
		for i := 0; i < 16; i++ {
			w[i] = uint32(p[4*i])<<24 | uint32(p[4*i+1])<<16 | uint32(p[4*i+2])<<8 | uint32(p[4*i+3])
		}
		for i := 16; i < 80; i++ {
			w[i] = bits.RotateLeft32(w[i-3]^w[i-8]^w[i-14]^w[i-16], 1)
		}
		a, b, c, d, e := h[0], h[1], h[2], h[3], h[4]
		for i := 0; i < 80; i++ {
			var f, k uint32
			switch {
			case i < 20:
				f, k = b&c|^b&d, 0x5A827999
			case i < 40:
				f, k = b^c^d, 0x6ED9EBA1
			case i < 60:
				f, k = b&c|b&d|c&d, 0x8F1BBCDC
			default:
				f, k = b^c^d, 0xCA62C1D6
			}
			t := bits.RotateLeft32(a, 5) + f + e + k + w[i]
			a, b, c, d, e = t, a, bits.RotateLeft32(b, 30), c, d
		}
		h[0], h[1], h[2], h[3], h[4] = h[0]+a, h[1]+b, h[2]+c, h[3]+d, h[4]+e
		p = p[64:]
	}
}

func init() {
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		p, ok := a[0].(*Value)
		if !ok || p == nil {
			return nil, false
		}
		d, ok := (*p).(Struct)
		if !ok {
			return nil, false
		}
		hv, ok := d[0].(Array)
		s, ok2 := a[1].(Slice)
		if !ok || !ok2 || len(hv) != 5 {
			return nil, false
		}
		var h [5]uint32
		for i := range h {
			t, ok := hv[i].(*Term)
			if !ok || t.op != OpConst {
				return nil, false
			}
			h[i] = uint32(t.k)
		}
		b := make([]byte, len(s))
		for i := range s {
			t := s[i].(*Term)
			if t.op != OpConst {
				return nil, false
			}
			b[i] = byte(t.k)
		}
		sha1Block(&h, b)
		for i := range h {
			hv[i] = C(32, uint64(h[i]))
		}
		return nil, true
	}, "crypto/sha1.block")
}
