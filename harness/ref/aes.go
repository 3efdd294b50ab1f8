package ref

// AESBlock is FIPS 197 computed from the definition (no tables): it is independent of
// the standard library too.
func AESBlock(key, in []byte, decrypt bool) [16]byte {
	mul := func(a, b byte) byte {
		var r byte
		for i := 0; i < 8; i++ {
			if b&1 == 1 {
				r ^= a
			}
			hi := a & 0x80
			a <<= 1
			if hi != 0 {
				a ^= 0x1b
			}
			b >>= 1
		}
		return r
	}
	initAES(mul)
	nk := len(key) / 4
	nr := nk + 6
	w := make([][4]byte, 4*(nr+1))
	for i := range w {
		if i < nk {
			copy(w[i][:], key[4*i:])
			continue
		}
		t := w[i-1]
		if i%nk == 0 {
			t = [4]byte{aesS[t[1]], aesS[t[2]], aesS[t[3]], aesS[t[0]]}
			rc := byte(1)
			for j := 1; j < i/nk; j++ {
				rc = mul(rc, 2)
			}
			t[0] ^= rc
		} else if nk > 6 && i%nk == 4 {
			t = [4]byte{aesS[t[0]], aesS[t[1]], aesS[t[2]], aesS[t[3]]}
		}
		for j := 0; j < 4; j++ {
			w[i][j] = w[i-nk][j] ^ t[j]
		}
	}
	var s [16]byte
	copy(s[:], in)
	ark := func(r int) {
		for i := 0; i < 16; i++ {
			s[i] ^= w[4*r+i/4][i%4]
		}
	}
	mix := func(m [4]byte) {
		for c := 0; c < 4; c++ {
			var o [4]byte
			for i := 0; i < 4; i++ {
				for j := 0; j < 4; j++ {
					o[i] ^= mul(s[4*c+j], m[(j-i+4)%4])
				}
			}
			copy(s[4*c:], o[:])
		}
	}
	shift := func(dir int) {
		var o [16]byte
		for r := 0; r < 4; r++ {
			for c := 0; c < 4; c++ {
				o[4*c+r] = s[4*((c+dir*r+4)%4)+r]
			}
		}
		s = o
	}
	if !decrypt {
		ark(0)
		for r := 1; r <= nr; r++ {
			for i := range s {
				s[i] = aesS[s[i]]
			}
			shift(1)
			if r < nr {
				mix([4]byte{2, 3, 1, 1})
			}
			ark(r)
		}
	} else {
		ark(nr)
		for r := nr - 1; r >= 0; r-- {
			shift(-1)
			for i := range s {
				s[i] = aesSI[s[i]]
			}
			ark(r)
			if r > 0 {
				mix([4]byte{14, 11, 13, 9})
			}
		}
	}
	return s
}

var aesS, aesSI [256]byte
var aesInit bool

func initAES(mul func(a, b byte) byte) {
	if aesInit {
		return
	}
	aesInit = true
	for x := 0; x < 256; x++ {
		var inv byte
		for y := 1; y < 256 && x != 0; y++ {
			if mul(byte(x), byte(y)) == 1 {
				inv = byte(y)
				break
			}
		}
		var r byte
		for i := uint(0); i < 8; i++ {
			b := inv>>i ^ inv>>((i+4)%8) ^ inv>>((i+5)%8) ^ inv>>((i+6)%8) ^ inv>>((i+7)%8) ^ byte(0x63)>>i
			r |= (b & 1) << i
		}
		aesS[x] = r
		aesSI[r] = byte(x)
	}
}
