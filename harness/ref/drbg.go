package ref

import "crypto/aes"

// CtrDRBG is CTR_DRBG of SP 800-90A rev 1 (10.2.1), AES-256, no derivation function,
// with the library's convention that short inputs are padded with zeros to seedlen.
type CtrDRBG struct {
	Key [32]byte
	V   [16]byte
}

func (d *CtrDRBG) incV() {
	for i := 15; i >= 0; i-- {
		d.V[i]++
		if d.V[i] != 0 {
			return
		}
	}
}

func (d *CtrDRBG) block() [16]byte {
	b, err := aes.NewCipher(d.Key[:])
	if err != nil {
		panic(err)
	}
	var o [16]byte
	b.Encrypt(o[:], d.V[:])
	return o
}

// Update is CTR_DRBG_Update.
func (d *CtrDRBG) Update(data [48]byte) {
	var t [48]byte
	for i := 0; i < 48; i += 16 {
		d.incV()
		o := d.block()
		copy(t[i:], o[:])
	}
	for i := range t {
		t[i] ^= data[i]
	}
	copy(d.Key[:], t[:32])
	copy(d.V[:], t[32:])
}

func pad48(a, b []byte) (r [48]byte) {
	copy(r[:], a)
	for i := 0; i < 48 && i < len(b); i++ {
		r[i] ^= b[i]
	}
	return
}

// Instantiate is CTR_DRBG_Instantiate_algorithm.
func (d *CtrDRBG) Instantiate(entropy, pers []byte) {
	*d = CtrDRBG{}
	d.Update(pad48(entropy, pers))
}

// Reseed is CTR_DRBG_Reseed_algorithm.
func (d *CtrDRBG) Reseed(entropy, ad []byte) { d.Update(pad48(entropy, ad)) }

// Generate is CTR_DRBG_Generate_algorithm.
func (d *CtrDRBG) Generate(n int, ad []byte) []byte {
	var s [48]byte
	if len(ad) > 0 {
		s = pad48(ad, nil)
		d.Update(s)
	}
	var out []byte
	for len(out) < n {
		d.incV()
		o := d.block()
		out = append(out, o[:]...)
	}
	d.Update(s)
	return out[:n]
}
