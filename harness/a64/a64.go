// Package a64 interprets AArch64 machine code: it runs the library's arm64 assembly functions, as
// they were assembled and linked by the Go toolchain, on any processor, and watches their memory
// accesses.  Only user-mode integer instructions, the vector moves and the AES extension are
// implemented; anything else is reported as Unsupported.
package a64

import (
	"debug/elf"
	"encoding/binary"
	"fmt"
	"math/bits"
	"strings"
)

// Region is a piece of memory.
type Region struct {
	Name     string
	Base     uint64
	Data     []byte
	Writable bool
	// parts that were written and read
	Wr, Rd []bool
}

// Fault is a bad access or an abnormal end.
type Fault struct{ Msg string }

func (f *Fault) Error() string { return f.Msg }

// Unsupported is an instruction that this interpreter does not know.
type Unsupported struct {
	PC uint64
	W  uint32
}

func (u *Unsupported) Error() string {
	return fmt.Sprintf("instruction %08x at %#x is not implemented", u.W, u.PC)
}

// Image is a linked program.
type Image struct {
	segs []*Region
	syms map[string]elf.Symbol
}

// Load reads an ELF file.
func Load(path string) (*Image, error) {
	f, err := elf.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if f.Machine != elf.EM_AARCH64 {
		return nil, fmt.Errorf("%s is for %v", path, f.Machine)
	}
	im := &Image{syms: map[string]elf.Symbol{}}
	for _, p := range f.Progs {
		if p.Type != elf.PT_LOAD {
			continue
		}
		b := make([]byte, p.Memsz)
		if _, err := p.ReadAt(b[:p.Filesz], 0); err != nil {
			return nil, err
		}
		im.segs = append(im.segs, &Region{Name: fmt.Sprintf("segment %#x", p.Vaddr), Base: p.Vaddr, Data: b})
	}
	ss, err := f.Symbols()
	if err != nil {
		return nil, err
	}
	for _, s := range ss {
		im.syms[s.Name] = s
	}
	return im, nil
}

// Func finds a function by its full name; the assembly body is preferred to a wrapper.
func (im *Image) Func(name string) (uint64, bool) {
	for _, n := range []string{name + ".abi0", name} {
		if s, ok := im.syms[n]; ok && s.Value != 0 {
			return s.Value, true
		}
	}
	return 0, false
}

// Find lists the functions that start with a prefix.
func (im *Image) Find(prefix string) []string {
	var r []string
	for n := range im.syms {
		if strings.HasPrefix(n, prefix) {
			r = append(r, n)
		}
	}
	return r
}

// Trace is called with 'i' and the address of every instruction, 'r' and 'w' and the address
// of every access.  Arguments have the same addresses in every call.
var Trace func(kind byte, addr uint64)

type vec [16]byte

// CPU is the state of one processor.
type CPU struct {
	im         *Image
	R          [32]uint64 // R[31] is SP
	PC         uint64
	N, Z, C, V bool
	Vr         [32]vec
	mem        []*Region
	Steps      int
	Ops        map[string]int
	FPLost     bool // R29 was changed
}

const (
	stackBase = 0x7f0000000000
	stackSize = 1 << 14
	argBase   = 0x600000000000
	argStep   = 1 << 20
	retAddr   = 0x7ffffff0
)

// Arg is an argument of a call: a word, or the memory that a pointer refers to.
type Arg struct {
	Word uint64
	Size int // 1, 4 or 8 bytes
	Mem  []byte
	Out  bool // may be written
	// Same refers to the memory of an earlier argument instead (index+1)
	Same int
	// Skew is the distance from a 64-byte boundary
	Skew int
	// Nil passes a null pointer
	Nil bool
}

// Call runs an ABI0 function.  Registers, flags and the unused stack are filled from fill.
func (im *Image) Call(fn uint64, fill func() uint64, args ...Arg) (*CPU, error) {
	c := &CPU{im: im, Ops: map[string]int{}}
	c.mem = append(c.mem, im.segs...)
	stack := &Region{Name: "stack", Base: stackBase, Data: make([]byte, stackSize), Writable: true}
	for i := 0; i < stackSize; i += 8 {
		binary.LittleEndian.PutUint64(stack.Data[i:], fill())
	}
	for i := range c.R {
		c.R[i] = fill()
	}
	for i := range c.Vr {
		binary.LittleEndian.PutUint64(c.Vr[i][0:], fill())
		binary.LittleEndian.PutUint64(c.Vr[i][8:], fill())
	}
	fl := fill()
	c.N, c.Z, c.C, c.V = fl&1 != 0, fl&2 != 0, fl&4 != 0, fl&8 != 0
	// caller's frame: the arguments start at 8(SP)
	sp := uint64(stackBase + stackSize - 256)
	var bases []uint64
	off := uint64(8)
	argRegions := []*Region{}
	for i, a := range args {
		var w uint64
		n := 8
		switch {
		case a.Nil:
		case a.Same > 0:
			w = bases[a.Same-1]
		case a.Mem != nil:
			w = argBase + uint64(i)*argStep + uint64(a.Skew)
			r := &Region{Name: fmt.Sprintf("argument %d", i), Base: w, Data: a.Mem, Writable: a.Out, Wr: make([]bool, len(a.Mem)), Rd: make([]bool, len(a.Mem))}
			argRegions = append(argRegions, r)
			c.mem = append(c.mem, r)
		default:
			w, n = a.Word, a.Size
			if n == 0 {
				n = 8
			}
		}
		bases = append(bases, w)
		off = (off + uint64(n) - 1) &^ uint64(n-1)
		var t [8]byte
		binary.LittleEndian.PutUint64(t[:], w)
		copy(stack.Data[sp-stackBase+off:], t[:n])
		off += uint64(n)
	}
	c.mem = append(c.mem, stack)
	c.R[31] = sp
	c.R[29] = sp - 8 // the caller's frame pointer
	c.R[30] = retAddr
	g, fp := c.R[28], c.R[29]
	frame := append([]byte{}, stack.Data[sp-stackBase+off:]...)
	c.PC = fn
	for c.PC != retAddr {
		if c.Steps > 1<<20 {
			return c, &Fault{"the function does not return"}
		}
		if err := c.step(); err != nil {
			return c, err
		}
	}
	if c.R[31] != sp {
		return c, &Fault{fmt.Sprintf("the stack pointer changed by %d", int64(c.R[31]-sp))}
	}
	if c.R[28] != g {
		return c, &Fault{"R28 (g) was not preserved"}
	}
	// the wrapper that the toolchain puts around the function restores the frame pointer
	c.FPLost = c.R[29] != fp
	if string(frame) != string(stack.Data[sp-stackBase+off:]) {
		return c, &Fault{"the caller's frame was changed"}
	}
	return c, nil
}

func (c *CPU) at(a uint64, n int, write bool) ([]byte, error) {
	for i := len(c.mem) - 1; i >= 0; i-- {
		r := c.mem[i]
		if a >= r.Base && a < r.Base+uint64(len(r.Data)) {
			o := a - r.Base
			if o+uint64(n) > uint64(len(r.Data)) {
				return nil, &Fault{fmt.Sprintf("access of %d bytes at offset %d of %s, which has %d bytes (pc %#x)", n, o, r.Name, len(r.Data), c.PC)}
			}
			if Trace != nil {
				if write {
					Trace('w', a)
				} else {
					Trace('r', a)
				}
			}
			if write && !r.Writable {
				return nil, &Fault{fmt.Sprintf("write of %d bytes at offset %d of %s, which is only read (pc %#x)", n, o, r.Name, c.PC)}
			}
			if r.Rd != nil {
				for j := uint64(0); j < uint64(n); j++ {
					if write {
						r.Wr[o+j] = true
					} else {
						r.Rd[o+j] = true
					}
				}
			}
			if write && r.Name == "stack" && a < c.R[31]-8 { // Go keeps the frame pointer there
				return nil, &Fault{fmt.Sprintf("write below the stack pointer (pc %#x)", c.PC)}
			}
			return r.Data[o : o+uint64(n)], nil
		}
	}
	return nil, &Fault{fmt.Sprintf("access of %d bytes at unmapped address %#x (pc %#x)", n, a, c.PC)}
}

func (c *CPU) load(a uint64, n int) (uint64, error) {
	b, err := c.at(a, n, false)
	if err != nil {
		return 0, err
	}
	var t [8]byte
	copy(t[:], b)
	return binary.LittleEndian.Uint64(t[:]), nil
}

func (c *CPU) store(a uint64, n int, v uint64) error {
	b, err := c.at(a, n, true)
	if err != nil {
		return err
	}
	var t [8]byte
	binary.LittleEndian.PutUint64(t[:], v)
	copy(b, t[:n])
	return nil
}

func (c *CPU) x(i uint32) uint64 { // 31 is zero
	if i == 31 {
		return 0
	}
	return c.R[i]
}

func (c *CPU) set(i uint32, v uint64, sf bool) {
	if !sf {
		v = uint64(uint32(v))
	}
	if i != 31 {
		c.R[i] = v
	}
}

func (c *CPU) setsp(i uint32, v uint64, sf bool) {
	if !sf {
		v = uint64(uint32(v))
	}
	c.R[i] = v
}

func sext(v uint64, n uint) uint64 { return uint64(int64(v<<(64-n)) >> (64 - n)) }

func (c *CPU) addc(a, b uint64, cin uint64, sf, setf bool) uint64 {
	if sf {
		s, co := bits.Add64(a, b, cin)
		if setf {
			c.N, c.Z, c.C = s>>63 != 0, s == 0, co != 0
			c.V = (^(a^b)&(a^s))>>63 != 0
		}
		return s
	}
	a, b = uint64(uint32(a)), uint64(uint32(b))
	s := a + b + cin
	r := uint64(uint32(s))
	if setf {
		c.N, c.Z, c.C = r>>31 != 0, r == 0, s>>32 != 0
		c.V = (^(a^b)&(a^r))>>31&1 != 0
	}
	return r
}

func (c *CPU) logicFlags(v uint64, sf bool) {
	if sf {
		c.N = v>>63 != 0
	} else {
		v = uint64(uint32(v))
		c.N = v>>31 != 0
	}
	c.Z, c.C, c.V = v == 0, false, false
}

func shiftReg(v uint64, typ, amt uint32, sf bool) uint64 {
	if !sf {
		w := uint32(v)
		switch typ {
		case 0:
			return uint64(w << amt)
		case 1:
			return uint64(w >> amt)
		case 2:
			return uint64(uint32(int32(w) >> amt))
		}
		return uint64(bits.RotateLeft32(w, -int(amt)))
	}
	switch typ {
	case 0:
		return v << amt
	case 1:
		return v >> amt
	case 2:
		return uint64(int64(v) >> amt)
	}
	return bits.RotateLeft64(v, -int(amt))
}

func (c *CPU) cond(k uint32) bool {
	var r bool
	switch k >> 1 {
	case 0:
		r = c.Z
	case 1:
		r = c.C
	case 2:
		r = c.N
	case 3:
		r = c.V
	case 4:
		r = c.C && !c.Z
	case 5:
		r = c.N == c.V
	case 6:
		r = c.N == c.V && !c.Z
	case 7:
		return true
	}
	return r != (k&1 == 1)
}

// bitmask decodes a logical immediate.
func bitmask(n, immr, imms uint32, sf bool) (uint64, bool) {
	l := bits.Len32(n<<6 | (^imms & 0x3f))
	if l < 2 {
		return 0, false
	}
	size := uint32(1) << (l - 1)
	if size == 64 && !sf {
		return 0, false
	}
	s, r := imms&(size-1), immr&(size-1)
	if s == size-1 {
		return 0, false
	}
	p := uint64(1)<<(s+1) - 1
	var m uint64 = ^uint64(0)
	if size < 64 {
		m = 1<<size - 1
	}
	if r != 0 {
		p = (p>>r | p<<(size-r)) & m
	}
	for w := size; w < 64; w *= 2 {
		p |= p << w
	}
	if !sf {
		p = uint64(uint32(p))
	}
	return p, true
}

func (c *CPU) step() error {
	wb, err := c.at(c.PC, 4, false)
	if err != nil {
		return err
	}
	w := binary.LittleEndian.Uint32(wb)
	c.Steps++
	if Trace != nil {
		Trace('i', c.PC)
	}
	bad := &Unsupported{c.PC, w}
	next := c.PC + 4
	sf := w>>31 == 1
	rd, rn, rm := w&31, w>>5&31, w>>16&31
	f := func(hi, lo uint) uint32 { return w << (31 - hi) >> (31 - hi + lo) }
	name := ""
	switch {
	case f(28, 24) == 0x10: // ADR, ADRP
		imm := sext(uint64(f(23, 5)<<2|f(30, 29)), 21)
		if sf {
			c.set(rd, c.PC&^0xfff+imm<<12, true)
		} else {
			c.set(rd, c.PC+imm, true)
		}
		name = "adr"
	case f(28, 23) == 0x22: // ADD/SUB immediate
		imm := uint64(f(21, 10))
		if f(22, 22) == 1 {
			imm <<= 12
		}
		name = "addsub-imm"
		a := c.R[rn]
		var r uint64
		if f(30, 30) == 0 {
			r = c.addc(a, imm, 0, sf, f(29, 29) == 1)
		} else {
			r = c.addc(a, ^imm, 1, sf, f(29, 29) == 1)
		}
		if f(29, 29) == 1 {
			c.set(rd, r, sf)
		} else {
			c.setsp(rd, r, sf)
		}
	case f(28, 23) == 0x24: // logical immediate
		m, ok := bitmask(f(22, 22), f(21, 16), f(15, 10), sf)
		if !ok {
			return bad
		}
		a := c.x(rn)
		name = "logic-imm"
		switch f(30, 29) {
		case 0:
			c.setsp(rd, a&m, sf)
		case 1:
			c.setsp(rd, a|m, sf)
		case 2:
			c.setsp(rd, a^m, sf)
		case 3:
			c.logicFlags(a&m, sf)
			c.set(rd, a&m, sf)
		}
	case f(28, 23) == 0x25: // move wide
		hw := f(22, 21) * 16
		if !sf && hw > 16 {
			return bad
		}
		imm := uint64(f(20, 5)) << hw
		name = "mov-wide"
		switch f(30, 29) {
		case 0:
			c.set(rd, ^imm, sf)
		case 2:
			c.set(rd, imm, sf)
		case 3:
			c.set(rd, c.x(rd)&^(0xffff<<hw)|imm, sf)
		default:
			return bad
		}
	case f(28, 23) == 0x26: // bitfield
		r, s := f(21, 16), f(15, 10)
		size := uint32(32)
		if sf {
			size = 64
		}
		if f(22, 22) != b2u(sf) || r >= size || s >= size {
			return bad
		}
		a := c.x(rn)
		if !sf {
			a = uint64(uint32(a))
		}
		var v, fieldMask uint64
		var top uint32
		if s >= r {
			n := s - r + 1
			fieldMask = ones(n)
			v = a >> r & fieldMask
			top = n
		} else {
			n := s + 1
			fieldMask = ones(n) << (size - r)
			v = (a & ones(n)) << (size - r)
			top = size - r + n
		}
		name = "bitfield"
		switch f(30, 29) {
		case 0:
			c.set(rd, sext(v, uint(top)), sf)
		case 1:
			c.set(rd, c.x(rd)&^fieldMask|v, sf)
		case 2:
			c.set(rd, v, sf)
		default:
			return bad
		}
	case f(28, 23) == 0x27 && f(30, 29) == 0 && f(21, 21) == 0: // EXTR
		lsb := f(15, 10)
		name = "extr"
		if sf {
			v := c.x(rm) >> lsb
			if lsb > 0 {
				v |= c.x(rn) << (64 - lsb)
			}
			c.set(rd, v, true)
		} else {
			v := uint32(c.x(rm)) >> lsb
			if lsb > 0 {
				v |= uint32(c.x(rn)) << (32 - lsb)
			}
			c.set(rd, uint64(v), false)
		}
	case f(28, 24) == 0x0a: // logical shifted register
		amt := f(15, 10)
		if !sf && amt > 31 {
			return bad
		}
		b := shiftReg(c.x(rm), f(23, 22), amt, sf)
		if f(21, 21) == 1 {
			b = ^b
		}
		a := c.x(rn)
		var v uint64
		name = "logic"
		switch f(30, 29) {
		case 0, 3:
			v = a & b
		case 1:
			v = a | b
		case 2:
			v = a ^ b
		}
		if f(30, 29) == 3 {
			c.logicFlags(v, sf)
		}
		c.set(rd, v, sf)
	case f(28, 24) == 0x0b && f(21, 21) == 0: // ADD/SUB shifted register
		amt := f(15, 10)
		if f(23, 22) == 3 || !sf && amt > 31 {
			return bad
		}
		b := shiftReg(c.x(rm), f(23, 22), amt, sf)
		name = "addsub"
		if f(30, 30) == 0 {
			c.set(rd, c.addc(c.x(rn), b, 0, sf, f(29, 29) == 1), sf)
		} else {
			c.set(rd, c.addc(c.x(rn), ^b, 1, sf, f(29, 29) == 1), sf)
		}
	case f(28, 21) == 0x59: // ADD/SUB extended register
		b := c.x(rm)
		switch f(15, 13) {
		case 0:
			b = uint64(uint8(b))
		case 1:
			b = uint64(uint16(b))
		case 2:
			b = uint64(uint32(b))
		case 4:
			b = sext(b, 8)
		case 5:
			b = sext(b, 16)
		case 6:
			b = sext(b, 32)
		}
		b <<= f(12, 10)
		name = "addsub-ext"
		var r uint64
		if f(30, 30) == 0 {
			r = c.addc(c.R[rn], b, 0, sf, f(29, 29) == 1)
		} else {
			r = c.addc(c.R[rn], ^b, 1, sf, f(29, 29) == 1)
		}
		if f(29, 29) == 1 {
			c.set(rd, r, sf)
		} else {
			c.setsp(rd, r, sf)
		}
	case f(28, 21) == 0xd0 && f(15, 10) == 0: // ADC, SBC
		b := c.x(rm)
		if f(30, 30) == 1 {
			b = ^b
		}
		name = "adc-sbc"
		c.set(rd, c.addc(c.x(rn), b, uint64(b2u(c.C)), sf, f(29, 29) == 1), sf)
	case f(28, 21) == 0xd2: // CCMN, CCMP
		if f(29, 29) == 0 || f(10, 10) != 0 || f(4, 4) != 0 {
			return bad
		}
		b := c.x(rm)
		if f(11, 11) == 1 {
			b = uint64(rm)
		}
		name = "ccmp"
		if c.cond(f(15, 12)) {
			if f(30, 30) == 1 {
				c.addc(c.x(rn), ^b, 1, sf, true)
			} else {
				c.addc(c.x(rn), b, 0, sf, true)
			}
		} else {
			c.N, c.Z, c.C, c.V = w&8 != 0, w&4 != 0, w&2 != 0, w&1 != 0
		}
	case f(28, 21) == 0xd4 && f(29, 29) == 0: // CSEL, CSINC, CSINV, CSNEG
		v := c.x(rn)
		if !c.cond(f(15, 12)) {
			v = c.x(rm)
			if f(30, 30) == 1 {
				v = ^v
			}
			if f(11, 10) == 1 {
				v++
			}
		}
		if f(11, 11) != 0 {
			return bad
		}
		name = "csel"
		c.set(rd, v, sf)
	case f(28, 21) == 0xd6 && f(30, 29) == 0: // two source
		amt := uint32(c.x(rm))
		if sf {
			amt &= 63
		} else {
			amt &= 31
		}
		name = "shift"
		switch f(15, 10) {
		case 8, 9, 10, 11:
			c.set(rd, shiftReg(c.x(rn), f(11, 10), amt, sf), sf)
		default:
			return bad
		}
	case f(28, 21) == 0xd6 && f(30, 29) == 2 && rm == 0: // one source
		name = "one-source"
		switch {
		case f(15, 10) == 4 && sf:
			c.set(rd, uint64(bits.LeadingZeros64(c.x(rn))), sf)
		case f(15, 10) == 3 && sf:
			c.set(rd, bits.ReverseBytes64(c.x(rn)), sf)
		case f(15, 10) == 2 && !sf:
			c.set(rd, uint64(bits.ReverseBytes32(uint32(c.x(rn)))), sf)
		default:
			return bad
		}
	case f(28, 24) == 0x1b && f(30, 29) == 0: // multiply
		ra := f(14, 10)
		a, b := c.x(rn), c.x(rm)
		name = "mul"
		switch {
		case f(23, 21) == 0:
			p := a * b
			if f(15, 15) == 1 {
				c.set(rd, c.x(ra)-p, sf)
			} else {
				c.set(rd, c.x(ra)+p, sf)
			}
		case f(23, 21) == 6 && sf && f(15, 15) == 0:
			h, _ := bits.Mul64(a, b)
			c.set(rd, h, true)
		case f(23, 21) == 5 && sf:
			p := uint64(uint32(a)) * uint64(uint32(b))
			if f(15, 15) == 1 {
				c.set(rd, c.x(ra)-p, true)
			} else {
				c.set(rd, c.x(ra)+p, true)
			}
		default:
			return bad
		}
	case f(30, 26) == 5: // B, BL
		if sf {
			c.R[30] = c.PC + 4
		}
		next = c.PC + sext(uint64(f(25, 0)), 26)<<2
		name = "b"
	case f(31, 24) == 0x54 && f(4, 4) == 0: // B.cond
		if c.cond(w & 15) {
			next = c.PC + sext(uint64(f(23, 5)), 19)<<2
		}
		name = "b.cond"
	case f(30, 25) == 0x1a: // CBZ, CBNZ
		v := c.x(rd)
		if !sf {
			v = uint64(uint32(v))
		}
		if (v == 0) == (f(24, 24) == 0) {
			next = c.PC + sext(uint64(f(23, 5)), 19)<<2
		}
		name = "cbz"
	case f(30, 25) == 0x1b: // TBZ, TBNZ
		bit := f(31, 31)<<5 | f(23, 19)
		if c.x(rd)>>bit&1 == uint64(f(24, 24)) {
			next = c.PC + sext(uint64(f(18, 5)), 14)<<2
		}
		name = "tbz"
	case w&0xfffffc1f == 0xd65f0000: // RET
		next = c.x(rn)
		name = "ret"
	case w == 0xd503201f: // NOP
		name = "nop"
	case f(29, 27) == 5 && f(25, 25) == 0 && f(26, 26) == 0: // LDP, STP
		opc := f(31, 30)
		n := 4
		if opc == 2 {
			n = 8
		} else if opc != 0 {
			return bad
		}
		mode := f(24, 23)
		imm := sext(uint64(f(21, 15)), 7) * uint64(n)
		a := c.R[rn]
		if mode == 2 || mode == 3 {
			a += imm
		}
		rt2 := f(14, 10)
		name = "pair"
		if mode == 3 {
			c.R[rn] = a
		}
		if f(22, 22) == 1 {
			if rd == rt2 {
				return bad
			}
			u, err := c.load(a, n)
			if err != nil {
				return err
			}
			v, err := c.load(a+uint64(n), n)
			if err != nil {
				return err
			}
			c.set(rd, u, true)
			c.set(rt2, v, true)
		} else {
			if err := c.store(a, n, c.x(rd)); err != nil {
				return err
			}
			if err := c.store(a+uint64(n), n, c.x(rt2)); err != nil {
				return err
			}
		}
		if mode == 1 {
			c.R[rn] += imm
		}
	case f(29, 27) == 3 && f(26, 26) == 0 && f(25, 24) == 0: // load literal
		a := c.PC + sext(uint64(f(23, 5)), 19)<<2
		n := 4
		if f(31, 30) == 1 || f(31, 30) == 3 {
			n = 8
		}
		if f(31, 30) >= 2 {
			return bad
		}
		v, err := c.load(a, n)
		if err != nil {
			return err
		}
		c.set(rd, v, true)
		name = "literal"
	case f(29, 27) == 7 && f(26, 26) == 0: // load/store one register
		size := f(31, 30)
		n := 1 << size
		opc := f(23, 22)
		var a uint64
		post := false
		var imm uint64
		name = "ldst"
		switch {
		case f(25, 24) == 1:
			a = c.R[rn] + uint64(f(21, 10))<<size
		case f(25, 24) == 0 && f(21, 21) == 0:
			imm = sext(uint64(f(20, 12)), 9)
			a = c.R[rn]
			switch f(11, 10) {
			case 0:
				a += imm
			case 1:
				post = true
			case 3:
				a += imm
				if rd == rn {
					return bad
				}
				c.R[rn] = a
			default:
				return bad
			}
		case f(25, 24) == 0 && f(21, 21) == 1 && f(11, 10) == 2:
			o := c.x(rm)
			switch f(15, 13) {
			case 2:
				o = uint64(uint32(o))
			case 3, 7:
			case 6:
				o = sext(o, 32)
			default:
				return bad
			}
			if f(12, 12) == 1 {
				o <<= size
			}
			a = c.R[rn] + o
		default:
			return bad
		}
		switch opc {
		case 0:
			if err := c.store(a, n, c.x(rd)); err != nil {
				return err
			}
		case 1:
			v, err := c.load(a, n)
			if err != nil {
				return err
			}
			c.set(rd, v, true)
		case 2, 3:
			if size == 3 {
				return bad // prefetch
			}
			v, err := c.load(a, n)
			if err != nil {
				return err
			}
			c.set(rd, sext(v, uint(8*n)), opc == 2)
		}
		if post {
			c.R[rn] += imm
		}
	case w&0xbfbf0000 == 0x0c000000 || w&0xbfa00000 == 0x0c800000: // LD1/ST1 multiple
		if f(30, 30) != 1 {
			return bad
		}
		cnt := map[uint32]int{7: 1, 10: 2, 6: 3, 2: 4}[f(15, 12)]
		if cnt == 0 {
			return bad
		}
		a := c.R[rn]
		for i := 0; i < cnt; i++ {
			b, err := c.at(a+uint64(16*i), 16, f(22, 22) == 0)
			if err != nil {
				return err
			}
			v := &c.Vr[(rd+uint32(i))%32]
			if f(22, 22) == 1 {
				copy(v[:], b)
			} else {
				copy(b, v[:])
			}
		}
		if f(23, 23) == 1 {
			if rm == 31 {
				c.R[rn] += uint64(16 * cnt)
			} else {
				c.R[rn] += c.x(rm)
			}
		}
		name = "ld1-st1"
	case f(31, 12) == 0x4e284 || f(31, 12) == 0x4e285 || f(31, 12) == 0x4e286 || f(31, 12) == 0x4e287: // AES, w[11:10]=10
		if f(11, 10) != 2 {
			return bad
		}
		d, s := &c.Vr[rd], c.Vr[rn]
		switch f(13, 12) {
		case 0:
			*d = aese(*d, s)
			name = "aese"
		case 1:
			*d = aesd(*d, s)
			name = "aesd"
		case 2:
			*d = mixColumns(s, false)
			name = "aesmc"
		case 3:
			*d = mixColumns(s, true)
			name = "aesimc"
		}
	case w&0xbfe08c00 == 0x0e000000: // TBL, TBX
		if f(12, 12) != 0 || f(30, 30) != 1 {
			return bad
		}
		n := int(f(14, 13)) + 1
		var tab []byte
		for i := 0; i < n; i++ {
			v := c.Vr[(rn+uint32(i))%32]
			tab = append(tab, v[:]...)
		}
		idx := c.Vr[rm]
		var o vec
		for i, k := range idx {
			if int(k) < len(tab) {
				o[i] = tab[k]
			}
		}
		c.Vr[rd] = o
		name = "tbl"
	case w&0xffe0fc00 == 0x4e001c00: // INS from a general register
		imm5 := f(20, 16)
		if imm5&15 == 0 {
			return bad
		}
		sz := uint(bits.TrailingZeros32(imm5))
		i := imm5 >> (sz + 1)
		var t [8]byte
		binary.LittleEndian.PutUint64(t[:], c.x(rn))
		copy(c.Vr[rd][i<<sz:i<<sz+1<<sz], t[:1<<sz])
		name = "ins"
	case w&0xbfe0fc00 == 0x0e003c00: // UMOV
		imm5 := f(20, 16)
		if imm5&15 == 0 {
			return bad
		}
		sz := uint(bits.TrailingZeros32(imm5))
		i := imm5 >> (sz + 1)
		var t [8]byte
		copy(t[:], c.Vr[rn][i<<sz:i<<sz+1<<sz])
		c.set(rd, binary.LittleEndian.Uint64(t[:]), true)
		name = "umov"
	case w&0xbfe0fc00 == 0x0e000c00: // DUP general
		imm5 := f(20, 16)
		if imm5&15 == 0 || f(30, 30) == 0 {
			return bad
		}
		sz := uint(bits.TrailingZeros32(imm5))
		var t [8]byte
		binary.LittleEndian.PutUint64(t[:], c.x(rn))
		for i := 0; i < 16; i += 1 << sz {
			copy(c.Vr[rd][i:], t[:1<<sz])
		}
		name = "dup"
	case w&0x9f20fc00 == 0x0e201c00: // vector logic
		if f(30, 30) != 1 {
			return bad
		}
		a, b, o := c.Vr[rn], c.Vr[rm], c.Vr[rd]
		for i := range o {
			switch f(29, 29)<<2 | f(23, 22) {
			case 0:
				o[i] = a[i] & b[i]
			case 1:
				o[i] = a[i] &^ b[i]
			case 2:
				o[i] = a[i] | b[i]
			case 3:
				o[i] = a[i] | ^b[i]
			case 4:
				o[i] = a[i] ^ b[i]
			case 5:
				o[i] = o[i]&a[i] | ^o[i]&b[i]
			case 6:
				o[i] = b[i]&a[i] | ^b[i]&o[i]
			case 7:
				o[i] = ^b[i]&a[i] | b[i]&o[i]
			}
		}
		c.Vr[rd] = o
		name = "vlogic"
	default:
		return bad
	}
	c.Ops[name]++
	c.PC = next
	return nil
}

func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func ones(n uint32) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return 1<<n - 1
}

// AES primitives, from the definition of the field.
func xt(a byte) byte {
	r := a << 1
	if a&0x80 != 0 {
		r ^= 0x1b
	}
	return r
}

func gmul(a, b byte) (r byte) {
	for ; b != 0; b >>= 1 {
		if b&1 != 0 {
			r ^= a
		}
		a = xt(a)
	}
	return
}

var sbox, isbox [256]byte

func init() {
	for i := 0; i < 256; i++ {
		inv := byte(0)
		for j := 1; j < 256 && i != 0; j++ {
			if gmul(byte(i), byte(j)) == 1 {
				inv = byte(j)
			}
		}
		s := inv ^ bits.RotateLeft8(inv, 1) ^ bits.RotateLeft8(inv, 2) ^ bits.RotateLeft8(inv, 3) ^ bits.RotateLeft8(inv, 4) ^ 0x63
		sbox[i] = s
		isbox[s] = byte(i)
	}
}

func aese(d, s vec) (o vec) {
	for i := range d {
		d[i] ^= s[i]
	}
	for col := 0; col < 4; col++ {
		for row := 0; row < 4; row++ {
			o[4*col+row] = sbox[d[4*((col+row)%4)+row]]
		}
	}
	return
}

func aesd(d, s vec) (o vec) {
	for i := range d {
		d[i] ^= s[i]
	}
	for col := 0; col < 4; col++ {
		for row := 0; row < 4; row++ {
			o[4*((col+row)%4)+row] = isbox[d[4*col+row]]
		}
	}
	return
}

func mixColumns(s vec, inv bool) (o vec) {
	k := [4]byte{2, 3, 1, 1}
	if inv {
		k = [4]byte{14, 11, 13, 9}
	}
	for col := 0; col < 4; col++ {
		for row := 0; row < 4; row++ {
			for j := 0; j < 4; j++ {
				o[4*col+row] ^= gmul(s[4*col+j], k[(j-row+4)%4])
			}
		}
	}
	return
}
