//go:build linux && amd64

package bb

// A tracer that emulates another processor: every CPUID instruction of the library (and of
// x/sys/cpu) is replaced by a breakpoint and answered from a synthetic table; the real
// detection and dispatch code runs on it.

import (
	"bytes"
	"debug/elf"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"syscall"
	"unsafe"

	"vharness/mon"
)

// hostCPUID executes CPUID here.
func hostCPUID(eax, ecx uint32) (a, b, c, d uint32)

type cpuModel func(eax, ecx uint32) (a, b, c, d uint32)

// cpuidSites finds the CPUID instructions in functions of the named packages.
func cpuidSites(exe string, pkgs ...string) ([]uintptr, error) {
	f, err := elf.Open(exe)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if f.Type != elf.ET_EXEC {
		return nil, fmt.Errorf("not a fixed-address executable")
	}
	syms, err := f.Symbols()
	if err != nil {
		return nil, err
	}
	var r []uintptr
	for _, s := range syms {
		ok := false
		for _, p := range pkgs {
			ok = ok || strings.HasPrefix(s.Name, p+".")
		}
		if !ok || elf.ST_TYPE(s.Info) != elf.STT_FUNC || int(s.Section) >= len(f.Sections) || s.Size > 4096 {
			continue
		}
		sec := f.Sections[s.Section]
		b := make([]byte, s.Size)
		if _, err := sec.ReadAt(b, int64(s.Value-sec.Addr)); err != nil {
			continue
		}
		// only tiny assembly functions are scanned, which keeps the byte scan unambiguous
		for i := 0; i+1 < len(b); i++ {
			if b[i] == 0x0f && b[i+1] == 0xa2 && s.Size <= 256 {
				r = append(r, uintptr(s.Value)+uintptr(i))
			}
		}
	}
	return r, nil
}

// runOnCPU runs argv under the model. hits tells how many CPUID instructions were answered.
func runOnCPU(argv []string, env []string, stdout *bytes.Buffer, model cpuModel, pkgs ...string) (status syscall.WaitStatus, hits int, err error) {
	exe, err := os.Readlink("/proc/self/exe")
	if err != nil {
		return 0, 0, err
	}
	sites, err := cpuidSites(exe, pkgs...)
	if err != nil {
		return 0, 0, err
	}
	if len(sites) == 0 {
		return 0, 0, fmt.Errorf("no CPUID instruction found in %v", pkgs)
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	cmd := exec.Command(exe, argv...)
	cmd.Env = env
	var rp, wp *os.File
	done := make(chan struct{})
	if stdout != nil {
		if rp, wp, err = os.Pipe(); err != nil {
			return 0, 0, err
		}
		cmd.Stdout = wp
	} else {
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Ptrace: true, Pdeathsig: syscall.SIGKILL}
	if err = cmd.Start(); err != nil {
		return 0, 0, err
	}
	if stdout != nil {
		wp.Close()
		go func() { stdout.ReadFrom(rp); rp.Close(); close(done) }()
	} else {
		close(done)
	}
	pid := cmd.Process.Pid
	fail := func(e error) (syscall.WaitStatus, int, error) {
		syscall.Kill(pid, syscall.SIGKILL)
		var ws syscall.WaitStatus
		syscall.Wait4(pid, &ws, syscall.WALL, nil)
		return 0, hits, e
	}
	var ws syscall.WaitStatus
	if _, err = syscall.Wait4(pid, &ws, syscall.WALL, nil); err != nil || !ws.Stopped() {
		return fail(fmt.Errorf("the child did not stop at exec: %v", err))
	}
	const optExitKill = 0x100000
	if err = syscall.PtraceSetOptions(pid, syscall.PTRACE_O_TRACECLONE|optExitKill); err != nil {
		return fail(err)
	}
	at := map[uint64]bool{}
	for _, s := range sites {
		if _, err = syscall.PtracePokeText(pid, s, []byte{0xCC}); err != nil {
			return fail(err)
		}
		at[uint64(s)] = true
	}
	if err = syscall.PtraceCont(pid, 0); err != nil {
		return fail(err)
	}
	seen := map[int]bool{pid: true}
	for {
		id, e := syscall.Wait4(-1, &ws, syscall.WALL|syscall.WNOTHREAD, nil)
		if e == syscall.EINTR {
			continue
		}
		if e != nil {
			return fail(e)
		}
		if ws.Exited() || ws.Signaled() {
			if id == pid {
				<-done
				return ws, hits, nil
			}
			continue
		}
		if !ws.Stopped() {
			continue
		}
		sig := ws.StopSignal()
		deliver := int(sig)
		switch {
		case sig == syscall.SIGTRAP && ws.TrapCause() > 0: // clone event
			deliver = 0
		case sig == syscall.SIGTRAP:
			var r syscall.PtraceRegs
			if e := syscall.PtraceGetRegs(id, &r); e == nil && at[r.Rip-1] {
				a, b, c, d := model(uint32(r.Rax), uint32(r.Rcx))
				r.Rax, r.Rbx, r.Rcx, r.Rdx = uint64(a), uint64(b), uint64(c), uint64(d)
				r.Rip++
				if e := syscall.PtraceSetRegs(id, &r); e != nil {
					return fail(e)
				}
				hits++
				deliver = 0
			}
		case sig == syscall.SIGSTOP && !seen[id]:
			seen[id] = true
			deliver = 0
		}
		seen[id] = true
		syscall.PtraceCont(id, deliver)
	}
}

const utilsPkg = "github.com/henrydcase/nobs/utils"
const sysPkg = "golang.org/x/sys/cpu"

// hostWithout is this processor with features removed.
func hostWithout(features string) cpuModel {
	f := "," + features + ","
	return func(eax, ecx uint32) (a, b, c, d uint32) {
		a, b, c, d = hostCPUID(eax, ecx)
		if eax == 1 && strings.Contains(f, ",noaes,") {
			c &^= 1 << 25
		}
		if eax == 7 && ecx == 0 {
			if strings.Contains(f, ",nobmi2,") {
				b &^= 1 << 8
			}
			if strings.Contains(f, ",noadx,") {
				b &^= 1 << 19
			}
		}
		return
	}
}

// traceSelf implements -fakecpu: run the rest of the command line on the reduced processor.
func traceSelf(features string, argv []string) int {
	ws, hits, err := runOnCPU(argv, os.Environ(), nil, hostWithout(features), utilsPkg, sysPkg)
	if err != nil {
		fmt.Println("VERIF_UNRUNNABLE: the processor cannot be emulated here:", err)
		return 3
	}
	fmt.Println("CPUID instructions answered:", hits)
	if ws.Signaled() {
		fmt.Println("fatal error: worker ended by signal", ws.Signal())
		return 128 + int(ws.Signal())
	}
	return ws.ExitStatus()
}

// confSynthetic runs the real feature detection on synthetic processors.
func confSynthetic(c *mon.Case) {
	type bit struct {
		leaf uint32
		reg  int
		n    uint
	}
	bits := map[string]bit{"HasAES": {1, 2, 25}, "HasBMI2": {7, 1, 8}, "HasADX": {7, 1, 19}, "HasRDSEED": {7, 1, 18}}
	max := []uint32{7, 7, 0xd, 0x20, 7, 1, 4, 6}[c.IntN(8)]
	// registers of leaves 0..max; unrelated bits are random, all ones or zeros
	style := c.IntN(3)
	var leaf [0x21][4]uint32
	for i := range leaf {
		for j := range leaf[i] {
			switch style {
			case 0:
				leaf[i][j] = c.Uint32()
			case 1:
				leaf[i][j] = 0
			case 2:
				leaf[i][j] = ^uint32(0)
			}
		}
	}
	leaf[0] = [4]uint32{max, 0x756e6547, 0x6c65746e, 0x49656e69}
	want := map[string]bool{}
	for _, n := range []string{"HasAES", "HasBMI2", "HasADX", "HasRDSEED"} {
		b := bits[n]
		w := c.IntN(2) == 0
		want[n] = w
		leaf[b.leaf][b.reg] &^= 1 << b.n
		if w {
			leaf[b.leaf][b.reg] |= 1 << b.n
		}
	}
	sub := c.Uint32()
	model := func(eax, ecx uint32) (uint32, uint32, uint32, uint32) {
		if eax >= 0x80000000 {
			return 0x80000000, 0, 0, 0
		}
		i := eax
		if i > max {
			i = max // beyond the maximum the processor answers with the highest leaf
		}
		if i == 7 && ecx != 0 { // other sub-leaves hold unrelated data
			return sub, ^leaf[7][1], ^leaf[7][2], sub
		}
		return leaf[i][0], leaf[i][1], leaf[i][2], leaf[i][3]
	}
	var out bytes.Buffer
	_, hits, err := runOnCPU([]string{"-cpuflags"}, os.Environ(), &out, model, utilsPkg)
	if err != nil || hits == 0 {
		c.Skip(fmt.Sprintf("processor emulation (hits %d, %v)", hits, err))
		return
	}
	m := parseFlags(out.Bytes())
	if m == nil {
		c.Fail("flags", "no feature report: %s", out.Bytes())
	}
	for n, w := range want {
		v, ok := m[n]
		if !ok {
			c.Skip("utils.X86." + n)
			continue
		}
		has := w && bits[n].leaf <= max
		if max >= 7 {
			c.Check(v == has, "cpu-features", "synthetic processor (max leaf %d, leaf1 %08x, leaf7 %08x): utils.X86.%s=%v, the processor has it: %v", max, leaf[1], leaf[7], n, v, has)
		} else {
			// old processors: nothing may be reported that is not there
			c.Check(!v || has, "cpu-features", "synthetic processor (max leaf %d): utils.X86.%s is reported but not present", max, n)
		}
		c.Count("synthetic-flags-compared", 1)
	}
	c.Count("cpuid-instructions-answered", hits)
	c.Key(fmt.Sprint(max, leaf))
	c.Sample("max leaf %d features %v -> %v", max, want, m)
}

// poison replaces the instructions at the listed addresses by UD2, as on a processor that
// does not have them.
func poison(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	n := 0
	for _, l := range strings.Fields(string(b)) {
		var a uint64
		if _, err := fmt.Sscanf(l, "%x", &a); err != nil {
			return err
		}
		if err := patch(uintptr(a), []byte{0x0f, 0x0b}); err != nil {
			return err
		}
		n++
	}
	poisoned = n
	return nil
}

var poisoned int

func init() {
	mon.Register("C07x", "synthetic-cpu", 240, 5000, confSynthetic)
}

func patch(addr uintptr, b []byte) error {
	const pg = 4096
	lo := addr &^ (pg - 1)
	hi := (addr + uintptr(len(b)) + pg - 1) &^ (pg - 1)
	if _, _, e := syscall.Syscall(syscall.SYS_MPROTECT, lo, hi-lo, syscall.PROT_READ|syscall.PROT_WRITE|syscall.PROT_EXEC); e != 0 {
		return e
	}
	copy(unsafe.Slice((*byte)(unsafe.Pointer(addr)), len(b)), b)
	if _, _, e := syscall.Syscall(syscall.SYS_MPROTECT, lo, hi-lo, syscall.PROT_READ|syscall.PROT_EXEC); e != 0 {
		return e
	}
	return nil
}
