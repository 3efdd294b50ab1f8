package bb

import (
	"debug/elf"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Instruction tracer: runs a function with the trap flag set and records the address of every
// executed instruction that lies in the code under observation.

var (
	stBase, stSize, stMap, stBuf, stCap, stN, stAll uintptr
	stFreeze, stFrozen, stFreezeMax                 uintptr
	stRet                                           uintptr
	stMapBytes                                      [3][]byte
	stBufWords                                      []uint32
	stOnce                                          sync.Once
	stErr                                           error
)

func stepHandlers() (trap, freeze, restorer uintptr)
func stepOn()
func stepOff()

type ksigaction struct {
	handler, flags, restorer uintptr
	mask                     uint64
}

func sigaction(sig int, a, old *ksigaction) error {
	_, _, e := syscall.RawSyscall6(syscall.SYS_RT_SIGACTION, uintptr(sig), uintptr(unsafe.Pointer(a)), uintptr(unsafe.Pointer(old)), 8, 0, 0)
	if e != 0 {
		return e
	}
	return nil
}

var stepPkgs = []string{"github.com/henrydcase/nobs/", "mkem.", "bytes.", "crypto/subtle.", "crypto/internal/", "internal/bytealg.", "runtime.memequal", "memeqbody", "cmpbody", "runtime.cmpstring", "math/bits."}

func stepInit() {
	f, err := elf.Open("/proc/self/exe")
	if err != nil {
		stErr = err
		return
	}
	defer f.Close()
	syms, err := f.Symbols()
	if err != nil {
		stErr = err
		return
	}
	t := f.Section(".text")
	if t == nil {
		stErr = fmt.Errorf("no text section")
		return
	}
	stBase, stSize = uintptr(t.Addr), uintptr(t.Size)
	for i := range stMapBytes {
		stMapBytes[i] = make([]byte, t.Size)
	}
	n := 0
	for _, s := range syms {
		ok := false
		for _, p := range stepPkgs {
			ok = ok || strings.HasPrefix(s.Name, p)
		}
		if !ok || elf.ST_TYPE(s.Info) != elf.STT_FUNC || s.Value < t.Addr || s.Value+s.Size > t.Addr+t.Size {
			continue
		}
		n++
		for i := s.Value; i < s.Value+s.Size; i++ {
			for m := range stMapBytes {
				stMapBytes[m][i-t.Addr] = 1
			}
		}
		for m := stNoLeaves; m <= stGlue; m++ {
			if stepNative(s.Name, uintptr(s.Value), m) {
				stMapBytes[m][s.Value-t.Addr] = 2
			}
		}
	}
	if n < 50 {
		stErr = fmt.Errorf("only %d functions found", n)
		return
	}
	m, err := syscall.Mmap(-1, 0, 1<<30, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		stErr = err
		return
	}
	stBufWords = unsafe.Slice((*uint32)(unsafe.Pointer(&m[0])), len(m)/4)
	stBuf = uintptr(unsafe.Pointer(&m[0]))
	// does stepping work here?
	tr, err := stepTrace(func() { _ = stepProbe(3) }, stEverything, 0)
	if err != nil {
		stErr = err
	} else if _ = tr; stAll < 5 {
		stErr = fmt.Errorf("the trap flag has no effect")
	}
}

func stepNative(name string, pc uintptr, mode int) bool {
	const in = "github.com/henrydcase/nobs/dh/sidh/internal/"
	switch {
	case strings.Contains(name, "/sha3.keccakF"):
		return true
	case !strings.HasPrefix(name, in):
		return false
	case mode == stGlue:
		return true
	}
	f := runtime.FuncForPC(pc)
	if f == nil {
		return false
	}
	file, _ := f.FileLine(pc)
	file = file[strings.LastIndexByte(file, '/')+1:]
	return strings.HasSuffix(file, ".s") || strings.HasPrefix(file, "arith") || mode == stNoLeaves && strings.HasPrefix(file, "fp") && !strings.HasSuffix(name, "inv") && !strings.HasSuffix(name, "p34")
}

//go:noinline
func stepProbe(x int) int { return x * 3 }

// stepTrace runs f and returns the recorded addresses (valid until the buffer part is used
// again); part selects one of four parts of the buffer.
func stepTrace(f func(), mode, part int) (res []uint32, err error) {
	q := len(stBufWords) / 4
	stMap = uintptr(unsafe.Pointer(&stMapBytes[mode][0]))
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	trap, freeze, restorer := stepHandlers()
	const saSiginfo, saRestorer, saOnstack, saRestart = 4, 0x04000000, 0x08000000, 0x10000000
	var oldTrap, oldUsr ksigaction
	if err := sigaction(12, &ksigaction{freeze, saSiginfo | saRestorer | saOnstack | saRestart, restorer, ^uint64(0)}, &oldUsr); err != nil {
		return nil, err
	}
	if err := sigaction(5, &ksigaction{trap, saSiginfo | saRestorer | saOnstack, restorer, ^uint64(0)}, &oldTrap); err != nil {
		return nil, err
	}
	// everything but SIGTRAP and faults is blocked on this thread
	set := ^uint64(0) &^ (1<<4 | 1<<3 | 1<<6 | 1<<7 | 1<<10)
	var oset uint64
	if _, _, e := syscall.RawSyscall6(syscall.SYS_RT_SIGPROCMASK, 2, uintptr(unsafe.Pointer(&set)), uintptr(unsafe.Pointer(&oset)), 8, 0, 0); e != 0 {
		return nil, e
	}
	defer func() {
		stFreeze = 0
		syscall.RawSyscall6(syscall.SYS_FUTEX, uintptr(unsafe.Pointer(&stFreeze)), 129, 1<<30, 0, 0, 0)
		syscall.RawSyscall6(syscall.SYS_RT_SIGPROCMASK, 2, uintptr(unsafe.Pointer(&oset)), 0, 8, 0, 0)
		sigaction(5, &oldTrap, nil)
		time.Sleep(3 * time.Millisecond)
		sigaction(12, &oldUsr, nil)
	}()
	stBuf = uintptr(unsafe.Pointer(&stBufWords[part*q]))
	stCap, stN, stAll = uintptr(q), 0, 0
	// hold the other threads (the scheduler's monitor would request preemption)
	stFreeze, stFrozen, stFreezeMax = 1, 0, 600
	me := syscall.Gettid()
	d, err := os.ReadDir("/proc/self/task")
	if err != nil {
		return nil, err
	}
	var n uintptr
	for _, e := range d {
		if t, _ := strconv.Atoi(e.Name()); t != 0 && t != me {
			if syscall.Tgkill(syscall.Getpid(), t, 12) == nil {
				n++
			}
		}
	}
	for i := 0; i < 200 && stFrozen < n; i++ {
		ts := syscall.Timespec{Nsec: 100000}
		syscall.RawSyscall(syscall.SYS_NANOSLEEP, uintptr(unsafe.Pointer(&ts)), 0, 0)
	}
	f() // grow the stack
	stepOn()
	f()
	stepOff()
	k := int(stN)
	if k > q {
		return nil, fmt.Errorf("trace of %d instructions does not fit", k)
	}
	return stBufWords[part*q : part*q+k], nil
}

// stepReady says whether tracing works here.
func stepReady() error {
	stOnce.Do(stepInit)
	return stErr
}

// pcName names a recorded address.
func pcName(off uint32) string {
	pc := stBase + uintptr(off)
	f := runtime.FuncForPC(pc)
	if f == nil {
		return fmt.Sprintf("%#x", pc)
	}
	file, line := f.FileLine(pc)
	return fmt.Sprintf("%s %s:%d (+%#x)", f.Name(), file[strings.LastIndexByte(file, '/')+1:], line, pc-f.Entry())
}
