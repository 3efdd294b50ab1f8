#include "textflag.h"

// func stepHandlers() (trap, freeze, restorer uintptr)
TEXT ·stepHandlers(SB), NOSPLIT, $0-24
	LEAQ ·trapHandler(SB), AX
	MOVQ AX, trap+0(FP)
	LEAQ ·freezeHandler(SB), AX
	MOVQ AX, freeze+8(FP)
	LEAQ ·sigRestorer(SB), AX
	MOVQ AX, restorer+16(FP)
	RET

// Called by the kernel after every instruction: DI signal, SI info, DX context.
TEXT ·trapHandler(SB), NOSPLIT|NOFRAME, $0
	MOVQ 168(DX), AX
	SUBQ ·stBase(SB), AX
	CMPQ AX, ·stSize(SB)
	JAE  out
	MOVQ ·stMap(SB), R8
	MOVBLZX (R8)(AX*1), R9
	TESTL R9, R9
	JZ   out
	MOVQ ·stN(SB), R10
	CMPQ R10, ·stCap(SB)
	JAE  full
	MOVQ ·stBuf(SB), R11
	MOVL AX, (R11)(R10*4)
full:
	INCQ R10
	MOVQ R10, ·stN(SB)
	CMPL R9, $2
	JNE  out
	// a function that is not traced: run it and come back through stepBack
	MOVQ 160(DX), R8
	MOVQ (R8), R9
	MOVQ R9, ·stRet(SB)
	LEAQ ·stepBack(SB), R9
	MOVQ R9, (R8)
	ANDQ $~0x100, 176(DX)
out:
	INCQ ·stAll(SB)
	RET

// Keeps a thread here until stFreeze is cleared (at most stFreezeMax milliseconds).
TEXT ·freezeHandler(SB), NOSPLIT|NOFRAME, $0
	LOCK
	INCQ ·stFrozen(SB)
	SUBQ $32, SP
	MOVQ ·stFreezeMax(SB), R12
again:
	MOVL ·stFreeze(SB), AX
	TESTL AX, AX
	JZ   done
	MOVQ $1, 0(SP)
	MOVQ $0, 8(SP)
	MOVQ $202, AX // futex wait, one second
	LEAQ ·stFreeze(SB), DI
	MOVQ $128, SI
	MOVQ $1, DX
	MOVQ SP, R10
	SYSCALL
	DECQ R12
	JNZ  again
done:
	ADDQ $32, SP
	RET

TEXT ·sigRestorer(SB), NOSPLIT|NOFRAME, $0
	MOVQ $15, AX
	SYSCALL
	INT $3

// An untraced function returns here.
TEXT ·stepBack(SB), NOSPLIT|NOFRAME, $0
	PUSHQ ·stRet(SB)
	PUSHFQ
	ORQ  $0x100, 0(SP)
	POPFQ
	BYTE $0xC3 // ret
	POPQ AX    // not reached; keeps the assembler's account
	RET

// func stepOn()
TEXT ·stepOn(SB), NOSPLIT, $0-0
	PUSHFQ
	ORQ  $0x100, 0(SP)
	POPFQ
	RET

// func stepOff()
TEXT ·stepOff(SB), NOSPLIT, $0-0
	PUSHFQ
	ANDQ $~0x100, 0(SP)
	POPFQ
	RET
