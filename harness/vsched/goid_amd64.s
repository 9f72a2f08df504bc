#include "textflag.h"

// func gword(off uintptr) uint64
TEXT ·gword(SB), NOSPLIT, $0-16
	MOVQ (TLS), AX
	ADDQ off+0(FP), AX
	MOVQ (AX), AX
	MOVQ AX, ret+8(FP)
	RET
