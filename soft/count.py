"""Writes count.S, the wrappers that count, and the options that make the linker use them."""
import sys
SINGLE = "__addsf3 __subsf3 __mulsf3 __divsf3 __eqsf2 __nesf2 __ltsf2 __lesf2 __gtsf2 __gesf2 __unordsf2 fmodf __powisf2 fminf fmaxf sqrtf fmaf floorf ceilf truncf roundf".split()
CONVERT = "__floatsisf __floatunsisf __floatdisf __floatundisf __fixsfsi __fixunssfsi __fixsfdi __fixunssfdi".split()
DOUBLE = "__adddf3 __subdf3 __muldf3 __divdf3 __eqdf2 __nedf2 __ltdf2 __ledf2 __gtdf2 __gedf2 __unorddf2 __extendsfdf2 __truncdfsf2 __floatsidf __floatunsidf __floatdidf __floatundidf __fixdfsi __fixunsdfsi __fixdfdi __fixunsdfdi __powidf2 fmod fmin fmax sqrt fma floor ceil trunc round __addtf3 __multf3 __extendsftf2 __extenddftf2".split()
# per thread: calls of single precision, conversions to and from integers, of double precision, and
# which of the latter was last
asm = [".section .tbss,\"awT\",@nobits", ".p2align 3", "soft_counts_tls: .zero 32", ".text",
       ".globl soft_counts", "soft_counts:", "movq %fs:0, %rax", "addq soft_counts_tls@gottpoff(%rip), %rax", "ret"]
for slot, names in enumerate([SINGLE, CONVERT, DOUBLE]):
    for k, n in enumerate(names):
        asm += [f".globl __wrap_{n}", f"__wrap_{n}:", "pushq %rax", "movq soft_counts_tls@gottpoff(%rip), %rax", f"incq %fs:{8 * slot}(%rax)"]
        if slot == 2:
            asm += [f"movq ${k}, %fs:24(%rax)"]
        asm += ["popq %rax", f"jmp __real_{n}"]
asm += [".globl soft_doubles", ".section .rodata", "soft_doubles: .asciz \"" + " ".join(DOUBLE) + "\"", ".section .note.GNU-stack,\"\",@progbits"]
out = sys.argv[1]
open(out + "/count.S", "w").write("\n".join(asm) + "\n")
open(out + "/wrap.args", "w").write("\n".join(f"-Wl,--wrap={n}" for n in SINGLE + CONVERT + DOUBLE) + "\n")
