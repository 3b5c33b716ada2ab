// Calls a function with a known value in every register that the calling convention preserves, and
// finds out whether the value is still there afterwards (a clobber missing from inline assembly).
#ifndef MCX_REGS_H_
#define MCX_REGS_H_
#include "mcx.h"
extern "C" unsigned mcx_regcheck(void (*fn)(void*), void* arg);
#if defined(__aarch64__)
#define MCX_REGCHECK 1
asm(
    ".text\n"
    ".balign 16\n"
    ".type mcx_regcheck, %function\n"
    "mcx_regcheck:\n"
    "stp x29, x30, [sp, #-160]!\n"
    "stp x19, x20, [sp, #16]\n"
    "stp x21, x22, [sp, #32]\n"
    "stp x23, x24, [sp, #48]\n"
    "stp x25, x26, [sp, #64]\n"
    "stp x27, x28, [sp, #80]\n"
    "stp d8, d9, [sp, #96]\n"
    "stp d10, d11, [sp, #112]\n"
    "stp d12, d13, [sp, #128]\n"
    "stp d14, d15, [sp, #144]\n"
    "mov x9, x0\n"
    "mov x0, x1\n"
    "mov x10, #31232\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "fmov d8, x10\n"
    "mov x10, #31233\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "fmov d9, x10\n"
    "mov x10, #31234\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "fmov d10, x10\n"
    "mov x10, #31235\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "fmov d11, x10\n"
    "mov x10, #31236\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "fmov d12, x10\n"
    "mov x10, #31237\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "fmov d13, x10\n"
    "mov x10, #31238\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "fmov d14, x10\n"
    "mov x10, #31239\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "fmov d15, x10\n"
    "mov x19, #23296\n"
    "orr x19, x19, x19, lsl #16\n"
    "orr x19, x19, x19, lsl #32\n"
    "mov x20, #23297\n"
    "orr x20, x20, x20, lsl #16\n"
    "orr x20, x20, x20, lsl #32\n"
    "mov x21, #23298\n"
    "orr x21, x21, x21, lsl #16\n"
    "orr x21, x21, x21, lsl #32\n"
    "mov x22, #23299\n"
    "orr x22, x22, x22, lsl #16\n"
    "orr x22, x22, x22, lsl #32\n"
    "mov x23, #23300\n"
    "orr x23, x23, x23, lsl #16\n"
    "orr x23, x23, x23, lsl #32\n"
    "mov x24, #23301\n"
    "orr x24, x24, x24, lsl #16\n"
    "orr x24, x24, x24, lsl #32\n"
    "mov x25, #23302\n"
    "orr x25, x25, x25, lsl #16\n"
    "orr x25, x25, x25, lsl #32\n"
    "mov x26, #23303\n"
    "orr x26, x26, x26, lsl #16\n"
    "orr x26, x26, x26, lsl #32\n"
    "mov x27, #23304\n"
    "orr x27, x27, x27, lsl #16\n"
    "orr x27, x27, x27, lsl #32\n"
    "mov x28, #23305\n"
    "orr x28, x28, x28, lsl #16\n"
    "orr x28, x28, x28, lsl #32\n"
    "blr x9\n"
    "mov w0, #0\n"
    "mov x10, #31232\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "fmov x11, d8\n"
    "cmp x10, x11\n"
    "mov w12, #1\n"
    "csel w12, w12, wzr, ne\n"
    "orr w0, w0, w12\n"
    "mov x10, #31233\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "fmov x11, d9\n"
    "cmp x10, x11\n"
    "mov w12, #2\n"
    "csel w12, w12, wzr, ne\n"
    "orr w0, w0, w12\n"
    "mov x10, #31234\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "fmov x11, d10\n"
    "cmp x10, x11\n"
    "mov w12, #4\n"
    "csel w12, w12, wzr, ne\n"
    "orr w0, w0, w12\n"
    "mov x10, #31235\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "fmov x11, d11\n"
    "cmp x10, x11\n"
    "mov w12, #8\n"
    "csel w12, w12, wzr, ne\n"
    "orr w0, w0, w12\n"
    "mov x10, #31236\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "fmov x11, d12\n"
    "cmp x10, x11\n"
    "mov w12, #16\n"
    "csel w12, w12, wzr, ne\n"
    "orr w0, w0, w12\n"
    "mov x10, #31237\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "fmov x11, d13\n"
    "cmp x10, x11\n"
    "mov w12, #32\n"
    "csel w12, w12, wzr, ne\n"
    "orr w0, w0, w12\n"
    "mov x10, #31238\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "fmov x11, d14\n"
    "cmp x10, x11\n"
    "mov w12, #64\n"
    "csel w12, w12, wzr, ne\n"
    "orr w0, w0, w12\n"
    "mov x10, #31239\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "fmov x11, d15\n"
    "cmp x10, x11\n"
    "mov w12, #128\n"
    "csel w12, w12, wzr, ne\n"
    "orr w0, w0, w12\n"
    "mov x10, #23296\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "cmp x10, x19\n"
    "mov w12, #1\n"
    "lsl w12, w12, #8\n"
    "csel w12, w12, wzr, ne\n"
    "orr w0, w0, w12\n"
    "mov x10, #23297\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "cmp x10, x20\n"
    "mov w12, #1\n"
    "lsl w12, w12, #9\n"
    "csel w12, w12, wzr, ne\n"
    "orr w0, w0, w12\n"
    "mov x10, #23298\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "cmp x10, x21\n"
    "mov w12, #1\n"
    "lsl w12, w12, #10\n"
    "csel w12, w12, wzr, ne\n"
    "orr w0, w0, w12\n"
    "mov x10, #23299\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "cmp x10, x22\n"
    "mov w12, #1\n"
    "lsl w12, w12, #11\n"
    "csel w12, w12, wzr, ne\n"
    "orr w0, w0, w12\n"
    "mov x10, #23300\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "cmp x10, x23\n"
    "mov w12, #1\n"
    "lsl w12, w12, #12\n"
    "csel w12, w12, wzr, ne\n"
    "orr w0, w0, w12\n"
    "mov x10, #23301\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "cmp x10, x24\n"
    "mov w12, #1\n"
    "lsl w12, w12, #13\n"
    "csel w12, w12, wzr, ne\n"
    "orr w0, w0, w12\n"
    "mov x10, #23302\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "cmp x10, x25\n"
    "mov w12, #1\n"
    "lsl w12, w12, #14\n"
    "csel w12, w12, wzr, ne\n"
    "orr w0, w0, w12\n"
    "mov x10, #23303\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "cmp x10, x26\n"
    "mov w12, #1\n"
    "lsl w12, w12, #15\n"
    "csel w12, w12, wzr, ne\n"
    "orr w0, w0, w12\n"
    "mov x10, #23304\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "cmp x10, x27\n"
    "mov w12, #1\n"
    "lsl w12, w12, #16\n"
    "csel w12, w12, wzr, ne\n"
    "orr w0, w0, w12\n"
    "mov x10, #23305\n"
    "orr x10, x10, x10, lsl #16\n"
    "orr x10, x10, x10, lsl #32\n"
    "cmp x10, x28\n"
    "mov w12, #1\n"
    "lsl w12, w12, #17\n"
    "csel w12, w12, wzr, ne\n"
    "orr w0, w0, w12\n"
    "ldp x19, x20, [sp, #16]\n"
    "ldp x21, x22, [sp, #32]\n"
    "ldp x23, x24, [sp, #48]\n"
    "ldp x25, x26, [sp, #64]\n"
    "ldp x27, x28, [sp, #80]\n"
    "ldp d8, d9, [sp, #96]\n"
    "ldp d10, d11, [sp, #112]\n"
    "ldp d12, d13, [sp, #128]\n"
    "ldp d14, d15, [sp, #144]\n"
    "ldp x29, x30, [sp], #160\n"
    "ret\n"
    ".size mcx_regcheck, .-mcx_regcheck\n"
);
#elif defined(__arm__)
#define MCX_REGCHECK 1
asm(
    ".text\n"
    ".balign 16\n"
    ".arm\n"
    ".type mcx_regcheck, %function\n"
    "mcx_regcheck:\n"
    "push {r4-r11, lr}\n"
    "sub sp, sp, #4\n"
    "vpush {d8-d15}\n"
    "mov r12, r0\n"
    "mov r0, r1\n"
    "movw r2, #31232\n"
    "vmov d8, r2, r2\n"
    "movw r2, #31233\n"
    "vmov d9, r2, r2\n"
    "movw r2, #31234\n"
    "vmov d10, r2, r2\n"
    "movw r2, #31235\n"
    "vmov d11, r2, r2\n"
    "movw r2, #31236\n"
    "vmov d12, r2, r2\n"
    "movw r2, #31237\n"
    "vmov d13, r2, r2\n"
    "movw r2, #31238\n"
    "vmov d14, r2, r2\n"
    "movw r2, #31239\n"
    "vmov d15, r2, r2\n"
    "movw r4, #23296\n"
    "movw r5, #23297\n"
    "movw r6, #23298\n"
    "movw r7, #23299\n"
    "movw r8, #23300\n"
    "movw r9, #23301\n"
    "movw r10, #23302\n"
    "movw r11, #23303\n"
    "blx r12\n"
    "mov r0, #0\n"
    "movw r2, #31232\n"
    "vmov r3, r12, d8\n"
    "cmp r2, r3\n"
    "cmpeq r2, r12\n"
    "orrne r0, r0, #1\n"
    "movw r2, #31233\n"
    "vmov r3, r12, d9\n"
    "cmp r2, r3\n"
    "cmpeq r2, r12\n"
    "orrne r0, r0, #2\n"
    "movw r2, #31234\n"
    "vmov r3, r12, d10\n"
    "cmp r2, r3\n"
    "cmpeq r2, r12\n"
    "orrne r0, r0, #4\n"
    "movw r2, #31235\n"
    "vmov r3, r12, d11\n"
    "cmp r2, r3\n"
    "cmpeq r2, r12\n"
    "orrne r0, r0, #8\n"
    "movw r2, #31236\n"
    "vmov r3, r12, d12\n"
    "cmp r2, r3\n"
    "cmpeq r2, r12\n"
    "orrne r0, r0, #16\n"
    "movw r2, #31237\n"
    "vmov r3, r12, d13\n"
    "cmp r2, r3\n"
    "cmpeq r2, r12\n"
    "orrne r0, r0, #32\n"
    "movw r2, #31238\n"
    "vmov r3, r12, d14\n"
    "cmp r2, r3\n"
    "cmpeq r2, r12\n"
    "orrne r0, r0, #64\n"
    "movw r2, #31239\n"
    "vmov r3, r12, d15\n"
    "cmp r2, r3\n"
    "cmpeq r2, r12\n"
    "orrne r0, r0, #128\n"
    "movw r2, #23296\n"
    "cmp r2, r4\n"
    "orrne r0, r0, #256\n"
    "movw r2, #23297\n"
    "cmp r2, r5\n"
    "orrne r0, r0, #512\n"
    "movw r2, #23298\n"
    "cmp r2, r6\n"
    "orrne r0, r0, #1024\n"
    "movw r2, #23299\n"
    "cmp r2, r7\n"
    "orrne r0, r0, #2048\n"
    "movw r2, #23300\n"
    "cmp r2, r8\n"
    "orrne r0, r0, #4096\n"
    "movw r2, #23301\n"
    "cmp r2, r9\n"
    "orrne r0, r0, #8192\n"
    "movw r2, #23302\n"
    "cmp r2, r10\n"
    "orrne r0, r0, #16384\n"
    "movw r2, #23303\n"
    "cmp r2, r11\n"
    "orrne r0, r0, #32768\n"
    "vpop {d8-d15}\n"
    "add sp, sp, #4\n"
    "pop {r4-r11, pc}\n"
    ".size mcx_regcheck, .-mcx_regcheck\n"
);
#elif defined(__x86_64__) && !defined(MINIRT)
#define MCX_REGCHECK 1
asm(
    ".text\n"
    ".p2align 4\n"
    ".type mcx_regcheck, @function\n"
    "mcx_regcheck:\n"
    "pushq %rbx\n"
    "pushq %rbp\n"
    "pushq %r12\n"
    "pushq %r13\n"
    "pushq %r14\n"
    "pushq %r15\n"
    "subq $8, %rsp\n"
    "movq %rdi, %rax\n"
    "movq %rsi, %rdi\n"
    "movq $23296, %rbx\n"
    "movq $23297, %rbp\n"
    "movq $23298, %r12\n"
    "movq $23299, %r13\n"
    "movq $23300, %r14\n"
    "movq $23301, %r15\n"
    "callq *%rax\n"
    "xorl %eax, %eax\n"
    "cmpq $23296, %rbx\n"
    "je 1f\n"
    "orl $1, %eax\n"
    "1:\n"
    "cmpq $23297, %rbp\n"
    "je 1f\n"
    "orl $2, %eax\n"
    "1:\n"
    "cmpq $23298, %r12\n"
    "je 1f\n"
    "orl $4, %eax\n"
    "1:\n"
    "cmpq $23299, %r13\n"
    "je 1f\n"
    "orl $8, %eax\n"
    "1:\n"
    "cmpq $23300, %r14\n"
    "je 1f\n"
    "orl $16, %eax\n"
    "1:\n"
    "cmpq $23301, %r15\n"
    "je 1f\n"
    "orl $32, %eax\n"
    "1:\n"
    "addq $8, %rsp\n"
    "popq %r15\n"
    "popq %r14\n"
    "popq %r13\n"
    "popq %r12\n"
    "popq %rbp\n"
    "popq %rbx\n"
    "ret\n"
    ".size mcx_regcheck, .-mcx_regcheck\n"
);
#endif
template <typename F> __attribute__((noinline)) void mcx_trampoline(void* p) { (*(F*)p)(); }
// what: the operation under test
template <typename F> void preserved(const char* what, F f) {
#ifdef MCX_REGCHECK
  const unsigned bad = mcx_regcheck(&mcx_trampoline<F>, &f);
  if (bad) mcx::fail("%s: registers which the calling convention preserves were changed (mask 0x%x)", what, bad);
#else
  f();
#endif
}
#endif
