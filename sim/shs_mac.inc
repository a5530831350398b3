/* In place of the instructions for shadow stacks, which this processor does not have: calls of the model in shs_stub.cpp. */
.macro SIM_SHS_CALL f
    pushq %rax ; pushq %rcx ; pushq %rdx ; pushq %rsi ; pushq %rdi ; pushq %r8 ; pushq %r9 ; pushq %r10 ; pushq %r11 ; pushq %rbp
    movq %rsp, %rbp
    andq $-16, %rsp
    movq %r11, %rdi
    call \f
    movq %rbp, %rsp
    movq %rax, 80(%rsp)
    popq %rbp ; popq %r11 ; popq %r10 ; popq %r9 ; popq %r8 ; popq %rdi ; popq %rsi ; popq %rdx ; popq %rcx ; popq %rax
.endm
.macro rdsspq r
    pushq $0
    SIM_SHS_CALL sim_rdssp
    popq \r
.endm
.macro rstorssp op:vararg
    leaq \op, %r11
    pushq $0
    SIM_SHS_CALL sim_rstorssp
    leaq 8(%rsp), %rsp
.endm
.macro saveprevssp
    pushq $0
    SIM_SHS_CALL sim_saveprevssp
    leaq 8(%rsp), %rsp
.endm
.macro incsspq r
.endm
