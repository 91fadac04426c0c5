.section .note.GNU-stack,"",@progbits
.section .text
.globl _start
_start:
  xorl %ebp,%ebp
  popl %esi
  movl %esp,%ecx
  andl $-16,%esp
  pushl %eax
  pushl %esp
  pushl %edx
  pushl $0
  pushl $0
  pushl %ecx
  pushl %esi
  pushl $main
  call __libc_start_main
  hlt
