/* What crt1.o would do: the sandbox has the 32-bit C library but not the files to link programs with. */
.globl _start
_start:
  xor %ebp,%ebp
  pop %esi
  mov %esp,%ecx
  and $-16,%esp
  sub $4,%esp   
  push %esp
  push %edx
  push $0
  push $0
  push %ecx
  push %esi
  push $main
  call __libc_start_main
  hlt
