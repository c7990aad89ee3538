/* Program start for a 32-bit executable: the toolchain here has the 32-bit C library and sanitizer runtime, but not the start files. */
int main(int, char **, char **);
int __libc_start_main(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *);
__asm__(".text\n.globl _start\n_start:\n xor %ebp,%ebp\n pop %esi\n mov %esp,%ecx\n and $-16,%esp\n push %eax\n push %esp\n push %edx\n"
        " push $0\n push $0\n push %ecx\n push %esi\n push $main\n call __libc_start_main\n hlt\n");
int __cxa_atexit(void (*)(void *), void *, void *);
int atexit(void (*f)(void)) { return __cxa_atexit((void (*)(void *)) f, 0, 0); }
int __register_atfork(void (*)(void), void (*)(void), void (*)(void), void *);
int pthread_atfork(void (*a)(void), void (*b)(void), void (*c)(void)) { return __register_atfork(a, b, c, 0); }
