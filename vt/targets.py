"""Target table: the configurations of sljit that the checks run. qemu user mode executes the cross targets."""


class T:
    def __init__(self, name, cc, runner=(), cflags=(), static=True, big=False, bits=64, native=False):
        self.name, self.cc, self.runner = name, cc, list(runner)
        self.cflags, self.static, self.big, self.bits, self.native = list(cflags), static, big, bits, native


_L = [
    T('x86_64', 'gcc', static=False, native=True),
    T('x86_32', 'i686-linux-gnu-gcc', cflags=['-msse2', '-mfpmath=sse'], bits=32, native=True),
    T('aarch64', 'aarch64-linux-gnu-gcc', ['qemu-aarch64']),
    T('armv7', 'arm-linux-gnueabihf-gcc', ['qemu-arm'], ['-marm'], bits=32),
    T('armt2', 'arm-linux-gnueabihf-gcc', ['qemu-arm'], ['-mthumb'], bits=32),
    T('armv6', 'arm-linux-gnueabihf-gcc', ['qemu-arm'], ['-marm', '-DSLJIT_CONFIG_ARM_V6=1'], bits=32),
    T('riscv64', 'riscv64-linux-gnu-gcc', ['qemu-riscv64'], ['-march=rv64g']),
    T('riscv64_ext', 'riscv64-linux-gnu-gcc', ['qemu-riscv64'], ['-march=rv64gv_zba_zbb']),
    T('riscv64c', 'riscv64-linux-gnu-gcc', ['qemu-riscv64'], ['-march=rv64gc_zba_zbb_zicond']),
    T('s390x', 's390x-linux-gnu-gcc', ['qemu-s390x'], ['-march=z13'], big=True),
    T('loongarch64', 'loongarch64-linux-gnu-gcc-14', ['qemu-loongarch64'], ['-march=la464']),
    T('ppc64le', 'powerpc64le-linux-gnu-gcc', ['qemu-ppc64le']),
    T('ppc32', 'powerpc-linux-gnu-gcc', ['qemu-ppc'], big=True, bits=32),
    T('mips32el', 'mipsel-linux-gnu-gcc', ['qemu-mipsel'], bits=32),
    T('mips64el', 'mips64el-linux-gnuabi64-gcc', ['qemu-mips64el']),
    T('x86_64_old', 'gcc', ['qemu-x86_64', '-cpu', 'core2duo']),
    T('x86_32_old', 'i686-linux-gnu-gcc', ['qemu-i386', '-cpu', 'n270'], cflags=['-msse2', '-mfpmath=sse', '-march=pentium4', '-mno-sse3'], bits=32),
    T('mips64el_r1', 'mips64el-linux-gnuabi64-gcc', ['qemu-mips64el'], ['-march=mips64']),
    T('x86_64_sse', 'gcc', ['qemu-x86_64', '-cpu', 'Nehalem']),
    T('x86_32_avx', 'i686-linux-gnu-gcc', ['qemu-i386', '-cpu', 'SandyBridge'], cflags=['-msse2', '-mfpmath=sse'], bits=32),
    T('x86_64_avx', 'gcc', ['qemu-x86_64', '-cpu', 'SandyBridge']),
    T('loongarch64_lsx', 'loongarch64-linux-gnu-gcc-14', ['qemu-loongarch64', '-cpu', 'la464,lasx=off'], ['-march=loongarch64']),
    T('loongarch64_old', 'loongarch64-linux-gnu-gcc-14', ['qemu-loongarch64', '-cpu', 'la464,lsx=off'], ['-march=loongarch64']),
    T('aarch64_lse', 'aarch64-linux-gnu-gcc', ['qemu-aarch64', '-cpu', 'max'], ['-march=armv8.1-a']),
    T('s390x_old', 's390x-linux-gnu-gcc', ['qemu-s390x', '-cpu', 'max,minste2=off,stfle53=off'], ['-march=zEC12'], big=True),
]
TARGETS = {t.name: t for t in _L}
OLD = ('x86_64_old', 'x86_32_old', 's390x_old', 'mips64el_r1') # CPUs without some instructions
SIMD_ONLY = ('x86_64_sse', 'x86_64_avx', 'x86_32_avx', 'loongarch64_lsx', 'loongarch64_old') # these differ only in vector operations
ATOMIC_ONLY = ('aarch64_lse',) # this differs only in atomic operations
ALL = [t.name for t in _L if t.name not in SIMD_ONLY + ATOMIC_ONLY]
CROSS = [t.name for t in _L if not t.native]
SIMD = ['x86_64', 'x86_64_sse', 'x86_64_avx', 'x86_32', 'x86_32_avx', 'aarch64', 'armv7', 'armt2', 'riscv64_ext', 's390x', 'loongarch64', 'loongarch64_lsx']
