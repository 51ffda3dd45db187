#!/usr/bin/env python3
"""Builds the simulator binary from /repo's current working tree.

The binary is content-addressed: the same sources give the same file, a changed
source tree is always compiled again."""
import concurrent.futures as cf
import hashlib, os, shutil, subprocess, sys, fcntl, glob

REPO = os.environ.get("SIM_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "build")
PARI = "/usr/lib/x86_64-linux-gnu/libpari.a"

LIBC_WRAP = """mmap pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock
pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy
pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
pthread_create pthread_join pthread_detach pthread_exit pthread_cancel sched_yield
clock_gettime time gettimeofday getrusage nanosleep clock_nanosleep sleep usleep
timer_create timer_settime timer_delete timer_gettime alarm setitimer sysconf
fopen fopen64 freopen open open64 read write close fdopen fileno fsync fdatasync isatty
getrandom getentropy getpid getppid gettid clock times gethostname uname unlink remove rename system popen exit pari_init""".split()

CHECKED = """memcpy memmove memset memcmp strlen strcpy strncpy strcat strncat strdup sprintf
vsprintf syscall""".split()

# computations of a curve parameter that may take arbitrarily long
HEAVY = """ellff_get_card ellcard ellsea ellap ellff_get_gens ellgroup ellgenerators ellorder
ellff_get_group ellcard0 polclass Buchall bnfisintnorm FpX_roots""".split()

BLACK = set("""pari_init pari_init_opts pari_close pari_close_opts setjmp sigsetjmp
pari_err err_catch mt_sigint_block mt_sigint_unblock pari_sighandler
pari_malloc pari_realloc pari_calloc pari_free pari_realloc_ip gp_malloc
pari_thread_sync mt_sigint
""".split())

TRAMP_HEAD = """
	.text
	.globl sim_save_tick
	.type sim_save_tick,@function
/* reached by `call` from a trampoline: preserve every argument register */
sim_save_tick:
	pushq %rbp
	movq %rsp, %rbp
	andq $-16, %rsp
	subq $208, %rsp
	movq %rdi, 0(%rsp)
	movq %rsi, 8(%rsp)
	movq %rdx, 16(%rsp)
	movq %rcx, 24(%rsp)
	movq %r8, 32(%rsp)
	movq %r9, 40(%rsp)
	movq %rax, 48(%rsp)
	movq %r10, 56(%rsp)
	movq %r11, 64(%rsp)
	movups %xmm0, 80(%rsp)
	movups %xmm1, 96(%rsp)
	movups %xmm2, 112(%rsp)
	movups %xmm3, 128(%rsp)
	movups %xmm4, 144(%rsp)
	movups %xmm5, 160(%rsp)
	movups %xmm6, 176(%rsp)
	movups %xmm7, 192(%rsp)
	call *%r11
	movq 0(%rsp), %rdi
	movq 8(%rsp), %rsi
	movq 16(%rsp), %rdx
	movq 24(%rsp), %rcx
	movq 32(%rsp), %r8
	movq 40(%rsp), %r9
	movq 48(%rsp), %rax
	movq 56(%rsp), %r10
	movups 80(%rsp), %xmm0
	movups 96(%rsp), %xmm1
	movups 112(%rsp), %xmm2
	movups 128(%rsp), %xmm3
	movups 144(%rsp), %xmm4
	movups 160(%rsp), %xmm5
	movups 176(%rsp), %xmm6
	movups 192(%rsp), %xmm7
	movq %rbp, %rsp
	popq %rbp
	ret
"""


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        sys.stderr.write(" ".join(cmd)[:2000] + "\n" + r.stdout.decode(errors="replace")[-6000:])
        raise SystemExit(3)
    return r.stdout.decode(errors="replace")


def sources():
    src = []
    for root, _, files in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(files):
            src.append(os.path.join(root, f))
    for d in ("parson", "sha1"):
        for f in sorted(glob.glob(os.path.join(REPO, "lib", d, "*.[ch]"))):
            src.append(f)
    return src


def tree_hash(extra):
    h = hashlib.sha256()
    for f in sources():
        if not f.endswith((".c", ".h")):
            continue
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        h.update(open(f, "rb").read())
    for f in ("sim.c", "build.py"):
        h.update(open(os.path.join(HERE, f), "rb").read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def pari_symbols():
    out = run(["nm", PARI])
    defd, und = set(), set()
    for l in out.splitlines():
        p = l.split()
        if len(p) == 3 and p[1] == "T":
            defd.add(p[2])
        elif len(p) == 2 and p[0] == "U":
            und.add(p[1])
    return defd, und


def build(verbose=False):
    os.makedirs(OUT, exist_ok=True)
    key = tree_hash("v1")
    target = os.path.join(OUT, "ecsim-" + key)
    if os.path.exists(target):
        return target
    lock = open(os.path.join(OUT, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(target):
        return target
    work = os.path.join(OUT, "work-" + key)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    inst = ["-fsanitize=thread", "-fsanitize-coverage=trace-pc", "-fno-omit-frame-pointer",
            "-fsanitize=bounds,object-size"]
    base = ["gcc", "-DNDEBUG", "-O2", "-g", "-w", "-U_FORTIFY_SOURCE", "-std=gnu99", "-fno-pie",
            "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "lib")]
    jobs, objs = [], []
    csrc = [f for f in sources() if f.endswith(".c")]
    for f in csrc:
        rel = os.path.relpath(f, REPO)
        if rel.startswith("lib/") and os.path.basename(f) not in ("parson.c", "sha1.c"):
            continue
        o = os.path.join(work, rel.replace("/", "__") + ".o")
        objs.append(o)
        cmd = base + (inst if rel.startswith("src/") else [])
        if rel == "src/ecgen.c":
            cmd = cmd + ["-Dmain=ecgen_main"]
        jobs.append((cmd + ["-I" + os.path.join(REPO, "lib", "parson"), "-c", f, "-o", o], o, rel))
    sim = os.path.join(work, "sim.o")

    def one(j):
        cmd, o, rel = j
        run(cmd)
        if rel.startswith("src/"):
            # put ecgen's code in one named section, so that callers can be told apart
            secs = [l.split()[1] for l in run(["objdump", "-h", "-w", o]).splitlines()
                    if len(l.split()) > 2 and l.split()[1].startswith(".text")]
            args = []
            for s in secs:
                args += ["--rename-section", s + "=ectext"]
            run(["objcopy"] + args + [o])
        # memory handed to these is looked at first
        run(["objcopy"] + ["--redefine-sym=%s=sim_%s" % (s, s) for s in CHECKED] + [o])

    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        fs = [ex.submit(one, j) for j in jobs]
        fs.append(ex.submit(run, ["gcc", "-O2", "-g", "-fno-pie", "-Wall", "-fno-builtin", "-c",
                                  os.path.join(HERE, "sim.c"), "-o", sim]))
        for f in fs:
            f.result()
    defd, und = pari_symbols()
    for o in objs:
        for l in run(["nm", o]).splitlines():
            p = l.split()
            if len(p) == 2 and p[0] == "U":
                und.add(p[1])
    syms = sorted((defd & und) - BLACK - {"avma"})
    heavy = [s for s in HEAVY if s in defd]
    with open(os.path.join(work, "tramp.S"), "w") as f:
        f.write(TRAMP_HEAD)
        for s in syms:
            f.write(f"\t.globl __wrap_{s}\n\t.type __wrap_{s},@function\n__wrap_{s}:\n")
            if s in heavy:
                # note the caller and the argument, then run the ordinary tick
                f.write("\tpushq %rdi\n\tpushq %rsi\n\tpushq %rdx\n\tsubq $8, %rsp\n"
                        f"\tmovq 24(%rsp), %rdx\n\tmovq 32(%rsp), %rsi\n\tmovl ${heavy.index(s)}, %edi\n"
                        "\tleaq sim_heavy_pp(%rip), %r11\n"
                        "\tcall sim_heavy_save\n\taddq $8, %rsp\n\tpopq %rdx\n\tpopq %rsi\n\tpopq %rdi\n")
            f.write("\tdecq sim_countdown(%rip)\n\tjs 1f\n"
                    f"\tjmp __real_{s}\n1:\tsubq $8, %rsp\n\tleaq sim_tick_slow(%rip), %r11\n"
                    f"\tcall sim_save_tick\n\taddq $8, %rsp\n\tjmp __real_{s}\n")
        f.write("""
	.globl sim_heavy_pp
sim_heavy_pp:
	/* rdi = id, rsi = caller; tail-called with everything saved */
	jmp sim_heavy
	.globl sim_heavy_save
sim_heavy_save:
	jmp sim_save_tick
	.section .note.GNU-stack,"",@progbits
""")
    tr = os.path.join(work, "tramp.o")
    run(["gcc", "-c", os.path.join(work, "tramp.S"), "-o", tr])
    rsp = os.path.join(work, "wrap.rsp")
    with open(rsp, "w") as f:
        for s in syms + LIBC_WRAP:
            f.write(f"-Wl,--wrap={s}\n")
    tmp = target + ".tmp%d" % os.getpid()
    run(["gcc", "-no-pie", "-o", tmp, "@" + rsp, sim, tr] + objs +
        [PARI, "-lgmp", "-lm", "-ldl", "-lpthread", "-lrt"])
    calls = run(["objdump", "-d", "--section=ectext", "--no-show-raw-insn", tmp]).count("<__sanitizer_cov_trace_pc>\n")
    with open(target + ".blocks", "w") as f:
        f.write("%d\n" % calls)
    os.rename(tmp, target)
    if os.environ.get("SIM_KEEP") is None:
        shutil.rmtree(work, ignore_errors=True)
    # keep the build directory small
    old = sorted((f for f in glob.glob(os.path.join(OUT, "ecsim-*")) if not f.endswith(".blocks")), key=os.path.getmtime)
    for o in old[:-6]:
        try:
            os.unlink(o)
        except OSError:
            pass
    return target


def helper():
    """the program that does long sums for the judges"""
    os.makedirs(OUT, exist_ok=True)
    src = os.path.join(HERE, "helper.c")
    target = os.path.join(OUT, "helper-" + hashlib.sha256(open(src, "rb").read()).hexdigest()[:16])
    if not os.path.exists(target):
        tmp = target + ".tmp%d" % os.getpid()
        run(["gcc", "-O2", "-w"] + ["-o", tmp, src, PARI, "-lgmp", "-lm", "-ldl", "-lpthread"])
        os.rename(tmp, target)
    return target


if __name__ == "__main__":
    helper()
    print(build(True))
