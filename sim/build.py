#!/usr/bin/env python3
"""Builds the simulators from /repo's current working tree.

    build.py OUTDIR [x86] [arm]

For each implementation directory the sources are compiled to assembly with the flags of
the shipped build, then assembled twice: as they are ("plain") and with a seam in front of
every instruction ("hooked"). Each of both is linked into one relocatable object whose
symbols are prefixed, so that all implementations live in one simulator binary, and whose
writable static data is gathered in one section the simulator can watch and reset.
Compilation results are cached in OUTDIR/cache by content."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
from collections import defaultdict
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import instr_arm
import instr_x86

REPO = os.environ.get("SIM_REPO", "/repo")
ALGS = {"isapa128av20": 0, "isapa128v20": 1, "isapk128av20": 2, "isapk128v20": 3}
OPT = ["-O3", "-DNDEBUG"]
PORTABLE = True     # portable implementations are also run on ARM
STRICT = ["-mno-unaligned-access"]      # a machine (ARMv6-M) where every unaligned access faults
GENARM = ["-march=armv7-a", "-mthumb"]
SFLAGS = ["-S", "-ftls-model=local-exec", "-fno-asynchronous-unwind-tables", "-g0", "-w"]
ENV = """malloc calloc realloc free aligned_alloc posix_memalign memalign valloc reallocarray strdup
printf puts putchar putc fputc fputs fprintf vprintf vfprintf fwrite fflush perror __printf_chk __fprintf_chk
__vprintf_chk __vfprintf_chk fopen fclose fread fgets fgetc getc getchar open openat close read write lseek
getrandom getentropy rand random srand srandom rand_r drand48 arc4random arc4random_buf
time clock clock_gettime gettimeofday times getenv secure_getenv sleep usleep nanosleep sched_yield poll select
abort exit _exit _Exit __assert_fail __assert raise kill signal sigaction sigprocmask pthread_sigmask
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_init pthread_mutex_destroy
pthread_once pthread_create pthread_join pthread_self pthread_spin_lock pthread_spin_unlock pthread_spin_init
pthread_getspecific pthread_setspecific pthread_key_create
mmap munmap mprotect mlock munlock syscall getpid gettid sysconf
atexit setenv putenv setlocale fesetround fesetenv feholdexcept feupdateenv alarm setpriority sched_setaffinity sched_setscheduler""".split()
MEMF = {"memcpy": "memcpy", "memmove": "memmove", "memset": "memset", "memcmp": "memcmp", "bcmp": "memcmp",
        "__memcpy_chk": "memcpy", "__memmove_chk": "memmove", "__memset_chk": "memset",
        "bzero": "bzero", "explicit_bzero": "bzero", "__explicit_bzero_chk": "bzero",
        "__aeabi_memcpy": "memcpy", "__aeabi_memcpy4": "memcpy", "__aeabi_memcpy8": "memcpy",
        "__aeabi_memmove": "memmove", "__aeabi_memclr": "bzero", "__aeabi_memclr4": "bzero", "__aeabi_memclr8": "bzero",
        "strlen": "strlen", "strcmp": "strcmp", "strncmp": "strncmp"}


class Fail(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode != 0:
        raise Fail(" ".join(c for c in cmd if not c.endswith(".o"))[:1000] + "\n" + r.stdout[-3000:])
    return r.stdout


class Impl:
    def __init__(self, name, path, alg, arch, cflags, sources, has_hash, avx):
        self.name, self.path, self.alg, self.arch = name, path, alg, arch
        self.cflags, self.sources, self.has_hash, self.avx = cflags, sources, has_hash, avx
        self.pfx = "I_" + re.sub(r"\W", "_", name) + "__"


def impls():
    found = []
    for d in sorted(glob.glob(REPO + "/crypto_aead*/*/*/")):
        d = d.rstrip("/")
        rel = os.path.relpath(d, REPO)
        top, alg, impl = rel.split("/")
        if rel == "crypto_aead/isapxv20/ref" or alg not in ALGS:
            continue
        src = sorted(glob.glob(d + "/*.[cs]"))
        if not src:
            continue
        has_hash = top == "crypto_aead_hash"
        arch, avx, fl = "x86", "avx" in impl, []
        if avx:
            fl = ["-march=x86-64-v4"]
        elif impl.endswith("_armv6"):
            arch, fl = "arm", ["-march=armv6", "-marm"]
        elif "arm" in impl:
            arch, fl = "arm", ["-march=armv7-a", "-mthumb"] + STRICT * ("armv6" in impl)
        common = ["-I" + d, "-I" + REPO + "/tests", "-DCRYPTO_AEAD"] + ["-DCRYPTO_HASH"] * has_hash
        name = ("hash/" if has_hash else "aead/") + alg + "/" + impl
        found.append(Impl(name, rel, ALGS[alg], arch, fl + common, src, has_hash, avx))
        if arch == "x86" and not avx and PORTABLE and not impl.endswith("_64"):
            # portable C: the same sources on a 32-bit machine with unsigned char and strict alignment of double words
            found.append(Impl(name, rel, ALGS[alg], "arm", GENARM + common, src, has_hash, False))
    x = REPO + "/crypto_aead/isapxv20/ref"
    xs = [f for f in sorted(glob.glob(x + "/*.c") + glob.glob(x + "/lib/*/*.c")) if not f.endswith("/genkat_aead.c")]
    for size, permutation, alg in (("ISAP128A", "ASCON", "isapa128av20"), ("ISAP128", "ASCON", "isapa128v20"),
                                   ("ISAP128A", "KECCAKP400", "isapk128av20"), ("ISAP128", "KECCAKP400", "isapk128v20")):
        if xs:
            for arch in ("x86", "arm") if PORTABLE else ("x86",):
                found.append(Impl("x/isapxv20/ref:" + alg, "crypto_aead/isapxv20/ref", ALGS[alg], arch,
                                  (GENARM if arch == "arm" else []) + ["-D" + size, "-D" + permutation, "-DDEBUG=0"], xs, False, False))
    return found


def cc_of(arch):
    return "gcc" if arch == "x86" else "arm-linux-gnueabi-gcc"


class Builder:
    def __init__(self, out):
        self.out = os.path.abspath(out)
        self.cache = os.path.join(self.out, "cache")
        os.makedirs(self.cache, exist_ok=True)
        self.notes = []
        self.locks, self.guard = defaultdict(threading.Lock), threading.Lock()
        self.ver = "".join(open(os.path.join(HERE, f)).read() for f in ("instr_x86.py", "instr_arm.py", "build.py"))

    def key(self, *parts):
        h = hashlib.sha256(self.ver.encode())
        for p in parts:
            h.update(p.encode() if isinstance(p, str) else p)
            h.update(b"\0")
        return h.hexdigest()[:32]

    def lock(self, k):
        with self.guard:
            return self.locks[k]

    def assemble(self, imp_arch, flags, text):
        """plain and hooked objects of an assembly text"""
        k = self.key("asm", imp_arch, " ".join(flags), text)
        with self.lock(k):
            return self.assemble_locked(k, imp_arch, flags, text)

    def assemble_locked(self, k, imp_arch, flags, text):
        objs = [os.path.join(self.cache, k + v) for v in (".p.o", ".h.o")]
        if all(map(os.path.exists, objs)):
            return objs
        ins = instr_x86.instrument if imp_arch == "x86" else lambda t: instr_arm.instrument(t, STRICT[0] in flags)
        for v, obj in enumerate(objs):
            s = obj[:-2] + ".s"
            with open(s, "w") as f:
                f.write(ins(text) if v else text)
            a = []
            if imp_arch == "arm":
                a = [x for x in flags if x in ("-marm", "-mthumb")] + (["-march=armv7-a"] if v else [x for x in flags if x.startswith("-march")])
            try:
                run([cc_of(imp_arch)] + a + ["-c", s, "-o", obj + ".tmp"])
            except Fail as e:
                if not v:
                    raise
                # no seams in this file: it still runs, but in one step
                self.notes.append("runs without seams: " + str(e)[-300:])
                shutil.copy(objs[0], obj + ".tmp")
            os.replace(obj + ".tmp", obj)
            os.remove(s)
        return objs

    def compile_one(self, arch, flags, src):
        cc = cc_of(arch)
        if src.endswith(".s"):
            return self.assemble(arch, flags, open(src, errors="replace").read())
        pre = run([cc] + OPT + flags + ["-E", "-P", src])
        extra = SFLAGS + (["-fno-jump-tables"] if arch == "arm" else [])
        k = self.key("cc", arch, " ".join(f for f in flags if not f.startswith("-I")), pre)
        sfile = os.path.join(self.cache, k + ".s")
        with self.lock(k):
            if not os.path.exists(sfile):
                # compile the source itself, not the preprocessed text, as the shipped build does
                run([cc] + OPT + flags + extra + [src, "-o", sfile + ".tmp"])
                os.replace(sfile + ".tmp", sfile)
        return self.assemble(arch, flags, open(sfile, errors="replace").read())

    def compile_o0(self, arch, flags, src):
        """the same source without optimisation: accesses the optimiser would drop or merge stay in"""
        if src.endswith(".s"):
            return self.assemble(arch, flags, open(src, errors="replace").read())
        pre = run([cc_of(arch), "-DNDEBUG"] + flags + ["-E", "-P", src])
        k = self.key("o0", arch, " ".join(f for f in flags if not f.startswith("-I")), pre)
        sfile = os.path.join(self.cache, k + ".s")
        with self.lock(k):
            if not os.path.exists(sfile):
                for level in ("-O0", "-O1", "-O3") if "-march=x86-64-v4" not in flags else ("-O1", "-O3"):
                    try:
                        run([cc_of(arch), level, "-DNDEBUG"] + flags + SFLAGS + [src, "-o", sfile + ".tmp"])
                        break
                    except Fail:
                        if level == "-O3":
                            raise
                os.replace(sfile + ".tmp", sfile)
        return self.assemble(arch, flags, open(sfile, errors="replace").read())

    def tool(self, arch, t):
        return t if arch == "x86" else "arm-linux-gnueabi-" + t

    def combine(self, imp, variant, objs):
        """one relocatable object of an implementation variant, symbols prefixed"""
        arch = imp.arch
        p = imp.pfx + "phoq"[variant] + "_"
        k = self.key("ld", arch, p, *[o for o in objs])
        obj = os.path.join(self.cache, k + ".o")
        meta = obj + ".json"
        if os.path.exists(obj) and os.path.exists(meta):
            return obj, json.load(open(meta))
        script = os.path.join(self.cache, k + ".ld")
        with open(script, "w") as f:
            f.write("SECTIONS { .data.rel.ro : { *(.data.rel.ro .data.rel.ro.*) }\n"
                    f" rw_{p} : {{ *(.data .data.* .bss .bss.* COMMON) }} }}\n")
        tmp = os.path.join(self.cache, k + ".tmp.o")
        tls = any(" TLS " in l and " UND " not in l for o in objs for l in run([self.tool(arch, "readelf"), "-sW", o]).splitlines())
        if tls:
            # thread-local data: bracketed by two symbols per section, so that the simulator can switch it with its threads
            marks = []
            for e in (0, 1):
                with open(f"{tmp}.{e}.s", "w") as f:
                    f.write("".join(f'.section {sec},"awT",{t}\n.balign 64\n.globl {p}{sec[1:]}{e}\n.type {p}{sec[1:]}{e},{t[0]}tls_object\n.size {p}{sec[1:]}{e},0\n{p}{sec[1:]}{e}:\n'
                                    for sec, t in ((".tdata", "%progbits" if arch == "arm" else "@progbits"), (".tbss", "%nobits" if arch == "arm" else "@nobits"))))
                run([cc_of(arch), "-c", f"{tmp}.{e}.s", "-o", f"{tmp}.{e}.o"])
                os.remove(f"{tmp}.{e}.s")
                marks.append(f"{tmp}.{e}.o")
            objs = marks[:1] + objs + marks[1:]
        run([self.tool(arch, "ld"), "-r", "-d", "-T", script] + objs + ["-o", tmp])
        nm = run([self.tool(arch, "nm"), "-g", tmp])
        ren, undef, defs = [], [], set()
        for line in nm.splitlines():
            f = line.split()
            t, s = f[-2], f[-1]
            if t in "Uwv":
                undef.append(s)
            else:
                if s in (p + "tdata0", p + "tdata1", p + "tbss0", p + "tbss1"):
                    continue
                defs.add(s)
                ren.append(f"{s} {p}{s}")
        ext = []
        for s in undef:
            if s in MEMF:
                ren.append(f"{s} sim_{MEMF[s]}_{'phph'[variant]}")
            elif s in ENV:
                ren.append(f"{s} env_{s}")
                ext.append(s)
            elif not s.startswith(("sim_", "__stack_chk", "__aeabi_", "__gnu_", "_GLOBAL_OFFSET", "__udiv", "__umod", "__div", "__mod", "__clz", "__ctz", "__popcount", "__tls_get_addr", "__aeabi_read_tp", "__ash", "__lsh", "__bswap")):
                ext.append(s)
        rfile = os.path.join(self.cache, k + ".ren")
        with open(rfile, "w") as f:
            f.write("\n".join(ren) + "\n")
        run([self.tool(arch, "objcopy")] + ["--redefine-syms=" + rfile, tmp, obj + ".tmp"])
        size = 0
        for line in run([self.tool(arch, "size"), "-A", tmp]).splitlines():
            f = line.split()
            if len(f) == 3 and f[0] == "rw_" + p:
                size = int(f[1])
        m = {"p": p, "rw": size, "tls": tls, "ext": ext,
             "enc": "crypto_aead_encrypt" in defs, "dec": "crypto_aead_decrypt" in defs, "hash": "crypto_hash" in defs}
        json.dump(m, open(meta, "w"))
        for f in (tmp, script, rfile):
            os.remove(f)
        os.replace(obj + ".tmp", obj)
        return obj, m

    def core(self, arch):
        cc = cc_of(arch)
        base = ["-O2", "-g0", "-Wall", "-Wno-unused-function", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-fno-pie"]
        if arch == "x86":
            base += ["-fcf-protection=none"]
        else:
            base += ["-march=armv7-a", "-marm"]
        objs = []
        for src in sorted(glob.glob(HERE + "/*.c")) + [HERE + f"/seam_{arch}.S"]:
            fl = list(base)
            if os.path.basename(src) == "hooks.c" and arch == "x86":
                fl += ["-mgeneral-regs-only"]
            text = open(src).read() + "".join(open(h).read() for h in sorted(glob.glob(HERE + "/*.h")))
            k = self.key("core", arch, text, " ".join(fl))
            if os.path.basename(src) == "libmem.c":
                s = os.path.join(self.cache, k + ".s")
                if not os.path.exists(s):
                    run([cc] + fl + ["-fno-tree-loop-distribute-patterns", "-fno-builtin", "-fno-asynchronous-unwind-tables", "-fno-jump-tables", "-fno-pie", "-S", src, "-o", s])
                pair = self.assemble(arch, [f for f in fl if f.startswith("-m")], open(s).read())
                for v, o in enumerate(pair):
                    o2 = o[:-2] + ".r.o"
                    if not os.path.exists(o2):
                        run([self.tool(arch, "objcopy")] + [f"--redefine-sym=M_{n}=sim_{n}_{'ph'[v]}" for n in ("memcpy", "memmove", "memset", "memcmp", "bzero", "strlen", "strcmp", "strncmp")] + [o, o2 + ".tmp"])
                        os.replace(o2 + ".tmp", o2)
                    objs.append(o2)
                continue
            o = os.path.join(self.cache, k + ".o")
            if not os.path.exists(o):
                run([cc] + fl + ["-c", src, "-o", o + ".tmp"])
                os.replace(o + ".tmp", o)
            objs.append(o)
        return objs

    def build(self, arch, pool):
        ims = [i for i in impls() if i.arch == arch]
        jobs = {}
        todo = [(i, s) for i in ims for s in i.sources]
        todo.sort(key=lambda t: (0 if "isapk" in t[0].name and ("opt_64" in t[0].name or "avx" in t[0].name) else 1))
        for i, s in todo:
            jobs[i.name, s] = pool.submit(self.compile_one, arch, i.cflags, s)
            if arch == "x86":
                jobs[i.name, s, 2] = pool.submit(self.compile_o0, arch, i.cflags, s)
        variants = (0, 1, 2, 3) if arch == "x86" else (0, 1)
        core = pool.submit(self.core, arch)

        def comb(i, v):
            return self.combine(i, v, [jobs[i.name, s, 2].result()[v - 2] if v >= 2 else jobs[i.name, s].result()[v] for s in i.sources])
        # wait for compilations first, then combine in parallel
        bad = {}
        for n, j in jobs.items():
            try:
                j.result()
            except Fail as e:
                bad[n[0]] = str(e)
        cj = {(i.name, v): pool.submit(comb, i, v) for i in ims if i.name not in bad for v in variants}
        for n, j in cj.items():
            try:
                m = j.result()[1]
                if not (m["enc"] and m["dec"]):
                    raise Fail("no crypto_aead_encrypt/decrypt")
            except Fail as e:
                bad[n[0]] = str(e)
        while True:
            for n in sorted(bad):
                # an implementation that cannot be built cannot be used: it is left out
                self.notes.append(f"{arch}: {n} left out, it does not build: {bad[n][-300:]}")
            ims = [i for i in ims if i.name not in bad]
            if not ims:
                raise Fail("no implementation can be built: " + str(bad)[:2000])
            try:
                return self.link(arch, ims, cj, variants, core)
            except Fail as e:
                bad = {i.name: str(e) for i in ims if i.pfx in str(e)}
                if not bad:
                    raise

    def link(self, arch, ims, cj, variants, core):
        table, decl, objs = [], [], []
        for i in ims:
            rows = []
            for v in variants:
                o, m = cj[i.name, v].result()
                objs.append(o)
                p = m["p"]
                h = m["hash"] and i.has_hash
                decl.append(f"extern int {p}crypto_aead_encrypt(), {p}crypto_aead_decrypt();")
                if h:
                    decl.append(f"extern int {p}crypto_hash();")
                if m["rw"]:
                    decl.append(f"extern char __start_rw_{p}[], __stop_rw_{p}[];")
                tl = "0"
                if m["tls"]:
                    decl.append("extern __thread char " + ", ".join(f"{p}{x}[]" for x in ("tdata0", "tdata1", "tbss0", "tbss1")) + ";")
                    decl.append(f"static int tls_{p}(char **a, unsigned *n) {{ a[0] = {p}tdata0; n[0] = {p}tdata1 - {p}tdata0; a[1] = {p}tbss0; n[1] = {p}tbss1 - {p}tbss0; return 2; }}")
                    tl = f"tls_{p}"
                rows.append((f"(enc_fn){p}crypto_aead_encrypt", f"(dec_fn){p}crypto_aead_decrypt",
                             f"(hash_fn){p}crypto_hash" if h else "0",
                             f"__start_rw_{p}" if m["rw"] else "0", f"__stop_rw_{p}" if m["rw"] else "0", tl))
            if len(rows) == 2:
                rows += rows
            ext = ",".join(m["ext"])
            table.append('{"%s",%d,%d,"%s",{%s},{%s},{%s},{%s},{%s},{%s}}' % (
                i.name, i.alg, int(i.avx), ext, *[",".join(r[j] for r in rows) for j in range(6)]))
        glue = '#include "sim.h"\n' + "\n".join(decl) + "\nconst struct impl IMPLS[] = {\n" + ",\n".join(table) + "\n};\nconst int NIMPLS = %d;\n" % len(table)
        os.makedirs(self.out, exist_ok=True)
        g = os.path.join(self.out, f"glue_{arch}.c")
        with open(g, "w") as f:
            f.write(glue)
        cc = cc_of(arch)
        fl = [] if arch == "x86" else ["-march=armv7-a", "-marm"]
        run([cc] + fl + ["-O1", "-w", "-fno-pie", "-I" + HERE, "-c", g, "-o", g[:-2] + ".o"])
        exe = os.path.join(self.out, f"sim_{arch}")
        run([cc] + fl + ["-static", "-no-pie", "-Wl,-z,noexecstack", "-Wl,-z,norelro", g[:-2] + ".o"] + core.result() + objs + ["-lm", "-o", exe + ".tmp"])
        os.replace(exe + ".tmp", exe)
        return exe


def build(out, archs, notes=None):
    with ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as pool, ThreadPoolExecutor(4) as outer:
        b = Builder(out)
        os.environ["TMPDIR"] = b.cache
        try:
            fs = [outer.submit(b.build, a, pool) for a in archs]
            r = [f.result() for f in fs]
            if notes is not None:
                notes += b.notes
            return r
        except Fail as e:
            raise SystemExit("BUILD FAILED: " + str(e))


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2:] or ["x86", "arm"]))
