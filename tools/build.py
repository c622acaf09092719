#!/usr/bin/env python3
"""Builds the simulated system from /repo's current working tree.

Reads XKCP's own build description (Makefile.build and everything it XIncludes) the way the project does, compiles
every x86-64 target this CPU can run into one shared object per target ("backend"), with a basic-block callback
(-fsanitize-coverage=trace-pc) so that the simulator can preempt the library anywhere, adds sim/shim.c, which exposes
the target's public API as a table of function pointers, and links the simulator itself.  Everything goes under
/verif/build (ignored by git); objects are cached by the content they depend on, so a changed tree is always rebuilt.
"""
import shutil, concurrent.futures, fcntl, hashlib, os, random, subprocess, sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
XI = "{http://www.w3.org/2001/XInclude}include"
TARGETS = os.environ.get("SIM_TARGETS", "") or ("reference reference32bits compact generic32 generic32lc generic64 generic64lc "
           "SSSE3 AVX AVX2 AVX2noAsm AVX512 AVX512noAsm")
TARGETS = TARGETS.split()
# a backend is only built when the CPU can run it
NEEDS = {"SSSE3": "ssse3", "AVX": "avx", "AVX2": "avx2", "AVX2noAsm": "avx2",
         "AVX512": "avx512f avx512vl avx512bw avx512dq", "AVX512noAsm": "avx512f avx512vl avx512bw avx512dq"}
# Custom builds, as doc/HOWTO-customize.build describes them: one implementation of each permutation and, at will, one for
# each degree of parallelism.  "" leaves a degree out.
CHOICES = [
    ["K1600-ref-64bits", "K1600-ref-32bits", "K1600-compact", "K1600-plain-32bits-inplace", "K1600-plain-64bits-u6", "K1600-plain-64bits-ua",
     "K1600-plain-64bits-lcu6", "K1600-plain-64bits-lcua", "K1600-plain-64bits-lcua-shld", "K1600-x86-64", "K1600-x86-64-shld", "K1600-AVX2",
     "K1600-AVX512-C", "K1600-AVX512"],
    ["", "K1600x2-SSSE3-u2", "K1600x2-SSSE3-ua", "K1600x2-AVX512-u4", "K1600x2-AVX512-u12", "K1600x2-AVX512-ua"],
    ["", "K1600x4-AVX2-u6", "K1600x4-AVX2-u12", "K1600x4-AVX2-ua", "K1600x4-AVX512-u4", "K1600x4-AVX512-u12", "K1600x4-AVX512-ua"],
    ["", "K1600x8-AVX512-u4", "K1600x8-AVX512-u12", "K1600x8-AVX512-ua"],
    ["Xoodoo-ref", "Xoodoo-plain-ua", "Xoodoo-SSE2", "Xoodoo-AVX512"],
    ["", "Xoodoox4-SSSE3", "Xoodoox4-AVX512"],
    ["", "Xoodoox8-AVX2", "Xoodoox8-AVX512"],
    ["", "Xoodoox16-AVX512"],
]
SIM_CXX = ["-std=c++20", "-O2", "-g1", "-Wall", "-Wextra", "-fno-strict-aliasing", "-fPIC", "-U_FORTIFY_SOURCE"]


def cpu_flags():
    try:
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                return set(line.split(":")[1].split())
    except OSError:
        pass
    return set()


def fragments():
    found = {}

    def walk(node):
        for child in node:
            if child.tag == XI:
                walk(ET.parse(f"{REPO}/{child.get('href')}").getroot())
            elif child.tag == "fragment":
                found[child.get("name")] = child
            elif isinstance(child.tag, str):
                walk(child)

    walk(ET.parse(f"{REPO}/Makefile.build").getroot())
    return found


def resolve(frags, names):
    seen, out = set(), []

    def visit(name):
        if name in seen:
            return
        seen.add(name)
        node = frags[name]
        for parent in (node.get("inherits") or "").split():
            visit(parent)
        for e in node:
            if isinstance(e.tag, str):
                item = (e.tag, (e.text or "").strip(), e.get("gcc") or "")
                if item not in out:
                    out.append(item)

    for name in names:
        visit(name)
    return out


def custom_builds(seed, frags, flags):
    """Compositions of custom builds: every fragment in at least one of them, the rest drawn by the seed."""
    def possible(f):
        need = ["avx512f", "avx512vl", "avx512bw", "avx512dq"] if "AVX512" in f else ["avx2"] if "AVX2" in f else []
        return not f or (f in frags and all(x in flags for x in need))
    choices = [[f for f in c if possible(f)] for c in CHOICES]
    rng = random.Random(seed)
    for c in choices:
        rng.shuffle(c)
    n = max(len(c) for c in choices)
    rows = [[c[i] if i < len(c) else rng.choice(c) for c in choices] for i in range(n)]
    for c in range(len(choices)):   # pair the fragments anew for each seed
        column = [r[c] for r in rows]
        rng.shuffle(column)
        for r, x in zip(rows, column):
            r[c] = x
    return {"+".join(f for f in r if f): [f for f in r if f] for r in rows}


def sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def headers_digest():
    h = hashlib.sha1()
    roots = [f"{REPO}/lib", f"{REPO}/tests/UnitTests", f"{REPO}/util"]
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".inc", ".macros", ".c", ".rs")):
                    # .c files are included too: some are #included by others
                    p = os.path.join(d, f)
                    if f.endswith(".c") and not root.endswith("/lib"):
                        continue
                    if f.endswith(".c"):
                        continue
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout[-4000:] + "\n")
    return r.returncode


def rust(so, src):
    """The Rust implementation of KangarooTwelve with an entry point for C, with the run-time checks of a debug build."""
    path = f"{REPO}/Standalone/KangarooTwelve/Rust/k12.rs"
    entry = """
fn alone_slice<'a>(p: *const u8, n: usize) -> &'a [u8] { if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(p, n) } } }
#[no_mangle]
pub extern "C" fn alone_k12(m: *const u8, n: usize, c: *const u8, l: usize, out: *mut u8, len: usize) {
    let r = KangarooTwelve(alone_slice(m, n), alone_slice(c, l), len);
    assert_eq!(r.len(), len);
    if len != 0 { unsafe { std::ptr::copy_nonoverlapping(r.as_ptr(), out, len) } }
}
"""
    text = open(path).read() + entry if os.path.exists(path) else ""
    key = sha(text)
    if os.path.exists(so + ".key") and open(so + ".key").read() == key:
        return
    for f in (so, so + ".key"):
        if os.path.exists(f):
            os.unlink(f)
    write(src, text)
    if text and not run(["rustc", "--edition", "2018", "-A", "warnings", "--crate-type", "cdylib", "-C", "opt-level=1", "-C", "debug-assertions=on", "-C", "panic=abort", "-o", so + ".tmp", src]):
        os.rename(so + ".tmp", so)
    open(so + ".key", "w").write(key)


def prune(d, limit=3000):
    """Keep the object cache bounded."""
    try:
        es = sorted((e.stat().st_mtime, e.path) for e in os.scandir(d))
    except OSError:
        return
    for _, p in es[:-limit] if len(es) > limit else []:
        os.unlink(p)


def main():
    os.makedirs(OUT, exist_ok=True)
    objdir = os.environ.get("SIM_OBJ", f"{OUT}/obj")
    os.makedirs(objdir, exist_ok=True)
    lock = open(f"{objdir}/../.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    frags = fragments()
    flags = cpu_flags()
    hd = headers_digest()
    simh = sha(*[open(f"{HERE}/sim/{f}", "rb").read() for f in sorted(os.listdir(f"{HERE}/sim")) if f.endswith((".h", ".hpp"))])
    prune(objdir, 6000)
    jobs, sos, built, post, alone = {}, [], [], [], []

    def obj(src, cmd, extra=""):
        key = sha(" ".join(cmd), open(src, "rb").read(), hd, extra)
        out = f"{objdir}/{os.path.basename(src)}.{key}.o"
        if not os.path.exists(out):
            jobs[out] = cmd + ["-c", src, "-o", out + ".tmp"]
        else:
            os.utime(out)
        return out

    targets = {t: [t] for t in TARGETS}
    custom = bool(os.environ.get("SIM_CUSTOM"))
    # C20: every basic block and every access of memory calls the simulator
    trace = ["-fsanitize=kernel-address", *(f"--param={x}" for x in ("asan-instrumentation-with-call-threshold=0", "asan-stack=0", "asan-globals=0")),
             "-U_FORTIFY_SOURCE", *(f"-D{f}=sim_{f}" for f in ("memcpy", "memmove", "memset", "memcmp"))] if os.environ.get("SIM_TRACE") else []
    if custom:
        targets = {"generic64": ["generic64"], **custom_builds(int(os.environ["SIM_CUSTOM"]), frags, flags)}
    for t, parts in targets.items():
        if any(f not in frags for f in parts) or not all(f in flags for f in NEEDS.get(t, "").split()):
            continue
        items = resolve(frags, ["All", "TurboSHAKE", *parts])
        config = "".join(f"#define {x}\n" for tag, x, _ in items if tag == "config")
        conf = f"{OUT}/conf/{sha(config)[:10]}"
        write(f"{conf}/config.h", config)
        gcc = [x for tag, x, _ in items if tag == "gcc" and not x.endswith("=native") and not x.startswith("-l")]
        gas = [x for tag, x, _ in items if tag == "gas"]
        dirs = list(dict.fromkeys(os.path.dirname(x) for tag, x, _ in items if tag in ("h", "inc")))
        defines = [f"-D{x}" for tag, x, _ in items if tag == "define"]
        inc = [f"-I{conf}", *(f"-I{REPO}/{d}" for d in dirs)]
        objs = []
        for tag, src, own in items:
            if tag == "c":
                objs.append(obj(f"{REPO}/{src}", ["gcc", *gcc, *own.split(), *defines, "-fPIC", "-w",
                                                  "-fsanitize-coverage=trace-pc", *trace, *inc]))
            elif tag == "s":
                objs.append(obj(f"{REPO}/{src}", ["gcc", "-x", "assembler", *gas, "-fPIC"]))
        shimflags = [x for tag, x, own in items if tag == "c" for x in own.split()]
        shimflags = list(dict.fromkeys(shimflags))
        for part in range(1, 6):
            objs.append(obj(f"{HERE}/sim/shim.c", ["gcc", "-O1", f"-DPART={part}", *shimflags, *defines, "-fPIC", "-w", *inc]))
        if t == "generic64" and not trace:
            # the command-line tool; its main() and its I/O entry points are renamed in the object file, so that the
            # simulator owns its file system and its standard output
            for src in ("util/KeccakSum/KeccakSum.c", "util/KeccakSum/base64.c"):
                if os.path.exists(f"{REPO}/{src}"):
                    o = obj(f"{REPO}/{src}", ["gcc", "-O2", "-fPIC", "-w", "-U_FORTIFY_SOURCE", "-fsanitize-coverage=trace-pc", *inc])
                    redefine = f"{HERE}/sim/keccaksum.redefine"
                    r = f"{objdir}/r.{sha(o, open(redefine, 'rb').read())}.o"
                    post.append((r, ["objcopy", f"--redefine-syms={redefine}", o]))
                    objs.append(r)
        if t == "generic64" and not trace and not custom:
            # the stand-alone programs in C: their entry points are told apart by a prefix, everything else becomes local
            d = f"{REPO}/Standalone/CompactFIPS202/C"
            fips = [f"FIPS202_{x}" for x in ("SHAKE128", "SHAKE256", "SHA3_224", "SHA3_256", "SHA3_384", "SHA3_512")]
            tweet = [f"crypto_hash_{x}" for x in ("shake128", "shake256", "sha3224", "sha3256", "sha3384", "sha3512")]
            for n, (src, names) in enumerate((("Keccak-readable-and-compact.c", ["Keccak", *fips]), ("Keccak-more-compact.c", ["Keccak", *fips]), ("TweetableFIPS202.c", tweet))):
                if not os.path.exists(f"{d}/{src}"):
                    continue
                o = obj(f"{d}/{src}", ["gcc", "-O2", "-fPIC", "-w", "-fsanitize-coverage=trace-pc"])
                alone.append(o)
                r = f"{objdir}/a.{sha(o, str(n), *names)}.o"
                post.append((r, ["objcopy", *(f"--redefine-sym={x}=alone{n}_{x}" for x in names), *(f"--keep-global-symbol=alone{n}_{x}" for x in names), o]))
                objs.append(r)
        so = f"{OUT}/backend_{t}.so"
        sos.append((so, objs))
        built.append(t)
    simobjs = []
    for f in sorted(os.listdir(f"{HERE}/sim")):
        if f.endswith(".cpp"):
            simobjs.append(obj(f"{HERE}/sim/{f}", ["g++", *SIM_CXX], simh))

    with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("SIM_JOBS", "8"))) as ex:
        def one(item):
            out, cmd = item
            rc = run(cmd)
            if rc == 0:
                os.rename(out + ".tmp", out)
            return rc, out
        # big translation units first
        order = sorted(jobs.items(), key=lambda kv: -os.path.getsize(kv[1][-3]))
        failed = [o for rc, o in ex.map(one, order) if rc]
        # stand-alone programs that do not compile are C21's business
        lost = [r for r, cmd in post if cmd[-1] in failed and cmd[-1] in alone]
        failed = [o for o in failed if o not in alone]
        post = [x for x in post if x[0] not in lost]
        sos = [(so, [o for o in objs if o not in lost]) for so, objs in sos]
        broken = {so: [o for o in objs if o in failed] for so, objs in sos if any(o in failed for o in objs)}
        if custom and broken and set(failed) == {o for x in broken.values() for o in x} and f"{OUT}/backend_generic64.so" not in broken:
            # custom builds that do not compile are C22's business
            sos = [x for x in sos if x[0] not in broken]
            built = [t for t in built if f"{OUT}/backend_{t}.so" not in broken]
        elif failed:
            print("BUILD FAILED: " + " ".join(os.path.basename(o) for o in failed), file=sys.stderr)
            return 2

        for out, cmd in post:
            if not os.path.exists(out) and run(cmd + [out]):
                print("BUILD FAILED: " + out, file=sys.stderr)
                return 2

        def link(item):
            so, objs = item
            key = sha(*objs)
            stamp = so + ".key"
            if os.path.exists(so) and os.path.exists(stamp) and open(stamp).read() == key:
                return 0
            cmd = ["gcc", "-shared", "-Wl,-Bsymbolic", "-Wl,-z,noexecstack", "-o", so + ".tmp", *objs]
            if so.endswith("/sim"):
                cmd = ["g++", "-rdynamic", "-o", so + ".tmp", *objs, "-ldl", "-pthread"]
            rc = run(cmd)
            if rc == 0:
                os.rename(so + ".tmp", so)
                open(stamp, "w").write(key)
            return rc
        todo = list(sos)
        if simobjs:
            todo.append((f"{OUT}/sim", simobjs))
        for (so, objs), rc in zip(todo, list(ex.map(link, todo))):
            if rc and custom and so.startswith(f"{OUT}/backend_K"):
                broken[so] = ["link"]
                built.remove(so[len(f"{OUT}/backend_"):-3])
            elif rc:
                print("LINK FAILED", file=sys.stderr)
                return 2
    for f in os.listdir(OUT):
        if f.startswith("backend_") and f.endswith(".so") and f[8:-3] not in built:
            os.unlink(f"{OUT}/{f}")
    if not trace and not custom:
        rust(f"{OUT}/alone_k12.so", f"{OUT}/alone_k12.rs")
        python = shutil.which("python3-vt") or sys.executable
        write(f"{OUT}/alone.txt", f"{python}\n{HERE}/sim/alone.py\n{REPO}/Standalone/CompactFIPS202/Python\n")
    write(f"{OUT}/targets.txt", " ".join(built) + "\n")
    write(f"{OUT}/broken.txt", "".join(f"{so[len(OUT) + 9:-3]} {' '.join(os.path.basename(o) for o in objs)}\n" for so, objs in broken.items()))
    return 0


if __name__ == "__main__":
    sys.exit(main())
