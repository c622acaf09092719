#!/usr/bin/env python3
"""Measures the checks: plants random small changes in a scratch copy of /repo and counts which the checks notice.

  tools/mutate.py SEED COUNT LOG [FILE...]      never touches /repo; not used by any check
"""
import os, random, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("MUT_DIR", "/tmp/mut")
ALL = """lib/high/Keccak/KeccakSponge.inc lib/high/Keccak/KeccakDuplex.inc lib/high/Keccak/FIPS202/KeccakHash.c
lib/high/Keccak/FIPS202/SimpleFIPS202.c lib/high/Keccak/SP800-185/SP800-185.inc lib/high/Keccak/SP800-185/SP800-185.c
lib/high/Keccak/PRG/KeccakPRG.inc lib/high/KangarooTwelve/KangarooTwelve.c lib/high/TurboSHAKE/TurboSHAKE.c
lib/high/Kravatte/Kravatte.c lib/high/Kravatte/KravatteModes.c lib/high/Xoofff/Xoofff.c lib/high/Xoofff/XoofffModes.c
lib/high/Xoodyak/Xoodyak.c lib/high/Xoodyak/Cyclist.inc util/KeccakSum/KeccakSum.c util/KeccakSum/base64.c
lib/low/KeccakP-1600/plain-64bits/KeccakP-1600-opt64.c lib/low/KeccakP-1600/plain-32bits-inplace/KeccakP-1600-inplace32BI.c
lib/low/KeccakP-1600-times2/SIMD128/KeccakP-1600-times2-SIMD128.c lib/low/KeccakP-1600-times4/AVX2/KeccakP-1600-times4-SIMD256.c
lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c lib/low/Xoodoo/plain/Xoodoo-optimized.c
lib/low/Xoodoo-times8/AVX2/Xoodoo-times8-SIMD256.c lib/low/Xoodoo-times16/AVX512/Xoodoo-times16-SIMD512.c
lib/low/Xoodoo/ref/Xoodoo-reference.c lib/low/Xoodoo/SSE2/Xoodoo-SIMD128.c lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c lib/low/Xoodoo/AVX512/Xoodoo-SIMD512.c
lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c lib/low/Xoodoo/plain/Xoodyak-full-blocks.c lib/low/Xoodoo-times4/SSSE3/Xoodoo-times4-SIMD128.c
lib/low/Xoodoo-times4/AVX512/Xoodoo-times4-SIMD512.c lib/low/Xoodoo-times8/AVX512/Xoodoo-times8-SIMD512.c lib/low/common/SnP-Relaned.h lib/low/common/PlSnP-Fallback.inc
lib/low/KeccakP-1600/ref-64bits/KeccakP-1600-reference.c lib/low/KeccakP-1600/ref-32bits/KeccakP-1600-reference32BI.c lib/low/KeccakP-1600/compact/KeccakP-1600-compact64.c
lib/low/KeccakP-1600/AVX512/C/KeccakP-1600-AVX512.c lib/low/KeccakP-1600-times2/AVX512/KeccakP-1600-times2-SIMD512.c lib/low/KeccakP-1600-times4/AVX512/KeccakP-1600-times4-SIMD512.c
Standalone/CompactFIPS202/C/TweetableFIPS202.c Standalone/CompactFIPS202/C/Keccak-readable-and-compact.c Standalone/CompactFIPS202/Python/CompactFIPS202.py
Standalone/CompactFIPS202/Python/KeccakSum.py Standalone/KangarooTwelve/Rust/k12.rs""".split()


def checks_for(f):
    b = os.path.basename(f)
    if f.startswith("Standalone"):
        return ["C21"]
    if f.startswith("lib/low"):
        return ["C12"] * ("Xoodyak" in b) + ["C18", "C16", "C17"]
    table = [("KeccakSponge", "C01 C02 C06"), ("KeccakDuplex", "C05"), ("KeccakHash", "C01"), ("SimpleFIPS", "C01"), ("SP800", "C03"), ("PRG", "C06"), ("Kangaroo", "C04"), ("Turbo", "C02"),
             ("KravatteModes", "C09 C10 C11"), ("Kravatte", "C07"), ("XoofffModes", "C09 C10 C11"), ("Xoofff", "C08"), ("Cyclist", "C12"), ("KeccakSum", "C19"), ("base64", "C19")]
    for k, v in table:
        if k in b:
            return v.split() + (["C13", "C17", "C15"] if v != "C19" else [])
    return ["C12", "C13", "C17", "C15"]


OPS = [(r"<=", "<"), (r"(?<![<-])<(?![<=])", "<="), (r">=", ">"), (r"(?<![->])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\+=", "-="), (r"-=", "+="), (r"(?<!\+)\+(?![+=])", "-"), (r"(?<!-)-(?![-=>])", "+"), (r"\^=", "="), (r"\|=", "="), (r"\b(\d+)\b", None), (r"(?<!\|)\|(?![|=])", "^"), (r"(?<![&\w])&(?![&=\w])", "|")]


def mutants(path):
    out, comment = [], False
    lines = open(path, newline="").read().split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if comment:
            comment = "*/" not in s
            continue
        if not s or s.startswith(("#", "//", "*", "extern", "static const", "typedef")) or "assert" in s:
            continue
        code = l.split("/*")[0]
        for rx, rep in OPS:
            for m in re.finditer(rx, code):
                if rep is None:
                    v = m.group(1)
                    for w in (str(int(v) + 1), str(max(0, int(v) - 1))):
                        if w != v:
                            out.append((i, l[:m.start()] + w + l[m.end():]))
                else:
                    out.append((i, l[:m.start()] + rep + l[m.end():]))
        if re.match(r"^[\w\->\[\]\.\*\(\), +]+(=|\+=|-=|\^=|\(|\+\+).*;\s*\\?$", s) and not re.match(r"^(return|goto|break|unsigned|int|size_t|const|UINT|V\d)", s):
            cont = l.rstrip("\r").endswith("\\")
            out.append((i, "    ;" + (" \\" if cont else "")))
            out.append((i, "    ;" + (" \\" if cont else "")))
    return lines, out


def main():
    seed, count, log = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or ALL
    r = random.Random(seed)
    os.makedirs(BASE, exist_ok=True)
    repo, build = f"{BASE}/repo", f"{BASE}/build"
    if not os.path.exists(repo):
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
    env = dict(os.environ, SIM_REPO=repo, SIM_BUILD=build, SIM_ROOT=f"{BASE}/root")
    os.makedirs(f"{BASE}/root", exist_ok=True)
    killed = survived = invalid = 0
    files = [f for f in files if os.path.exists(f"{repo}/{f}")]
    w = [os.path.getsize(f"{repo}/{f}") ** 0.5 for f in files]
    for _ in range(count):
        f = r.choices(files, w)[0]
        subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
        lines, ms = mutants(f"{repo}/{f}")
        i, new = r.choice(ms)
        old = lines[i]
        lines[i] = new
        open(f"{repo}/{f}", "w", newline="").write("\n".join(lines))
        if subprocess.run([sys.executable, f"{HERE}/tools/build.py"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            invalid += 1
            continue
        by = None
        for c in checks_for(f):
            p = subprocess.run([f"{build}/sim", "check", c, "--build", build, "--root", f"{BASE}/root", "--limit", "60"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 1 and "VIOLATION" in p.stdout:
                by = c
                break
            if p.returncode not in (0, 1):
                by = f"{c}?{p.returncode}"
        killed += by is not None
        survived += by is None
        with open(log, "a") as o:
            o.write(f"{'killed by ' + by if by else 'SURVIVED'} {f}:{i + 1}\n" + ("" if by else f"  - {old.strip()}\n  + {new.strip()}\n"))
    with open(log, "a") as o:
        o.write(f"seed {seed}: {killed} killed, {survived} survived, {invalid} did not build\n")


if __name__ == "__main__":
    main()
