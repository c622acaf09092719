#!/usr/bin/env python3
"""Decides one property: builds the simulated system from /repo's working tree, then searches seeds.

  tools/check.py C07              the tier comes from VERIF_TIER (quick unless it says thorough), the seed from VERIF_SEED
  tools/check.py --replay FILE    runs one recorded plan again
Exit status 0: held on everything explored; 1: violated, with a VIOLATION line; 2: no answer (it did not build, say).
"""
import os, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    # C22 is about custom builds; the seed of the check, which is part of every plan's seed, draws their composition
    custom = None
    if args[0] == "C22":
        custom = os.environ.get("VERIF_SEED", "1")
    elif args[0] == "--replay":
        head = open(args[1]).readline().split()     # plan C22 <seed>
        if head[1:2] == ["C22"]:
            custom = str(int(head[-1]) // 1000000007)
    if custom is not None:
        custom = custom if custom.isdigit() else "1"
        os.environ.update(SIM_CUSTOM=custom, SIM_OBJ=os.path.join(OUT, "obj"), SIM_BUILD=os.path.join(OUT, "custom"))
    if args[0] == "C20" or (args[0] == "--replay" and "C20" in open(args[1]).read().split("cfg")[0].split()):
        os.environ.update(SIM_TRACE="1", SIM_OBJ=os.path.join(OUT, "obj"), SIM_BUILD=os.path.join(OUT, "trace"))
    out = os.environ.get("SIM_BUILD", OUT)
    if subprocess.run([sys.executable, os.path.join(HERE, "tools", "build.py")]).returncode:
        print("no answer: the build failed", file=sys.stderr)
        return 2
    if custom is not None:
        broken = [l.split()[0] for l in open(os.path.join(out, "broken.txt"))]
        if broken:
            root = os.environ.get("SIM_ROOT", HERE)
            path = os.path.join(root, "replays", f"C22-build-{custom}.txt")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write(f"build C22 seed {int(custom) * 1000000007}\n" + "".join(b + "\n" for b in broken))
            print(f"custom build {broken[0]} does not compile or link ({len(broken)} of this seed's do not)")
            print(f"VIOLATION property=C22 replay={path}")
            return 1
    sim = os.path.join(out, "sim")
    common = ["--build", out, "--root", os.environ.get("SIM_ROOT", HERE)]
    if args[0] == "--replay":
        if custom is not None and head[0] == "build":
            print("all custom builds of this seed compile")
            return 0
        return subprocess.run([sim, "replay", args[1], *common]).returncode
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in args else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cmd = [sim, "check", args[0], "--tier", tier, "--seed", str(seed), "--limit", "600" if tier == "thorough" else "240", *common]
    if "--runs" in args:
        cmd += ["--runs", args[args.index("--runs") + 1]]
    if "--limit" in args:
        cmd += ["--limit", args[args.index("--limit") + 1]]
    rc = subprocess.run(cmd).returncode
    return rc if rc in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())
