"""The stand-alone Python programs, asked through a pipe: one request per line, one answer per line (see s_alone.cpp).

KeccakSum.py's open() is a simulated one: files exist only in the request, and fail where it says so.
"""
import builtins, contextlib, importlib, io, os, resource, signal, sys

sys.dont_write_bytecode = True
where = sys.argv[1]
sys.path.insert(0, where)
modules = {}
for name in ("CompactFIPS202", "CompactFIPS202_numpy"):
    try:
        modules[name] = importlib.import_module(name)
    except ImportError as e:
        modules[name] = e
INSTANCES = ["SHAKE128", "SHAKE256", "SHA3_224", "SHA3_256", "SHA3_384", "SHA3_512"]
program = compile(open(os.path.join(where, "KeccakSum.py"), "rb").read(), "KeccakSum.py", "exec")


class File(io.RawIOBase):
    def __init__(self, data, err, chunk):
        self.data, self.err, self.chunk, self.at = data, err, chunk, 0

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), len(self.data) - self.at, self.chunk or len(b))
        if 0 <= self.err <= self.at + n:
            n = self.err - self.at
            if n <= 0:
                raise OSError(5, "Input/output error")
        b[:n] = self.data[self.at:self.at + n]
        self.at += n
        return n


def keccaksum(args, files):
    def fake(name, mode="r", *a, **k):
        if name not in files or files[name][1] == -2:
            raise FileNotFoundError(2, "No such file or directory", name)
        f = File(*files[name])
        return io.BufferedReader(f) if "b" in mode else io.TextIOWrapper(io.BufferedReader(f))
    out, old = io.StringIO(), sys.argv
    sys.argv = ["KeccakSum.py", *args]
    real, builtins.open, io.open = builtins.open, fake, fake        # pathlib goes through io.open
    try:
        with contextlib.redirect_stdout(out):
            exec(program, {"__name__": "__main__"})
    except SystemExit:
        pass
    finally:
        builtins.open, io.open, sys.argv = real, real, old
    return out.getvalue().encode().hex() or "-"


def answer(w):
    if w[0] == "sum":           # sum <arguments, separated by commas> then name:data:error:chunk for each file
        files = {}
        for x in w[2:]:
            n, d, e, c = x.split(":")
            files[n] = (bytes.fromhex(d), int(e), int(c))
        return keccaksum([a for a in w[1].split(",") if a], files)
    m = modules[w[1]]
    if isinstance(m, Exception):
        return "missing"
    data = bytearray.fromhex(w[3] if w[3] != "-" else "")
    if w[0] == "keccak":        # keccak <module> <rate> <data> <suffix> <output length>
        r = int(w[2])
        h = m.Keccak(r, 1600 - r, data, int(w[4]), int(w[5]))
    else:                       # fips <module> <instance> <data> <output length>
        f = getattr(m, INSTANCES[int(w[2])])
        h = f(data, int(w[4])) if int(w[2]) < 2 else f(data)
    return bytes(h).hex() or "-"


class Endless(Exception):
    pass


def endless(*_):
    raise Endless("10 seconds of CPU time")


signal.signal(signal.SIGVTALRM, endless)
resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
for line in sys.stdin:
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, 10)
        s = answer(line.split(" ")) if not line.endswith("\n") else answer(line[:-1].split(" "))
    except BaseException as e:
        s = "exception " + repr(e).replace("\n", " ")
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    sys.stdout.write(s + "\n")
    sys.stdout.flush()
