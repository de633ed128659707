"""Replay of SumTool.tla with the programs gostsum and gost12sum, in a scratch directory."""
import os, shutil, subprocess, tempfile
from lib import ref
from lib.evp import data

SIZES = [0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 1000, 4096, 262143, 262144, 262145, 524295]
LONG = "/".join(["d" * 240] * 16) + "/"            # a path near the limit
NAMES = ["a", "b b", " lead", "trail ", "*star", "%s%n", "\u00fc\u0416", "tab\tin", "x" * 255, None]


class Env:
    pass


def setup(paths, seed):
    e = Env(); e.seed = seed; e.R = ref.get(paths["ref"])
    e.tool = {"gostsum": paths["gostsum"], "gost12sum": paths["gost12sum"]}
    e.sums, e.calls, e.lines = {}, 0, 0
    return e


def stats(e):
    return dict(program_runs=e.calls, lines_judged=e.lines)


class J:
    def __init__(self, e, job):
        self.e, self.id, self.content = e, job["id"], {}
        self.n = int(self.id[1:])
        self.d = tempfile.mkdtemp(prefix="sum_", dir="/tmp")
        self.w = os.path.join(self.d, "w")
        os.makedirs(self.w)
        self.fd = os.open(self.w, os.O_RDONLY)

    def name(self, n):
        x = NAMES[n - 1]
        if x is None:
            x = LONG + "y" * (4095 - len(LONG))
            if n not in self.content.get("made", ()):
                # build it step by step; the whole path is too long for makedirs from /
                p = self.fd
                for part in LONG.strip("/").split("/"):
                    try:
                        os.mkdir(part, dir_fd=p)
                    except FileExistsError:
                        pass
                    q = os.open(part, os.O_RDONLY, dir_fd=p)
                    if p != self.fd:
                        os.close(p)
                    p = q
                if p != self.fd:
                    os.close(p)
                self.content.setdefault("made", set()).add(n)
        return x

    def bytes(self, v):
        return self.content[v]

    def new(self, v, size):
        self.content[v] = self.fresh(bytearray(data(self.e.seed, "sum", self.id, v, SIZES[size - 1])))

    def fresh(self, b):
        """Two contents with different numbers are different."""
        while b and any(b == x for x in self.content.values() if isinstance(x, bytes)):
            b[0] = (b[0] + 1) % 256
        return bytes(b)

    def clear(self, n):
        nm = self.name(n)
        try:
            os.unlink(nm, dir_fd=self.fd)
        except IsADirectoryError:
            os.rmdir(nm, dir_fd=self.fd)
        except FileNotFoundError:
            pass

    def write(self, n, b):
        self.clear(n)
        fd = os.open(self.name(n), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644, dir_fd=self.fd)
        with os.fdopen(fd, "wb") as f:
            f.write(b)

    def run(self, t, args, inp=None, stdout=subprocess.PIPE, check=None, verbose=False, order=0):
        """check: how a list is given - ["-c", path], ["-cpath"], ["-c"]; the order of options does not matter."""
        e = self.e
        e.calls += 1
        opts = {"94": "", "94t": "t", "256": "", "512": "l"}[t] + ("v" if verbose else "")
        if order % 5 == 4 and t[0] == "9":
            opts += "b"
        if order % 2:
            opts = opts[::-1]
        each = ["-" + o for o in opts]
        if check:
            args = [each + check, check + each, ["-" + opts + check[0][1:]] + check[1:], each[:1] + check[:1] + each[1:] + check[1:]][order % 4]
        else:
            args = [each + args, args + each, (["-" + opts] if opts else []) + args][order % 3]
        p = subprocess.run([e.tool["gostsum" if t[0] == "9" else "gost12sum"]] + args, input=inp if inp is not None else b"", stdout=stdout,
                           stderr=subprocess.PIPE, cwd=self.w, timeout=60, env={"PATH": "/nonexistent"})
        return p


def hexsum(e, t, b):
    k = (t, b if len(b) < 2000 else hash(b))
    if k not in e.sums:
        if t[0] == "9":
            e.sums[k] = e.R.h94(1 if t == "94" else 0, b)[::-1].hex()
        else:
            e.sums[k] = e.R.streebog(int(t), b).hex()
        if len(e.sums) > 5000:
            x = e.sums[k]
            e.sums = {k: x}
    return e.sums[k]


def line(j, l, i):
    f, e = l["form"], j.e
    if f == "blank":
        return "\n"
    if f == "junk":
        return ["some text\n", "0\n", "# c\n", "SUM (a) = 00\n", "zz" * 32 + " a\n"][i % 5]
    h, nm = hexsum(e, l["t"], j.bytes(l["c"])), j.name(l["name"])
    n = len(h)
    if f == "upper":
        h = h.upper()
    if f == "digit":
        p = (i * 7 + n - 1) % n
        h = h[:p] + "0123456789abcdef"[(int(h[p], 16) + 1 + i % 15) % 16] + h[p + 1:]
    if f == "short":
        h = h[:-1 - i % 3]
    if f == "long":
        h = h + "0" * (1 + i % 3)
    if f == "nothex":
        p = (i * 11 + 5) % n
        h = h[:p] + "g/:@`"[i % 5] + h[p + 1:]
    if f == "nospace":
        return h + ["", "\t" + nm.replace(" ", "_"), "*" + nm.replace(" ", "_")][i % 3] + "\n"
    if f == "noname":
        return h + " \n"
    return h + " " + nm + ("\r\n" if f == "crlf" else "\n")


def died(p):
    if p.returncode < 0:
        return "killed by signal %d" % -p.returncode


def run_job(e, job):
    j = J(e, job)
    try:
        for i, h in enumerate(job["hist"]):
            r = globals()["do_" + h["op"]](e, j, h, i)
            if r:
                return dict(step=i, event={k: v for k, v in h.items() if k not in ("list",)}, problem=r)
    finally:
        os.close(j.fd)
        shutil.rmtree(j.d, ignore_errors=True)


def do_put(e, j, h, i):
    j.new(h["v"], h["size"])
    j.write(h["n"], j.bytes(h["v"]))


def do_alter(e, j, h, i):
    b = bytearray(j.bytes(h["of"]))
    if b:
        b[{"first": 0, "last": -1, "middle": len(b) // 2}[h["how"]]] ^= 1 << (i % 8)
    else:
        b = bytearray(b"\0")
    j.content[h["v"]] = b = j.fresh(b)
    j.write(h["n"], b)


def do_remove(e, j, h, i):
    j.clear(h["n"])


def do_mkdir(e, j, h, i):
    os.mkdir(j.name(h["n"]), dir_fd=j.fd)


def do_copy(e, j, h, i):
    fd = os.open(j.name(h["n"]), os.O_RDONLY, dir_fd=j.fd)
    with os.fdopen(fd, "rb") as f:
        b = f.read()
    j.write(h["m"], b)


def do_edit(e, j, h, i):
    pass


def do_sum(e, j, h, i):
    names = [j.name(n) for n in h["ns"]]
    if h["how"] == "names" and h["t"][0] != "9":
        p = j.run(h["t"], ["-x"], "".join(n + "\n" for n in names).encode())
    else:
        p = j.run(h["t"], names, order=i)
    if died(p):
        return died(p)
    want = "".join(hexsum(e, l["t"], j.bytes(l["c"])) + " " + j.name(l["name"]) + "\n" for l in h["lines"]).encode()
    if p.stdout != want:
        a, b = p.stdout.split(b"\n"), want.split(b"\n")
        k = next((k for k in range(max(len(a), len(b))) if a[k:k + 1] != b[k:k + 1]), 0)
        return "line %d is %r, not %r" % (k + 1, a[k:k + 1], b[k:k + 1])
    if bool(p.returncode) != bool(h["exit"]):
        return "exit status %d" % p.returncode
    e.lines += len(h["lines"])


def do_sumin(e, j, h, i):
    j.new(-h["v"] * 1000 - i, h["size"])
    b = j.bytes(-h["v"] * 1000 - i)
    opts = {"94": [], "94t": ["-t"], "256": [], "512": ["-l"]}[h["t"]]
    e.calls += 1
    if h["cut"] == 0:
        p = j.run(h["t"], [], b)
        out, rc = p.stdout, p.returncode
    else:
        q = subprocess.Popen([e.tool["gostsum" if h["t"][0] == "9" else "gost12sum"]] + opts, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, bufsize=0)
        try:
            for k in range(0, len(b), h["cut"]):
                m = memoryview(b)[k:k + h["cut"]]
                while m:
                    m = m[q.stdin.write(m):]
        except BrokenPipeError:
            return "stopped reading before the end (%s)" % q.communicate()[0][:200]
        q.stdin.close()
        out, rc = q.stdout.read(), q.wait(timeout=60)
        q.stdout.close(); q.stderr.close()
    if out.decode() != hexsum(e, h["t"], b) + " -\n" or rc:
        return "printed %r, exit status %d" % (out, rc)


def do_sumfull(e, j, h, i):
    with open("/dev/full", "w") as f:
        p = j.run(h["t"], [j.name(h["n"])], stdout=f)
    if p.returncode == 0:
        return "success though nothing was written"


def do_check(e, j, h, i):
    txt = "".join(line(j, l, k + i) for k, l in enumerate(h["list"]))
    if not h["eol"] and txt.endswith("\n"):
        txt = txt[:-1]
    path = os.path.join(j.d, "list")
    with open(path, "w") as f:
        f.write(txt)
    how = {"joined": ["-c" + path], "arg": ["-c", path], "stdin": ["-c"]}[h["how"]]
    p = j.run(h["t"], [], txt.encode() if h["how"] == "stdin" else None, check=how, verbose=h["verbose"], order=i + j.n)
    if died(p):
        return died(p)
    if h["exit"] != 2 and bool(p.returncode) != bool(h["exit"]):
        return "exit status %d; %r" % (p.returncode, p.stderr[-300:])
    err = p.stderr.decode("utf-8", "replace")
    vs = [(j.name(l["name"]), v) for l, v in zip(h["list"], h["verdicts"])]
    e.lines += len(vs)
    if h["verbose"]:
        got = [tuple(x.rsplit("\t", 1)) for x in err.split("\n") if x.endswith("\tOK") or x.endswith("\tFAILED")]
        want = [x for x in vs if x[1] in ("OK", "FAILED")]
        if got != want:
            return "verdicts %r, not %r" % (got[:6], want[:6])
    else:
        for n in set(x[0] for x in vs if x[1] in ("FAILED", "cannot")):
            if n not in err:
                return "nothing said about %r: %r" % (n, err[-300:])
        if h["exit"] == 0 and err:
            return "not silent: %r" % err[-300:]


def do_checkbad(e, j, h, i):
    path = os.path.join(j.d, "nolist")
    if h["what"] == "directory":
        os.makedirs(path, exist_ok=True)
    elif os.path.isdir(path):
        os.rmdir(path)
    p = j.run(h["t"], [], check=["-c", path], verbose=h["verbose"], order=i)
    if died(p):
        return died(p)
    if p.returncode == 0:
        return "success without a list"
