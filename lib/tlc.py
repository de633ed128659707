"""Run TLC and take its numbers and its printed behaviours."""
import os, re, json, subprocess, tempfile, shutil, threading
from concurrent.futures import ThreadPoolExecutor
from . import build as B
SPEC = os.path.join(B.VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


class Result(dict):
    pass


def run(module, cfg, consts=None, simulate=None, depth=None, seed=1, timeout=600, workers=1, coverage=True,
        extra=(), dump=None, env=None, mem="3g", expect_violation=False):
    """cfg: file name in spec/ or literal text (contains a newline).  Returns Result with states,
    distinct, depth, printed (list of JSON values printed with the '@@' prefix), actions
    ({action: distinct-or-generated counts})."""
    d = tempfile.mkdtemp(prefix="tlc_", dir="/tmp")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        text = cfg if "\n" in cfg else open(os.path.join(SPEC, cfg)).read()
        if consts:
            text = "CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in consts.items()) + text
        open(os.path.join(d, "M.cfg"), "w").write(text)
        cmd = ["java", "-Xmx" + mem, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
               "-Djava.io.tmpdir=" + d,
               "-cp", JARS, "tlc2.TLC", "-config", "M.cfg", "-metadir", os.path.join(d, "md"),
               "-workers", str(workers), "-lncheck", "final"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed)]
        elif coverage:
            cmd += ["-coverage", "60"]
        if dump:
            cmd += ["-dump", "dot,actionlabels", os.path.join(d, "g")]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise TLCError("TLC timed out on %s" % module)
        out = p.stdout
        r = Result(rc=p.returncode, out=out, printed=[], actions={}, states=0, distinct=0, depth=0)
        for ln in out.splitlines():
            if ln.startswith('"@@'):
                r["printed"].append(json.loads(json.loads(ln)[2:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            for m in re.finditer(r"(\d+) states generated[^,]*, (\d+) distinct states found", out):
                r["states"], r["distinct"] = int(m.group(1)), int(m.group(2))
        m = re.search(r"The number of states generated: (\d+)", out)
        if m:
            r["states"] = int(m.group(1))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if m:
            r["depth"] = int(m.group(1))
        for m in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)", out, re.M):
            r["actions"][m.group(1)] = int(m.group(3))
        bad = p.returncode != 0
        if bad and not expect_violation:
            raise TLCError("TLC failed (%d) on %s:\n%s" % (p.returncode, module, _tail(out)))
        if dump:
            fn = os.path.join(d, "g.dot")
            r["dot"] = open(fn).read() if os.path.exists(fn) else ""
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _tail(out):
    ls = [l for l in out.splitlines() if not l.startswith('"@@')]
    i = next((k for k, l in enumerate(ls) if re.match(r"Error|\*\*\*|Parse|Unknown|Lexical|Could not|Was expecting|line \d+", l)), max(0, len(ls) - 40))
    return "\n".join(ls[i:i + 60])


def run_many(specs, n=4):
    """specs: list of (args, kwargs) for run(); in parallel."""
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(lambda s: run(*s[0], **s[1]), specs))


def parse_dot(dot):
    """nodes: id -> label text, edges: (src, dst, action label), init ids."""
    nodes, edges, init = {}, [], []
    for m in re.finditer(r'^(-?\d+) \[label="((?:[^"\\]|\\.)*)"(,style = filled)?\]', dot, re.M):
        nodes[m.group(1)] = m.group(2).replace('\\"', '"').replace("\\\\", "\\").replace("\\n", "\n")
        if m.group(3):
            init.append(m.group(1))
    for m in re.finditer(r'^(-?\d+) -> (-?\d+) \[label="((?:[^"\\]|\\.)*)"', dot, re.M):
        edges.append((m.group(1), m.group(2), m.group(3)))
    return nodes, edges, init
