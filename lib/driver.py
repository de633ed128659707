"""One check = one property: model-check the specification, generate behaviours from it, replay them
into the code built from /repo's working tree, report."""
import os, sys, json, time, re, random, traceback
from concurrent.futures import ThreadPoolExecutor
from . import build as B, tlc, pool

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.viol = []              # (module, build kind, job, result)
        self.models, self.gens, self.replays, self.samples, self.assume = [], [], [], [], []
        self.neg = []
        self._paths = {}

    def scale(self, q, t):
        return q if self.quick else t

    def paths(self, what="engine"):
        if what not in self._paths:
            self._paths[what] = B.build(what)
        return self._paths[what]

    # -------------------------------------------------------------- the model
    def model(self, module, cfgs, cfg, workers=2, par=4, timeout=700, **kw):
        """Exhaustively check `module` for each constants dict in cfgs: [(label, consts)].  The design
        itself must satisfy its invariants - a violation here is an error of the specification."""
        def one(lc):
            return lc[0], lc[1], tlc.run(module, cfg, consts=lc[1], workers=workers, timeout=timeout, **kw)
        with ThreadPoolExecutor(par) as ex:
            for lab, consts, r in ex.map(one, cfgs):
                never = [a for a, n in r["actions"].items() if n == 0 and a != "Init"]
                self.models.append(dict(module=module, config=lab, distinct_states=r["distinct"], transitions=r["states"],
                                        depth=r["depth"], actions=r["actions"], never_taken=never))

    def model_neg(self, module, cfgs, cfg, par=4, **kw):
        """Configurations with one safeguard removed: TLC must find a violation (the invariants bite)."""
        def one(lc):
            return lc[0], tlc.run(module, cfg, consts=lc[1], expect_violation=True, coverage=False, **kw)
        with ThreadPoolExecutor(par) as ex:
            for lab, r in ex.map(one, cfgs):
                if "is violated" not in r["out"] and "Assumption" not in r["out"]:
                    raise tlc.TLCError("%s/%s: the invariants do not notice the removed safeguard\n%s"
                                       % (module, lab, r["out"][-800:]))
                self.neg.append("%s/%s" % (module, lab))

    # -------------------------------------------------------------- behaviours
    def generate(self, module, cfg, consts, num, depth, shards=4, label="", timeout=600, maxper=None):
        """TLC -simulate: `num` random behaviours, printed with the predicted result of every call."""
        shards = max(1, min(shards, num))
        per = -(-num // shards)
        def one(k):
            return tlc.run(module, cfg, consts=consts, simulate=per, depth=depth, seed=self.seed * 1000 + k + 17, timeout=timeout)
        out, st, dup = [], 0, set()
        with ThreadPoolExecutor(shards) as ex:
            for r in ex.map(one, range(shards)):
                st += r["states"]
                for b in r["printed"]:
                    k = hash(json.dumps(b))
                    if k not in dup:
                        dup.add(k); out.append(b)
        if not out:
            raise tlc.TLCError("%s printed no behaviour" % module)
        self.gens.append(dict(module=module, label=label, behaviours=len(out), steps=st))
        return out

    def generate_many(self, specs, par=8):
        """specs: list of dicts for generate(); run side by side."""
        with ThreadPoolExecutor(par) as ex:
            fs = [ex.submit(self.generate, **s) for s in specs]
            return [f.result() for f in fs]

    def enumerate(self, module, cfg, consts, label="", workers=1, timeout=600):
        """TLC exhaustive run of a small machine that prints every complete behaviour / case."""
        r = tlc.run(module, cfg, consts=consts, workers=workers, timeout=timeout, coverage=False)
        self.models.append(dict(module=module, config=label, distinct_states=r["distinct"], transitions=r["states"], depth=r["depth"]))
        self.gens.append(dict(module=module, label=label, behaviours=len(r["printed"]), exhaustive=True))
        if not r["printed"]:
            raise tlc.TLCError("%s printed nothing" % module)
        return r["printed"]

    # ------------------------------------------------------------------ replay
    def replay(self, mod, jobs, what="engine", label="", nproc=8, timeout=600, env=None, sample=1):
        if not jobs:
            raise RuntimeError("no jobs for " + mod)
        t = time.time()
        v, n, st = pool.run(mod, self.paths(what), self.seed, jobs, nproc=nproc, timeout=timeout, env=env)
        tot = {}
        for s in st:
            for k, x in s.items():
                if isinstance(x, (int, float)):
                    tot[k] = tot.get(k, 0) + x
                elif isinstance(x, list):
                    tot[k] = sorted(set(tot.get(k, [])) | set(x))
        self.replays.append(dict(label=label or mod, behaviours=n, wall_s=round(time.time() - t, 1), **tot))
        self.viol += [(mod, what, j, r, env) for j, r in v]
        k = jobs[len(jobs) // 3]
        for j in jobs[:sample]:
            self.samples.append(_short(j))
        return v

    def assumption(self, *a):
        self.assume += a

    def weigh(self, plan, keep=60, part=6, also=None):
        """the behaviours of another plan, with `checks.lean` looking at the memory while they are replayed"""
        Weigh(self, keep, part, also).run(plan)

    # ------------------------------------------------------------------ report
    def finish(self):
        known = load_known(self.prop)
        new, seen = [], set()
        for v in self.viol:
            key = v[3].get("key", "") if isinstance(v[3], dict) else ""
            if key and key in known:
                seen.add(key)
            else:
                new.append(v)
        for k in sorted(known):
            if k in seen:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k]))
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        for i, (mod, what, job, res, env) in enumerate(new[:int(os.environ.get("VERIF_SHOW", 5))]):
            p = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (self.prop, i))
            json.dump(dict(property=self.prop, module=mod, build=what, seed=self.seed, env=env, job=job, result=res),
                      open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  " + json.dumps(res)[:700])
        cov = dict(states=sum(m["distinct_states"] for m in self.models) or sum(g.get("steps", 0) for g in self.gens),
                   transitions=sum(m["transitions"] for m in self.models) + sum(g.get("steps", 0) for g in self.gens),
                   traces_validated_against_impl=sum(r["behaviours"] for r in self.replays),
                   samples=self.samples[:6], models=self.models, generated=self.gens, replays=self.replays,
                   removed_safeguards_noticed=self.neg,
                   exhaustive=False)
        ev = dict(property=self.prop, tier=self.tier if self.tier in ("quick", "thorough") else "quick", seed=self.seed,
                  level="model_checking", coverage=cov, assumptions=self.assume, wall_s=round(time.time() - self.t0, 1),
                  violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        print("%s %s: %d states, %d behaviours replayed, %d violations, %.1f s" % (
            self.prop, self.tier, cov["states"], cov["traces_validated_against_impl"], len(new), time.time() - self.t0))
        return 1 if new else 0


class Weigh(Ctx):
    """What a plan generates, in part, goes to another judge; its own verdicts are not ours to give."""
    def __init__(self, ctx, keep, part, also):
        Ctx.__init__(self, ctx.prop, ctx.tier, ctx.seed)
        self.ctx, self.keep, self.part, self.also = ctx, keep, part, also or {}

    def run(self, plan):
        plan(self)
        self.ctx.gens += self.gens

    def model(self, *a, **k):
        pass

    model_neg = model

    def generate(self, module, cfg, consts, num, depth, **k):
        return super().generate(module, cfg, consts, max(4, num // self.part), depth, **dict(k, shards=1 if self.quick else 4))

    def replay(self, mod, jobs, what="engine", label="", nproc=8, timeout=600, env=None, sample=1):
        if what == "tools":
            return []
        jobs = jobs[:]
        random.Random(self.seed).shuffle(jobs)
        return self.ctx.replay("checks.lean", jobs[:self.keep], what, "memory: " + (label or mod), 3 if self.quick else 5, timeout,
                               dict(env or {}, LD_PRELOAD=B.faults(), VERIF_INNER=mod, **self.also), 0)


def _short(x, n=6):
    if isinstance(x, list):
        return [_short(y, n) for y in x[:n]] + (["... %d more" % (len(x) - n)] if len(x) > n else [])
    if isinstance(x, dict):
        return {k: _short(v, n) for k, v in x.items()}
    if isinstance(x, str) and len(x) > 160:
        return x[:160] + "..."
    return x


def load_known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def main(plans):
    if sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        jobs = d["job"]["batch"] if isinstance(d["job"], dict) and "batch" in d["job"] else [d["job"]]
        r = pool.rerun(d["module"], B.build(d["build"]), d["seed"], jobs, env=d.get("env"))
        print(json.dumps(r, indent=1))
        sys.exit(1 if r else 0)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    try:
        plans[prop](ctx)
        rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
    B.prune()
    sys.stdout.flush()
    os._exit(rc)
