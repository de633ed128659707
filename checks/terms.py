"""The replay oracle (modes.process) against the terms printed by ModesEval.tla."""
from lib import ref, modes
from lib.evp import data


class Env:
    pass


def setup(paths, seed):
    e = Env(); e.R = ref.get(paths["ref"]); e.seed = seed
    return e


def run_job(e, job):
    for algid in ((8, 3, 7) if job["B"] == 8 else (9,)):
        k = data(e.seed, "tk", algid, 32); B = job["B"]
        ivlen = B if job["mode"] != "ctr" else B // 2
        iv = data(e.seed, "tiv", ivlen)
        n = job["i"] + 1
        d = data(e.seed, "td", 4096)[:n]
        out = modes.process(e.R, job["mode"], algid, k, iv, job["S"], d, 1)
        cb = lambda c: out[c * B:(c + 1) * B]
        ks = modes.term(e.R, algid, {1: k}, {1: iv}, cb, job["ks"]["blk"])[job["ks"]["off"]]
        assert out[-1] == ks ^ d[-1], ("oracle disagrees with the specification's term", job)
    return None
