"""Interface contract of Distribution<T>/Emission<T>: what every caller may rely on.

Ghost state: obs[x] = weight absorbed at value x, hyp = identity of the hyperparameters and latent values.
The implementations are proved against the same laws under C03 (obs/undo), C04 (score law), C05/C06 (frames)."""
from spec import *


def setup():
    from ir import _types
    ghost_fields("Distribution", [("obs", lambda b: z3.ArraySort(sort(_types[b].args[0]), R)), ("hyp", I), ("live", B)])


def LPF(ts):
    return z3.Function("LOGP_" + an_(ts), z3.ArraySort(ts, R), I, ts, R)


def SCF(ts):
    return z3.Function("SCORE_" + an_(ts), z3.ArraySort(ts, R), I, R)


def vsort(v):
    return v.obs.sort().domain()


def vobs(v):
    return raw(v.obs)


def vx(c, i=0):
    return raw(c.args[i])


def absorb(o, x, w):
    return z3.Store(o, x, z3.Select(o, x) + w)


def scorelaw(c, o, h, x):
    """C04: score after absorbing x once = score before + logp"""
    s = vsort(c.this0)
    return SCF(s)(absorb(o, x, z3.RealVal(1)), h) == SCF(s)(o, h) + LPF(s)(o, h, x)


def wt(c):
    return raw(c.args[1]) if len(c.args) > 1 else z3.RealVal(1)


def live(c):
    """with option live: calls go to objects that exist and were not deleted"""
    return [("the object is live", c.this0.live)] if c.ex.opts.get("live") else []


def inc_assign():
    return {"obs": lambda c: absorb(vobs(c.this0), vx(c), wt(c)), "N": lambda c: c.this0.N + wt(c)}


def uninc_assign():
    return {"obs": lambda c: absorb(vobs(c.this0), vx(c), z3.RealVal(-1)), "N": lambda c: c.this0.N - 1}


def logp_post(c):
    x = vx(c)
    s = vsort(c.this0)
    return [("score law", scorelaw(c, vobs(c.this0), c.this0.hyp, x))]


def logp_val(c):
    return LPF(vsort(c.this0))(vobs(c.this0), c.this0.hyp, vx(c))


def score_val(c):
    return SCF(vsort(c.this0))(vobs(c.this0), c.this0.hyp)


CONTRACTS = {}
for base in ("Distribution", "Emission"):
    for name, kw in (
        ("incorporate", dict(assign=inc_assign(), modifies=["N", "obs"])),
        ("unincorporate", dict(assign=uninc_assign(), modifies=["N", "obs"])),
        ("logp", dict(value=logp_val, post=logp_post)),
        ("logp_score", dict(value=score_val)),
        ("sample", dict()),
        ("sample_corrupted", dict()),
        ("propose_clean", dict()),
        ("nearest", dict()),
        ("transition_hyperparameters", dict(modifies=["hyp"])),
        ("transition_theta", dict(modifies=["hyp"])),
        ("init_theta", dict(modifies=["hyp"])),
    ):
        kw["pre"] = live
        k = Contract("%s::%s" % (base, name), "%s::%s" % (base, name), **kw)
        CONTRACTS[k.name] = k
ABS = list(CONTRACTS)
