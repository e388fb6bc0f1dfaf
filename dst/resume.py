"""Lives of a simulation that is interrupted and restarted: process incarnations over one scratch folder."""
import os

import numpy as np

from . import cfg, common, drive, proc, world
from .proc import Violation


def gen_ckpt(r, trailing=True, **kw):
    """A set-up with checkpoints."""
    kw.setdefault("cross", r.random() < .1)
    c = cfg.gen(r, **kw)
    S, bs = c["sim"], c["beam"]["b_spac"]
    nb = r.choice([3, 4, 5])
    if c["beam"]["flag_bunched_beam"]:
        c["beam"]["filling_pattern_file"] = [1.] + [r.choice([1., 1., 0.]) for _ in range(nb - 1)]
        c["beam"]["filling_pattern_file"] = c["beam"]["filling_pattern_file"][:nb]
        for b in c["sec_beams"]:
            b["filling_pattern_file"] = list(c["beam"]["filling_pattern_file"])
    S["checkpoint_DT"] = r.choice([0.5, 0.9, 1.0, 1.0, 1.7]) * bs
    S["checkpoint_folder"] = "@/ckpt/" if trailing or r.random() < .8 else "@/ckpt"
    if r.random() < .4:
        S["copy_main_outp_folder"] = "@/safe"
        if r.random() < .6:
            S["copy_main_outp_DT"] = r.choice([1.0, 1.6]) * bs
    n = cfg.timeline(c)[2]
    S["save_mat_every"] = r.choice([k for k in (1, 1, 1, 2, 3) if n % k == 0])
    return c


def ckpts(root):
    d = os.path.join(root, "ckpt")
    return tuple(sorted(f for f in os.listdir(d) if f.endswith(".pkl"))) if os.path.isdir(d) else ()


def life(emit, c, root, env=None, faults=(), rng_states=None, stop=None, digests=True, power_seed=0):
    """One process incarnation, from construction to the end, to a fault, or to stop=[checkpoints to see, extra steps]."""
    with common.mkworld(root, env, faults=faults, emit=emit, rng_states=rng_states, power_seed=power_seed) as w:
        w.track_rng = True
        sim = drive.build(c, root)
        first = int(sim.beamtim.ii_curr)
        emit("start", first)
        if first >= 0 and digests:
            emit("d", (first, drive.digest(sim)))
        seen, last, left = 0, ckpts(root), None
        steps = 0
        while drive.step(sim):
            steps += 1
            cur = ckpts(root)
            if cur != last:
                last = cur
                seen += 1
                emit("pub", (int(sim.beamtim.ii_curr), cur, w.n))
                if stop is not None and seen >= stop[0] and left is None:
                    left = stop[1]
            if digests:
                emit("d", (int(sim.beamtim.ii_curr), drive.digest(sim)))
            if left is not None:
                if left == 0:
                    w.flush()
                    return dict(ended=False, first=first, steps=steps)
                left -= 1
        w.flush()
        w.active = False
        common.check_escapes(w)
        st = drive.full_state(sim)
        return dict(ended=True, first=first, steps=steps, tt=float(sim.beamtim.tt_curr), state=st, fired=dict(w.fired))


def reference(c, top, env=None):
    """The uninterrupted execution: digests by step, outputs, final state, operations, publications."""
    root = os.path.join(top, "ref")
    os.makedirs(root)
    drive.prepare(c, root)
    out = proc.incarnation(life, (c, root, env))
    res = proc.raise_if_bad(out, "uninterrupted run")
    m = out[2]
    wd = m["world"][-1]
    return dict(root=root, res=res, dig=dict(m.get("d", ())), pub=m.get("pub", []), ops=wd["ops"], rng=wd["rng"],
                out=common.outputs(c, root))


def files(c, root, ref_root):
    """Auxiliary result files both runs must have written identically (macroparticle snapshots, videos)."""
    def walk(rt):
        res = {}
        top = os.path.join(rt, "out")
        for d, ds, fs in os.walk(top):
            for f in fs:
                if f.startswith("MP_state") or "pass" in f:
                    p = os.path.join(d, f)
                    try:
                        res[os.path.relpath(p, rt)] = drive.load_mat(p)
                    except Exception as e:
                        res[os.path.relpath(p, rt)] = repr(e)
        return res
    a, b = walk(ref_root), walk(root)
    if set(a) != set(b):
        return "files differ: %s" % sorted(set(a) ^ set(b))[:5]
    for k in sorted(a):
        if isinstance(b[k], str):
            return "%s unreadable: %s" % (k, b[k])
        d = drive.diff(a[k], b[k])
        if d:
            return "%s: %s" % (k, d)
    return None


def compare_digests(ref, got, who):
    for ii, h in got:
        if ref["dig"].get(ii) is None and ii >= 0:
            raise Violation("%s executes a time step the uninterrupted run does not" % who, step=ii)
        if ii >= 0 and ref["dig"][ii] != h:
            raise Violation("%s computes another state than the uninterrupted run" % who, step=ii,
                            of=max(ref["dig"]))
