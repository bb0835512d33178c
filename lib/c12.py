"""Channel interface: spec/Channel.tla (both ends, queue, loop) and spec/GopChannel.tla
(splitter, workers, reassembly); sessions of real threads on the channels, judged by
TraceChannel beside the same frames on the direct interface."""
import copy
import vlib

BIG = 2 ** 30


def config(rng):
    w, h = rng.choice([(64, 64), (64, 48), (96, 64), (130, 66), (32, 24), (16, 16)])
    c = dict(w=w, h=h, speed=rng.choice([10, 10, 10, 9]), la=rng.choice([1, 1, 2, 3, 5, 10]), threads=rng.choice([0, 1, 2, 3, 8]), maxkf=rng.choice([0, 2, 4, 6, 9, 12, 30]), minkf=0)
    c["minkf"] = rng.choice([0, 0, 1, min(3, c["maxkf"])])
    if rng.random() < .2:
        c["bd"] = 10
    if rng.random() < .2:
        c["cs"] = rng.choice([400, 422, 444])
    if rng.random() < .25:
        c["ll"] = True
    if rng.random() < .3:
        c["tiles"] = rng.choice([2, 4])
    if rng.random() < .2:
        c["q"] = rng.choice([20, 180])
    if rng.random() < .25:
        c["br"] = rng.choice([5000, 50000, 300000])
    if rng.random() < .1:
        c["scd"] = rng.choice([0, 1, 2])
    if rng.random() < .05:
        c["still"] = True
    if rng.random() < .04:
        c.update(rng.choice([dict(w=0), dict(h=0), dict(speed=11), dict(tile_cols=3), dict(minkf=5, maxkf=3), dict(tb=[0, 1])]))
    return c


def job(rng, k):
    c = config(rng)
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 12, 18, 26])
    j = dict(kind="chan", cfg=c, n=n, seed=rng.randrange(1 << 20), style=rng.choice([0, 0, 0, 1, 2, 2, 3, 4]), want=["src"],
             content=dict(kind=rng.choice(["noise", "pan", "flat", "static", "mixed", "cutall"]), seed=rng.randrange(1000), cuts=[rng.randrange(1, n + 1)] if n and rng.random() < .4 else []))
    j["close"] = rng.choice(["drop", "drop", "flush", "more"])
    if rng.random() < .15:
        j["take"] = rng.choice([0, 1, 2, max(0, n - 1), n])
    z = rng.random()
    if z < .4:
        j["pass"] = rng.choice(["first", "second", "multi"])
        c.setdefault("br", rng.choice([5000, 50000, 300000]))
        c.pop("q", None)
        if j["pass"] != "first":
            n = j["n"] = max(1, n)      # a summary is of one picture at least
            if rng.random() < .25:
                j[rng.choice(["rcdrop", "rcbad"])] = rng.randrange(0, n + 2)
            if rng.random() < .3:
                j["extra"] = rng.choice([1, 3])
    elif z < .62:
        # groups of pictures
        j["slots"] = rng.choice([2, 2, 3, 4, 6])
        j["n"] = rng.choice([0, 1, 2, 3, 5, 8, 14, 22, 30, 45, 70])
        j["want"] = ["src", "dav1d"]
        c.pop("still", None) if rng.random() < .8 else None
        c.pop("br", None) if rng.random() < .7 else None
        j["content"]["cuts"] = sorted(rng.sample(range(1, j["n"] + 1), min(j["n"], rng.randrange(0, 5)))) if j["n"] else []
        return j
    if c.get("still") and rng.random() < .6:
        j["n"], j["extra"] = 1, rng.choice([1, 4])
    if n and rng.random() < .4:
        j["key"] = sorted(rng.sample(range(n), min(n, rng.choice([1, 2]))))
    if n and rng.random() < .4:
        j["opq"] = sorted(rng.sample(range(n), min(n, rng.choice([1, 3, 5]))))
    if n and rng.random() < .15:
        j["t35"] = {str(rng.randrange(n)): [[180, 0, [1, 2, rng.randrange(256)]]]}
    z = rng.random()
    if z < .15:
        j["single"] = True
    elif z < .3 and "take" not in j:
        j.update(twin=rng.choice([2, 3]), pool=rng.choice([1, 1, 2, 3]))
    elif z < .45:
        j["late"] = True
    elif z < .6:
        j["block"] = True
    if rng.random() < .2:
        j.setdefault("pool", rng.choice([1, 1, 2, 4]))
    if j.get("single") or j.get("twin"):
        if c.get("still"):
            j["n"], j["extra"] = 1, j["n"]
            for f in ("key", "opq", "t35"):
                j.pop(f, None)
        if j["close"] == "more":
            j["close"] = "flush"
        j["style"] = 0
    return j


PK = ["no", "hash", "len", "ft", "qp", "opq", "rec", "src"]


def event(e, gop):
    o = e["o"]
    if o == "P":
        x = {f: e[f] for f in PK}
        x["o"] = "P"
        x["dec"] = [h for d in e.get("dec", []) if d["e"] == 0 for h in d["h"]] if gop else []
        return x
    if o == "R":
        return dict(o="R", rec="%d:%s" % (e["rec"]["k"], e["rec"]["d"]))
    return {f: e[f] for f in ("o", "i", "r", "h", "d") if f in e}


def sessions(j, r):
    gop = j.get("slots", 0) > 1
    n2 = j["n"] + j.get("extra", 0)
    second = j.get("pass") in ("second", "multi")
    lim = j["n"] if second else BIG
    if j["cfg"].get("still"):
        lim = min(lim, 1)
    bad = [j[f] for f in ("rcdrop", "rcbad") if f in j]
    drecs = r.get("drecs", [])
    nrec = sum(1 for d in drecs if d["k"] == 1) if j.get("pass") == "multi" else None
    cfg = dict(n=n2, lim=lim, take=j.get("take", -1), short=bool(bad), rlim=BIG, gop=gop,
               direct=[{f: d[f] for f in PK} for d in r.get("direct", [])], drecs=["%d:%s" % (d["k"], d["d"]) for d in drecs])
    if r.get("fate"):
        return [dict(id=j["id"], cfg=cfg, ev=[dict(o="X" if r["fate"] == "crash" else "T")])]
    if "skip" in r:
        return []
    out = []
    for evs in r.get("evs") or [r["ev"]]:
        ev = [event(e, gop) for e in evs if e["o"] != "C" or e["r"] != e["d"]]
        if r["end"] == "invalid":
            out.append(dict(id=j["id"], cfg=cfg, ev=[event(e, gop) for e in evs if e["o"] == "C"]))
            continue
        out.append(dict(id=j["id"], cfg=cfg, ev=ev + [dict(o="X")] * bool(r.get("panics")) + [dict(o="Z")]))
    return out


def run():
    chk = vlib.Check("C12")
    vlib.build_harness()
    rng = chk.rng
    T = vlib.THOROUGH
    for m, q in (("Channel", "ChannelMC"), ("GopChannel", "GopMC")):
        chk.model_async(m, q + (".cfg" if T else "q.cfg"), workers=2)
    chk.model_async("Channel", "ChannelMCd.cfg", workers=1)
    jobs = []
    for k in range(6000 if T else 420):
        j = job(rng, k)
        j["id"] = k
        jobs.append(j)
    res = []
    for a in range(0, len(jobs), 60):
        res += vlib.run_jobs(jobs[a:a + 60], timeout=60)
        if sum(bool(r.get("fate")) or r.get("end") == "timeout" for r in res) >= 6:
            break       # what stalls takes its time; enough is known
    sess, src, kinds, skips = [], [], {}, 0
    for j, r in zip(jobs, res):
        ss = sessions(j, r)
        skips += not ss
        for s in ss:
            sess.append(s)
            src.append(j)
            for e in s["ev"]:
                kk = e["o"] + (" " + str(e["r"]) if "r" in e else "")
                kinds[kk] = kinds.get(kk, 0) + 1
    chk.judge("TraceChannel", sess, src)
    chk.cov.update(sessions=len(sess), skipped_because_the_direct_interface_fails=skips, events=kinds,
                   gop_sessions=sum(s["cfg"]["gop"] for s in sess), consumer_leaves=sum(s["cfg"]["take"] >= 0 for s in sess),
                   pass_data_runs_out=sum(s["cfg"]["short"] for s in sess))
    chk.sample(jobs[0])
    chk.sample([{k: e.get(k) for k in ("o", "i", "r", "no")} for e in sess[0]["ev"][:20]])
    return chk.finish()
