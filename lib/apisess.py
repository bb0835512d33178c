"""Encoder sessions: configurations, schedules simulated by TLC on the
pipeline model, execution on the real encoder, projection to EncoderApi
events."""
import json, os, shutil, vlib

LAS = [1, 2, 3, 4, 5, 7, 10, 16, 25, 40]
KINDS = ["pan", "drift", "flat", "static", "noise", "cutall", "grad", "text", "fade", "extreme"]


def gen_schedules(specs, per, seed):
    """specs: list of pipeline configurations.  Simulates the pipeline model
    and returns {index: [history, ...]}."""
    d = vlib.scratch("gen-")
    try:
        path = os.path.join(d, "jobs.ndjson")
        with open(path, "w") as f:
            for s in specs:
                f.write(json.dumps({k: s[k] for k in ("la", "ll", "still", "minkf", "maxkf", "scd", "cuts", "key", "switch", "n")}) + "\n")
        out, _ = vlib.tlc("PipelineGen", extra_env={"JOBS": path}, workers=1,
                          args=["-simulate", "num=%d" % (per * len(specs)), "-depth", "600", "-seed", str(seed)])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res = {}
    for l in out.splitlines():
        l = vlib.unquote(l)
        if l.startswith("GEN "):
            g = json.loads(l[4:])
            res.setdefault(g["k"] - 1, []).append(g["h"])
    return res


def random_spec(rng, n=None, focus=""):
    ll = rng.choice([0, 0, 1])
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 18, 21, 22, 23, 26, 30]) if n is None else n
    la = rng.choice(LAS)
    maxkf = rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 17, 240])
    minkf = rng.choice([0, 0, 1, 2, 3, 5, 8, 12])
    if maxkf and minkf > maxkf:
        minkf = rng.choice([0, maxkf])
    scd = rng.choice([0, 1, 2])
    key = sorted(set(rng.randrange(max(1, n)) for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3, 5]))))
    if rng.random() < 0.06 and n > 3:
        a = rng.randrange(n - 2)
        key = list(range(a, min(n, a + rng.randrange(2, 7))))
    cuts = sorted(set(rng.randrange(1, max(2, n)) for _ in range(rng.choice([0, 1, 1, 2, 3]))))
    switch = rng.choice([1, 2, 3, 4, 5, 7]) if ll and rng.random() < 0.35 else 0
    still = 1 if rng.random() < 0.05 else 0
    if still:
        n = rng.choice([0, 1, 2, 3])
        switch = 0
        key = [k for k in key if k < n]
    return dict(la=la, ll=ll, still=still, minkf=minkf, maxkf=maxkf, scd=scd, cuts=cuts, key=key, switch=switch, n=n)


def to_job(spec, hist, rng, idx, want, user_data=True):
    n = spec["n"]
    sched = "".join("N" if e["o"] == "F" and rng.random() < 0.3 else e["o"] for e in hist) + "D" if hist is not None else "LRR"
    w, h = rng.choice([(16, 16), (16, 16), (24, 16), (32, 40), (64, 48), (17, 19)])
    speed = 10 if rng.random() < 0.85 else rng.choice([4, 6, 8, 9])
    cfg = dict(w=w, h=h, la=spec["la"], ll=spec["ll"], minkf=spec["minkf"], maxkf=spec["maxkf"], scd=spec["scd"],
               speed=speed, q=rng.choice([60, 100, 160, 220, 255]), tune=rng.choice([0, 1]), threads=1)
    if spec["switch"]:
        cfg["switch"] = spec["switch"]
    if spec["still"]:
        cfg["still"] = 1
    if rng.random() < 0.1:
        cfg["er"] = 1
    kind = rng.choice(KINDS)
    job = dict(id=idx, kind="enc", cfg=cfg, n=n, key=spec["key"], sched=sched, want=want,
               content=dict(kind=kind, seed=rng.randrange(1 << 30), cuts=spec["cuts"] if kind != "static" or rng.random() < .5 else []))
    if rng.random() < 0.15:
        job["shared"] = True
    if user_data:
        dens = rng.choice([0, .3, .6, 1])
        job["opq"] = [i for i in range(n) if rng.random() < dens]
        t = {}
        for i in range(n):
            if rng.random() < dens * 0.8:
                t[str(i)] = [[rng.choice([0xB5, 0x26, 0xFF, 0]), rng.randrange(256),
                              [rng.choice([0, 0x80, 0xff, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 2, 5, 20, 130]))]]
                             for _ in range(rng.choice([1, 1, 2, 3]))]
        job["t35"] = t
    job["spec"] = spec
    return job


def project(job, res):
    """Recorded result -> EncoderApi session."""
    sp = job["spec"]
    cfg = {k: sp[k] for k in ("la", "ll", "still", "minkf", "maxkf", "scd", "switch")}
    cfg["drain"] = 1
    ev = []
    if "fate" in res:
        ev.append({"o": "X", "r": res["fate"]})
        return {"id": job["id"], "cfg": cfg, "ev": ev}
    for e in res["ev"]:
        if e["o"] == "C":
            if e["r"] != "ok":
                raise vlib.ToolError("configuration refused: %s %s" % (json.dumps(job["cfg"]), e))
            continue
        if e["o"] == "S":
            ev.append({"o": "S", "r": e["r"], "key": e["key"], "opq": e["opq"], "t35": [bytes(t).hex() for t in e["t35"]], "h": e["h"]})
        elif e["o"] == "R" and e["r"] == "pkt":
            ev.append({"o": "R", "r": "pkt", "no": e["no"] if e["no"] < 1 << 30 else -1, "ft": e["ft"], "opq": e["opq"], "src": e.get("src", ""),
                       "t35": [bytes(t["v"]).hex() for t in e.get("obus", []) if t["t"] == "t35"]})
        elif e["o"] in "RF":
            ev.append({"o": e["o"], "r": e["r"]})
        elif e["o"] == "E":
            ev.append({"o": "E", "r": "ok"})
    return {"id": job["id"], "cfg": cfg, "ev": ev}


def drift(hist, sess):
    """First index where the real answers differ from the pipeline model's."""
    real = [e for e in sess["ev"] if e["o"] in "SFR"]
    for i, p in enumerate(hist):
        if i >= len(real):
            return i
        e = real[i]
        if e["o"] != p["o"] or e["r"] != p["r"] or (e["r"] == "pkt" and e["no"] != p["no"]):
            return i
    return None


def run(chk, nspec, per, want, tweak=None, user_data=True):
    rng = chk.rng
    specs = [random_spec(rng) for _ in range(nspec)]
    if tweak:
        specs = [tweak(i, s) for i, s in enumerate(specs)]
    gen = gen_schedules(specs, per, vlib.SEED)
    jobs, hists = [], []
    for i, s in enumerate(specs):
        for h in gen.get(i, [None]):
            jobs.append(to_job(s, h, rng, len(jobs), want, user_data))
            hists.append(h)
    res = vlib.run_jobs(jobs, timeout=90)
    sess = [project(j, r) for j, r in zip(jobs, res)]
    chk.judge("TraceApi", sess, jobs)
    # comparison with the predicted answers: tells whether the implementation
    # model still describes the code, never an alarm
    exact = [(j, h, s) for j, h, s in zip(jobs, hists, sess) if h is not None and j["spec"]["scd"] == 0]
    dr = [(j["id"], drift(h, s)) for j, h, s in exact]
    bad = [d for d in dr if d[1] is not None]
    chk.cov["pipeline_predictions"] = {"sessions": len(dr), "differing": len(bad), "first": bad[:3]}
    chk.cov["schedules_from_tlc"] = sum(1 for h in hists if h is not None)
    chk.cov["api_calls"] = sum(len(s["ev"]) for s in sess)
    chk.cov["packets"] = sum(1 for s in sess for e in s["ev"] if e["r"] == "pkt")
    for j, s in list(zip(jobs, sess))[:2]:
        chk.sample({"cfg": j["cfg"], "n": j["n"], "sched": j["sched"], "answers": [e["r"] for e in s["ev"]][:40]})
    return jobs, res, sess
