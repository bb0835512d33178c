"""Rate control stays between the constant-quantizer encodes of its bounds:
spec/RateBounds.tla (model RateMC.tla), groups of real encodes judged by TraceRate."""
import copy
import vlib


def frames(obus):
    fr = []
    for o in obus:
        if "se" in o:
            fr.append([1, 0, 1, o["bq"], 0, 0, 0] if o["se"] else [0, o["ft"], o["show"], o["bq"], o["ydc"], o["cdq"][0], o["cdq"][1]])
    return fr


def event(o, r, q):
    e = dict(o=o, q=q, fr=[], qp=[], end=r.get("fate", "nothing"))
    for x in r.get("ev", []):
        if x["o"] == "R":
            e["end"] = x["r"]
            if x["r"] == "pkt":
                f = frames(x["obus"])
                e["fr"] += f
                e["qp"].append([x["qp"], f[-1][3] if f else -1])
        if x["r"] in ("panic", "err"):
            e["end"] = x["r"]
            break
    return e


def passes(r, q, flat):
    """The passes of a two-pass session, as bitrate encodes."""
    out = []
    for k, (p, end) in enumerate(zip(r.get("frs", []), r.get("ends", []))):
        if k == 0 and not flat:
            continue    # the first pass ignores the content weights
        fr = [f for x in p for f in frames(x["obus"])]
        qp = []
        for x in p:
            f = frames(x["obus"])
            qp.append([x["qp"], f[-1][3] if f else -1])
        out.append(dict(o="Rate", q=q, fr=fr, qp=qp, end="LimitReached" if end == "done" else end))
    return out or [dict(o="Rate", q=q, fr=[], qp=[], end=r.get("fate") or (r.get("ends") or ["nothing"])[-1])]


def config(rng):
    c = dict(w=rng.choice([16, 32, 64, 96]), h=rng.choice([16, 48, 64]), speed=rng.choice([10, 10, 10, 9, 8, 7, 6]), threads=1)
    flat = rng.random() < .3
    if flat:
        c.update(tune=0, ss={"transform": {"tx_domain_distortion": True}})
    elif rng.random() < .3:
        c["tune"] = 0
    if rng.random() < .3:
        c["ll"] = 1
    if rng.random() < .3:
        c["la"] = rng.choice([1, 2, 5, 20])
    if rng.random() < .6:
        c["maxkf"] = rng.choice([1, 2, 5, 12, 30])
        c["minkf"] = rng.choice([0, 1, c["maxkf"]])
    if rng.random() < .4:
        c["scd"] = rng.choice([0, 1, 2])
    c["bd"] = rng.choice([8, 8, 8, 10, 12])
    c["cs"] = rng.choice([420, 420, 420, 400, 422, 444])
    if rng.random() < .4:
        c["tb"] = rng.choice([[1, 25], [1001, 30000], [1, 240], [1, 1], [1, 5]])
    if rng.random() < .15:
        c["er"] = 1
    return c, flat


RATES = [1, 100, 1000, 5000, 20000, 50000, 100000, 300000, 10**6, 10**7, 10**9, 2**31 - 1]


def run():
    chk = vlib.Check("C11")
    vlib.build_harness()
    rng = chk.rng
    T = vlib.THOROUGH
    chk.model_async("RateMC", "RateMC.cfg" if T else "RateMCq.cfg", workers=3 if T else 2)
    jobs, groups = [], []

    def add(g, o, j, q, flat=False):
        j["id"] = len(jobs)
        jobs.append(j)
        groups[g].append((o, j["id"], q, flat))
    for g in range(3000 if T else 110):
        groups.append([])
        c, flat = config(rng)
        n = rng.choice([1, 4, 9, 18, 18, 30, 45]) if c["w"] * c["h"] < 5000 else rng.choice([4, 9, 18])
        q = rng.choice([255, 254, 200, 160, 120, 120, 80, 40, 10, 1, 0])
        mn = rng.choice([0, 0, 1, q, max(0, q - 1), max(0, q - 20), q // 2, min(255, q + 30), 254, 255])
        j = dict(kind="enc", n=n, sched="L", want=["obu"], cfg=c,
                 content=dict(kind=rng.choice(["noise", "pan", "flat", "static", "mixed", "fade", "cutall", "extreme", "grad"]), seed=rng.randrange(1000),
                              cuts=[rng.randrange(1, n + 1)] if rng.random() < .4 else []))
        if rng.random() < .3:
            j["key"] = sorted(rng.sample(range(n), min(n, rng.choice([1, 2, 3]))))

        def var(**kw):
            v = copy.deepcopy(j)
            v["cfg"].update(kw)
            return v
        add(g, "Lo", var(q=mn), mn)
        add(g, "Hi", var(q=q), q)
        v = var(q=q)
        how = rng.choice(["t35", "ss", "minq", "tools"])
        if how == "t35":
            v["t35"] = {str(i): [[181, 0, [i & 255] * rng.choice([1, 100, 2000])]] for i in range(n)}
        elif how == "minq":
            v["cfg"].update(minq=rng.choice([1, 100, 255]), rfd=rng.choice([12, 40]))
        else:
            s = v["cfg"].setdefault("ss", {})
            s["cdef"], s["lrf"] = rng.random() < .5, rng.random() < .5
            if how == "tools":
                s["prediction"] = {"fine_directional_intra": rng.random() < .5}
                s["segmentation"] = "Disabled"
        add(g, "Cq", v, q)
        for br in rng.sample(RATES, 3):
            v = var(q=q, minq=mn, br=br)
            if rng.random() < .5:
                v["cfg"]["rfd"] = rng.choice([12, 13, 20, 60, 1000])
            add(g, "Rate", v, q)
        if rng.random() < .7:
            v = var(q=q, minq=mn, br=rng.choice(RATES))
            v["kind"] = "twopass"
            v["passes"] = [{}, dict(emit=rng.random() < .4, cfg=dict(br=rng.choice(RATES)))]
            if rng.random() < .5:
                v["passes"][1]["cfg"]["rfd"] = rng.choice([12, 13, 20, 60])
            if v["passes"][1]["emit"]:
                v["passes"].append(dict(emit=False, cfg=dict(br=rng.choice(RATES))))
            add(g, "Two", v, q, flat)
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i]["cfg"]["w"] * jobs[i]["cfg"]["h"] * jobs[i]["n"])
    rs = vlib.run_jobs([jobs[i] for i in order], timeout=120)
    res = [None] * len(jobs)
    for i, r in zip(order, rs):
        res[i] = r
    sess = []
    hit = dict(frames=0, at_minimum=0, at_maximum=0, between=0)
    for g, m in enumerate(groups):
        ev = []
        for o, i, q, flat in m:
            ev += passes(res[i], q, flat) if o == "Two" else [event(o, res[i], q)]
        sess.append(dict(id=g, ev=ev))
        for e in ev[3:]:
            for f, a, b in zip(e["fr"], ev[0]["fr"], ev[1]["fr"]):
                if f[0] == 0:
                    hit["frames"] += 1
                    hit["at_minimum" if f[3] == a[3] else "at_maximum" if f[3] == b[3] else "between"] += 1
    chk.judge("TraceRate", sess, [[jobs[i] for _, i, _, _ in m] for m in groups])
    chk.cov["groups"] = len(groups)
    chk.cov["encodes"] = len(jobs)
    chk.cov["bitrate_mode_frames"] = hit
    chk.sample({"cfg": jobs[0]["cfg"], "bounds": [[f[3] for f in e["fr"]] for e in sess[0]["ev"][:2]], "run": [f[3] for f in sess[0]["ev"][3]["fr"]]})
    return chk.finish()
