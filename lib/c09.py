"""Configurations: TLC enumerates boundary configurations (spec/ConfigGen.tla),
the real library answers them, spec/ConfigRules.tla judges the answers; accepted
configurations are then used to encode."""
import json, vlib

DEF = dict(w=64, h=64, speed=10, threads=1)
COLOR = {1: [1, 13, 0], 2: [9, 16, 9]}
OTHER = [[1, 1, 1], [9, 16, 9], [1, 13, 1], [9, 13, 14], [2, 2, 2], [1, 13, 2]]
IDENTITY = [[9, 13, 0], [1, 1, 0], [2, 2, 0], [1, 2, 0], [2, 13, 0]]


def num(limbs):
    return sum(d << 15 * i for i, d in enumerate(limbs))


def to_cfg(c, rng):
    q = dict(speed=10, threads=1, w=c["w"], h=c["h"], still=c["still"], ll=c["ll"], timing=c["timing"], full=c["full"],
             sar=[num(x) for x in c["sar"]], tb=[num(x) for x in c["tb"]], la=num(c["la"]), maxkf=num(c["maxkf"]),
             tcols=num(c["tcols"]), trows=num(c["trows"]), rfd=None if c["rfd"] == -1 else c["rfd"], switch=c["switch"],
             cs=c["cs"], level=None if c["level"] == -1 else c["level"], br=c["br"], bd=c["bd"])
    q["pass"] = c["pass"]
    if c["color"]:
        q["color"] = COLOR[1] if c["color"] == 1 else rng.choice(IDENTITY if c["color"] == 3 else OTHER)
    return q


def generate(maxdev, args=()):
    out, st = vlib.tlc("ConfigGen", extra_env={"MAXDEV": str(maxdev), "EMIT": "1"}, args=args, workers=1 if args else 8)
    cs = {}
    for l in out.splitlines():
        l = vlib.unquote(l)
        if l.startswith("CFG "):
            cs[l[4:]] = 1
    return [json.loads(x) for x in cs], st


def extreme(rng):
    """Settings without a documented limit, at the ends of their types."""
    c = dict(w=rng.choice([16, 17, 24, 64, 100, 100, 640]), h=rng.choice([16, 18, 40, 64]), speed=rng.choice([10, 10, 10, 9, 6, 2]), threads=1,
             bd=rng.choice([8, 8, 10, 12]), cs=rng.choice([420, 420, 422, 444, 400]))
    for _ in range(rng.choice([1, 2, 2, 3, 5])):
        f = rng.choice(["q", "minq", "br", "rfd", "tb", "la", "maxkf", "minkf", "ll", "er", "tune", "tiles", "tcols", "scd", "still", "switch", "level", "sar", "ss", "mdcv", "cll", "grain"])
        if f == "q":
            c["q"] = rng.choice([0, 1, 2, 100, 254, 255, 256, 257, 511, 512, 10**6, 2**63])
        elif f == "minq":
            c["minq"] = rng.choice([0, 1, 128, 254, 255])
        elif f == "br":
            c["br"] = rng.choice([-2**31, -1, 1, 2, 1000, 10**6, 2**30, 2**31 - 1])
        elif f == "rfd":
            c["rfd"] = rng.choice([12, 13, 30, 131072])
        elif f == "tb":
            c["tb"] = rng.choice([[1, 2**32 - 1], [2**32 - 1, 1], [2**31, 1], [1, 2**31], [2**31, 2**31 - 1], [1, 1], [1001, 30000], [2**32 - 1, 2**32 - 2], [1, 90000], [1, 12000], [1, 10**6], [3, 10**9], [1, 2**31 - 1]])
        elif f == "la":
            c["la"] = rng.choice([1, 2, 3, 2**32, 2**63, 2**64 - 2])
        elif f == "maxkf":
            c["maxkf"] = rng.choice([0, 1, 2, 3, 715827882])
        elif f == "minkf":
            c["minkf"] = rng.choice([0, 1, 5, 2**31, 2**32 + 1, 2**64 - 1])
        elif f in ("ll", "er", "tune"):
            c[f] = 1 - c.get(f, 0)
        elif f == "tiles":
            c["tiles"] = rng.choice([1, 5, 2**32, 2**64 - 1])
        elif f == "tcols":
            c["tcols"], c["trows"] = rng.choice([1, 64, 2**40, 2**63]), rng.choice([0, 2, 2**20, 2**62])
        elif f == "scd":
            c["scd"] = rng.choice([0, 1, 2])
        elif f == "still":
            c.update(still=1, w=rng.choice([1, 2, 3, 9, 33]), h=rng.choice([1, 2, 7, 16]))
        elif f == "switch":
            c.update(switch=rng.choice([1, 2, 3, 2**32, 2**64 - 1]), ll=1)
        elif f == "level":
            c["level"] = rng.choice([19, 31])
            c.pop("tb", None)
        elif f == "sar":
            c["sar"] = rng.choice([[1, 200], [100, 1], [4, 3], [2**64 - 1, 2**64 - 1], [2**63, 2**63 - 1]])
        elif f == "ss":
            c["ss"] = rng.choice([{"multiref": False}, {"cdef": False}, {"lrf": False}, {"cdef": False, "lrf": False}, {"multiref": True, "lrf": True},
                                  {"transform": {"tx_domain_distortion": False}}, {"transform": {"reduced_tx_set": False, "rdo_tx_decision": True}},
                                  {"partition": {"partition_range": {"min": 4, "max": 4}}} if False else {"fast_deblock": False},
                                  {"rdo_lookahead_frames": 3}, {"segmentation": "Full"}, {"segmentation": "Disabled"}, {"sgr_complexity": "Full", "lrf": True},
                                  {"prediction": {"prediction_modes": "ComplexAll", "fine_directional_intra": True}},
                                  {"motion": {"include_near_mvs": True, "use_satd_subpel": True}}])
        elif f == "mdcv":
            c["mdcv"] = [rng.choice([0, 1, 65535]) for _ in range(8)] + [2**32 - 1, 0]
        elif f == "cll":
            c["cll"] = [rng.choice([0, 65535]), rng.choice([0, 1, 65535])]
        elif f == "grain":
            c["grain"] = [dict(start=rng.choice([0, 5]), end=rng.choice([1, 400000, 2**64 - 1]), y=[[0, 20], [255, 255]], seed=rng.choice([0, 1, 65535]), lag=0, acb=[0], acr=[0])]
    if c.get("still"):
        c["switch"] = 0
    if not c.get("ll"):
        c["switch"] = 0
    if c.get("level") == 19:
        c.pop("tb", None)
    return c


def run():
    chk = vlib.Check("C09")
    vlib.build_harness()
    rng = chk.rng
    if vlib.THOROUGH:
        cs, st = generate(2)
        chk.stat(st)
        more, st = generate(5, ["-simulate", "num=20000", "-depth", "6", "-seed", str(vlib.SEED)])
    else:
        cs, st = generate(1)
        chk.stat(st)
        more, st = generate(4, ["-simulate", "num=30", "-depth", "5", "-seed", str(vlib.SEED)])
        more = rng.sample(more, min(len(more), 6000))
    chk.stat(st)
    cs += more
    jobs, sess = [], []
    for a in range(0, len(cs), 250):
        part = cs[a:a + 250]
        jobs.append(dict(id=len(jobs), kind="config", qs=[to_cfg(c, rng) for c in part], part=part))
    res = vlib.run_jobs([{k: v for k, v in j.items() if k != "part"} for j in jobs], timeout=120)
    acc = {}
    for j, r in zip(jobs, res):
        ev = []
        for n, c in enumerate(j["part"]):
            o = r["out"][n] if "out" in r else dict(v=r["fate"], n=r["fate"], t=r["fate"], n2=r["fate"])
            ev.append(dict(o="V", c=c, v=o["v"], n=o["n"], t=o["t"], n2=o["n2"]))
            acc[o["n"]] = acc.get(o["n"], 0) + 1
            if "out" not in r:
                break
        sess.append(dict(id=j["id"], ev=ev))
    chk.judge("TraceConfig", sess, [j["qs"] for j in jobs])
    chk.cov["configurations"] = len(cs)
    chk.cov["answers"] = acc
    # accepted configurations, used
    use = []
    for j, r in zip(jobs, res):
        for q, o in zip(j["qs"], r.get("out", [])):
            if o["n"] == "ok" and q["w"] * q["h"] <= 40000 and q["w"] <= 2048 and q["pass"] == 0:
                use.append(q)
    rng.shuffle(use)
    use = use[:3000 if vlib.THOROUGH else 90]
    use += [extreme(rng) for _ in range(4000 if vlib.THOROUGH else 200)]
    ej = []
    for c in use:
        c = dict(c)
        small = c["w"] * c["h"] < 5000
        n = rng.choice([1, 2, 7, 9]) if small else 2
        if c.get("still"):
            n = 1
        ej.append(dict(id=len(ej), kind="enc", cfg=c, n=n, sched=rng.choice(["L", "AFD"]), want=["brief", "dav1d"],
                       content=dict(kind=rng.choice(["noise", "pan", "flat", "extreme"]), seed=rng.randrange(1000))))
    # long frame durations: time stamps beyond 64 bits
    for tb in ([2**32 - 1, 1], [2**31, 3]) if vlib.THOROUGH else ([2**32 - 1, 1],):
        ej.append(dict(id=len(ej), kind="enc", cfg=dict(w=16, h=16, speed=10, threads=1, tb=tb, q=255, la=1, ll=1), n=900, sched="L", want=["brief"],
                       content=dict(kind="flat", seed=1), timeout=120))
    er = vlib.run_jobs(ej, timeout=90)
    s2 = []
    for j, r in zip(ej, er):
        e = r.get("ev", [])
        if r.get("fate"):
            ev = dict(o="U", r=r["fate"], acc=0, **{"del": 0}, offered=j["n"])
        elif e[-1]["o"] != "E":
            ev = dict(o="U", r="%s in %s" % (e[-1]["r"], e[-1]["o"]), acc=0, **{"del": 0}, offered=j["n"], why=e[-1].get("why", ""))
        else:
            ev = dict(o="U", r=[x for x in e if x["o"] == "R"][-1]["r"], acc=e[-1]["acc"], **{"del": e[-1]["del"]}, offered=j["n"])
        ev["lost"] = sum(1 for x in e if x["o"] == "R" and x["r"] == "pkt" and not x["shown"])
        s2.append(dict(id=j["id"], ev=[ev]))
    chk.judge("TraceConfig", s2, ej)
    chk.cov["configurations_used"] = len(ej)
    chk.sample({"configuration": cs[-1], "answer": sess[-1]["ev"][-1]["n"]})
    chk.sample({"used": ej[0]["cfg"], "end": s2[0]["ev"][0]})
    return chk.finish()
