import vlib

LAYOUT = {400: 0, 420: 1, 422: 2, 444: 3}
KINDS = ["pan", "pan", "mixed", "noise", "text", "grad", "fade", "extreme", "static", "flat", "tex2", "whip", "rush"]


def job(rng, k):
    speed = rng.choice([0, 1, 2, 3, 4, 4, 5, 5, 6, 6, 6, 7, 8, 9, 9, 10, 10, 10])
    cs = rng.choice([420, 420, 420, 444, 422, 400])
    bd = rng.choice([8, 8, 8, 10, 10, 12])
    slow = speed <= 2
    r = rng.random()
    if r < 0.25:
        w, h = rng.choice([(16, 16), (17, 17), (24, 33), (63, 65), (64, 64), (66, 62), (65, 16), (16, 130), (33, 31), (128, 32)])
    else:
        w, h = rng.randrange(16, 80 if slow else 210), rng.randrange(16, 72 if slow else 170)
    n = rng.choice([1, 2, 3, 5, 6] if slow else [2, 4, 5, 6, 7, 9, 11])
    cfg = dict(w=w, h=h, cs=cs, bd=bd, speed=speed, threads=1, q=rng.choice([0, 1, 5, 20, 40, 60, 80, 100, 120, 150, 180, 200, 230, 255]),
               tune=rng.choice([0, 1, 1]), ll=rng.choice([0, 0, 1]), scd=rng.choice([0, 0, 1, 2]),
               maxkf=rng.choice([0, 0, 0, 3, 5, 7]), minkf=0, full=rng.choice([0, 1]))
    if rng.random() < 0.08:
        cfg.update(still=1)
        cfg["w"], cfg["h"] = rng.choice([(1, 1), (2, 3), (5, 8), (9, 1), (1, 40), (15, 15), (w, h), (7, 70)])
        n = 1
    if rng.random() < 0.18 and not cfg.get("still"):
        cfg["tcols"], cfg["trows"] = rng.choice([(2, 1), (1, 2), (2, 2), (4, 2)])
        cfg["w"], cfg["h"] = rng.choice([(130, 130), (129, 70), (192, 65), (200, 128), (70, 140), (257, 66)])
        if slow:
            cfg["speed"] = 4
    if rng.random() < 0.1:
        cfg["er"] = 1
    if cfg["ll"] and rng.random() < 0.2:
        cfg["switch"] = rng.choice([2, 3, 4])
    if rng.random() < 0.12:
        cfg["br"] = rng.choice([5000, 40000, 400000, 4000000])
        cfg["tb"] = [1, 30]
    ss = {}
    if rng.random() < 0.3:
        if rng.random() < 0.5 and not slow:
            ss["lrf"] = True
        if rng.random() < 0.3:
            ss["cdef"] = False
        if rng.random() < 0.3:
            ss["segmentation"] = rng.choice(["Disabled", "Simple", "Complex", "Full"])
        if rng.random() < 0.3:
            ss["fast_deblock"] = rng.choice([True, False])
        if rng.random() < 0.3:
            ss["lru_on_skip"] = True
        if rng.random() < 0.3:
            ss["sgr_complexity"] = rng.choice(["Full", "Reduced"])
        if rng.random() < 0.3 and cfg["speed"] >= 5:
            ss["prediction"] = {"prediction_modes": rng.choice(["Simple", "ComplexKeyframes", "ComplexAll"])}
        if rng.random() < 0.2:
            ss["multiref"] = rng.choice([True, False])
        if rng.random() < 0.2:
            ss["motion"] = {"use_satd_subpel": rng.choice([True, False]), "me_allow_full_search": rng.choice([True, False]), "include_near_mvs": rng.choice([True, False])}
    if ss:
        cfg["ss"] = ss
    j = dict(id=k, kind="enc", cfg=cfg, n=n, sched="L", want=["dav1d", "aom", "obu"],
             content=dict(kind=rng.choice(KINDS), seed=rng.randrange(1 << 30), cuts=[rng.randrange(1, 8)] if rng.random() < 0.4 else []))
    if rng.random() < 0.3:
        j["cpu"] = rng.choice(["rust", "rust", "sse2", "ssse3", "sse4_1"])
    if bd == 8 and rng.random() < 0.12:
        j["hbd"] = True
    return j


def project(j, r):
    c = j["cfg"]
    cfg = dict(w=c["w"], h=c["h"], bpc=c.get("bd", 8), layout=LAYOUT[c.get("cs", 420)])
    if "fate" in r:
        return {"id": j["id"], "cfg": cfg, "ev": [{"o": "X", "r": r["fate"]}]}
    ev = []
    for e in r["ev"]:
        if e["o"] == "R" and e["r"] == "pkt":
            fr = [dict(se=o["se"], idx=o.get("idx", 0), show=o.get("show", 0), refresh=[i for i in range(8) if o.get("refresh", 0) >> i & 1])
                  for o in e["obus"] if o["t"] in ("frame", "fh")]
            ev.append(dict(o="R", r="pkt", rec=e["rec"], frames=fr, dec=e["dec"]))
        elif e["o"] == "E":
            ev.append(dict(o="E", r="ok", acc=e["acc"], **{"del": e["del"]}))
        elif e["r"] in ("panic", "Failure", "err"):
            ev.append(dict(o="X", r=e["r"], why=e.get("why", "")))
    return {"id": j["id"], "cfg": cfg, "ev": ev}


def run():
    chk = vlib.Check("C06")
    vlib.build_harness()
    chk.model_async("DecodeMC", "DecodeMC.cfg" if vlib.THOROUGH else "DecodeMCq.cfg", workers=2)
    n = 6000 if vlib.THOROUGH else 560
    jobs = [job(chk.rng, k) for k in range(n)]
    jobs.sort(key=lambda j: (j["cfg"]["speed"] > 2, j["id"]))     # long ones first
    res = vlib.run_jobs(jobs, timeout=120)
    sess = [project(j, r) for j, r in zip(jobs, res)]
    chk.judge("TraceDecode", sess, jobs)
    pk = [e for s in sess for e in s["ev"] if e["o"] == "R"]
    chk.cov["packets_decoded_by_two_decoders"] = len(pk)
    chk.cov["by_speed"] = {str(v): sum(1 for j in jobs if j["cfg"]["speed"] == v) for v in range(11)}
    chk.cov["by_format"] = {"%d/%d" % (cs, bd): sum(1 for j in jobs if j["cfg"]["cs"] == cs and j["cfg"]["bd"] == bd) for cs in LAYOUT for bd in (8, 10, 12)}
    chk.cov["cpu_levels"] = sorted({j.get("cpu", "native") for j in jobs})
    chk.sample({"cfg": jobs[-1]["cfg"], "packets": sum(1 for e in sess[-1]["ev"] if e["o"] == "R")})
    return chk.finish()
