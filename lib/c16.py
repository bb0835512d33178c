"""Announced stream: spec/SeqHeader.tla (model SeqHeaderMC.tla); the real
sequence headers, metadata and container headers are read by TraceSeqHeader."""
import vlib

PRIM = [1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22]
TRAN = [1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18]
MATR = [0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]
LEVELS = [0, 1, 4, 5, 8, 9, 12, 13, 14, 15, 16, 17, 18, 19, 31]
U16 = [0, 1, 255, 256, 32767, 32768, 65535]
U32 = [0, 1, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1]


def half(x):
    return [x >> 16, x & 65535]


def config(rng, big):
    c = dict(speed=10, threads=1, bd=rng.choice([8, 8, 10, 12]), cs=rng.choice([400, 420, 420, 422, 444]),
             csp=rng.choice([0, 1, 2]), full=rng.choice([0, 1]))
    if big:
        c["w"], c["h"] = rng.choice([16, 17, 31, 33, 127, 128, 129, 1920, 4095, 4096, 4097, 16384, 32767, 65535, rng.randrange(16, 65536)]), rng.choice([16, 64, 65, 1080, 2304, 8192, 32768, 65535, rng.randrange(16, 65536)])
        while c["w"] * c["h"] > 40_000_000:
            c["h"] = max(16, c["h"] // 2)
    else:
        c["w"], c["h"] = rng.choice([16, 17, 31, 32, 33, 64, 65, 127, 128, 129]), rng.choice([16, 18, 32, 33, 63, 64, 65])
    if rng.random() < .7:
        c["color"] = rng.choice([[1, 13, 0], [1, 13, 1], [9, 16, 9], [1, 1, 0], [2, 2, 2], [rng.choice(PRIM), rng.choice(TRAN), rng.choice(MATR)]])
        if c["color"][2] == 0:
            c["cs"] = 444
        if c["color"] == [1, 13, 0]:
            c["full"] = 1
    if rng.random() < .6:
        c["level"] = rng.choice(LEVELS)
    if rng.random() < .25:
        c["still"] = 1
    elif rng.random() < .5:
        c["timing"] = 1
    c["tb"] = rng.choice([[1, 30], [1001, 30000], [1, 1], [1, 60], [65536, 65537], [2**31, 2**31 + 5], [2**32 - 1, 2**32 - 1], [2**32 - 1, 1000000], [3, 2**20]])
    if rng.random() < .6:
        c["cll"] = [rng.choice(U16), rng.choice(U16)]
    if rng.random() < .6:
        c["mdcv"] = [rng.choice(U16) for _ in range(8)] + [rng.choice(U32), rng.choice(U32)]
    if rng.random() < .3:
        c["sar"] = rng.choice([[1, 1], [4, 3], [3, 4], [16, 11], [2, 1], [1, 2], [100, 99], [99, 100], [10, 11], [1000, 1]])
    if rng.random() < .2:
        c["grain"] = rng.choice([[], [dict(start=0, end=10**9, y=[[0, 20], [255, 40]], seed=7, ay=[], acb=[0], acr=[0])]])
    return c


def abstract(c):
    m = c.get("mdcv") or []
    return dict(w=c["w"], h=c["h"], sar=c.get("sar", [1, 1]), bd=c["bd"], cs=c["cs"], csp=c["csp"], full=bool(c["full"]), color=c.get("color") or [],
                level=c.get("level", 31), still=bool(c.get("still")), timing=bool(c.get("timing")), tb=half(c["tb"][0]) + half(c["tb"][1]),
                grain=bool(c.get("grain")), cll=c.get("cll") or [], mdcv=m[:8] + half(m[8]) + half(m[9]) if m else [])


def run():
    chk = vlib.Check("C16")
    vlib.build_harness()
    rng = chk.rng
    T = vlib.THOROUGH
    chk.model_async("SeqHeaderMC", "SeqHeaderMC.cfg" if T else "SeqHeaderMCq.cfg", workers=3)
    jobs, meta = [], []
    for _ in range(6000 if T else 260):
        c = config(rng, False)
        n = 1 if c.get("still") else rng.choice([1, 2, 5, 9, 14])
        j = dict(kind="enc", n=n, sched="L", want=["obu"], cfg=c, content=dict(kind=rng.choice(["flat", "noise", "cutall", "pan"]), seed=rng.randrange(99)))
        if n > 1:
            c["maxkf"] = rng.choice([1, 2, 3, 12])
            c["minkf"] = 0
            c["ll"] = rng.choice([0, 1])
            if c["ll"] and rng.random() < .3:
                c["switch"] = rng.choice([1, 2])
            if rng.random() < .3:
                c["er"] = 1
            if rng.random() < .4:
                j["key"] = sorted(rng.sample(range(n), 1))
            if rng.random() < .3:
                j["t35"] = {str(rng.randrange(n)): [[181, 0, [1, 2, 3]]]}
            c["scd"] = rng.choice([0, 1])
        jobs.append(j)
        meta.append(c)
    for _ in range(8000 if T else 300):
        meta.append(config(rng, True))
    rs = vlib.run_jobs(jobs + [dict(kind="headers", cfg=c) for c in meta], timeout=120)
    sess, used = [], []
    keys = refused = 0
    for k, c in enumerate(meta):
        conts = rs[len(jobs) + k].get("conts")
        r = rs[k] if k < len(jobs) else None
        if r and r.get("ev", [{}])[0].get("r") == "err":
            refused += 1
            continue        # the configuration is refused, nothing to announce (C09)
        if conts is None:
            conts = [[rs[len(jobs) + k].get("fate", "nothing")]]
        elif not r and not any(conts):
            refused += 1
            continue
        ev = [dict(o="C", c=abstract(c), conts=conts)]
        if r:
            end = r.get("fate", "nothing")
            for x in r.get("ev", []):
                if x["o"] == "R":
                    end = x["r"]
                if x["r"] in ("panic", "err"):
                    end = x["r"]
                if x["o"] != "R" or x["r"] != "pkt":
                    continue
                ob = x["obus"]
                keys += x["ft"] == 0
                if x["oerr"]:
                    end = x["oerr"]
                ev.append(dict(o="P", key=x["ft"] == 0, seqs=[o["b"] for o in ob if o["t"] == "seq"], meta=[o["b"] for o in ob if o["t"] in ("cll", "mdcv", "meta")],
                               sizes=[[o["w"], o["h"], o["rw"], o["rh"]] for o in ob if o["t"] in ("frame", "fh") and not o["se"]]))
                if x["oerr"]:
                    break
            ev.append(dict(o="E", end=end))
        sess.append(dict(id=k, ev=ev))
        used.append(jobs[k] if r else dict(kind="headers", cfg=c))
    chk.judge("TraceSeqHeader", sess, used)
    chk.cov["encodes"] = len(jobs)
    chk.cov["container_headers"] = 3 * (len(meta) - refused)
    chk.cov["keyframe_packets"] = keys
    chk.cov["refused_configurations"] = refused
    chk.sample(sess[0]["ev"][0])
    return chk.finish()
