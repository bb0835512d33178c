"""Tile layouts: requests answered by Config::tiling_info and layouts in real
frame headers, judged by spec/Tiling.tla."""
from fractions import Fraction
import vlib

RATE = Fraction(4096 * 2176 * 60 * 11, 10)


def rate_log2(w, h, tb):
    n = Fraction(((w + 7) // 8 * 8) * ((h + 7) // 8 * 8) * tb[1], tb[0]) / RATE
    c = -(-n.numerator // n.denominator)
    k = 0
    while 1 << k < c:
        k += 1
    return k


def log2(n):
    k = 0
    while 1 << k < n:
        k += 1
    return k


def request(c):
    return dict(w=c["w"], h=c["h"], is422=1 if c.get("cs") == 422 else 0, tc=log2(c.get("tcols", 0)), tr=log2(c.get("trows", 0)),
                tiles=c.get("tiles", 0), rate=rate_log2(c["w"], c["h"], c["tb"]))


def dim(rng):
    r = rng.random()
    if r < .2:
        return rng.randrange(16, 700)
    if r < .5:
        return max(16, min(65535, 64 * rng.choice([1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 37, 63, 64, 65, 97, 127, 128, 129, 193, 255, 257, 512, 513, 640, 1023, 1024]) + rng.choice([-8, -1, 0, 0, 1, 7, 8, 9])))
    if r < .7:
        return rng.choice([1920, 1080, 1280, 720, 3840, 2160, 7680, 4320, 4096, 4097, 4104, 8192, 640, 360, 65535])
    return int(16 * (65535 / 16) ** rng.random())


def query(rng):
    c = dict(w=dim(rng), h=dim(rng), cs=rng.choice([420, 420, 444, 422, 422, 400]), tb=rng.choice([[1, 30], [1, 25], [1, 60], [1001, 24000], [1, 240], [1, 1000], [1, 90000], [1, 4294967295], [4294967295, 1], [1, 1]]))
    if rng.random() < .35:
        c["tiles"] = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 64, 100, 1000, 4096, 5000, 1 << 20])
    else:
        c["tcols"] = rng.choice([0, 1, 1, 2, 4, 8, 16, 32, 64, 128, 1 << 20])
        c["trows"] = rng.choice([0, 1, 1, 2, 4, 8, 16, 32, 64, 128, 1 << 20])
    return c


def run():
    chk = vlib.Check("C08")
    chk.model_async("TilingMC", "TilingMC.cfg" if vlib.THOROUGH else "TilingMCq.cfg", workers=4)
    vlib.build_harness()
    rng = chk.rng
    n = 400 if vlib.THOROUGH else 40
    jobs = [dict(id=k, kind="tiling", qs=[query(rng) for _ in range(500)]) for k in range(n)]
    res = vlib.run_jobs(jobs, timeout=60)
    sess = []
    for j, r in zip(jobs, res):
        out = r.get("out") or [{"r": r["fate"]}]
        sess.append({"id": j["id"], "ev": [dict(o="T", r=x["r"], q=request(c), t={k: x.get(k, 0) for k in ("cols", "rows", "tw", "th", "cl", "rl")})
                                           for c, x in zip(j["qs"], out)]})
    chk.judge("TraceTiling", sess, jobs)
    chk.cov["requests"] = sum(len(s["ev"]) for s in sess)
    # encoded pictures
    ej = []
    for k in range(300 if vlib.THOROUGH else 60):
        c = dict(w=rng.choice([64, 65, 130, 192, 260, 320, 449, 576, 640, rng.randrange(16, 700)]), h=rng.choice([64, 65, 128, 200, 321, rng.randrange(16, 400)]),
                 cs=rng.choice([420, 422, 422, 444, 400]), tb=rng.choice([[1, 30], [1, 25], [1, 2000], [1, 90000]]), speed=10, q=200, threads=1, bd=rng.choice([8, 8, 10]))
        if rng.random() < .4:
            c["tiles"] = rng.choice([2, 3, 5, 6, 9, 20])
        else:
            c["tcols"], c["trows"] = rng.choice([1, 2, 4, 8, 16]), rng.choice([0, 1, 2, 4, 8])
        ej.append(c)
    ej += [dict(w=4160, h=64, cs=420, tb=[1, 30], speed=10, q=255, threads=1), dict(w=4200, h=40, cs=422, tb=[1, 30], speed=10, q=255, threads=1, tiles=3),
           dict(w=320, h=32000, cs=422, tb=[1, 30], speed=10, q=255, threads=1), dict(w=16, h=9000, cs=420, tb=[1, 30], speed=10, q=255, threads=1, trows=64)]
    if vlib.THOROUGH:
        ej += [dict(w=6000, h=3000, cs=cs, tb=[1, 30], speed=10, q=255, threads=1, tcols=t) for cs in (420, 422) for t in (1, 2, 8)]
        ej += [dict(w=65535, h=170, cs=422, tb=[1, 30], speed=10, q=255, threads=1, tcols=t) for t in (1, 32)]
    jobs2 = [dict(id=k, kind="enc", cfg=c, n=2 if c["w"] * c["h"] < 500000 else 1, sched="L", want=["obu", "dav1d"], timeout=300,
                  content=dict(kind="flat" if c["w"] * c["h"] > 300000 else "grad", seed=k)) for k, c in enumerate(ej)]
    lay = vlib.run_jobs([dict(id=0, kind="tiling", qs=ej)], timeout=60)[0]
    if "out" not in lay:
        raise vlib.ToolError("layout job: %r" % lay)
    res2 = vlib.run_jobs(jobs2, timeout=120)
    sess2 = []
    for j, t, r in zip(jobs2, lay["out"], res2):
        q = request(j["cfg"])
        ev = [dict(o="T", r=t["r"], q=q, t={k: t.get(k, 0) for k in ("cols", "rows", "tw", "th", "cl", "rl")})]
        if "fate" in r:
            ev.append(dict(o="D", r=r["fate"], dec=""))
        for e in r.get("ev", []):
            if e["o"] == "R" and e["r"] == "pkt":
                for o in e["obus"]:
                    if o["t"] in ("frame", "fh") and not o["se"]:
                        ev.append(dict(o="H", r="ok", q=q, cols=o["cols"], rows=o["rows"], ctx=o["ctxid"]))
                ev.append(dict(o="D", r="ok" if not e["oerr"] else e["oerr"], dec="ok" if e["dec"][0]["e"] == 0 and e["dec"][0]["h"] == [e["rec"]] else "bad"))
            elif e["r"] in ("panic", "err", "Failure"):
                ev.append(dict(o="D", r=e["r"], dec=""))
        sess2.append({"id": j["id"], "ev": ev})
    chk.judge("TraceTiling", sess2, jobs2)
    chk.cov["encoded_layouts"] = len(sess2)
    chk.cov["multi_tile_layouts"] = sum(1 for s in sess for e in s["ev"] if e["t"]["cols"] * e["t"]["rows"] > 1)
    chk.sample({"request": sess[0]["ev"][0]["q"], "layout": sess[0]["ev"][0]["t"]})
    chk.sample({"encoded": jobs2[0]["cfg"], "layout": sess2[0]["ev"][0]["t"]})
    return chk.finish()
