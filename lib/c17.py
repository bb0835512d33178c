"""Film grain tables: spec/GrainTable.tla (model GrainMC.tla); pairs of encodes
with and without a table, the grain data dav1d reports judged by TraceGrain."""
import copy
import vlib


def digits(n):
    r = []
    while n:
        r.append(n % 32768)
        n //= 32768
    return r


def points(rng, most):
    n = rng.choice([0, 1, 1, 2, 3, most])
    xs = sorted(rng.sample(range(256), n))
    return [[x, rng.choice([0, 20, 255, rng.randrange(256)])] for x in xs]


def segment(rng, cs):
    lag = rng.choice([0, 0, 1, 2, 3])
    na = 2 * lag * (lag + 1)

    def co(n):
        return [rng.choice([-128, -1, 0, 1, 127, rng.randrange(-128, 128)]) for _ in range(n)]
    y, cb, cr = points(rng, 14), points(rng, 10), points(rng, 10)
    cfl = rng.random() < .2
    if cs == 420 and (not cb) != (not cr):
        cb, cr = ([], []) if rng.random() < .5 else (cb or [[3, 4]], cr or [[5, 6]])
    full = rng.random() < .5     # tables may hold more coefficients than the stream needs
    return dict(y=y, cb=cb, cr=cr, cfl=int(cfl), shift=rng.choice([8, 9, 10, 11]), lag=lag, ay=co(24 if full else na), acb=co(25 if full else na + 1), acr=co(25 if full else na + 1),
                ashift=rng.choice([6, 7, 8, 9]), gss=rng.choice([0, 1, 2, 3]), overlap=rng.choice([0, 1]),
                cbm=rng.randrange(256), cbl=rng.randrange(256), cbo=rng.randrange(512), crm=rng.randrange(256), crl=rng.randrange(256), cro=rng.randrange(512),
                seed=rng.choice([0, 1, 7, 3248, 62288, 62288 - 3248, 65535, 10956, rng.randrange(65536)]))


def table(rng, c, n):
    """Segments around the frame times of an n-frame video."""
    num, den = c.get("tb", [1, 30])

    def at(k):
        return k * num * 10**7 // den
    if rng.random() < .08:
        return []
    cuts = sorted({max(0, at(rng.randrange(n + 2)) + rng.choice([0, 0, 0, 1, 1, -1, 2, num * 10**7 // den // 2])) for _ in range(rng.choice([1, 2, 3, 5]))} | ({0} if rng.random() < .7 else set()))
    cuts.append(rng.choice([2**64 - 1, at(n + 5), cuts[-1] + 1]))
    segs = []
    for a, b in zip(cuts, cuts[1:]):
        if rng.random() < .8:
            segs.append(dict(segment(rng, c.get("cs", 420)), start=a, end=min(b, 2**64 - 1)))
    if rng.random() < .2:
        rng.shuffle(segs)
    if rng.random() < .15:
        segs.append(dict(segment(rng, c.get("cs", 420)), start=0, end=at(n)))
    return segs


def damage(rng, t):
    """A value the bitstream cannot express, or just can."""
    t = copy.deepcopy(t)
    s = rng.choice(t)
    f = rng.choice(["shift", "lag", "ashift", "gss", "cbo", "cro", "ay", "acb", "acr", "y", "cb", "cr", "cfl"])
    if f == "shift":
        s[f] = rng.choice([0, 7, 12, 255])
    elif f == "lag":
        s[f] = rng.choice([1, 3, 4, 255])
    elif f == "ashift":
        s[f] = rng.choice([0, 5, 10, 255])
    elif f == "gss":
        s[f] = rng.choice([3, 4, 255])
    elif f in ("cbo", "cro"):
        s[f] = rng.choice([511, 512, 65535])
    elif f in ("ay", "acb", "acr"):
        s[f] = s[f][:rng.choice([0, max(0, len(s[f]) - 1)])]
    elif f == "cfl":
        s[f] = 1 - s[f]
    else:
        s[f] = rng.choice([[], [[4, 1]], [[4, 1], [4, 2]], [[9, 1], [3, 2]], s[f][::-1]])
    return t


def config(rng):
    c = dict(w=rng.choice([16, 32, 64]), h=rng.choice([16, 48, 64]), speed=rng.choice([10, 10, 10, 9, 8, 6]), threads=1, q=rng.choice([255, 200, 120]))
    c["cs"] = rng.choice([420, 420, 420, 400, 422, 444])
    c["bd"] = rng.choice([8, 8, 10, 12])
    c["tb"] = rng.choice([[1, 30], [1, 25], [1001, 30000], [1001, 24000], [1, 240], [1, 1], [1, 7], [5, 3], [1, 10**7], [1, 2 * 10**7], [3600, 1], [2**32 - 1, 1], [1, 2**32 - 1], [2**31, 3]])
    if rng.random() < .3:
        c["ll"] = 1
    if rng.random() < .6:
        c["maxkf"] = rng.choice([1, 2, 5, 9, 30])
        c["minkf"] = rng.choice([0, 1, c["maxkf"]])
    if rng.random() < .3:
        c["full"] = 1
    if rng.random() < .2:
        c["er"] = 1
    if rng.random() < .15:
        c["switch"], c["ll"] = rng.choice([1, 2, 3]), 1
    if rng.random() < .1:
        c["still"] = 1
    if rng.random() < .3:
        c["la"] = rng.choice([1, 2, 20])
    if rng.random() < .3:
        c["scd"] = rng.choice([0, 1, 2])
    return c


def parse(t):
    off = dict(on=False, p=[], seed=0)
    if t == "off":
        return off
    r = {}

    def ints(s):
        return [int(x) for x in s.split(",") if x]

    def pts(s):
        return [[int(v) for v in x.split("/")] for x in s.split(",") if x]
    for f in t.split(";"):
        if not f:
            continue
        if f.startswith("y:"):
            r["y"] = pts(f[2:])
        elif f.startswith("cfl"):
            r["cfl"] = int(f[3:])
        elif f.startswith("uv0:"):
            r["cb"] = pts(f[4:])
        elif f.startswith("uv1:"):
            r["cr"] = pts(f[4:])
        elif f.startswith("ss"):
            r["shift"] = int(f[2:])
        elif f.startswith("lag"):
            r["lag"] = int(f[3:])
        elif f.startswith("ay:"):
            r["ay"] = ints(f[3:])
        elif f.startswith("a0:"):
            r["acb"] = ints(f[3:])
        elif f.startswith("a1:"):
            r["acr"] = ints(f[3:])
        elif f.startswith("as"):
            r["ashift"] = int(f[2:])
        elif f.startswith("gs"):
            r["gss"] = int(f[2:])
        elif f.startswith("m0:"):
            r["mb"] = ints(f[3:])
        elif f.startswith("m1:"):
            r["mr"] = ints(f[3:])
        elif f.startswith("ov"):
            r["ov"] = int(f[2:])
        elif f.startswith("cl"):
            r["lim"] = int(f[2:])
        elif f.startswith("seed"):
            seed = int(f[4:])
    r.setdefault("mb", [])
    r.setdefault("mr", [])
    return dict(on=True, p=r, seed=seed)


def spec_segment(s):
    na = 2 * s["lag"] * (s["lag"] + 1)
    return dict(start=digits(s["start"]), end=digits(s["end"]), seed=s["seed"], y=s["y"], cb=s["cb"], cr=s["cr"], cfl=s["cfl"], shift=s["shift"], lag=s["lag"],
                ay=s["ay"], acb=s["acb"], acr=s["acr"], ashift=s["ashift"], gss=s["gss"], ov=s["overlap"],
                m=[[s["cbm"] - 128, s["cbl"] - 128, s["cbo"] - 256], [s["crm"] - 128, s["crl"] - 128, s["cro"] - 256]])


def essence(p):
    return [p["rec"], p["ft"], p["qp"], p["no"]]


def session(j, r, base):
    c = j["cfg"]
    cfg = dict(segs=[spec_segment(s) for s in c.get("grain") or []], num=digits(c["tb"][0]), den=digits(c["tb"][1]), mono=c["cs"] == 400, s420=c["cs"] == 420, lim=0 if c.get("full") else 1)
    pk = [e for e in r.get("ev", []) if e["o"] == "R" and e["r"] == "pkt"]
    pb = [e for e in base.get("ev", []) if e["o"] == "R" and e["r"] == "pkt"]
    end = r.get("fate") or base.get("fate") or next((e["r"] for e in r["ev"] if e["r"] in ("panic", "err", "Failure")), "ok")
    why = (r.get("ev") or [{}])[0]
    ev = [dict(o="C", r=why.get("why", "?") if why.get("r") == "err" else why.get("r", "died"))]
    if why.get("r") == "err":
        return dict(id=j["id"], cfg=cfg, ev=ev)
    for k, p in enumerate(pk):
        fr = [dict(se=o["se"], idx=o.get("idx", 0), key=int(o.get("ft", 1) == 0), show=o.get("show", 0), refresh=[i for i in range(8) if o.get("refresh", 0) >> i & 1])
              for o in p["obus"] if "se" in o]
        d = p["dec"][0]
        ev.append(dict(o="P", fg=[o["seq"]["fg"] for o in p["obus"] if o["t"] == "seq"], frames=fr, x=parse(d.get("grain", "off")),
                       dec="ok" if d["e"] == 0 and d["n"] == 1 and d["h"] == [p["rec"]] else "bad", a=essence(p), b=essence(pb[k]) if k < len(pb) else []))
    ev.append(dict(o="E", end=end, na=len(pk), nb=len(pb)))
    return dict(id=j["id"], cfg=cfg, ev=ev)


def run():
    chk = vlib.Check("C17")
    vlib.build_harness()
    rng = chk.rng
    T = vlib.THOROUGH
    chk.model_async("GrainMC", "GrainMC.cfg" if T else "GrainMCq.cfg", workers=3)
    jobs = []
    for k in range(3000 if T else 260):
        c = config(rng)
        n = 1 if c.get("still") else rng.choice([1, 3, 6, 12, 12, 20, 40])
        c["grain"] = table(rng, c, n)
        if rng.random() < .05:
            c.pop("grain")
        elif c["grain"] and rng.random() < .25:
            c["grain"] = damage(rng, c["grain"])
        j = dict(id=2 * k, kind="enc", cfg=c, n=n, sched=rng.choice(["L", "A"]) if False else "L", want=["obu", "dav1d", "grain"],
                 content=dict(kind=rng.choice(["noise", "pan", "flat", "static", "mixed", "cutall"]), seed=rng.randrange(1000), cuts=[rng.randrange(1, n + 1)] if rng.random() < .4 else []))
        if rng.random() < .3:
            j["key"] = sorted(rng.sample(range(n), min(n, rng.choice([1, 2, 3]))))
        b = copy.deepcopy(j)
        b["id"] += 1
        b["cfg"].pop("grain", None)
        jobs += [j, b]
    rs = vlib.run_jobs(jobs, timeout=120)
    sess = [session(jobs[i], rs[i], rs[i + 1]) for i in range(0, len(jobs), 2)]
    chk.judge("TraceGrain", sess, [jobs[i] for i in range(0, len(jobs), 2)])
    chk.cov["tables_refused"] = sum(s["ev"][0]["r"] == "InvalidFilmGrain" for s in sess)
    shown = [e["x"] for s in sess for e in s["ev"] if e["o"] == "P"]
    chk.cov["encode_pairs"] = len(sess)
    chk.cov["pictures"] = len(shown)
    chk.cov["pictures_with_grain"] = sum(x["on"] for x in shown)
    chk.cov["tables_with_several_segments"] = sum(len(s["cfg"]["segs"]) > 1 for s in sess)
    chk.sample(sess[0]["cfg"])
    chk.sample([x for x in shown if x["on"]][:3])
    return chk.finish()
