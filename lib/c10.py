"""The two-pass statistics protocol: spec/TwoPass.tla, explored by TwoPassMC.tla;
schedules it generates and damaged statistics are run on the real encoder."""
import json, struct
import vlib


def schedules(num, seed):
    out, st = vlib.tlc("TwoPassMC", cfg="TwoPassGen.cfg", args=["-simulate", "num=%d" % num, "-depth", "90", "-seed", str(seed)], workers=1)
    res = {}
    for l in out.splitlines():
        l = vlib.unquote(l)
        if l.startswith("GEN "):
            g = json.loads(l[4:])
            res[g["ops"]] = g
    return list(res.values()), st


def config(rng):
    c = dict(w=rng.choice([16, 24, 40, 64]), h=rng.choice([16, 18, 48, 64]), speed=rng.choice([10, 10, 10, 9, 8, 7]), threads=1,
             br=rng.choice([1, 1000, 30000, 200000, 10**6, 2**31 - 1]), q=rng.choice([255, 255, 200, 120, 60, 0]), minq=rng.choice([0, 0, 30, 120, 255]))
    if rng.random() < .35:
        c["ll"] = 1
    if rng.random() < .3:
        c["la"] = rng.choice([1, 2, 5, 20])
    if rng.random() < .5:
        c["maxkf"] = rng.choice([1, 2, 5, 12, 30])
        c["minkf"] = rng.choice([0, 1, c["maxkf"]])
    if rng.random() < .25:
        c["scd"] = rng.choice([0, 1, 2])
    if rng.random() < .2:
        c["bd"] = rng.choice([10, 12])
    if rng.random() < .3:
        c["cs"] = rng.choice([400, 422, 444])
    if rng.random() < .2:
        c["tune"] = 0
    if rng.random() < .3:
        c["tb"] = rng.choice([[1, 25], [1001, 30000], [1, 240], [1, 1]])
    if rng.random() < .1:
        c["er"] = 1
    return c


def job(rng, g=None):
    c = config(rng)
    n = rng.choice([1, 2, 3, 5, 8, 13, 21, 34, 50])
    s1 = s2 = ""
    if g:
        s1, s2 = g["ops"].split("N")
        s2 = s2.rstrip("E")
        n = s1.count("S") + rng.choice([0, 0, 0, 1, 7, 30])
    p1 = dict(sched=s1, bytesout=rng.random() < .25)
    ps = [p1]
    for k in range(rng.choice([1, 1, 1, 2])):
        # a later pass follows the coding decisions of the first: only what the
        # rate control does may change
        p = dict(emit=bool(g["m"]) if g and not k else rng.random() < .3, cfg=dict(br=rng.choice([c["br"], 1000, 50000, 10**6])))
        if g:
            big = g["d"] != 0
        else:
            big = rng.random() < .6
        if big:
            p["cfg"]["rfd"] = rng.choice([12, 12, 13, 17, 30, 60])
        if not k:
            p["sched"] = s2
        p["bytes"] = rng.random() < .3
        if p["bytes"]:
            p["head"] = rng.random() < .3
            p["chunks"] = rng.choice([[1], [7], [8], [8, 3], [68, 8], [100, 1], [1000], [rng.randrange(1, 90) for _ in range(5)]])
        p["bytesout"] = p["emit"] and rng.random() < .3
        ps.append(p)
        if not p["emit"]:
            break
    j = dict(kind="twopass", cfg=c, n=n, passes=ps,
             content=dict(kind=rng.choice(["noise", "pan", "flat", "static", "mixed", "fade", "cutall", "extreme"]), seed=rng.randrange(1000)))
    if rng.random() < .25:
        j["key"] = sorted(rng.sample(range(n), min(n, rng.choice([1, 2, 3]))))
    return j


def good_summary(rng):
    n = [rng.choice([1, 2, 9]), rng.choice([0, 3, 50]), rng.choice([0, 7]), rng.choice([0, 2]), rng.choice([0, 5])]
    ntus = rng.randrange(1, sum(n) + 1)
    return list(struct.pack("<4sII5I4B4q", b"VA2P", 1, ntus, *n, *[rng.choice([48, 61, 104, 139]) for _ in range(4)],
                            *[k * rng.choice([0, 1, 2**20, 2**40]) for k in n[:4]]))


def summaries(rng, num):
    out = []
    g = good_summary(rng)
    out += [g[:k] for k in range(69)]
    out += [g + [0], g + [255] * 40, [], [0] * 68, [255] * 68]
    for i in range(68):
        for v in {0, 1, 127, 128, 255, g[i] ^ 1, (g[i] + 1) % 256}:
            out.append(g[:i] + [v] + g[i + 1:])
    for _ in range(num):
        b = good_summary(rng)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            i = rng.randrange(68)
            b[i] = rng.choice([0, 1, 127, 128, 255, rng.randrange(256)])
        if rng.random() < .2:
            b = b[:rng.randrange(69)]
        out.append(b)
    return out


def edit(rng, n):
    """Damage to the statistics before a later pass."""
    e = {}
    for _ in range(rng.choice([1, 1, 2, 3])):
        f = rng.choice(["sum", "sum", "rec", "rec", "set", "set", "keep", "repeat", "rotate", "counts", "exp", "scale", "sumlen"])
        S = e.setdefault("sum", [])
        if f == "sum":
            S.append([rng.randrange(68), rng.choice([0, 1, 127, 128, 255, rng.randrange(256)])])
        elif f == "counts":
            i = rng.choice([8, 12, 16, 20, 24, 28])
            v = rng.choice([0, 1, 2, n, 2 * n, 1000, 2**20, 2**30])
            S += [[i + k, v >> 8 * k & 255] for k in range(4)]
        elif f == "exp":
            S.append([32 + rng.randrange(4), rng.choice([0, 1, 2, 16, 32, 128, 255])])
        elif f == "scale":
            i, v = 36 + 8 * rng.randrange(4), rng.choice([0, 1, 2**31, 2**56, 2**63 - 1, rng.randrange(2**63)])
            S += [[i + k, v >> 8 * k & 255] for k in range(8)]
        elif f == "rec":
            e.setdefault("rec", []).append([rng.randrange(64), rng.randrange(8), rng.choice([0, 1, 2, 3, 4, 127, 128, 255])])
        elif f == "set":
            fti, show = rng.choice([0, 1, 2, 3, 4, 4, 5, 2**31 - 1]), rng.choice([0, 1])
            b = list(struct.pack("<Ii", fti | show << 31, rng.choice([0, 1, -1, 2**31 - 1, -2**31, 2**24, -2**24, 40 << 24, rng.randrange(-2**31, 2**31)])))
            if rng.random() < .15:
                b = b[:rng.randrange(9)]
            for i in ([rng.randrange(64)] if rng.random() < .5 else range(64)):
                e.setdefault("set", []).append([i, b])
        elif f == "keep":
            e["keep"] = rng.randrange(n + 1)
        elif f == "repeat":
            e["repeat"] = rng.choice([1, 3])
        elif f == "rotate":
            e["rotate"] = rng.randrange(1, 9)
        elif f == "sumlen" and rng.random() < .3:
            e["sumlen"] = rng.choice([0, 1, 30, 67])
    return e


def run():
    chk = vlib.Check("C10")
    vlib.build_harness()
    rng = chk.rng
    T = vlib.THOROUGH
    chk.model_async("TwoPassMC", "TwoPassMC.cfg" if T else "TwoPassMCq.cfg", workers=3 if T else 2)
    gs, st = schedules(2500 if T else 150, vlib.SEED)
    chk.stat(st)
    rng.shuffle(gs)
    jobs = [job(rng, g) for g in gs[:3000 if T else 150]] + [job(rng) for _ in range(4000 if T else 220)]
    for i, j in enumerate(jobs):
        j["id"] = i
    res = vlib.run_jobs(jobs, timeout=120)
    sess = []
    for j, r in zip(jobs, res):
        ev = r.get("ev") or [dict(o="R", r=r.get("fate", "gone"), sef=0, key=0)]
        sess.append(dict(id=j["id"], ev=ev, ends=r.get("ends")))
    chk.judge("TraceTwoPass", [dict(id=s["id"], ev=s["ev"]) for s in sess], jobs)
    cnt = {}
    for s in sess:
        for e in s["ev"]:
            k = e["o"] + " " + str(e["r"])
            cnt[k] = cnt.get(k, 0) + 1
    chk.cov["sessions"] = len(jobs)
    chk.cov["events"] = cnt
    # damaged summaries
    bs = summaries(rng, 60000 if T else 2500)
    sj = [dict(id=i, kind="summaries", bs=bs[a:a + 500]) for i, a in enumerate(range(0, len(bs), 500))]
    sr = vlib.run_jobs(sj, timeout=120)
    ss = []
    for j, r in zip(sj, sr):
        o = r.get("out") or [dict(r=r.get("fate", "gone"))]
        ss.append(dict(id=j["id"], ev=[dict(o="D", b=b, r=x["r"]) for b, x in zip(j["bs"], o)]))
    chk.judge("TraceTwoPass", ss, sj)
    chk.cov["summaries_offered"] = len(bs)
    # second passes on damaged statistics
    wj = []
    for k in range(20000 if T else 500):
        j = job(rng)
        j["n"] = rng.choice([1, 2, 3, 6, 12, 20])
        j.pop("key", None)
        p = j["passes"][-1] = dict(j["passes"][-1])
        p["edit"] = edit(rng, j["n"])
        p["n"] = rng.choice([j["n"], j["n"], j["n"] + 5, max(1, j["n"] // 2)])
        p.pop("sched", None)
        j["id"] = k
        wj.append(j)
    wr = vlib.run_jobs(wj, timeout=120)
    ws = []
    ends = {}
    for j, r in zip(wj, wr):
        e = r.get("ends") or [r.get("fate", "gone")]
        ends[e[-1][:60]] = ends.get(e[-1][:60], 0) + 1
        ws.append(dict(id=j["id"], ev=[dict(o="W", r=e[-1])]))
    chk.judge("TraceTwoPass", ws, wj)
    chk.cov["damaged_second_passes"] = ends
    chk.sample({"schedule": gs[0], "cfg": jobs[0]["cfg"], "ends": sess[0]["ends"]})
    chk.sample({"damage": wj[0]["passes"][-1]["edit"], "end": ws[0]["ev"][0]["r"]})
    return chk.finish()
