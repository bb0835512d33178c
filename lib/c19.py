"""What an encoder holds on to: pictures, user data and heap memory, against
spec/Retention.tla."""
import vlib

STEADY = [("pan", 12, 16), ("noise", 16, 16), ("static", 8, 8), ("pan", 20, 20), ("mixed", 12, 12), ("cutall", 24, 12), ("drift", 10, 10)]


def base(rng, speeds):
    c = dict(w=rng.choice([32, 48, 64, 64, 96]), h=rng.choice([32, 48, 64]), speed=rng.choice(speeds), threads=rng.choice([1, 1, 1, 2, 4]),
             bd=rng.choice([8, 8, 8, 10]), cs=rng.choice([420, 420, 420, 422, 444, 400]), la=rng.choice([1, 2, 5, 10, 10, 20, 40]))
    if rng.random() < .3:
        c["ll"] = True
        if rng.random() < .5:
            c["switch"] = rng.choice([2, 3, 5])
    if rng.random() < .4:
        c["br"] = rng.choice([20, 100, 400]) * 1000
        c["rfd"] = rng.choice([12, 20, 60])
    else:
        c["q"] = rng.choice([60, 120, 200, 255])
    if rng.random() < .3:
        c["er"] = True
    if rng.random() < .3:
        c["scd"] = rng.choice([0, 1, 2])
    if rng.random() < .3:
        c["tune"] = 0
    if rng.random() < .2:
        c["timing"] = True
    if rng.random() < .15:
        c["ss"] = rng.choice([{"multiref": False}, {"transform": {"tx_domain_distortion": False}}, {"lrf": True}, {"cdef": False, "lrf": False}])
    if rng.random() < .3:
        c["tcols"] = 2
    return c


def steady(rng, n):
    c = base(rng, [10, 10, 10, 9, 8, 7, 6, 6, 4])
    kind, kf, period = rng.choice(STEADY)
    if c["speed"] < 9:
        c.update(w=32, h=32)
    c.update(maxkf=kf, minkf=rng.choice([0, 0, 4]))
    return dict(kind="hold", cfg=c, n=n, ahead=rng.choice([0, 0, 0, 12, 30]), period=period, opq=rng.choice([0, 1, 2, 4]), t35=rng.choice([0, 1, 4]), reps=1,
                key=rng.choice([0, 0, 0, kf, 4]), content=dict(kind=kind, seed=rng.randrange(1000)))


def short(rng):
    c = base(rng, [10, 10, 9, 8, 6, 4, 2])
    c.update(maxkf=rng.choice([0, 1, 3, 8, 50]), minkf=rng.choice([0, 2]))
    n = rng.choice([0, 1, 1, 2, 3, 5, 9, 20])
    if rng.random() < .1 and not c.get("br") and not c.get("switch"):
        c["still"] = True
    return dict(kind="hold", cfg=c, n=n, ahead=rng.choice([0, 0, 3, 12, 100]), opq=rng.choice([0, 1, 1, 2]), t35=rng.choice([0, 1, 3]), reps=8, key=rng.choice([0, 0, 1, 5]),
                stop=rng.choice([10 ** 9, 10 ** 9, 0, 1, n // 2, n]), content=dict(kind=rng.choice(["pan", "noise", "cutall", "mixed"]), seed=rng.randrange(1000)))


def session(i, j, r):
    ev = []
    for e in r["ev"]:
        no = e["no"]
        ev.append(dict(o=e["o"], r=e["r"], no=no, held=e["held"], opq=e["opq"], tag=int(e["o"] == "S" and (e["r"] != "ok" or bool(j["opq"]) and no % j["opq"] == 0))))
    heap = []
    for e in r["ev"]:
        if e["o"] == "S" and e["r"] != "ok":
            break
        if e["o"] == "R" and e["r"] == "pkt":
            heap.append(e["heap"])
    ev.append(dict(o="H", heap=heap, before=r["before"] if j["reps"] > 1 else -1, after=r["after"], threads=j["cfg"]["threads"]))
    return dict(id=i, ev=ev)


def run():
    chk = vlib.Check("C19")
    T = vlib.THOROUGH
    chk.model_async("RetentionMC", "RetentionMC.cfg" if T else "RetentionMCq.cfg", workers=3)
    vlib.build_harness()
    rng = chk.rng
    jobs = [steady(rng, 800 if T else 280) for _ in range(300 if T else 32)] + [short(rng) for _ in range(2000 if T else 150)]
    rs = vlib.run_jobs(jobs, timeout=180)
    sess, sj, ends = [], [], {}
    for j, r in zip(jobs, rs):
        if "ev" not in r:
            chk.violation("session-" + r.get("fate", "lost"), dict(job=j, result=r))
            continue
        ends[r["end"]] = ends.get(r["end"], 0) + 1
        if r["ev"]:
            sess.append(session(len(sess), j, r))
            sj.append(j)
    chk.judge("TraceRetention", sess, sj)
    chk.cov["sessions"] = len(jobs)
    chk.cov["ends"] = ends
    chk.cov["frames"] = sum(j["n"] * j["reps"] for j in jobs)
    chk.sample(dict(job=jobs[0], peak=max(sess[0]["ev"][-1]["heap"])))
    return chk.finish()
