"""IVF framing: spec/Ivf.tla (model IvfMC.tla); files written by the real
writer, read back whole, cut at every byte and with a damaged signature, judged by TraceIvf."""
import vlib

U32 = [0, 1, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 30000, 1001]
U64 = [0, 1, 255, 65535, 65536, 2**31, 2**32 - 1, 2**32, 2**40 + 3, 2**63 - 1, 2**63, 2**64 - 1]


def run():
    chk = vlib.Check("C13")
    vlib.build_harness()
    rng = chk.rng
    T = vlib.THOROUGH
    chk.model_async("IvfMC", "IvfMC.cfg" if T else "IvfMCq.cfg", workers=3)
    jobs = []
    for k in range(900 if T else 90):
        ps = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            n = rng.choice([0, 0, 1, 2, 3, 12, 13, 32, 40])
            d = [rng.randrange(256) for _ in range(n)]
            if rng.random() < .2:
                d = list(b"DKIF") + d
            if rng.random() < .2:
                d = [rng.choice([0, 255])] * n
            ps.append(dict(pts=rng.choice(U64 + [rng.randrange(2**64)]), data=d))
        big = [dict(pts=rng.choice(U64), len=rng.choice([254, 255, 256, 257, 65535, 65536, 65537, 70000, 131072, 2**20 + 1])) for _ in range(rng.choice([0, 1, 3]))]
        if k % 30 == 0:
            big.append(dict(pts=5, len=2**24 + rng.choice([0, 1, 77])))
        jobs.append(dict(kind="ivf", chunk=rng.choice([0, 0, 1, 2, 3, 7]), ps=ps, big=big,
                         h=dict(w=rng.choice([0, 1, 255, 256, 65535, 1920, rng.randrange(65536)]), h=rng.choice([0, 1, 255, 256, 65535, 1080, rng.randrange(65536)]),
                                num=rng.choice(U32), den=rng.choice(U32))))
    rs = vlib.run_jobs(jobs, timeout=120)
    sess, cuts = [], 0
    for k, r in enumerate(rs):
        ev = r.get("ev") or []
        if not ev or "bytes" not in ev[0]:
            chk.violation("writer-fails", dict(job=jobs[k], result=r))
            continue
        for e in ev:
            if e["o"] == "B" and "back" not in e:
                chk.violation("writer-fails", dict(job=jobs[k], result=e))
        cuts += sum(e["o"] == "T" for e in ev)
        sess.append(dict(id=k, ev=[e for e in ev if e["o"] != "B" or "back" in e]))
    chk.judge("TraceIvf", sess, jobs)
    chk.cov["files"] = len(jobs)
    chk.cov["truncation_points"] = cuts
    chk.sample(sess[0]["ev"][0])
    return chk.finish()
