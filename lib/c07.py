"""One stream whatever the workers, instruction set, schedule or neighbours:
groups of runs of the real encoder judged by spec/Replicas.tla."""
import copy
import vlib, apisess, c06

LEVELS = ["rust", "sse2", "ssse3", "sse4_1", "avx2", "avx512", "avx512icl"]


def pk(res):
    """[end, packets] of one recorded run."""
    if "fate" in res:
        return res["fate"], []
    end, out = "nothing", []
    for e in res["ev"]:
        if e["o"] == "R" and e["r"] == "pkt":
            out.append([e["no"], e["ft"], e["hash"], e["rec"]])
        if e["r"] in ("panic", "err", "Failure"):
            return e["r"], out
        if e["o"] == "R":
            end = e["r"]
    return end, out


def groups(chk):
    rng = chk.rng
    T = vlib.THOROUGH
    gs = []      # [(how, job)...]

    def base(k):
        j = c06.job(rng, k)
        j.pop("cpu", None)
        j["want"] = []
        j["cfg"]["threads"] = 1
        return j
    # instruction sets
    for k in range(900 if T else 80):
        j = base(k)
        if j["cfg"]["speed"] < 3 and not T and rng.random() < .5:
            j["cfg"]["speed"] = 4
        j["n"] = min(j["n"], 4)
        g = [("native", j)]
        for lv in ["rust"] + rng.sample(LEVELS[1:6], 2):
            v = copy.deepcopy(j)
            v["cpu"] = lv
            g.append((lv, v))
        gs.append(g)
    # workers, shared pools, repetition
    for k in range(500 if T else 44):
        j = base(k)
        c = j["cfg"]
        if c["speed"] < 4:
            c["speed"] = rng.choice([4, 6, 9, 10])
        if not c.get("still") and rng.random() < .75:
            c["w"], c["h"] = rng.choice([(130, 130), (192, 192), (260, 130), (70, 257), (200, 128)])
            c.pop("tcols", None), c.pop("trows", None)
            if rng.random() < .5:
                c["tiles"] = rng.choice([2, 3, 4, 6, 8])
            else:
                c["tcols"], c["trows"] = rng.choice([(2, 1), (2, 2), (4, 2), (1, 4), (4, 4)])
        g = [("one thread", j)]
        for how, kw in [("again", {}), ("default threads", {"threads": 0}), ("2 threads", {"threads": 2}), ("8 threads", {"threads": 8}), ("5 threads, rust", {"threads": 5})] + \
                       [("pool of %d" % n, {"pool": n}) for n in (1, 3)]:
            if how in ("one thread", "again") or rng.random() < .6:
                v = copy.deepcopy(j)
                if "pool" in kw:
                    v["pool"] = kw["pool"]
                    v["cfg"].pop("threads")
                else:
                    v["cfg"].update(kw)
                if "rust" in how:
                    v["cpu"] = "rust"
                g.append((how, v))
        gs.append(g)
    # call schedules drawn from the pipeline model
    specs = [apisess.random_spec(rng) for _ in range(400 if T else 44)]
    gen = apisess.gen_schedules(specs, 4, vlib.SEED + 77)
    for i, s in enumerate(specs):
        hs = [h for h in gen.get(i, []) if sum(1 for e in h if e["o"] == "S" and e["r"] == "ok") == (min(s["n"], 1) if s["still"] else s["n"])]
        if not hs or s["n"] == 0:
            continue
        g = []
        j0 = None
        for h in [None] + hs:
            j = apisess.to_job(s, h, rng, i, [])
            if j0 is None:
                j0 = j
            v = copy.deepcopy(j0)
            v["sched"] = j["sched"]
            g.append(("documented loop" if h is None else "schedule " + v["sched"][:60], v))
        gs.append(g)
    return gs


def run():
    chk = vlib.Check("C07")
    vlib.build_harness()
    chk.model_async("TileMerge", "TileMerge.cfg", workers=2)
    chk.model_async("TileMerge", "TileMergeq.cfg", workers=1)
    gs = groups(chk)
    rng = chk.rng
    flat = [(gi, how, j) for gi, g in enumerate(gs) for how, j in g]
    # neighbours: encoders of three groups at once in one process
    multi = []
    for k in range(120 if vlib.THOROUGH else 18):
        ids = rng.sample(range(len(gs)), 3)
        multi.append((ids, dict(id=0, kind="multi", jobs=[gs[i][0][1] for i in ids], timeout=300)))
    jobs = [dict(m, id=n) for n, (_, m) in enumerate(multi)] + [j for _, _, j in flat]
    order = sorted(range(len(jobs)), key=lambda i: 0 if jobs[i]["kind"] == "multi" else 1 if jobs[i]["cfg"]["speed"] < 5 else 2)
    rs = vlib.run_jobs([jobs[i] for i in order], timeout=180)
    res = [None] * len(jobs)
    for i, r in zip(order, rs):
        res[i] = r
    ev = {i: [] for i in range(len(gs))}
    for (gi, how, j), r in zip(flat, res[len(multi):]):
        end, p = pk(r)
        ev[gi].append(dict(o="Ref" if not ev[gi] else "Run", how=how, end=end, pk=p))
    for (ids, m), r in zip(multi, res):
        for n, gi in enumerate(ids):
            end, p = pk(r["res"][n]) if "res" in r else (r["fate"], [])
            ev[gi].append(dict(o="Run", how="beside two other encoders", end=end, pk=p))
    sess = [{"id": i, "ev": ev[i]} for i in range(len(gs))]
    chk.judge("TraceReplicas", sess, [[j for _, j in g] for g in gs])
    chk.cov["runs"] = sum(len(v) for v in ev.values())
    chk.cov["groups"] = len(gs)
    hows = {}
    for v in ev.values():
        for e in v:
            h = e["how"].split(" ")[0] if e["how"].startswith("schedule") else e["how"]
            hows[h] = hows.get(h, 0) + 1
    chk.cov["runs_by_kind"] = hows
    chk.cov["packets_compared"] = sum(len(e["pk"]) for v in ev.values() for e in v)
    chk.sample({"cfg": gs[0][0][1]["cfg"], "runs": [e["how"] for e in ev[0]], "packets": [p[2] for p in ev[0][0]["pk"]]})
    return chk.finish()
