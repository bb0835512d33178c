import vlib, apisess, streams


def run():
    chk = vlib.Check("C05")
    chk.model_async("StreamMC", "StreamMC.cfg" if vlib.THOROUGH else "StreamMCq.cfg")
    vlib.build_harness()
    rng = chk.rng
    jobs = []
    specs = [apisess.random_spec(rng) for _ in range(1200 if vlib.THOROUGH else 260)]
    # long streams: order hints wrap, slots rotate many times
    for i in range(24 if vlib.THOROUGH else 10):
        s = apisess.random_spec(rng, n=rng.choice([66, 71, 90, 131, 140]))
        s.update(still=0, maxkf=rng.choice([0, 67, 80, 128]), key=[], scd=0, n=s["n"] if s["n"] > 3 else 70)
        specs.append(s)
    for s in specs:
        j = apisess.to_job(s, None, rng, len(jobs), ["obu", "ra"])
        if s["n"] > 60:
            j["cfg"].update(w=16, h=16, speed=10)
            j["content"]["kind"] = "drift"
        if rng.random() < 0.15:
            j["cfg"]["ss"] = {"multiref": False}
        if rng.random() < 0.2 and not s["still"]:
            j["cfg"]["br"] = rng.choice([20000, 200000])
        if rng.random() < 0.15:
            j["cfg"].update(tcols=2, trows=2, w=128, h=128)
        jobs.append(j)
    res = vlib.run_jobs(jobs, timeout=120)
    sess = [streams.project(j, r) for j, r in zip(jobs, res)]
    chk.judge("TraceStream", sess, jobs)
    chk.cov["packets"] = sum(1 for s in sess for e in s["ev"] if e["o"] == "R")
    chk.cov["shown_from_memory"] = sum(1 for s in sess for e in s["ev"] if e["o"] == "R" and any(o["se"] for o in e["obus"]))
    chk.cov["switch_frames"] = sum(1 for s in sess for e in s["ev"] if e["o"] == "R" and e["ft"] == 3)
    chk.cov["random_access_points"] = sum(1 for s in sess for e in s["ev"] if e["o"] == "RA")
    chk.sample({"cfg": jobs[0]["cfg"], "n": jobs[0]["n"], "first_packets": [[o["t"] for o in e["obus"]] for e in sess[0]["ev"][:6] if e["o"] == "R"]})
    return chk.finish()
