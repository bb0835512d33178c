"""What an encode reports about itself: the lines, summary and tables of the
command-line encoder and the figures packets carry, against spec/Report.tla."""
import concurrent.futures, math, os, re, shutil, subprocess
import vlib
from c15 import digits

TAGS = [("420jpeg", 420, 8), ("420mpeg2", 420, 8), ("422", 422, 8), ("444", 444, 8), ("mono", 400, 8), ("420p10", 420, 10), ("422p12", 422, 12), ("444p10", 444, 10)]
SIZES = ["128X128", "128X64", "64X128", "64X64", "64X32", "64X16", "32X64", "32X32", "32X16", "32X8", "16X64", "16X32", "16X16", "16X8", "16X4", "8X32", "8X16", "8X8", "8X4", "4X16", "4X8", "4X4"]
TYPES = {"Key frame": 0, "Inter frame": 1, "Intra only frame": 2, "Switching frame": 3}
FTN = {"KEY": 0, "INTER": 1, "INTRA_ONLY": 2, "SWITCH": 3}


def side(rng):
    return rng.choice([16, 17, 24, 33, 40, 50, 64, 72, 97])


def job(rng):
    tag, cs, bd = rng.choice(TAGS)
    still = rng.random() < .12
    j = dict(tag=tag, cs=cs, bd=bd, w=side(rng), h=side(rng), n=rng.choice([1, 2, 4, 6, 9]), verbose=rng.choice([2, 2, 2, 1, 1, 0]), metrics=rng.choice(["", "psnr", "psnr", "metrics"]),
             rate=rng.choice([(25, 1), (30, 1), (30000, 1001), (1, 1), (60, 1), (15, 2), (120, 1)]), o={}, skip=0, kind=rng.choice(["pan", "noise", "cutall", "static", "mixed", "flash"]), seed=rng.randrange(1000))
    o = j["o"]
    if still:
        j.update(n=1, w=rng.choice([1, 2, 7, 15, 40]), h=rng.choice([1, 3, 9, 16, 40]))
        o["--still-picture"] = None
    o["-s"] = rng.choice([10, 10, 9, 8, 6, 4, 2] if j["n"] > 2 else [10, 8, 6, 4, 2, 1, 0])
    if rng.random() < .3 and not still:
        o["-b"] = rng.choice([30, 200, 3000])
    else:
        o["--quantizer"] = rng.choice([1, 40, 100, 180, 255])
    if rng.random() < .4:
        o["--limit"] = 1 if still else rng.choice([1, 2, 3, j["n"], j["n"] + 5, 1000, 10 ** 6, 2 ** 33])
    if rng.random() < .25 and j["n"] > 2:
        j["skip"] = rng.choice([1, 2])
        o["--skip"] = j["skip"]
    if rng.random() < .35:
        o["--frame-rate"] = rng.choice([50, 24, 90000, 7])
        o["--time-scale"] = rng.choice([1, 1, 1001, 3])
    if rng.random() < .4:
        o["-I"] = rng.choice([1, 2, 4, 12])
        o["-i"] = rng.choice([0, 1, o["-I"]])
    if rng.random() < .3 and not still:
        o["--low-latency"] = None
        if rng.random() < .5:
            o["-S"] = rng.choice([2, 3])
    if rng.random() < .3:
        o["--tune"] = rng.choice(["psnr", "psychovisual"])
    if rng.random() < .3:
        o["--tile-cols"] = 2
        o["--tile-rows"] = rng.choice([1, 2])
    if rng.random() < .2 and bd == 8:
        o["--high-bitdepth"] = None
    if rng.random() < .2:
        o["--rdo-lookahead-frames"] = rng.choice([1, 3])
    return j


def command(j, inp, out, rec):
    a = [vlib.bin_cli(), inp, "-o", out, "-r", rec]
    for k, v in j["o"].items():
        a += [k] if v is None else [k, str(v)]
    if j["metrics"]:
        a.append("--" + j["metrics"])
    a += {0: ["-q"], 1: [], 2: ["-v"]}[j["verbose"]]
    return a


def psnr(sse, n, bd):
    """Units of 10^-4 dB; 100 dB stands for no error at all."""
    if sse == 0:
        return 1000000
    m = (1 << bd) - 1
    return int(round(1e5 * math.log10(m * m * n / sse)))


PROG = re.compile(r"encoded (\d+)(?:/(\d+))? frames, ([\d.]+|NaN|inf) fps, ([\d.]+|NaN|inf) Kb/s(?:, est: [^,]*, ([\d.]+) MB)?, elapsed: ")
LINE = re.compile(r"Input Frame (\d+) - ([A-Z][a-z ]+) - (\d+) bytes(?: - PSNR: Y: ([\d.]+)  Cb: ([\d.]+)  Cr: ([\d.]+))? - encoded ")
ROW = re.compile(r"([A-Z][a-z ]+):\s+(\d+) \| avg QP:\s*([\d.]+) \| avg size:\s*(\d+) B")
MEAN = re.compile(r"Mean PSNR: Avg: ([\d.]+)  Y: ([\d.]+)  Cb: ([\d.]+)  Cr: ([\d.]+)")

NONE = dict(k=-1, limited=False, limit=[], kbps=[], est=[])


def cents(s, k):
    a, b = s.split(".")
    return int(a + b) if len(b) == k else -1


def progress(text):
    m = PROG.search(text)
    if not m:
        return None
    kbps = m[4]
    return dict(k=int(m[1]), limited=m[2] is not None, limit=digits(int(m[2] or 0)), kbps=digits(cents(kbps, 2)) if "." in kbps else [-1], est=digits(cents(m[5], 2)) if m[5] else [])


def pct(s):
    return [int(x.replace(".", "")) for x in re.findall(r"([\d.]+)%", s)]


def facts(j, r):
    """The packets as they are."""
    pk = []
    sse = r["sse"]
    for p in r["pk"]:
        h = [o for o in p["obus"] if o["t"] in ("frame", "fh")]
        if p["oerr"] or not h:
            raise vlib.ToolError("cannot read the output of %s: %s" % (j, p["oerr"]))
        pk.append((p, h[-1]))
    out = []
    for i, (p, h) in enumerate(pk):
        # the reconstruction is written in the order of the packets
        e = sse[i] if i < len(sse) else []
        q = [psnr(a, n, j["bd"]) for a, n in e]
        if len(q) == 1:
            q += [1000000, 1000000]
        if q:
            q.append(psnr(sum(a for a, _ in e), sum(n for _, n in e), j["bd"]))
        out.append(dict(o="P", no=p["pts"], ft=h["sft"] if h["se"] else h["ft"], len=p["len"], qp=h["bq"], psnr=q or [0, 0, 0, 0], se=h["se"], cols=len(h.get("cols", [0])) - 1, rows=len(h.get("rows", [0])) - 1))
    return out


def session(i, j, err, made):
    o = j["o"]
    num, den = (o["--frame-rate"], o["--time-scale"]) if "--frame-rate" in o else j["rate"]
    limit = o.get("--limit", 0)
    ev = [dict(o="begin", cfg=dict(verbose=j["verbose"], psnr=bool(j["metrics"]), rate=[digits(num), digits(den)], limit=digits(limit), limited=limit > 0))]
    text = err.replace("\r\n", "\n")
    told, lastp = [], None
    rows, means, tabs, sets = [], [], [], []
    want = []
    lines = [x for l in text.split("\n") for x in l.split("\r") if x.strip()]
    cur = None
    for l in lines:
        l = l[1:] if l.startswith(">") else l
        t = l.strip()
        m, p = LINE.search(t), progress(t)
        if m:
            told.append(dict(dict(o="L", no=int(m[1]), ft=TYPES.get(m[2], -1), len=int(m[3]), psnr=[cents(m[x], 4) for x in (4, 5, 6)] if m[4] else []), **(p or NONE)))
            continue
        if p:
            # an indicator per packet, then the summary's
            told.append(dict(o="G", **p))
            continue
        m = ROW.match(t)
        if m:
            rows.append(dict(o="row", ft=TYPES.get(m[1].strip(), -1), n=int(m[2]), qp=cents(m[3], 2), size=int(m[4])))
            continue
        m = MEAN.match(t)
        if m:
            means.append(dict(o="mean", psnr=[cents(m[x], 4) for x in (1, 2, 3, 4)]))
            continue
        m = re.match(r"Using y4m decoder: (\d+)x(\d+)p @ (\d+)/(\d+) fps, (\S+), (\d+)-bit", t)
        if m:
            sets.append(dict(o="set", what="input", said=list(m.groups()), want=[str(x) for x in (j["w"], j["h"], j["rate"][0], j["rate"][1], {420: "4:2:0", 422: "4:2:2", 444: "4:4:4", 400: "Monochrome"}[j["cs"]], j["bd"])]))
            continue
        if t.startswith("Encoding settings: "):
            kv = dict(x.split("=", 1) for x in t.split()[2:] if "=" in x)
            w = {}
            if "--quantizer" in o:
                w["quantizer"] = str(o["--quantizer"])
                w["bitrate"] = "0"
            if "-b" in o:
                w["bitrate"] = str(o["-b"] * 1000)
            if "-I" in o:
                w["keyint_max"], w["keyint_min"] = str(o["-I"]), str(o["-i"])
            w["low_latency"] = "true" if "--low-latency" in o else "false"
            if "--tune" in o:
                w["tune"] = o["--tune"].capitalize()
            if "--rdo-lookahead-frames" in o:
                w["rdo_lookahead_frames"] = str(o["--rdo-lookahead-frames"])
            ks = sorted(w)
            sets.append(dict(o="set", what="settings", said=[[k, kv.get(k, "")] for k in ks], want=[[k, w[k]] for k in ks]))
            continue
        m = re.match(r"Using (\d+) tiles?(?: \((\d+)x(\d+)\))?$", t)
        if m and made:
            first = next(p for p in made if not p["se"])
            said = [int(m[1]), int(m[2] or 1), int(m[3] or 1)]
            sets.append(dict(o="set", what="tiles", said=said, want=[first["cols"] * first["rows"], first["cols"], first["rows"]]))
            continue
        m = re.match(r"(bsize|txtypes|y modes|uv modes) ([IP]):(.*)", t)
        if m:
            key = (m[1], m[2])
            cur = next((x for x in tabs if (x["what"], x["ty"]) == key), None)
            if cur is None:
                cur = dict(o="tab", what=m[1], ty=m[2], ft=0 if m[2] == "I" else 1, pct=[])
                tabs.append(cur)
            cur["pct"] += pct(m[3])
            continue
        if set(t) == {"-"}:
            cur = None
            continue
        if cur is not None and "%" in t:
            cur["pct"] += [] if cur["what"] == "bsize" and t.startswith("skip") else pct(re.sub(r"skip:.*", "", t))
            continue
    # lines with the packets they follow
    n = len(made)
    ks = [t for t in told if t["o"] == "L"] if j["verbose"] == 2 else [dict(t, o="L") for t in told[:-1]] if j["verbose"] == 1 else []
    last = [t for t in told if t["o"] == "G"][-1:]
    for x in range(max(n, len(ks))):
        if x < n:
            p = {k: v for k, v in made[x].items() if k not in ("se", "cols", "rows")}
            ev.append(p)
        if x < len(ks):
            ev.append(ks[x])
    if j["verbose"]:
        ev.append(dict(last[0], o="last") if last else dict(NONE, o="last"))
    ev += rows + means + sets
    for t in tabs:
        own = [p for p in made if p["ft"] == t["ft"] and not p["se"]]
        inter = t["ft"] == 1
        ev.append(dict(o="tab", what=t["what"] + " " + t["ty"], ft=t["ft"], pct=t["pct"], none=not own, rest=t["what"] == "txtypes" or inter and t["what"] != "bsize"))
    ev.append(dict(o="end", rows=len({r["ft"] for r in rows}) if len(rows) < 5 else 5, means=len(means), lines=len([l for l in lines if not l.lstrip().startswith(("!", "?"))])))
    return dict(id=i, ev=ev)


# ------------------------------------------------------------ the library
def apijob(rng):
    bd = rng.choice([8, 8, 10])
    c = dict(w=side(rng), h=side(rng), bd=bd, cs=rng.choice([420, 420, 422, 444, 400]), speed=rng.choice([10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0]), threads=rng.choice([1, 4]))
    n = rng.choice([2, 4, 8, 12])
    if c["speed"] < 5:
        n = min(n, 4)
        c["w"], c["h"] = rng.choice([16, 33, 64, 70]), rng.choice([17, 40, 64])
    if rng.random() < .3:
        c["ll"] = 1
        if rng.random() < .5:
            c["switch"] = rng.choice([1, 2, 3])
    if rng.random() < .5:
        c["maxkf"] = rng.choice([1, 2, 5, 8])
        c["minkf"] = 0
    if rng.random() < .3:
        c["br"] = rng.choice([20, 200]) * 1000
    else:
        c["q"] = rng.choice([1, 60, 120, 200, 255])
    if rng.random() < .4:
        c["tcols"], c["trows"] = rng.choice([1, 2]), 2
    if rng.random() < .4:
        a, b = rng.choice([(4, 4), (8, 8), (16, 16), (8, 64), (4, 64), (32, 64), (64, 64), (16, 32), (4, 16)])
        c["ss"] = {"partition": {"partition_range": {"min": "BLOCK_%dX%d" % (a, a), "max": "BLOCK_%dX%d" % (b, b)}}}
        if rng.random() < .5:
            c["ss"]["partition"]["encode_bottomup"] = True
    elif rng.random() < .3:
        c["ss"] = {"partition": {"encode_bottomup": True}}
    return dict(kind="enc", cfg=c, n=n, want=["obu", "report", "src"], content=dict(kind=rng.choice(["pan", "noise", "cutall", "mixed", "static", "drift"]), seed=rng.randrange(1000)))


def api_session(i, j, r):
    ev = [dict(o="begin", cfg=dict(verbose=0, psnr=False, rate=[[1], [1]], limit=[], limited=False))]
    ss = j["cfg"].get("ss", {}).get("partition", {}).get("partition_range")
    lo, hi = (int(ss["min"].split("X")[1]), int(ss["max"].split("X")[1])) if ss else (4, 64)
    for e in r["ev"]:
        if e.get("r") != "pkt":
            continue
        h = [o for o in e["obus"] if o["t"] in ("frame", "fh")]
        if not h:
            continue
        h = h[-1]
        st = e["st"]
        m = re.match(r"Frame (\d+) - ([A-Z][a-z ]+) - (\d+) bytes$", e["text"])
        said = [int(m[1]), TYPES.get(m[2], -1), int(m[3])] if m else []
        # a dimension above the largest block size never occurs; one below the
        # smallest only as half of a smallest block
        ok = [x + 1 for x, b in enumerate(BSIZES) if max(b) <= 64 and max(b) <= max(hi, lo)]
        ev.append(dict(o="A", no=e["no"], ft=e["ft"], len=e["len"], qp=e["qp"], bq=h["bq"], hft=h["sft"] if h["se"] else h["ft"], se=h["se"], w=j["cfg"]["w"], h=j["cfg"]["h"],
                       said=said, bs=st["bs"], tx=st["tx"], y=st["y"], uv=st["uv"], skip=st["skip"], sizes=ok))
    return dict(id=i, ev=ev)


# the order of the library's block sizes
BSIZES = [(4, 4), (4, 8), (8, 4), (8, 8), (8, 16), (16, 8), (16, 16), (16, 32), (32, 16), (32, 32), (32, 64), (64, 32), (64, 64), (64, 128), (128, 64), (128, 128), (4, 16), (16, 4), (8, 32), (32, 8), (16, 64), (64, 16)]


def run():
    chk = vlib.Check("C20")
    T = vlib.THOROUGH
    rng = chk.rng
    for c in (["ReportMC.cfg", "ReportMCn.cfg"] if T else ["ReportMCq.cfg", "ReportMCn.cfg"]):
        chk.model_async("ReportMC", c, workers=2)
    vlib.build_cli()
    vlib.build_harness()
    js = [job(rng) for _ in range(2500 if T else 160)]
    top = vlib.scratch("rep-")
    try:
        make = []
        for i, j in enumerate(js):
            os.mkdir(os.path.join(top, str(i)))
            line = "YUV4MPEG2 W%d H%d F%d:%d Ip C%s" % (j["w"], j["h"], j["rate"][0], j["rate"][1], j["tag"])
            make.append({"kind": "climake", "path": os.path.join(top, str(i), "in.y4m"), "line": line, "n": j["n"], "content": dict(kind=j["kind"], seed=j["seed"]), "cfg": {k: j[k] for k in ("w", "h", "bd", "cs")}, "k": 0, "refs": []})
        for r in vlib.run_jobs(make, 60):
            if r.get("fate"):
                raise vlib.ToolError("climake %s" % r["fate"])

        def go(i):
            j, d = js[i], os.path.join(top, str(i))
            e = dict(os.environ)
            e.pop("RAV1E_LOG", None)
            e.pop("RUST_LOG", None)
            e["RUST_BACKTRACE"] = "0"
            cmd = command(j, os.path.join(d, "in.y4m"), os.path.join(d, "o.ivf"), os.path.join(d, "r.y4m"))
            for limit in (120, 400):
                try:
                    p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e, cwd=d, timeout=limit)
                    return cmd, p.returncode, p.stderr.decode(errors="replace")
                except subprocess.TimeoutExpired:
                    pass
            return cmd, "stuck", ""
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            ran = list(ex.map(go, range(len(js))))
        looks, live = [], []
        for i, (cmd, rc, err) in enumerate(ran):
            if rc != 0:
                chk.violation("run-failed", dict(cmd=cmd, rc=rc, err=err[-600:], job=js[i]), "run-failed")
                continue
            d = os.path.join(top, str(i))
            live.append(i)
            looks.append({"kind": "climeasure", "ivf": os.path.join(d, "o.ivf"), "src": os.path.join(d, "in.y4m"), "rec": os.path.join(d, "r.y4m"), "skip": js[i]["skip"], "cfg": {k: js[i][k] for k in ("w", "h", "bd", "cs")}})
        sess, back = [], []
        for i, r in zip(live, vlib.run_jobs(looks, 60)):
            if r.get("fate"):
                raise vlib.ToolError("climeasure %s on %s" % (r["fate"], ran[i][0]))
            sess.append(session(len(sess), js[i], ran[i][2], facts(js[i], r)))
            back.append(dict(cmd=ran[i][0], job=js[i], err=ran[i][2][-3000:]))
        n = len(sess)
        aj = [apijob(rng) for _ in range(4000 if T else 260)]
        for j, r in zip(aj, vlib.run_jobs(aj, 120)):
            if "ev" not in r:
                chk.violation("session-" + r.get("fate", "lost"), dict(job=j, result=r))
                continue
            s = api_session(len(sess), j, r)
            sess.append(s)
            back.append(j)
        chk.judge("TraceReport", sess, back)
        chk.cov.update(invocations=n, library_sessions=len(sess) - n, lines=sum(1 for s in sess for e in s["ev"] if e["o"] == "L"), packets=sum(1 for s in sess for e in s["ev"] if e["o"] == "A"),
                       tables=sum(1 for s in sess for e in s["ev"] if e["o"] == "tab"))
        if n:
            chk.sample(dict(cmd=[os.path.basename(x) if "/" in x else x for x in back[0]["cmd"]], said=back[0]["err"][-300:]))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    chk.assume = ["figures that depend on time (frames per second, time left) are not judged", "PSNR HVS, SSIM and CIEDE2000 are computed by a library outside the repository and not judged"]
    return chk.finish()
