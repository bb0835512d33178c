"""Command-line encoder: spec/Cli.tla (model CliMC.tla).  Random invocations of
the real binary over real files; what the options mean comes from the
specification (CliMeaning), the expected packets from the library, and every
recorded invocation is judged by TraceCli."""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import resource
import shutil
import signal
import subprocess
import termios
import time
import tomllib
import vlib

PRIM = {1: "BT709", 2: "Unspecified", 4: "BT470M", 5: "BT470BG", 6: "BT601", 7: "SMPTE240", 8: "GenericFilm", 9: "BT2020", 10: "XYZ", 11: "SMPTE431", 12: "SMPTE432", 22: "EBU3213"}
TRC = {1: "BT709", 2: "Unspecified", 4: "BT470M", 5: "BT470BG", 6: "BT601", 7: "SMPTE240", 8: "Linear", 9: "Log100", 10: "Log100Sqrt10", 11: "IEC61966", 12: "BT1361", 13: "SRGB", 14: "BT2020_10Bit", 15: "BT2020_12Bit", 16: "SMPTE2084", 17: "SMPTE428", 18: "HLG"}
MAT = {0: "Identity", 1: "BT709", 2: "Unspecified", 4: "FCC", 5: "BT470BG", 6: "BT601", 7: "SMPTE240", 8: "YCgCo", 9: "BT2020NCL", 10: "BT2020CL", 11: "SMPTE2085", 12: "ChromatNCL", 13: "ChromatCL", 14: "ICtCp"}
TAGS = ["420", "420", "420jpeg", "420paldv", "420mpeg2", "mono", "mono12", "420p10", "420p12", "422", "422p10", "422p12", "444", "444p10", "444p12"]
OPAQUE = ("first", "second", "table")
MAXKF = 715827882


def digits(n):
    r = []
    while n:
        r.append(n % 32768)
        n //= 32768
    return r


def num(b):
    return sum(d << (15 * i) for i, d in enumerate(b))


def table_text(rng, mono):
    """A film grain table file and the same as harness grain segments."""
    t, segs, at = "filmgrn1\n", [], 0
    for _ in range(rng.choice([1, 1, 2])):
        end = at + rng.choice([400000, 10**7, 10**12])
        n = rng.choice([0, 1, 2])
        ys = [[40 * i + rng.randrange(40), rng.randrange(256)] for i in range(n)]
        seed, sh, ov = rng.randrange(1, 65536), rng.choice([8, 9, 10, 11]), rng.randrange(2)
        t += "E %d %d 1 %d 1\n\tp 0 6 0 %d 0 %d 128 192 256 128 192 256\n\tsY %d%s\n\tsCb 0\n\tsCr 0\n\tcY\n\tcCb 0\n\tcCr 0\n" % (at, end, seed, sh, ov, n, "".join("  %d %d" % tuple(p) for p in ys))
        segs.append(dict(start=at, end=end, y=ys, cb=[], cr=[], cfl=0, shift=sh, lag=0, ay=[], acb=[0], acr=[0], ashift=6, gss=0, overlap=ov, cbm=128, cbl=192, cbo=256, crm=128, crl=192, cro=256, seed=seed))
        at = end
    return t, segs


class Run:
    """One invocation of a session."""

    def __init__(self, o, **kw):
        self.o, self.old, self.consent, self.answer = o, False, "none", None
        self.pipe_in = self.pipe_out = self.load = False
        self.asked, self.extra, self.hurt, self.ref, self.inp = -1, [], None, "plain", None
        self.__dict__.update(kw)


class Session:
    pass


def video(rng):
    v = dict(w=rng.choice([16, 17, 24, 32, 33, 48, 64]), h=rng.choice([16, 18, 31, 32, 48]), tag=rng.choice(TAGS), n=rng.choice([0, 1, 2, 3, 4, 5, 6, 8]), bad="", junk=0)
    v["rate"] = rng.choice([(25, 1), (30, 1), (30000, 1001), (24000, 1001), (60, 1), (1, 1), (1, 2), (50, 2), (1000000, 33333), (2**32 - 1, 1), (15, 4)])
    v["sar"] = rng.choice([(0, 0), (1, 1), (1, 1), (4, 3), (12, 11), (65535, 65536), (2**32 - 1, 1)])
    return v


def options(rng, v):
    """Options that mean something to the encoder."""
    o = {}

    def some(p):
        return rng.random() < p
    o["speed"] = rng.choice([10, 10, 10, 10, 9, 8, 6])
    if o["speed"] == 6 and some(.5):
        del o["speed"]
    if some(.35):
        o["quantizer"] = rng.choice([1, 40, 100, 180, 255])
    if some(.3):
        o["bitrate"] = rng.choice([1, 20, 100, 500, 10000, 2147483, 0])
        if some(.3):
            o["min_quantizer"] = rng.choice([0, 10, 60, 255])
        if some(.3):
            o["reservoir"] = rng.choice([12, 13, 50, 131072])
    if some(.35):
        o["keyint"] = digits(rng.choice([0, 1, 2, 3, 5, 30, MAXKF]))
    if some(.35):
        o["min_keyint"] = digits(rng.choice([0, 1, 2, 4, 50]))
    if some(.25):
        o["low_latency"] = 1
    if some(.12):
        o["switch"] = rng.choice([1, 2, 5])
        o["low_latency"] = 1
    if some(.2):
        o["no_scd"] = 1
    if some(.2):
        o["scd_speed"] = rng.randrange(2)
    if some(.3):
        o["lookahead"] = digits(rng.choice([1, 2, 5, 15, 40]))
    if some(.3):
        o["tune"] = rng.randrange(2)
    if some(.12):
        o["still"] = 1
    if some(.12):
        o["photon"] = rng.choice([1, 8, 64])
    elif some(.1):
        o["table"] = 1
    if some(.3):
        o["full"] = rng.randrange(2)
    if some(.2):
        o["primaries"] = rng.choice(list(PRIM))
    if some(.2):
        o["transfer"] = rng.choice(list(TRC))
    if some(.2):
        o["matrix"] = rng.choice(list(MAT))
    if some(.03):
        o.update(primaries=1, transfer=13, matrix=0)
    if some(.15):
        o["mastering"] = [rng.choice([0, 1, 2650, 6900, 9999, 10000, 12000, rng.randrange(10001)]) for _ in range(8)] + [rng.choice([0, 1, 1000, 10000]), rng.choice([0, 1, 50, 500, 10000, rng.randrange(60000)])]
    if some(.15):
        o["cll"] = [rng.choice([0, 1, 1000, 65535]), rng.choice([0, 1, 400, 65535])]
    if some(.2):
        o["level"] = rng.choice([[], [31], [2, 0], [2, 1], [3, 0], [4, 0], [4, 1], [5, 1], [6, 3]])
    if some(.25):
        if some(.5):
            o["tiles"] = rng.choice([0, 1, 2, 4])
        else:
            o["tile_cols"], o["tile_rows"] = rng.choice([0, 1, 2, 64]), rng.choice([0, 1, 2])
    if some(.2):
        o["frame_rate"] = digits(rng.choice([1, 24, 50, 30000, 2**32 - 1]))
    if some(.15):
        o["time_scale"] = digits(rng.choice([1, 2, 1001, 1001]))
    if some(.3):
        o["limit"] = digits(rng.choice([0, 1, 2, v["n"], v["n"] + 1, 2**64 - 1, 10**6]))
    if o.get("still") and num(o.get("limit", [])) > 1:
        del o["limit"]
    if some(.25) and v["n"]:
        o["skip"] = digits(rng.choice([0, 1, v["n"], rng.randrange(v["n"] + 1)]))
    if some(.2):
        o["hbd"] = 1
    return o


def errors(rng, o, v):
    """Options or inputs that must be refused."""
    k = rng.choice(["quantizer", "speed", "bitrate", "level", "tiles", "still", "skip", "lookahead", "input", "table", "ext", "nodir", "conflict", "pass", "config", "junk", "junk", "input", "sink", "sink"])
    if k == "quantizer":
        o["quantizer"] = 0
    elif k == "speed":
        o["speed"] = rng.choice([11, 200])
    elif k == "bitrate":
        o["bitrate"] = rng.choice([2147484, 2147483647])
    elif k == "level":
        o["level"] = rng.choice([[1, 0], [0, 3], [8, 0], [2, 4], [255, 1], [7, 9], [5, 200]])
    elif k == "tiles":
        o.pop("tiles", None)
        o[rng.choice(["tile_cols", "tile_rows"])] = rng.choice([65, 128, 100000])
    elif k == "still":
        o.update(still=1, limit=digits(rng.choice([2, 100, 2**64 - 1])))
    elif k == "skip":
        o["skip"] = digits(v["n"] + rng.choice([1, 2, 2**40]))
    elif k == "lookahead":
        o["lookahead"] = []
    elif k == "input":
        v["bad"] = rng.choice(["missing", "magic", "size", "colour", "empty", "ratio", "sign"])
    elif k == "table":
        o.pop("photon", None)
        o["table"] = rng.choice([-1, -2, -3])
    elif k == "ext":
        o["ext"] = rng.choice(["mp4", "webm", "obu", "mkv", "ivfx"])
    elif k == "nodir":
        o["nodir"] = 1
    elif k == "conflict":
        o.update(rng.choice([dict(tiles=2, tile_cols=1), dict(quiet=1, verbose=1), dict(psnr=1, metrics=1), dict(table=1, photon=3), dict(load=1, save=1), dict(tiles=1, tile_rows=2)]))
    elif k == "pass":
        o.pop("bitrate", None)
        o[rng.choice(["first", "second"])] = rng.choice(["good"])
    elif k == "config":
        o.update(rng.choice([dict(switch=3, low_latency=0), dict(reservoir=131073, bitrate=100), dict(level=[7, 3]), dict(level=[2, 2]), dict(keyint=digits(MAXKF + 1)), dict(keyint=digits(2**64 - 1)), dict(tile_cols=3), dict(tile_rows=5), dict(frame_rate=[], time_scale=[1]), dict(frame_rate=digits(2**32)), dict(time_scale=[], frame_rate=[5]), dict(primaries=1, transfer=13, matrix=0), dict(frame_rate=digits(100000), level=[2, 0])]))
        if "tile_cols" in o or "tile_rows" in o:
            o.pop("tiles", None)
    elif k == "sink":
        o["sink"] = rng.choice(["out", "out", "rec", "stats"])
        if o["sink"] == "rec":
            o["rec"] = 1
        if o["sink"] == "stats":
            o.update(bitrate=100, first="good")
    elif k == "junk":
        v["junk"] = 1
    return k


def sessions(rng, count):
    out = []
    for i in range(count):
        s = Session()
        s.v = video(rng)
        s.o = options(rng, s.v)
        s.content = dict(kind=rng.choice(["noise", "grad", "pan", "mixed", "flat", "text", "drift"]), seed=rng.randrange(10**6))
        s.params = rng.random() < .3
        s.kind = ["plain", "passes", "error", "exists", "pipes", "config", "plain", "damage", "signal", "error"][i % 10]
        o = s.o
        if s.kind in ("passes", "damage"):
            o["bitrate"] = rng.choice([20, 100, 500])
            if num(o.get("skip", [])) >= s.v["n"]:
                o.pop("skip", None)
            s.v["n"] = max(s.v["n"], 1)
            if s.kind == "damage":
                s.v["n"] = rng.choice([3, 5, 6])
                o.pop("limit", None)
                o.pop("still", None)
        if s.kind == "signal":
            s.v["n"] = rng.choice([4, 6, 8])
            for k in ("limit", "skip", "still"):
                o.pop(k, None)
        if s.kind == "error":
            s.why = errors(rng, o, s.v)
        if s.v["bad"] or s.kind == "error" and s.why == "skip":
            pass
        elif num(o.get("skip", [])) > s.v["n"]:
            o.pop("skip")

        def noise():
            x = rng.choice([["-q"], ["-q"], ["-v"], []])
            x = list(x)
            if s.kind == "error" and s.why == "conflict":
                x = []
            elif rng.random() < .3:
                x += rng.choice([["--psnr"], ["--metrics"], ["--benchmark"], ["--psnr", "--benchmark"]])
            if rng.random() < .4:
                x += ["--threads", rng.choice(["0", "1", "2", "7"])]
            return x
        rec = {"rec": 1} if rng.random() < .5 else {}
        if s.kind == "exists":
            c, a, y = rng.choice([("flag", None, 1), ("yes", "y\n", 0), ("yes", "Y\n", 0), ("yes", " y \n", 0), ("no", "n\n", 0), ("no", "", 0), ("no", "\n", 0), ("no", "maybe\n", 0), ("no", "N\n", 0)])
            s.runs = [Run({**o, **rec}, old=True, consent=c, answer=a, extra=noise() + (["-y"] if y else []))]
        elif s.kind == "pipes":
            a, b = rng.choice([(1, 0), (0, 1), (1, 1)])
            s.runs = [Run({**o, **rec}, pipe_in=bool(a), pipe_out=bool(b), extra=noise())]
            if b:
                s.runs[0].o["ext"] = "-"
        elif s.kind == "config":
            s.runs = [Run({**o, **rec, "save": 1}, extra=noise()), Run({**o, "load": 1}, load=True, extra=noise())]
        elif s.kind == "passes":
            s.runs = [Run({**o, **rec, "first": "good"}, ref="first", extra=noise()), Run({**o, "second": "good"}, ref="second", extra=noise())]
            if rng.random() < .6:
                s.runs.append(Run({**o, "second": "good", "first": "good"}, ref="again", extra=noise()))
        elif s.kind == "damage":
            s.runs = [Run({**o, "first": "good"}, ref="first", extra=noise())]
            for _ in range(3):
                s.runs.append(Run(dict(o), ref="second", hurt=True, extra=noise()))
        elif s.kind == "signal":
            s.runs = [Run({**o, **rec}, asked=rng.randrange(0, s.v["n"] - 1), extra=[x for x in noise()])]
        else:
            s.runs = [Run({**o, **rec}, extra=noise())]
        out.append(s)
    return out


def line(v):
    """Header line of the input file."""
    t = "YUV4MPEG2 W%d H%d F%d:%d" % (v["w"], v["h"], *v["rate"])
    t += " A%d:%d" % v["sar"]
    t += " C" + v["tag"]
    return t


BAD = {"magic": "YUV4MPEG3 W16 H16 F25:1 C420\n", "size": "YUV4MPEG2 W0 H16 F25:1 C420\n", "colour": "YUV4MPEG2 W16 H16 F25:1 C411\n", "empty": "", "ratio": "YUV4MPEG2 W16 H16 F25 C420\n", "sign": "YUV4MPEG2 W-16 H16 F25:1 C420\n"}


def args(o, paths):
    a = []

    def n(b):
        return str(num(b))
    for k, f in (("keyint", "-I"), ("min_keyint", "-i"), ("frame_rate", "--frame-rate"), ("time_scale", "--time-scale"), ("limit", "-l"), ("skip", "--skip"), ("lookahead", "--rdo-lookahead-frames")):
        if k in o:
            a += [f, n(o[k])]
    for k, f in (("quantizer", "--quantizer"), ("min_quantizer", "--min-quantizer"), ("bitrate", "-b"), ("speed", "-s"), ("scd_speed", "--scd-speed"), ("switch", "-S"), ("reservoir", "--reservoir-frame-delay"), ("tile_cols", "--tile-cols"), ("tile_rows", "--tile-rows"), ("tiles", "--tiles"), ("photon", "--photon-noise")):
        if k in o:
            a += [f, str(o[k])]
    for k, f in (("low_latency", "--low-latency"), ("no_scd", "--no-scene-detection"), ("still", "--still-picture"), ("hbd", "--high-bitdepth"), ("quiet", "--quiet"), ("verbose", "--verbose"), ("psnr", "--psnr"), ("metrics", "--metrics")):
        if o.get(k):
            a.append(f)
    if "full" in o:
        a += ["--range", ["Limited", "Full"][o["full"]]]
    for k, m in (("primaries", PRIM), ("transfer", TRC), ("matrix", MAT)):
        if k in o:
            a += ["--" + k, m[o[k]]]
    if "tune" in o:
        a += ["--tune", ["Psnr", "Psychovisual"][o["tune"]]]
    if "mastering" in o:
        m = ["%d.%04d" % divmod(x, 10000) for x in o["mastering"]]
        m[8] = str(o["mastering"][8])
        a += ["--mastering-display", "G(%s,%s)B(%s,%s)R(%s,%s)WP(%s,%s)L(%s,%s)" % tuple(m)]
    if "cll" in o:
        a += ["--content-light", "%d,%d" % tuple(o["cll"])]
    if "level" in o:
        a += ["--level", {0: "auto", 1: "unconstrained"}.get(len(o["level"]), ".".join(map(str, o["level"])))]
    if "table" in o:
        a += ["--film-grain-table", paths["table"]]
    if "first" in o:
        a += ["--first-pass", paths["first"]]
    if "second" in o:
        a += ["--second-pass", paths["second"]]
    if "rec" in o:
        a += ["-r", paths["rec"]]
    return a


def only(o):
    """Options as the specification takes them."""
    return {k: v for k, v in o.items() if k not in ("hbd",)}


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))


def hurt(rng, b, r):
    """A damaged statistics file; sets what is to be expected of it."""
    n0 = 8 + int.from_bytes(b[:8], "big")
    k = rng.choice(["cut-summary", "cut-summary", "cut", "cut", "length", "record-length", "magic", "zeros", "placeholder", "missing", "empty", "flip", "dup"])
    want = "bad"
    if k == "cut-summary":
        b = b[:rng.randrange(n0)]
    elif k == "cut":
        b = b[:rng.randrange(n0, len(b))]
        want = "cut" if len(b) > n0 + 8 else "bad"
    elif k == "length":
        b = rng.choice([2**64 - 1, 2**63, 10**15, 2**32, len(b), 0, 1]).to_bytes(8, "big") + b[8:]
    elif k == "record-length":
        b = b[:n0] + rng.choice([2**64 - 1, 2**63, 10**15, 2**33, len(b), 0, 1, 200]).to_bytes(8, "big") + b[n0 + 8:]
        want = "wild"
    elif k == "magic":
        at = 8 + rng.randrange(4)
        b = b[:at] + bytes([b[at] ^ (1 << rng.randrange(8))]) + b[at + 1:]
    elif k == "zeros":
        b = bytes(len(b))
    elif k == "placeholder":
        b = b[:8] + bytes(n0 - 8) + b[n0:]
    elif k == "missing":
        b = None
    elif k == "empty":
        b = b""
    elif k == "flip":
        at = rng.randrange(len(b))
        b = b[:at] + bytes([b[at] ^ (1 << rng.randrange(8))]) + b[at + 1:]
        want = "wild"
    elif k == "dup":
        b = b + b[n0:]
        want = "wild"
    r.hurt = k
    r.o["second"] = want
    return b


def execute(s, d, seed):
    """Runs the invocations of a session in scratch directory d."""
    import random
    rng = random.Random(seed)
    b = vlib.bin_cli()
    inp = s.path
    stats = None
    for n, r in enumerate(s.runs):
        out = os.path.join(d, "o%d." % n + r.o.get("ext", "ivf")) if not r.pipe_out else "-"
        if r.o.get("ext") == "" or (r.o.get("ext") == "-" and not r.pipe_out):
            out = os.path.join(d, "o%d" % n)
        if r.o.get("nodir"):
            out = os.path.join(d, "none", "o.ivf")
        if r.o.get("sink") == "out":
            out = "/dev/full"
        r.out = os.path.join(d, "o%d.ivf" % n) if r.pipe_out else out
        paths = {"rec": os.path.join(d, "r%d.y4m" % n), "table": os.path.join(d, "t.tbl"), "first": os.path.join(d, "s%d.bin" % n), "second": stats or os.path.join(d, "nostats")}
        if "table" in r.o:
            good = s.table
            text = {1: good, -1: "filmgrn2\n" + good, -2: good.replace("p 0", "p x"), -3: None}[r.o["table"]]
            if text is not None:
                open(paths["table"], "w").write(text)
        if r.hurt:
            paths["second"] = os.path.join(d, "h%d.bin" % n)
            h = hurt(rng, open(s.first, "rb").read(), r)
            if h is not None:
                open(paths["second"], "wb").write(h)
        for k, f in (("rec", "rec"), ("stats", "first")):
            if r.o.get("sink") == k:
                paths[f] = "/dev/full"
        r.rec, r.stats = paths["rec"], paths["first"]
        o = dict(r.o)
        if r.load:
            o = {k: v for k, v in o.items() if k in ("frame_rate", "time_scale", "limit", "skip", "hbd", "quiet", "verbose", "psnr", "metrics")}
        cmd = [b, "-" if r.pipe_in or r.asked >= 0 else inp, "-o", out] + args(o, paths) + r.extra
        if r.load or r.o.get("save") or r.o.get("load"):
            cmd += ["advanced"]
            if "save" in r.o:
                cmd += ["--save-config", os.path.join(d, "c.toml")]
            if "load" in r.o:
                cmd += ["--load-config", os.path.join(d, "c.toml")]
        if r.old:
            open(out, "wb").write(b"precious")
            r.oldhash = hashlib.sha256(b"precious").hexdigest()[:16]
        else:
            r.oldhash = ""
        e = dict(os.environ)
        e.pop("RAV1E_LOG", None)
        e["RUST_BACKTRACE"] = "0"
        t0 = time.time()
        si = None
        if r.pipe_in:
            si = open(inp, "rb")
        elif r.asked >= 0 or r.answer is not None:
            si = subprocess.PIPE
        so = open(r.out, "wb") if r.pipe_out else subprocess.DEVNULL
        p = subprocess.Popen(cmd, stdin=si or subprocess.DEVNULL, stdout=so, stderr=subprocess.PIPE, env=e, preexec_fn=limits, cwd=d)
        try:
            if r.asked >= 0:
                import threading
                errs = []
                th = threading.Thread(target=lambda: errs.append(p.stderr.read()))
                th.start()
                data = open(inp, "rb").read()
                head = data.index(b"\n") + 1
                size = (len(data) - head) // s.v["n"]   # frame marks vary in length only with params
                try:
                    p.stdin.write(data[:head + r.asked * size])
                    p.stdin.flush()
                    quiet(p, d)
                    p.send_signal(signal.SIGTERM)
                    p.stdin.write(data[head + r.asked * size:head + (r.asked + 1) * size])
                    p.stdin.flush()
                    # keep the input open: only the request can end the encode
                    p.wait(timeout=60)
                except BrokenPipeError:
                    p.wait(timeout=60)
                finally:
                    if p.poll() is None:
                        p.kill()
                        p.wait()
                        r.exit = "stuck"
                    try:
                        p.stdin.close()
                    except BrokenPipeError:
                        pass
                    th.join()
                err = errs[0] if errs else b""
            else:
                _, err = p.communicate(None if r.answer is None else r.answer.encode(), timeout=90)
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
            r.exit = "stuck"
        if not hasattr(r, "exit"):
            rc = p.returncode
            r.exit = "ok" if rc == 0 else "err" if rc in (1, 2, 101) else "killed"
            r.rc = rc
        r.err, r.cmd, r.time = err.decode(errors="replace")[-400:], cmd, time.time() - t0
        if si not in (None, subprocess.PIPE):
            si.close()
        if r.pipe_out:
            so.close()
        if r.exit == "ok" and "first" in r.o and n == 0:
            stats = s.first = paths["first"]
        if n == 0 and "first" in r.o and r.exit != "ok":
            for x in s.runs[1:]:
                x.exit = None
            break
    return s


def quiet(p, d):
    """Waits until the process has taken all its input and set up its handlers."""
    import array
    end = time.time() + 30
    still = 0
    while time.time() < end and p.poll() is None and still < 8:
        b = array.array("i", [0])
        fcntl.ioctl(p.stdin.fileno(), termios.FIONREAD, b)
        try:
            st = open("/proc/%d/status" % p.pid).read()
            caught = int([x for x in st.splitlines() if x.startswith("SigCgt")][0].split()[1], 16)
            idle = all(open("/proc/%d/task/%s/stat" % (p.pid, x)).read().rsplit(")", 1)[1].split()[0] == "S" for x in os.listdir("/proc/%d/task" % p.pid))
        except (OSError, IndexError):
            continue
        still = still + 1 if b[0] == 0 and caught >> 14 & 1 and idle else 0
        time.sleep(.01)


ENUM = {"pixel_range": {"Limited": 0, "Full": 1}, "chroma_sampling": {"Cs400": 400, "Cs420": 420, "Cs422": 422, "Cs444": 444}, "chroma_sample_position": {"Unknown": 0, "Vertical": 1, "Colocated": 2}, "tune": {"Psnr": 0, "Psychovisual": 1}, "scd": {"None": 0, "Fast": 1, "Standard": 2}}


def saved(path):
    """A saved configuration as the specification sees one; [] if unreadable."""
    try:
        t = tomllib.load(open(path, "rb"))
        rev = [{b: a for a, b in m.items()} for m in (PRIM, TRC, MAT)]
        c = t.get("color_description")
        m = t.get("mastering_display")
        cl = t.get("content_light")
        xy = lambda p: [p["x"], p["y"]]
        return dict(w=t["width"], h=t["height"], bd=t["bit_depth"], cs=ENUM["chroma_sampling"][t["chroma_sampling"]], csp=ENUM["chroma_sample_position"][t["chroma_sample_position"]],
                    sar=[digits(x) for x in t["sample_aspect_ratio"]], tb=[digits(x) for x in t["time_base"]], full=ENUM["pixel_range"][t["pixel_range"]],
                    color=[rev[0][c["color_primaries"]], rev[1][c["transfer_characteristics"]], rev[2][c["matrix_coefficients"]]] if c else [],
                    mdcv=sum((xy(p) for p in m["primaries"]), []) + xy(m["white_point"]) + [m["max_luminance"], m["min_luminance"]] if m else [],
                    cll=[cl["max_content_light_level"], cl["max_frame_average_light_level"]] if cl else [],
                    level=t.get("level_idx", -1), still=int(t["still_picture"]), ll=int(t["low_latency"]), switch=t["switch_frame_interval"],
                    maxkf=digits(t["max_key_frame_interval"]), minkf=digits(t["min_key_frame_interval"]), rfd=t.get("reservoir_frame_delay", -1), q=t["quantizer"], minq=t["min_quantizer"], br=t["bitrate"],
                    tune=ENUM["tune"][t["tune"]], tcols=t["tile_cols"], trows=t["tile_rows"], tiles=t["tiles"], timing=int(t["enable_timing_info"]), er=int(t["error_resilient"]),
                    la=digits(t["speed_settings"]["rdo_lookahead_frames"]), scd=ENUM["scd"][t["speed_settings"]["scene_detection_mode"]])
    except (OSError, KeyError, ValueError, TypeError) as x:
        return {"unreadable": repr(x)}


def config(m, s, o):
    """Harness configuration from the specification's meaning."""
    c = {k: m[k] for k in ("w", "h", "bd", "cs", "csp", "full", "timing", "still", "ll", "er", "switch", "speed", "q", "minq", "br", "tune", "tcols", "trows", "tiles")}
    c["sar"] = [num(x) for x in m["sar"]]
    c["tb"] = [num(x) for x in m["tb"]]
    c["minkf"], c["maxkf"] = num(m["minkf"]), num(m["maxkf"])
    for k in ("color", "mdcv", "cll"):
        if m[k]:
            c[k] = m[k]
    if m["level"] >= 0:
        c["level"] = m["level"]
    if m["rfd"] >= 0:
        c["rfd"] = m["rfd"]
    if m["la"]:
        c["la"] = num(m["la"])
    if m["scd"] >= 0:
        c["scd"] = m["scd"]
    if m["tune"] == 1:
        c["ss"] = {"transform": {"tx_domain_distortion": False}}
    if m["table"] == 1:
        c["grain"] = s.segs
    c["threads"] = 1
    return c


def spec_v(v):
    return dict(v, rate=[digits(x) for x in v["rate"]], sar=[digits(x) for x in v["sar"]])


def header(l):
    """The facts of a y4m header line; equal for equal lines up to notation."""
    d = {"A": "1:1"}
    w = l.split()
    for x in w[1:]:
        if x[0] in "WHFAC":
            d[x[0]] = x[1:]
    if d["A"] == "0:0":
        d["A"] = "1:1"
    return " ".join([w[0] if w else ""] + [k + d[k] for k in sorted(d)])


def run():
    c = vlib.Check("C15")
    quick = vlib.TIER == "quick"
    rng = c.rng
    c.model_async("CliMC", "CliMCq.cfg" if quick else None)
    vlib.build_cli()
    vlib.build_harness()
    ss = sessions(rng, 400 if quick else 6000)
    top = vlib.scratch("cli-")
    try:
        # what the options mean
        path = os.path.join(top, "cases")
        with open(path, "w") as f:
            for s in ss:
                for r in s.runs[:1]:
                    f.write(json.dumps({"o": only(r.o), "v": spec_v(s.v)}) + "\n")
        out, st = vlib.tlc("CliMeaning", None, {"CASES": path})
        c.stat(st)
        mean = {}
        for l in out.splitlines():
            l = vlib.unquote(l)
            if l.startswith("MEAN "):
                _, k, j = l.split(None, 2)
                mean[int(k) - 1] = json.loads(j)
        if len(mean) != len(ss):
            raise vlib.ToolError("CliMeaning answered %d of %d\n%s" % (len(mean), len(ss), out[-2000:]))
        jobs = []
        for i, s in enumerate(ss):
            s.m = mean[i]
            s.dir = os.path.join(top, "s%d" % i)
            os.mkdir(s.dir)
            s.path = os.path.join(s.dir, "in.y4m")
            s.table, s.segs = table_text(rng, s.v["tag"].startswith("mono"))
            bad = bool(s.m["bad"]) or s.m["junk"]
            if s.v["bad"] in BAD:
                open(s.path, "w").write(BAD[s.v["bad"]])
            if s.v["bad"]:
                s.ref = {}
                jobs.append(None)
                continue
            kinds = [] if bad or s.kind == "signal" else ["passes"] if s.kind in ("passes", "damage") else ["plain"]
            jobs.append({"kind": "climake", "path": s.path, "line": line(s.v), "n": s.v["n"], "content": s.content, "params": s.params and s.kind != "signal", "cfg": config(s.m["m"], s, s.o),
                         "tail": "FRAMX\ntrailing bytes that are no frame" if s.v["junk"] else None, "skip": num(s.o.get("skip", [])), "k": s.m["n"], "hbd": bool(s.o.get("hbd")), "photon": s.o.get("photon", 0), "refs": kinds})
        live = [i for i, j in enumerate(jobs) if j]
        res = vlib.run_jobs([jobs[i] for i in live], 90)
        for i, r in zip(live, res):
            if r.get("fate"):
                raise vlib.ToolError("climake %s on %s" % (r["fate"], jobs[i]))
            ss[i].ref = r["out"] if "out" in r else r
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda a: execute(a[1], a[1].dir, "%d-%d" % (vlib.SEED, a[0])), list(enumerate(ss))))
        looks, where = [], []
        for s in ss:
            cfg = {"w": s.m["m"]["w"], "h": s.m["m"]["h"], "bd": s.m["m"]["bd"], "cs": s.m["m"]["cs"]}
            for r in s.runs:
                if r.exit is None:
                    continue
                if "sink" in r.o:
                    r.out = r.rec = r.stats = os.path.join(s.dir, "nothing")
                j = {"kind": "clilook", "ivf": r.out, "dec": r.exit == "ok" and ("rec" in r.o or rng.random() < .3), "cfg": cfg}
                if "rec" in r.o:
                    j["rec"] = r.rec
                if "first" in r.o:
                    j["stats"] = r.stats
                looks.append(j)
                where.append((s, r))
        seen = vlib.run_jobs(looks, 60)
        for (s, r), x in zip(where, seen):
            if x.get("fate"):
                raise vlib.ToolError("clilook %s on %s" % (x["fate"], r.cmd))
            x = x.get("result", x)
            r.seen = x
        traces, back = [], []
        counts = {}
        for s in ss:
            ev = []
            for r in s.runs:
                if r.exit is None:
                    continue
                x = r.seen
                o = x["out"]
                if not o["ex"]:
                    o = dict(o, head=0, w=0, h=0, rate=[[], []], pts=[], ph=[], rest=0, dec=[], derr=0)
                try:
                    o["hash"] = hashlib.sha256(open(r.out, "rb").read()).hexdigest()[:16]
                except OSError:
                    o["hash"] = ""
                ref = s.ref.get(r.ref, {"end": "none", "pk": []})
                rec = x.get("rec", {"ex": 0})
                rec = dict({"line": "", "pics": [], "rest": 0}, **rec)
                rec["line"] = header(rec["line"])
                e = dict(o=only(r.o), v=spec_v(s.v), exit=r.exit, old=r.oldhash, consent=r.consent, out={k: o[k] for k in ("ex", "head", "hash", "w", "h", "rate", "pts", "ph", "rest", "dec", "derr")},
                         ref={"end": ref["end"], "pk": ref["pk"]}, rec=rec, recline=header(line(s.v)), stats=[x.get("stats", ""), ref.get("stats", "") if r.exit == "ok" and "first" in r.o else x.get("stats", "")],
                         saved=[saved(os.path.join(s.dir, "c.toml"))] if "save" in r.o and r.exit == "ok" else [], asked=r.asked)
                ev.append(e)
                k = s.kind + ("/" + s.why if s.kind == "error" else "") + ("/" + r.hurt if r.hurt else "") + ":" + r.exit
                counts[k] = counts.get(k, 0) + 1
            traces.append({"ev": ev})
            back.append({"kind": s.kind, "runs": [{"cmd": r.cmd, "exit": r.exit, "err": r.err, "rc": getattr(r, "rc", None), "hurt": r.hurt} for r in s.runs if r.exit is not None], "v": s.v, "job": jobs[ss.index(s)], "meaning": s.m})
        c.judge("TraceCli", traces, back, key=lambda s, i, rule: rule)
        c.cov.update(invocations=sum(len(t["ev"]) for t in traces), outcomes=dict(sorted(counts.items())), longest_s=round(max(r.time for s in ss for r in s.runs if r.exit), 2))
        c.sample({"cmd": [os.path.basename(x) if "/" in x else x for x in ss[0].runs[0].cmd], "exit": ss[0].runs[0].exit, "frames": ss[0].m["n"]})
    finally:
        shutil.rmtree(top, ignore_errors=True)
    c.assume = ["input videos are y4m files of at most 8 small pictures; a cut-off last picture counts as the end of the input"]
    return c.finish()

