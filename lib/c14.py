"""C interface: spec/CApi.tla (model CApiMC.tla) and spec/COptions.tla; sessions on
the C functions, every call mirrored on a native context, and option calls with the
configuration read back after each of them, judged by TraceCApi."""
import re
import vlib


def flat(s):
    """The debug text of a configuration as field -> text."""
    out, pos = {}, 0

    def word():
        nonlocal pos
        m = re.compile(r"[^{}()\[\],]*").match(s, pos)
        pos = m.end()
        return m.group().strip()

    def value(path):
        nonlocal pos
        w = word()
        c = s[pos] if pos < len(s) else ""
        start = pos
        if c == "{":
            pos += 1
            while s[pos] != "}":
                m = re.compile(r"\s*,?\s*(\w+): ").match(s, pos)
                if not m:
                    pos = s.index("}", pos)
                    break
                pos = m.end()
                value(path + [m.group(1)])
            pos += 1
        elif c in "([" and c:
            end = {"(": ")", "[": "]"}[c]
            pos += 1
            n = 0
            while s[pos] != end:
                if s[pos] in ", ":
                    pos += 1
                    continue
                value(path + [str(n)])
                n += 1
            pos += 1
        t = (w + " " if c == "{" else w) + s[start:pos]
        out[".".join(path)] = t
        return t
    value([])
    return out


FIELDS = ["enc.width", "enc.height", "threads", "enc.tiles", "enc.tile_rows", "enc.tile_cols", "enc.quantizer", "enc.min_quantizer", "enc.bitrate",
          "enc.max_key_frame_interval", "enc.min_key_frame_interval", "enc.switch_frame_interval", "enc.reservoir_frame_delay",
          "enc.speed_settings.rdo_lookahead_frames", "enc.low_latency", "enc.enable_timing_info", "enc.still_picture",
          "enc.speed_settings.scene_detection_mode", "enc.tune", "enc.level_idx"]
NUM = ["width", "height", "speed", "threads", "tiles", "tile_rows", "tile_cols", "quantizer", "min_quantizer", "bitrate", "key_frame_interval",
       "min_key_frame_interval", "switch_frame_interval", "reservoir_frame_delay", "rdo_lookahead_frames"]
FLAG = ["low_latency", "enable_timing_info", "still_picture", "no_scene_detection"]
KEYS = NUM + FLAG + ["tune", "level"]
CS = ["Cs420", "Cs422", "Cs444", "Cs400"]
CSP = ["Unknown", "Vertical", "Colocated"]
PR = ["Limited", "Full"]
MC = {0: "Identity", 1: "BT709", 2: "Unspecified", 4: "FCC", 5: "BT470BG", 6: "BT601", 7: "SMPTE240", 8: "YCgCo", 9: "BT2020NCL", 10: "BT2020CL", 11: "SMPTE2085",
      12: "ChromatNCL", 13: "ChromatCL", 14: "ICtCp"}
CP = {1: "BT709", 2: "Unspecified", 4: "BT470M", 5: "BT470BG", 6: "BT601", 7: "SMPTE240", 8: "GenericFilm", 9: "BT2020", 10: "XYZ", 11: "SMPTE431", 12: "SMPTE432", 22: "EBU3213"}
TC = {1: "BT709", 2: "Unspecified", 4: "BT470M", 5: "BT470BG", 6: "BT601", 7: "SMPTE240", 8: "Linear", 9: "Log100", 10: "Log100Sqrt10", 11: "IEC61966", 12: "BT1361",
      13: "SRGB", 14: "BT2020_10Bit", 15: "BT2020_12Bit", 16: "SMPTE2084", 17: "SMPTE428", 18: "HLG"}


def number(rng):
    return rng.choice(["0", "1", "2", "7", "8", "9", "10", "11", "12", "63", "64", "100", "127", "128", "200", "254", "255", "256", "257", "300", "1000", "32767", "32768",
                       "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
                       "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-1", "-0", "+5", "007", "00", "-2147483648", "-2147483649", "-7",
                       str(rng.randrange(300)), str(rng.randrange(2 ** 64)), str(-rng.randrange(2 ** 33))])


def text(rng):
    return rng.choice(["", "-", "+", " 5", "5 ", "0x10", "1e3", "3.5", "five", "true", "false", "True", "TRUE", "yes", "psnr", "psychovisual", "Psnr", "psn", "psychovisua",
                       "auto", "unconstrained", "Auto", "2.0", "2.1", "2.3", "3.0", "4.1", "5.1", "6.2", "6.3", "7.3", "7.4", "8.0", "1.9", "1.0", "0.0", "0.3", "9.9", "2.4",
                       "4", ".", "1.", ".1", "\u0665", "--5", "+-5", "5-", "1_000"] + [number(rng) for _ in range(9)])


def option_ops(rng, n):
    ops = []
    for _ in range(n):
        z = rng.random()
        if z < .5:
            key = rng.choice(KEYS + ["level", "tune", "no_scene_detection"])
            if rng.random() < .06:
                key = rng.choice(["", "Width", "width ", "key-frame-interval", "keyint", "bitrat", "crf", "speed_settings", "qp", "min_q", "bit_depth"])
            if rng.random() < .55 and key in NUM:
                v = number(rng)
            elif key in FLAG and rng.random() < .6:
                v = rng.choice(["true", "false"])
            elif key == "level" and rng.random() < .6:
                v = "%d.%d" % (rng.randrange(0, 9), rng.randrange(0, 5))
            else:
                v = text(rng)
            ops.append(["opt", key, v])
        elif z < .75:
            ops.append(["int", rng.choice(KEYS + ["nosuch"]), rng.choice([0, 1, 2, 5, 6, 8, 10, 11, 64, 100, 255, 256, 257, 2 ** 31 - 1, -1, -2, -255, -256, -2 ** 31, rng.randrange(-2 ** 31, 2 ** 31), rng.randrange(300)])])
        elif z < .80:
            bad = rng.choice([[0xff], [0xc3, 0x28], [0xed, 0xa0, 0x80], [0x80], [49, 0xff]])
            ops.append(["raw", list(b"width"), bad] if rng.random() < .6 else ["raw", bad, list(b"64")])
        elif z < .86:
            ops.append(["pix", rng.choice([8, 8, 10, 10, 12, 12, 0, 7, 9, 11, 14, 16, 255]), rng.randrange(4), rng.randrange(3), rng.randrange(2)])
        elif z < .91:
            ops.append(["color", rng.choice(list(MC)), rng.choice(list(CP)), rng.choice(list(TC))])
        elif z < .93:
            ops.append(["cll", rng.choice([0, 1, 1000, 65535]), rng.choice([0, 400, 32768, 65535])])
        elif z < .95:
            ops.append(["mdcv"] + [rng.choice([0, 1, 255, 256, 13250, 34500, 65535]) for _ in range(8)] + [rng.choice([0, 1, 50, 10000 << 8, 2 ** 32 - 1]) for _ in range(2)])
        elif z < .97:
            ops.append(["tb", rng.choice([1, 1001, 2 ** 32, 0]), rng.choice([30, 30000, 24, 0, 2 ** 63])])
        elif z < .99:
            ops.append(["sar", rng.choice([1, 16, 40, 0]), rng.choice([1, 11, 33, 0])])
        else:
            ops.append(["emit", rng.choice([0, 1, 2, -1])])
    # back to something small whatever happened before
    w = dict(width="64", height="64", threads="1", speed="10", tiles="0", tile_cols="0", tile_rows="0", bitrate="0", rdo_lookahead_frames="10", quantizer="100",
             switch_frame_interval="0", key_frame_interval="30", min_key_frame_interval="5", still_picture="false", level="auto")
    skip = rng.choice(list(w)[4:]) if rng.random() < .7 else None
    return ops + [["opt", k, v] for k, v in w.items() if k != skip]


def option_events(job, r):
    ev, prev = [], None
    base = None
    for op, o in zip([["init"]] + job["ops"] + [["use"]], r["out"]):
        cur = flat(o["cfg"])
        if op[0] == "init":
            prev = cur
            base = sorted(k for k in cur if k.startswith("enc.speed_settings"))
            continue
        diff = sorted(k for k in set(cur) | set(prev) if cur.get(k) != prev.get(k))
        both = set(cur) | set(prev)
        leaf = [k for k in diff if k and (k in FIELDS or not any(x.startswith(k + ".") for x in both)) and not any(k.startswith(f + ".") for f in FIELDS)]
        if op[0] == "use":
            ev.append(dict(o="use", r=o["r"], n=o["n"]))
        elif op[0] in ("opt", "int"):
            ev.append(dict(o="opt", int=op[0] == "int", key=op[1], txt=list(str(op[2])), r=o["r"], diff=leaf, sub=base, sp=cur["enc.speed_settings"],
                           vals={f: list(cur[f]) for f in FIELDS}))
        elif op[0] == "raw":
            ev.append(dict(o="raw", r=o["r"], diff=leaf))
        else:
            refuse = False
            E = "enc."
            if op[0] == "pix":
                refuse = op[1] not in (8, 10, 12)
                want = {E + "bit_depth": str(op[1]), E + "chroma_sampling": CS[op[2]], E + "chroma_sample_position": CSP[op[3]], E + "pixel_range": PR[op[4]]}
                if refuse:
                    want.pop(E + "bit_depth")
            elif op[0] == "color":
                D = E + "color_description.0."
                want = {D + "matrix_coefficients": MC[op[1]], D + "color_primaries": CP[op[2]], D + "transfer_characteristics": TC[op[3]]}
            elif op[0] == "cll":
                D = E + "content_light.0."
                want = {D + "max_content_light_level": str(op[1]), D + "max_frame_average_light_level": str(op[2])}
            elif op[0] == "mdcv":
                D = E + "mastering_display.0."
                want = {D + "max_luminance": str(op[9]), D + "min_luminance": str(op[10]), D + "white_point.x": str(op[7]), D + "white_point.y": str(op[8])}
                for p in range(3):
                    want[D + "primaries.%d.x" % p] = str(op[1 + 2 * p])
                    want[D + "primaries.%d.y" % p] = str(op[2 + 2 * p])
            elif op[0] in ("tb", "sar"):
                D = E + dict(tb="time_base", sar="sample_aspect_ratio")[op[0]]
                want = {D + ".num": str(op[1]), D + ".den": str(op[2])}
            else:
                want = {"rate_control.emit_pass_data": "true" if op[1] else "false"}
            parents = sorted({".".join(f.split(".")[:n]) for f in want for n in range(1, f.count(".") + 1)})
            ev.append(dict(o="set", r=o["r"], refuse=refuse, want=want, text={f: cur[f] for f in want if f in cur}, diff=diff and [d for d in diff if d], parents=parents))
        prev = cur
    ev.append(dict(o="strs", s=r["strs"]))
    return ev


def copt(rng, rate):
    """A configuration in both forms."""
    c, o = dict(w=rng.choice([16, 32, 48, 64, 50, 37]), h=rng.choice([16, 32, 64, 34, 51]), speed=rng.choice([9, 10, 10, 10]), threads=rng.choice([1, 1, 2, 4])), {}
    c["bd"] = rng.choice([8, 8, 8, 10, 12])
    c["cs"] = rng.choice([420, 420, 422, 444, 400])
    c["full"] = rng.random() < .3

    def put(k, v, ok, ov):
        c[k] = v
        o[ok] = ov
    put("la", v := rng.choice([1, 2, 3, 5, 10]), "rdo_lookahead_frames", str(v))
    if rng.random() < .4:
        put("ll", True, "low_latency", "true")
    if rng.random() < .4:
        put("scd", 0, "no_scene_detection", "true")
    put("maxkf", v := rng.choice([3, 5, 8, 30]), "key_frame_interval", str(v))
    put("minkf", v := rng.choice([0, 1, 3]), "min_key_frame_interval", str(v))
    put("q", v := rng.choice([60, 100, 180, 255]), "quantizer", str(v))
    if rate:
        put("br", v := rng.choice([20, 100, 400]) * 1000, "bitrate", str(v))
        if rng.random() < .4:
            put("rfd", v := rng.choice([12, 20, 60]), "reservoir_frame_delay", str(v))
        if rng.random() < .3:
            put("minq", v := rng.choice([10, 60]), "min_quantizer", str(v))
    if rng.random() < .2:
        put("tune", 0, "tune", "psnr")
    if rng.random() < .2 and c.get("ll"):
        put("switch", v := rng.choice([2, 3]), "switch_frame_interval", str(v))
    if rng.random() < .15 and not rate:
        put("still", True, "still_picture", "true")
    if rng.random() < .2:
        put("timing", True, "enable_timing_info", "true")
    return c, o


def walk(rng, nx, n, two):
    """A client that keeps the ownership rules."""
    ops, frames, alive, ident, nextk = [], set(), set(range(1, nx + 1)), [10], [1]
    for _ in range(n):
        if not alive:
            break
        x = rng.choice(sorted(alive))
        z = rng.random()
        if z < .18 or not frames:
            k = nextk[0]
            nextk[0] += 1
            frames.add(k)
            ops.append(["new", x, k])
            if rng.random() < .8:
                ops.append(["fill", x, k, rng.randrange(6), rng.randrange(4)])
            continue
        k = rng.choice(sorted(frames))
        if z < .36:
            ident[0] += 1
            ops.append(["opq", x, k, ident[0] if rng.random() < .85 else 0, int(rng.random() < .75)])
        elif z < .58:
            ops.append(["send", x, k])
        elif z < .76:
            if two:
                ops.append(["rcout", x])
            ops.append(["recv", x])
        elif z < .84:
            frames.discard(k)
            ops.append(["unref", x, k])
        elif z < .87:
            ops.append(["fill", x, k, rng.randrange(6), rng.randrange(4)])
        elif z < .89:
            ops.append(["t35", x, k, rng.choice([0, 1, 5, 200])])
        elif z < .915:
            ops.append(["type", x, k, rng.randrange(2)])
        elif z < .93:
            ops.append(["flush", x])
        elif z < .96:
            ops.append(["punref", x, rng.randrange(8)])
        elif z < .975:
            ops.append(["hdr", x])
        elif z < .985:
            ops.append(["null"])
        elif len(alive) > 1 or rng.random() < .3:
            alive.discard(x)
            ops.append(["drop", x])
    return ops


def session(rng):
    m = rng.random()
    if m < .6:
        c, o = copt(rng, rng.random() < .4)
        nx = rng.choice([1, 1, 2, 3])
        p = [dict(mode="", ctxs=nx, ops=walk(rng, nx, rng.randrange(5, 60), False), finish=rng.random() < .5, frames_first=rng.random() < .5, first=1, n=rng.randrange(2, 7))]
    else:
        c, o = copt(rng, True)
        c.pop("still", 0), o.pop("still_picture", 0)
        n = rng.randrange(1, 9)
        old = rng.random() < .4
        a = dict(mode="tpout" if old else "out", ctxs=1, ops=[], n=n, frames_first=True, emitv=rng.choice([1, 1, 2, -1]))
        b = dict(mode="tpin" if old else "in", ctxs=1, ops=[], n=n + rng.choice([0, 0, 0, 1, -1 if n > 1 else 0]), chunk=rng.choice([1, 3, 7, 8, 9, 16, 17, 40, 1000]), step=rng.choice([1, 5, 8, 13, 200]),
                 emitv=rng.choice([0, 0, 1]))
        if not old and rng.random() < .4:
            for _ in range(rng.randrange(1, 4)):
                head = rng.choice([[0] * 8, [255] * 8, [0, 0, 0, 0, 127, 255, 255, 248], [0, 0, 0, 0, 255, 255, 255, 255], [0, 0, 0, 1, 0, 0, 0, 8], [128, 0, 0, 0, 0, 0, 0, 0], [255] * 7 + [248],
                                   [0, 0, 0, 0, 0, 0, 0, 8], [0, 0, 0, 0, 0, 0, 0, 3], [0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 128, 0, 0, 0], [0, 0, 0, 0, 127, 255, 255, 247], []])
                b["ops"].append(["bad", 1, head + [rng.randrange(256) for _ in range(rng.choice([0, 0, 2, 3, 8, 9]))]])
        if not old and rng.random() < .15:
            b["head"] = rng.choice([[255] * 8, [0, 0, 0, 0, 127, 255, 255, 255], [0, 0, 0, 1, 0, 0, 0, 1], [0] * 8, [0, 0, 0, 0, 0, 0, 0, 1]])
        if not old and rng.random() < .1:
            b["reset"] = True
        p = [a, b]
    return dict(kind="capi", cfg=c, copt=o, content=dict(kind=rng.choice(["noise", "pan", "mixed", "flat"]), seed=rng.randrange(1 << 30)), passes=p)


def run():
    chk = vlib.Check("C14")
    vlib.build_harness()
    rng = chk.rng
    T = vlib.THOROUGH
    chk.model_async("CApiMC", "CApiMC.cfg" if T else "CApiMCq.cfg", workers=3)
    jobs = [session(rng) for _ in range(3000 if T else 330)]
    # some sessions over and over, to see what they leave allocated
    again = [dict(j, reps=8) for j in (session(rng) for _ in range(500 if T else 60)) if sum(len(p["ops"]) + 3 * p["n"] for p in j["passes"]) < 60]
    jobs += again
    ojobs = [dict(kind="copts", ops=option_ops(rng, 30)) for _ in range(1200 if T else 120)]
    ojobs += [dict(kind="cleaks", times=n) for n in ((400, 1000, 3000) if T else (400,))]
    rs = vlib.run_jobs(jobs + ojobs, timeout=90)
    sess, sj, over = [], [], 0
    for j, r in zip(jobs + ojobs, rs):
        if j["kind"] == "cleaks" and "ev" in r:
            sess.append(dict(id=len(sess), ev=r["ev"], presets=[], cut=False))
            sj.append(j)
            continue
        if "ev" not in r and "out" not in r:
            chk.violation("call-crashes", dict(job=j, result=r))
            continue
        if j["kind"] == "capi":
            over += r["end"] == "done"
            if "reps" in j and r["end"] == "done":
                r["ev"].append(dict(o="mem", before=r["before"], after=r["after"], threads=sum(p["ctxs"] for p in j["passes"]) * j["cfg"]["threads"]))
            sess.append(dict(id=len(sess), ev=r["ev"], presets=[], cut=r["end"] in ("refused", "no-summary")))
        else:
            ev = option_events(j, r)
            pre = list(r["presets"])
            sess.append(dict(id=len(sess), ev=ev, presets=pre, cut=False))
        sj.append(j)
    chk.judge("TraceCApi", sess, sj)
    chk.cov["sessions"] = len(jobs)
    chk.cov["repeated_sessions"] = len(again)
    chk.cov["completed_encodes"] = over
    chk.cov["option_calls"] = sum(len(j.get("ops", [])) for j in ojobs)
    chk.sample(dict(ops=jobs[0]["passes"][0]["ops"][:10]))
    return chk.finish()
