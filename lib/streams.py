"""Projection of recorded packets to Av1Stream events."""
import json, vlib, apisess

OBU0 = dict(t="td", hash="", ohb=0, se=0, idx=0, ft=0, show=0, showable=0, er=0, oh=0, prf=7, refresh=[], refs=[], roh=[], bq=0, fso=0, w=0, h=0)


def obu(o):
    r = dict(OBU0)
    r["t"] = o["t"]
    if o["t"] == "seq":
        r["hash"], r["ohb"] = o["hash"], o["seq"]["ohb"]
    elif o["t"] in ("frame", "fh"):
        for k in r:
            if k in o and k != "refresh":
                r[k] = o[k]
        r["refresh"] = [i for i in range(8) if o.get("refresh", 0) >> i & 1]
    return r


def project(job, res):
    c = job["cfg"]
    cfg = dict(er=c.get("er", 0), switch=c.get("switch", 0), w=c["w"], h=c["h"])
    ev = []
    if "fate" in res:
        return {"id": job["id"], "cfg": cfg, "ev": [{"o": "X", "r": res["fate"]}]}
    for e in res["ev"]:
        if e["o"] == "R" and e["r"] == "pkt":
            ev.append(dict(o="R", r="pkt", ft=e["ft"], qp=e["qp"], oerr=e["oerr"], rec=e["rec"], obus=[obu(o) for o in e["obus"]]))
        elif e["o"] == "RA":
            ev.append(dict(o="RA", r="ok", at=e["at"], e=e["e"], h=e["h"]))
        elif e["o"] == "E":
            ev.append(dict(o="E", r="ok"))
        elif e["r"] in ("panic", "Failure"):
            ev.append(dict(o="X", r=e["r"]))
    return {"id": job["id"], "cfg": cfg, "ev": ev}
