import vlib, apisess


def run():
    chk = vlib.Check("C03")
    chk.model_async("PipelineMC", "PipelineMC.cfg" if vlib.THOROUGH else "PipelineMCq.cfg")
    vlib.build_harness()
    n = 1500 if vlib.THOROUGH else 220
    apisess.run(chk, n, 3, ["obu", "src"])
    return chk.finish()
