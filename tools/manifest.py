"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("TLA+ EncoderApi/FramePipeline: TLC explores the pipeline model exhaustively; schedules simulated by TLC are replayed on the encoder and the recorded answers stepped through the specification",
         "pipeline model exhaustive to 7-9 frames; the code is driven through TLC-generated call histories and every answer judged by the trace specification"),
 "C02": ("TLA+ EncoderApi status machine: TLC model checking, TLC-generated schedules replayed on the encoder, recorded traces checked by TLC",
         "all schedules up to the model bound, sampled schedules on the code"),
 "C03": ("TLA+ EncoderApi user-data ledger: recorded opaque values, T.35 metadata and source pictures checked against the specification by TLC",
         "trace validation of TLC-generated histories"),
 "C04": ("TLA+ EncoderApi keyframe rules and FramePipeline keyframe placement: TLC model checking plus trace validation",
         "trace validation of TLC-generated histories"),
 "C05": ("TLA+ Av1Stream decoder-side stream machine: TLC checks the pipeline model emits legal streams, recorded bitstreams parsed by an independent OBU parser are stepped through it",
         "stream model exhaustive to 12 frames, recorded streams judged header by header"),
 "C06": ("TLA+ DecoderAgreement (reference stores of encoder and decoder): TLC model checking, recorded encodes decoded by dav1d and libaom judged by the specification",
         "sampled configurations and videos on the code; the specification's reference store is exhaustive to 10 frames"),
 "C07": ("TLA+ TileMerge (all worker interleavings) and Replicas: TLC model checking, groups of real runs across threads, pools, instruction sets, schedules and neighbours judged by the specification",
         "sampled groups on the code; all interleavings in the model"),
 "C08": ("TLA+ Tiling: TLC checks the documented layout against the AV1 limits for every picture size in superblocks; layouts computed by the code and read back from real frame headers are judged by the specification",
         "layout algorithm exhaustive over sizes in the model; sampled sizes and requests on the code"),
 "C09": ("TLA+ ConfigRules: TLC enumerates boundary configurations and checks the refusal rules on each; the real library answers all of them, the specification judges the answers, and accepted configurations are used to encode",
         "all single (thorough: all pairs of) deviations to boundary values from four bases, sampled deeper ones; encoding sampled"),
 "C10": ("TLA+ TwoPass: TLC explores an abstract two-pass encoder and caller; generated schedules run through both real passes with exact record accounting, and damaged summaries and statistics judged by the specification",
         "protocol model exhaustive to 4 (thorough 6) temporal units; on the code generated schedules, every truncation point and boundary values of every summary byte, sampled damage to records"),
 "C11": ("TLA+ RateBounds: TLC explores a reservoir controller against its bounds; groups of real encodes of one video (constant quantizer at both limits, bitrates, both passes, size-only changes) are compared frame by frame by the trace specification",
         "abstract controller exhaustive within bounds; on the code sampled groups of encodes, every frame of which is judged"),
 "C16": ("TLA+ SeqHeader: the AV1 sequence header syntax as a bit reader and writer in TLA+; TLC proves the round trip over a domain of configurations, and the specification itself reads the real sequence headers, HDR metadata and container headers",
         "round trip exhaustive over boundary configurations; on the code sampled configurations, every keyframe's bytes read by the specification"),
 "C12": ("TLA+ Channel and GopChannel: producer, encoder thread, consumer and statistics channels, and the splitter, workers and reassembler of GOP encoding, as concurrent actions over bounded queues; TLC explores every interleaving; recorded sessions of the real channels under generated producer and consumer schedules are judged by the trace specification against the direct interface",
         "all interleavings within small bounds in the model; on the code sampled schedules, every packet and record compared"),
 "C13": ("TLA+ Ivf: writer and reader of the container as actions over a byte sequence; TLC explores every truncation; files the real writer made, cut at every byte, damaged, and read back by the real reader are judged byte by byte by the trace specification",
         "exhaustive over small files in the model; on the code sampled packets and sizes, every truncation point of the small ones"),
 "C17": ("TLA+ GrainTable: segments, validity of a table and the grain syntax of a coded frame; TLC explores segment schedules; pairs of real encodes with and without a table, decoded by dav1d, are judged by the trace specification",
         "segment schedules exhaustive within small bounds; on the code sampled tables, every shown frame compared"),
 "C14": ("TLA+ CApi and COptions: ownership of every opaque pointer, last status, record framing, effect of every option; TLC explores any rule-keeping client against an encoder that accepts, refuses and reorders at will; recorded C sessions mirrored call by call on the native interface, and option calls with the configuration read back, are judged by the trace specification",
         "ownership model exhaustive within small bounds; on the code sampled call sequences and option texts, every call judged"),
 "C15": ("TLA+ Cli: what every option stands for, when an invocation must fail, which frames are selected, and the process as a machine over its files; TLC explores invocations with writes failing, input ending and termination requested at any point; recorded invocations of the real binary (pipes, existing outputs, both passes, damaged statistics and input, saved configurations, signals, full devices) are judged by the trace specification against the library's packets",
         "process model exhaustive within small bounds; on the code sampled invocations, every output file compared"),
 "C19": ("TLA+ Retention: what may be held after every call; TLC explores an encoder that codes in any order into any slots, with a client that drops it at any time; recorded sessions of the real encoder (lifetime of every picture and opaque value, heap after every call, heap across encoders) are judged by the trace specification",
         "retention model exhaustive to 4 (thorough 6) pictures; on the code sampled configurations and histories, every call judged, streams of 280 (thorough 800) frames"),
 "C20": ("TLA+ Report: the ledger of what was made, which accepts a report only if every figure in it follows; TLC explores a reporter with running counters that is honest or lies once anywhere; recorded runs of the command-line encoder (every line, summary, table) and of the library (every packet's statistics against its parsed bitstream and reconstruction) are judged by the trace specification",
         "report model exhaustive to 2 (thorough 3) packets; on the code sampled runs, every figure of every report judged except elapsed time, SSIM, PSNR-HVS and CIEDE"),
}
NA = {
 "C18": "Compression quality is a statistical comparison over natural video, not a property of states and transitions; no specification can decide it, and no natural video is available offline.",
}
TODO = []


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    ch = []
    for i in ids:
        if i in T:
            t, n = T[i]
            ch.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                           technique=t, level="model_checking", level_note=n))
    na = [dict(property=i, reason=NA.get(i, "the check for this property is not finished yet")) for i in ids if i not in T]
    json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=ch, not_applicable=na),
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
