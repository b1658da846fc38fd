"""Which harness instances decide which property."""
ASSUMPTIONS = [
    "code under test is clang-18 -O1 bitcode of /repo's current sources (x86-64 Linux, libstdc++ 13); undefined behaviour is judged on that bitcode",
    "C/C++ runtime functions without bitcode (hash, red-black tree rebalancing, condition variables, thread start, clocks, printf family, libc string functions) are modelled in rt/rt.cpp and the engine",
    "allocations above 16 MiB fail with bad_alloc; smaller ones succeed",
    "threads interleave at lock, condition, join, static-initialisation and sequentially consistent atomic operations (sequential consistency); data races are checked separately where --races is given",
]
SPECS = {}


def prop(pid, bounds, outside="", assumptions=()):
    SPECS[pid] = {"bounds": bounds, "outside": outside, "assumptions": list(assumptions), "inst": []}


def inst(pid, name, file, entry, params=None, opts=(), reach=(), backend="nlohmann", jobs=1, time=300, samples=3, tier="both", weight=1, defs=(), tparams=None, topts=None, ttime=None, mem=3500):
    SPECS[pid]["inst"].append(dict(name=name, file=file, entry=entry, params=params or {}, opts=list(opts), reach=list(reach), backend=backend, jobs=jobs, time=time, samples=samples, tier=tier, weight=weight,
                                   defs=list(defs), tparams=tparams, topts=topts, ttime=ttime, mem=mem))


def instances(pid, tier):
    out = []
    for i in SPECS[pid]["inst"]:
        if i["tier"] != "both" and i["tier"] != tier:
            continue
        i = dict(i)
        i["params"] = dict(i["params"])
        if tier == "thorough":
            i["params"].update(i["tparams"] or {})
            if i["topts"] is not None:
                i["opts"] = list(i["topts"])
            i["time"] = i["ttime"] or max(1800, i["time"])
        out.append(i)
    return out


# ------------------------------------------------------------------ framing
prop("C01", "1-2 messages of 1-3 arbitrary bytes under every fragmentation; header-like bodies with one arbitrary byte at every position; messages of 31 lengths from 9 to 100000 with 6 arbitrary bytes, byte-wise, whole and with two cut points; 80 messages in a row in pieces of 6 sizes; reader and writer assigned to other objects at any point between 3 messages",
     "longer messages, more arbitrary bytes at once")
for st in (0, 1):
    n = ("lenient", "strict")[st]
    inst("C01", "two_" + n, "stream.cpp", "h_roundtrip", {"L": 3, "M": 2, "strict": st}, reach=["round-trip"], tparams={"L": 6, "M": 3})
    inst("C01", "moved_" + n, "stream.cpp", "h_roundtrip_moved", {"strict": st}, reach=["moved"])
    inst("C01", "headerlike_" + n, "stream.cpp", "h_roundtrip_headerlike", {"strict": st}, reach=["header-like"])
    inst("C01", "long1_" + n, "stream.cpp", "h_roundtrip_long", {"strict": st, "from": 0, "to": 12}, reach=["long"])
    inst("C01", "long2_" + n, "stream.cpp", "h_roundtrip_long", {"strict": st, "from": 12, "to": 19}, reach=["long"])
    inst("C01", "long4_" + n, "stream.cpp", "h_roundtrip_long", {"strict": st, "from": 25, "to": 31}, reach=["long"])
    inst("C01", "many_" + n, "stream.cpp", "h_roundtrip_many", {"strict": st}, reach=["many"], tparams={"n": 400})
    inst("C01", "long3_" + n, "stream.cpp", "h_roundtrip_long", {"strict": st, "from": 19, "to": 25}, reach=["long"])

SH = {0: ("garbage", 4, 6), 1: ("afterprefix", 4, 6), 2: ("afterlength", 4, 6), 3: ("between", 4, 6), 4: ("damaged", 2, 3), 5: ("partialprefix", 2, 3), 6: ("lengthfield", 3, 5), 7: ("eof", 6, 8), 8: ("truncated", 0, 0), 9: ("wordsize", 2, 3), 10: ("digits", 1, 2), 11: ("muchgarbage", 2, 3), 12: ("muchspace", 1, 2), 13: ("manydigits", 1, 2), 14: ("manyframes", 2, 3), 15: ("longtruncated", 2, 3)}
B = "streams built from well-formed frames and up to %s arbitrary bytes placed before, inside and after headers and length fields (16 shapes, with up to 70000 further bytes of garbage, 300 spaces or digits, or 40 frames, bodies of up to 70000), length fields of up to 26 digits around 2^64, truncation at every byte"
prop("C02", B % "4 (thorough: 6)", "garbage longer than the bounds; fragmentation other than whole or byte-wise")
prop("C03", B % "4 (thorough: 6)", "as C02")
prop("C04", B % "6 (thorough: 8)", "as C02")
for s, (nm, q, t) in SH.items():
    if s not in (6, 7, 9, 10):
        inst("C02", nm, "stream.cpp", "h_lenient", {"shape": s, "n": q, "frag": s & 1}, reach=["delivered"], tparams={"n": t})
        inst("C03", nm, "stream.cpp", "h_strict", {"shape": s, "n": q, "frag": s & 1}, reach=[], tparams={"n": t})
    else:
        inst("C03", nm, "stream.cpp", "h_strict", {"shape": s, "n": 5 if s == 7 else min(q, 2), "frag": s & 1}, tparams={"n": t})
    if s in (4, 6, 7, 8, 9, 10, 15):
        inst("C04", nm, "stream.cpp", "h_lenient", {"shape": s, "n": q, "frag": 0}, reach=[], tparams={"n": t})
        if s in (6, 9): inst("C04", nm + "_strict", "stream.cpp", "h_strict", {"shape": s, "n": q, "frag": 1}, reach=[], tparams={"n": t})

inst("C02", "longgarbage", "stream.cpp", "h_garbage_long", {}, reach=["long garbage"])
inst("C03", "longgarbage", "stream.cpp", "h_garbage_long", {"strict": 1}, reach=["long garbage"])
prop("C05", "25 message sizes from 0 to 1000000 with up to 10 arbitrary bytes; refusal at any of the first four transport writes or never; one following message", "other sizes")
inst("C05", "frame", "stream.cpp", "h_writer", {}, reach=["success", "header refused", "body refused"])
inst("C05", "state", "stream.cpp", "h_stream_state", {}, reach=["state"])

# ------------------------------------------------------------------ concurrency primitives
CC = "conc.cpp"
prop("C06", "every split of 6 arbitrary bytes into writes and reads; 121 pairs of transfer sizes up to 2049 with 7 arbitrary bytes; 70000 bytes in 16 pairs of write and read sizes; every schedule of one reader, two writers with up to 3 writes of arbitrary bytes, and of close() against a reader and a writer and against 2-3 readers; data-race freedom of those schedules", "more threads or writes; more than 70000 bytes")
inst("C06", "seq", CC, "h_pipe_seq", {"n": 6}, reach=["pipe sequence"], tparams={"n": 8})
inst("C06", "many", CC, "h_pipe_many", {}, reach=["pipe many"])
inst("C06", "big", CC, "h_pipe_big", {}, reach=["pipe big"])
for nm, p in (("w2w1", {"k1": 2, "k2": 1}), ("w1w2r1", {"k1": 1, "k2": 2, "r": 1}), ("w2w1r2", {"k1": 2, "k2": 1, "r": 2}), ("w2w2r3", {"k1": 2, "k2": 2, "r": 3})):
    inst("C06", nm, CC, "h_pipe_conc", p, opts=["--races"], reach=["pipe concurrent"])
for nm, p in (("big1", {"s1": 1, "s2": 0}), ("big2", {"s1": 2, "s2": 1})):
    inst("C06", "conc_" + nm, CC, "h_pipe_conc_big", p, opts=["--races"], reach=["pipe concurrent"])
inst("C06", "close", CC, "h_pipe_close", {}, opts=["--races"], reach=["read before close", "closed before read"])
for nm, p in (("readers2", {"R": 2}), ("readers2w", {"R": 2, "write": 1}), ("readers3", {"R": 3})):
    inst("C06", nm, CC, "h_pipe_readers", p, opts=["--races"], reach=["readers ended"])
inst("C06", "close_spurious", CC, "h_pipe_close", {}, opts=["--races", "--spurious"], reach=["read before close"])

prop("C07", "every schedule of up to 3 putters and 2 takers exchanging up to 4 items of 1-2 arbitrary bytes, with and without a concurrent close; every sequence of 6 operations by one thread; 1500 items queued; reset before and next to other operations; data-race freedom", "more threads or items")
for nm, p in (("p2k2t1", {"P": 2, "K": 2, "T": 1}), ("p1k3t2", {"P": 1, "K": 3, "T": 2}), ("p2k1t2", {"P": 2, "K": 1, "T": 2}), ("p3k1t1", {"P": 3, "K": 1, "T": 1})):
    inst("C07", nm, CC, "h_chan_put_take", p, opts=["--races"], reach=["all taken"])
for nm, p in (("close_t2", {"T": 2, "n": 2, "order": 0}), ("close_t1", {"T": 1, "n": 3, "order": 0}), ("close_race", {"T": 2, "n": 1, "order": 1}), ("close_race2", {"T": 1, "n": 2, "order": 1})):
    inst("C07", nm, CC, "h_chan_close", p, opts=["--races"], reach=["ended"])
for k in range(2): inst("C07", "reset%d" % k, CC, "h_chan_reset", {"how": k}, opts=["--races"], reach=["reset"])
inst("C07", "many", CC, "h_chan_many", {}, reach=["many"])
inst("C07", "seq", CC, "h_chan_seq", {"n": 6}, reach=["sequence"], tparams={"n": 8})

prop("C08", "every schedule of up to 3 reader and 3 writer threads (at most 4 threads) with up to 2 lock sections each, with spurious wake-ups; 260 read locks held at once against a writer; every sequence of 4 (thorough: 5) operations on 3 guards and 2 mutexes; data-race freedom", "more threads; fairness among waiters")
for nm, p in (("r2w1", {"R": 2, "W": 1, "n": 2}), ("r1w2", {"R": 1, "W": 2, "n": 2}), ("r2w2", {"R": 2, "W": 2, "n": 1}), ("r1w3", {"R": 1, "W": 3, "n": 1}), ("r3w1", {"R": 3, "W": 1, "n": 1}), ("mix", {"R": 2, "W": 1, "n": 1, "mix": 1})):
    inst("C08", nm, CC, "h_rw", p, opts=["--races"], reach=["all granted"])
inst("C08", "r1w2_spurious", CC, "h_rw", {"R": 1, "W": 2, "n": 1}, opts=["--races", "--spurious"], reach=["all granted"])
inst("C08", "many", CC, "h_rw_many", {}, opts=["--races", "--preempt", "2"], reach=["many", "written"])
inst("C08", "together", CC, "h_rw_together", {}, opts=["--races"], reach=["together"])
inst("C08", "rguards", CC, "h_rw_rguards", {"n": 4}, opts=["--races"], reach=["guards"], tparams={"n": 5})
inst("C08", "wguards", CC, "h_rw_wguards", {"n": 4}, opts=["--races"], reach=["guards"], tparams={"n": 5})

prop("C09", "every schedule of a setter and up to 3 waiters in every kind (get, wait, wait_for, wait_until), arbitrary 64-bit value and string bytes, timeouts of 0-2 ms at any point of time and 8 timeouts up to 60 s with one thread; data-race freedom", "more waiters")
for nm, k, w in (("get2", 0x00, 2), ("get_wait", 0x10, 2), ("get_for", 0x20, 2), ("until_wait", 0x13, 2), ("for_until", 0x32, 2), ("three", 0x201, 3)):
    inst("C09", nm, CC, "h_future", {"W": w, "kinds": k, "move": k & 1}, opts=["--races"], reach=["all woken"] + (["ready", "timeout"] if k & 0x22 else []))
inst("C09", "moved", CC, "h_future", {"W": 2, "kinds": 0x10, "kill": 1, "move": 1}, opts=["--races"], reach=["all woken"])
inst("C09", "spurious", CC, "h_future", {"W": 2, "kinds": 0x20}, opts=["--races", "--spurious"], reach=["all woken", "ready", "timeout"])
inst("C09", "spurious_until", CC, "h_future", {"W": 2, "kinds": 0x31}, opts=["--races", "--spurious"], reach=["all woken", "ready", "timeout"])
inst("C09", "seq", CC, "h_future_seq", {}, reach=["seq"])

# ------------------------------------------------------------------ values
V = "values.cpp"
prop("C10", "every sequence of 2 operations (9 kinds, self-assignment included) on 2 any containers starting from every combination of 6 of 14 stored types (4 groups), values symbolic; 44 sizes and alignments from 1 to 72 bytes, alignment 1 to 64, each through put, copy, move, self-assignment, reset and neighbouring containers; every sequence of 3 variant operations; thorough: 3 operations, 3 containers", "longer sequences; assigning a container from a value stored inside itself")
for s in range(4): inst("C10", "any%d" % s, V, "h_any", {"set": s, "n": 2, "slots": 2}, reach=["any"], tparams={"n": 3})
for k in range(4): inst("C10", "sizes%d" % k, V, "h_any_sizes", {"part": k, "parts": 4}, reach=["sizes"])
inst("C10", "ctor", V, "h_any_ctor", {}, reach=["ctor"])
inst("C10", "variant", V, "h_variant", {"n": 3}, reach=["variant"], tparams={"n": 4})

prop("C11", "comparison of every two 64-bit integers, 32/64-bit mixes, booleans, strings of up to 2 arbitrary bytes and 8 special doubles; every sequence of 3 (thorough: 4) operations on two optionals of integers and heap strings; conversions of every 32-bit value", "longer sequences")
inst("C11", "compare", V, "h_opt_cmp", {}, reach=["compared"])
inst("C11", "seq_int", V, "h_opt_seq", {"n": 3, "str": 0}, reach=["sequence"], tparams={"n": 4})
inst("C11", "seq_str", V, "h_opt_seq", {"n": 3, "str": 1}, reach=["sequence"], tparams={"n": 4})
inst("C11", "convert", V, "h_opt_convert", {}, reach=["converted"])

prop("C15", "construct/copy/destruct of 22 types with symbolic contents; identity over 34 types; every schedule of two threads using types first; every schedule of two threads calling initialize() and terminate() up to twice each, also as first use; static destruction with 0-2 and 300 initialize()/terminate() pairs, in both orders", "types not listed")
inst("C15", "life1", V, "h_typeinfo", {"from": 0, "to": 11}, reach=["lifecycle"])
inst("C15", "life2", V, "h_typeinfo", {"from": 11, "to": 22}, reach=["lifecycle"])
inst("C15", "identity", V, "h_typeinfo_identity", {}, reach=["identity"])
for w in (0, 1): inst("C15", "threads%d" % w, V, "h_typeinfo_threads", {"which": w}, opts=["--races"], reach=["threads"])
for k in (0, 1, 2, 3): inst("C15", "refs%d" % k, V, "h_typeinfo_refs", {"mode": k}, opts=["--races"], reach=["refs"])
for k in (0, 1, 2): inst("C15", "exit%d" % k, V, "h_typeinfo_exit", {"refs": k}, reach=["exit"])
inst("C15", "exit300", V, "h_typeinfo_exit", {"refs": 300}, reach=["exit"])
for k in (1, 2, 300): inst("C15", "late%d" % k, V, "h_typeinfo_exit", {"refs": k, "late": 1}, reach=["exit", "late"])

# ------------------------------------------------------------------ JSON
J = "json.cpp"
BACK = ("nlohmann", "rapid")
prop("C12", "integers: every value within 64 of each power of ten and of 15 powers of two, both signs; 37 doubles; strings of up to 3 (thorough: 4) arbitrary bytes as value and as member name, long strings of 23 lengths; every value tree of depth 2; values nested 7 depths up to 129 and arrays and objects of 9 sizes up to 300; decoding into arrays, strings, any and optionals that hold something else; structs with nested arrays, optionals, variants; nlohmann and RapidJSON adapters", "other integers and doubles; the jsoncpp adapter (its library exists only as machine code); deep nesting")
prop("C13", "every text of up to 4 (thorough: 5) bytes; up to 3 arbitrary bytes inside 14 fixed contexts; digit strings around 2^31, 2^32, 2^53, 2^63 and 2^64; every pair of fields of a struct with each of 13 values or absent; 42 texts as every type, at the root and nested; nlohmann and RapidJSON adapters", "longer arbitrary texts; nesting deep enough to exhaust the stack; the jsoncpp adapter")
for b in BACK:
    for w in range(4): inst("C12", "int%d_%s" % (w, b), J, "h_json_int", {"w": w, "nw": 4, "bits": 6}, reach=["integer"], backend=b, tparams={"bits": 10})
    inst("C12", "number_" + b, J, "h_json_number", {}, reach=["number"], backend=b)
    for n in (1, 2, 3): inst("C12", "string%d_%s" % (n, b), J, "h_json_string", {"n": n}, reach=["valid string", "invalid string"], backend=b)
    inst("C12", "string4_" + b, J, "h_json_string", {"n": 4}, reach=["valid string", "invalid string"], backend=b, tier="thorough")
    for n in (1, 2): inst("C12", "name%d_%s" % (n, b), J, "h_json_string", {"n": n, "mode": 1}, reach=["valid string"], backend=b)
    inst("C12", "long_" + b, J, "h_json_string_long", {}, reach=["long string"], backend=b)
    inst("C12", "tree_" + b, J, "h_json_tree", {"depth": 2, "width": 2}, reach=["tree"], backend=b)
    inst("C12", "deep_" + b, J, "h_json_deep", {"count": 7}, reach=["deep"], backend=b)
    inst("C12", "used_" + b, J, "h_json_used", {}, reach=["used"], backend=b)
    inst("C12", "wide_" + b, J, "h_json_wide", {}, reach=["wide"], backend=b)
    inst("C12", "struct_" + b, J, "h_json_struct", {}, reach=["struct"], backend=b)
    for k in range(15): inst("C13", "text%d_%s" % (k, b), J, "h_json_text", {"shape": k, "n": 3 if k else 4}, reach=["decoded"], backend=b, tparams={"n": 4 if k else 5})
    inst("C13", "digits_" + b, J, "h_json_digits", {}, reach=["digits"], backend=b, tparams={"n": 2})
    inst("C13", "strict_" + b, J, "h_json_strict", {}, reach=["accepted", "refused"], backend=b)
    inst("C13", "types_" + b, J, "h_json_types", {}, reach=["types"], backend=b)

# ------------------------------------------------------------------ protocol structures
prop("C14", "all 135 structures; every subset of the optional fields when there are at most 6, otherwise all, none, each alone and each alone missing; every 64-bit integer and number, boolean and 2-byte string in every field; arrays of 2; nested structures to depth 2; each required field missing in turn", "larger subsets, longer arrays, deeper nesting; the JSON text level is C12/C13")
for k in range(8): inst("C14", "part%d" % k, "protocol.cpp", "h_protocol", {"part": k, "parts": 8, "subsets": 6}, reach=["structure"], tparams={"subsets": 10})

# ------------------------------------------------------------------ structures of the user
prop("C28", "9 structures without a base, with one, two and three levels of bases, with a base that does not come first (polymorphic, multiple inheritance), with a field redeclared, without fields, and one of 70 KB; every 3-bit integer, printable character and boolean in every field, arrays of 0-2, optionals set or not, each required field missing in turn, any field failing to encode; all of them nested in arrays, optionals, anys and variants; nlohmann and RapidJSON adapters", "virtual bases; longer contents (the value level is C12/C13)")
for b in BACK:
    for t in range(9): inst("C28", "type%d_%s" % (t, b), "structs.cpp", "h_structs", {"type": t}, reach=["structure"], backend=b)
    inst("C28", "big_" + b, "structs.cpp", "h_structs_big", {}, reach=["big"], backend=b)
    inst("C28", "nested_" + b, "structs.cpp", "h_structs_nested", {}, reach=["nested"], backend=b)
inst("C28", "fail", "structs.cpp", "h_structs_fail", {}, reach=["encoded", "failed"])
prop("C29", "every sequence of 3 (thorough: 4) constructions, copies, moves and assignments (also to itself) of two values; every 64-bit integer and texts with 1-2 arbitrary bytes, short and long", "longer sequences")
for k in (0, 1): inst("C29", "seq%d" % k, "structs.cpp", "h_resp", {"n": 3, "long": k}, reach=["sequence"], tparams={"n": 4})

# ------------------------------------------------------------------ session
S = "session.cpp"
inst("C02", "session", S, "h_sess_policy", {}, reach=["closed", "skipped"])
inst("C03", "session", S, "h_sess_policy", {}, reach=["closed", "skipped"])

prop("C16", "2-3 outstanding requests and every history of 2-3 responses addressed to any of them or to other numbers (also equal modulo 2^32), successful, failed, without text, without body or without status; arbitrary body values in a window of 16 and 2 arbitrary printable characters; texts of 3000 bytes with formatting characters; 8 malformed request numbers; 4 ways a send can fail; 270 requests outstanding and a response to one of 10 of them", "other threads (C18)")
for b in BACK:
    x = "" if b == "nlohmann" else "_" + b
    for k in range(6 if b == "nlohmann" else 2):
        for t in range(3): inst("C16", "kind%d_%d%s" % (k, t, x), S, "h_sess_responses", {"n": 2, "k": 2, "k0": k, "t0": t}, backend=b, tparams={"k": 3})
    inst("C16", "many" + x, S, "h_sess_many", {"mode": 0}, reach=["many"], backend=b)
    inst("C16", "badseq" + x, S, "h_sess_badseq", {}, reach=["bad"], backend=b)
    inst("C16", "unsent" + x, S, "h_sess_unsent", {}, reach=["unsent"], backend=b)
for t in range(4): inst("C16", "three_%d" % t, S, "h_sess_responses", {"n": 3, "k": 2, "k0": 0, "t0": t}, tparams={"k": 3})
prop("C17", "10 handler forms (by value, error, either, callback now or later); request numbers in windows of 8 around 6 limits of both signs; arbitrary 5-bit and 2-character response values; error texts with formatting characters and of 2500 bytes; with and without response-sent handler; 3 requests of two kinds answered later in every order; 270 requests in a row", "longer arbitrary values")
for b in BACK:
    x = "" if b == "nlohmann" else "_" + b
    for k in range(10): inst("C17", "handler%d%s" % (k, x), S, "h_sess_respond", {"handler": k}, reach=["failure"] if k in (1, 3, 6, 8) else ["success"], backend=b)
inst("C17", "many", S, "h_sess_many", {"mode": 1}, reach=["many"])
inst("C17", "deferred", S, "h_sess_deferred", {"n": 3}, reach=["deferred"], tparams={"n": 4})
prop("C18", "every schedule of one thread sending 1-2 requests, one sending 1-2 events and one responding to 1-2 requests; of two threads sending requests on a bound session and waiting for the answers; data-race freedom", "more threads or messages")
for nm, p in (("a1b1c1", (1, 1, 1)), ("a2b1c0", (2, 1, 0)), ("a1b2c0", (1, 2, 0)), ("a2b1c1", (2, 1, 1)), ("a1b1c2", (1, 1, 2)), ("a2b2c0", (2, 2, 0))):
    inst("C18", nm, S, "h_sess_conc", dict(zip("abc", p)), opts=["--races"], reach=["sent"])
inst("C18", "a2b2c2", S, "h_sess_conc", {"a": 2, "b": 2, "c": 2}, opts=["--races"], reach=["sent"], tier="thorough")
inst("C18", "bound", S, "h_sess_conc_bound", {}, opts=["--races"], reach=["answered"])
prop("C19", "15 forms of the type field, 7 of the sequence number, 13 of the name, 9 of the contents, two at a time away from well-formed; 2 (thorough: 3) arbitrary bytes as message and in 6 contexts; names of 3000-5000 bytes with formatting characters; nesting 40 deep; a well-formed request and event afterwards", "three or more simultaneous defects; nesting that exhausts the stack")
for b in BACK:
    x = "" if b == "nlohmann" else "_" + b
    for k in range(15): inst("C19", "env%d%s" % (k, x), S, "h_sess_envelope", {"type": k}, reach=["dispatched", "reported"] if k < 2 else ["reported"], backend=b)
    for k in range(7): inst("C19", "text%d%s" % (k, x), S, "h_sess_text", {"shape": k, "n": 2}, reach=["text"], backend=b, tparams={"n": 3})
prop("C20", "every schedule of receiving, dispatching and main thread for 2-3 messages, requests and events mixed, all present at the start, arriving later or followed by the end of the stream, contents arbitrary, and with a handler that itself sends a request and waits for its answer; 40 messages with at most one preemption; data-race freedom", "more messages")
for mix in (0, 1, 2, 3): inst("C20", "mix%d" % mix, S, "h_sess_order", {"n": 2, "mix": mix}, opts=["--races"], reach=["ordered"])
inst("C20", "late1", S, "h_sess_order", {"n": 2, "mix": 2, "late": 1}, opts=["--races"], reach=["ordered"])
inst("C20", "late2", S, "h_sess_order", {"n": 2, "mix": 1, "late": 2}, opts=["--races"], reach=["ordered"])
inst("C20", "three", S, "h_sess_order", {"n": 3, "mix": 2}, opts=["--races"], reach=["ordered"])
inst("C20", "three_late", S, "h_sess_order", {"n": 3, "mix": 5, "late": 1}, opts=["--races"], reach=["ordered"])
for mix in (0, 1, 2, 3): inst("C20", "eof%d" % mix, S, "h_sess_order", {"n": 2, "mix": mix, "eof": 1}, opts=["--races"], reach=["ordered"])
inst("C20", "eof_three", S, "h_sess_order", {"n": 3, "mix": 4, "eof": 1}, opts=["--races"], reach=["ordered"])
for mix in (0, 1): inst("C20", "last%d" % mix, S, "h_sess_order", {"n": 1, "mix": mix, "eof": 2}, opts=["--races"], reach=["ordered"])
inst("C20", "nested", S, "h_sess_order", {"n": 2, "mix": 1, "nested": 1}, opts=["--races"], reach=["ordered", "nested"])
inst("C20", "nested3", S, "h_sess_order", {"n": 3, "mix": 4, "nested": 1}, opts=["--races"], reach=["ordered", "nested"])
inst("C20", "many", S, "h_sess_order", {"n": 40, "mix": 2}, opts=["--races", "--preempt", "1"], reach=["ordered"])
inst("C20", "many_eof", S, "h_sess_order", {"n": 40, "mix": 3, "eof": 1}, opts=["--races", "--preempt", "1"], reach=["ordered"])
prop("C21", "every schedule of the session's threads with destruction, peer close, writer close, sends and up to 2 pending messages (8 scenarios, one or two streams, writes that block until closed); data-race freedom, no leak, no thread left; 5 misuse scenarios", "a handler that never returns; destroying a session from its own handler")
for k in range(8):
    inst("C21", "close%d" % k, S, "h_sess_close", {"mode": k, "n": 1}, opts=["--races"], reach=["closed"])
    inst("C21", "close%d_n2" % k, S, "h_sess_close", {"mode": k, "n": 2, "split": k & 1}, opts=["--races"], reach=["closed"])
inst("C21", "stuck", S, "h_sess_close", {"mode": 3, "n": 1, "stuck": 1}, opts=["--races"], reach=["closed"])
inst("C21", "stuck2", S, "h_sess_close", {"mode": 0, "n": 2, "stuck": 1}, opts=["--races"], reach=["closed"])
inst("C21", "idle", S, "h_sess_close", {"mode": 0, "n": 0}, opts=["--races"], reach=["closed"])
inst("C21", "peer_close", S, "h_sess_peer_close", {}, opts=["--races"], reach=["peer closed"])
inst("C21", "twice", S, "h_sess_twice", {}, opts=["--races"], reach=["twice"])
prop("C27", "every sequence of 3 (thorough: 4) registrations out of 8 kinds, then one message of each kind; error texts around names of 6 lengths up to 6000, response numbers in windows around 6 limits; Error and writef texts of 9 lengths around the buffer size with 2 arbitrary bytes; every schedule of a registration or receipt against two onError calls and of the receipt of each kind of message against a registration or a send, with data-race freedom", "longer registration histories")
for b in BACK:
    x = "" if b == "nlohmann" else "_" + b
    inst("C27", "register" + x, S, "h_sess_register", {"n": 3}, reach=["registered", "duplicate"], backend=b, tparams={"n": 4})
    inst("C27", "errtext" + x, S, "h_sess_errtext", {}, reach=["error text"], backend=b)
inst("C27", "texts", S, "h_texts", {}, reach=["texts"])
for k in range(5): inst("C27", "conc%d" % k, S, "h_sess_register_conc", {"kind": k}, opts=["--races"], reach=["registered"])
for k in range(7): inst("C27", "run%d" % k, S, "h_sess_register_run", {"kind": k}, opts=["--races"], reach=["run"])

# ------------------------------------------------------------------ sockets and network
N = "socket.cpp"
prop("C22", "connect, listen and accept with every outcome of every system call, followed by every sequence of 3 (thorough: 4) of close, isOpen, read, write calls with failing transfers and connection errors; descriptors from 0, from 3 and from 1020 on; every schedule of close() against a reader, a writer (also one blocked on a full connection), isOpen, another close and accept; data-race freedom", "more threads; Windows and macOS branches; descriptors are never reused by the stand-in")
for t in (0, 200):
    for b in (0, 3, 1020): inst("C22", "client_%d_%d" % (t, b), N, "h_sock_client", {"timeout": t, "base": b + (4 if b > 3 and t else 0), "n": 3}, reach=["connected", "not connected"], tparams={"n": 4})
inst("C22", "server", N, "h_sock_server", {}, reach=["listening", "not listening"])
for b in (0, 2): inst("C22", "server_%d" % b, N, "h_sock_server", {"base": b, "down": 1 if b else 0}, reach=["listening", "not listening"])
for k in range(6): inst("C22", "conc%d" % k, N, "h_sock_conc", {"mode": k}, opts=["--races"], reach=["closed"])
for k in range(3): inst("C22", "accept_close%d" % k, N, "h_sock_accept_close", {"pending": k}, opts=["--races"], reach=["closed"])
prop("C23", "writes of 5 (thorough: 8) arbitrary bytes taken in every sequence of parts or refused at any point; every size below 2^33 taken in two (thorough: three) arbitrary parts and the rest; reads of 4 (thorough: 6) arbitrary bytes in every split, with failures; every 64-bit read size with every received count; two concurrent writers", "longer sequences of parts; an operating system that reports 0 bytes sent")
inst("C23", "write", N, "h_sock_write", {"n": 5, "m": 2}, reach=["sent", "failed"], tparams={"n": 8, "m": 3})
inst("C23", "write_size", N, "h_sock_write_size", {}, reach=["sent", "failed"], tparams={"parts": 3})
inst("C23", "read", N, "h_sock_read", {"n": 4}, reach=["end", "failed"], tparams={"n": 6})
inst("C23", "read_size", N, "h_sock_read_size", {}, reach=["read"])
inst("C23", "write_conc", N, "h_sock_write_conc", {}, opts=["--races"], reach=["sent"])
prop("C24", "every 32-bit timeout, connection established or refused at every millisecond below 2^33 or never, at once or later, with every non-zero 7-bit error; addresses of 4 arbitrary characters and every port; failures of name lookup, socket creation, mode changes and waiting; descriptors from 3 and from 1024 on", "waiting interrupted by a signal")
for b in (3, 1024):
    for nm, p in (("socket", {}), ("net", {"net": 1}), ("untimed", {"timed": 0})): inst("C24", "%s_%d" % (nm, b), N, "h_connect", dict(p, base=b), reach=["connected", "refused", "setup failed"] + (["timed out", "too late", "failed later"] if nm != "untimed" else []))
prop("C25", "start with every outcome of its system calls; up to 2 connections pending or arriving, accept failures; stop, stop twice, stop by two threads, start by one thread against start or stop by another, destruction and restart, each at any point and after all connections were handed over; addresses of 4 arbitrary characters and every port; every schedule, data-race freedom", "stopping the server from its own callback; callbacks that block for ever")
for e in range(4):
    inst("C25", "setup%d" % e, N, "h_server", {"setup": 1, "k": 1, "end": e}, opts=["--races"], reach=["started", "not started", "ended"])
    inst("C25", "two%d" % e, N, "h_server", {"k": 2, "end": e}, opts=["--races"], reach=["started", "ended"])
    inst("C25", "arrive%d" % e, N, "h_server", {"k": 1, "arrive": 1, "end": e, "addr": 1}, opts=["--races"], reach=["started", "ended"])
    inst("C25", "accfail%d" % e, N, "h_server", {"k": 1, "accfail": 1, "end": e}, opts=["--races"], reach=["started", "ended"])
    inst("C25", "startstop%d" % e, N, "h_server_conc", {"mode": e, "k": 1}, opts=["--races"], reach=["ended"], tparams={"k": 2})
for e in (4, 5):
    inst("C25", "served%d" % e, N, "h_server", {"k": 2, "end": e}, opts=["--races"], reach=["all connected", "ended"], tparams={"k": 3})
    inst("C25", "served_arrive%d" % e, N, "h_server", {"k": 2, "arrive": 1, "end": e, "addr": 1}, opts=["--races"], reach=["all connected", "ended"])
for k in (1, 2): inst("C25", "addr%d" % k, N, "h_net_addr", {"mode": k}, reach=["start"])
inst("C24", "addr", N, "h_net_addr", {"mode": 0}, reach=["connect"])

# ------------------------------------------------------------------ stream wrappers
X = "wrap.cpp"
prop("C26", "every sequence of 3 (thorough: 4) calls on a spying reader and writer with 5 prefixes, transfers of up to 3 arbitrary bytes with every outcome, spy streams that fail; transfers of 10 sizes up to 8192; every sequence of 3 calls on combined streams; every sequence of 3 (thorough: 4) calls on closable and other files of arbitrary contents with every failure of the C library; every schedule of two file users", "longer sequences and transfers")
for k in range(5):
    inst("C26", "reader%d" % k, X, "h_spy_reader", {"prefix": k, "copyfail": k == 2}, reach=["read", "reader"], tparams={"n": 4})
    inst("C26", "writer%d" % k, X, "h_spy_writer", {"prefix": k, "copyfail": k == 2}, reach=["written", "refused", "writer"], tparams={"n": 4})
inst("C26", "long", X, "h_spy_long", {}, reach=["long"])
inst("C26", "combined", X, "h_combined", {}, reach=["closed", "combined"], tparams={"n": 4})
for k in (0, 1): inst("C26", "file%d" % k, X, "h_file", {"closable": k}, reach=["short read", "stored", "not stored", "file"], tparams={"n": 4})
inst("C26", "path", X, "h_file_path", {}, reach=["opened", "not opened"])
for k in range(5): inst("C26", "file_conc%d" % k, X, "h_file_conc", {"mode": k}, reach=["done"])
