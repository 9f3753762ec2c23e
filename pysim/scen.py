"""Scenarios: how plans are drawn, how one is executed, and what must hold afterwards."""
import copy
import hashlib
import math
import os
import random
import struct

import numpy as np

import copclib as copc
import sched
import simfuncs
from copclib.mp import read as mp_read
from copclib.mp import transform as mp_transform
from sched import World, simio
from simfuncs import FAILING, attrs, digest, name, use_all

RECLEN = {6: 30, 7: 36, 8: 38}


class Violation(Exception):
    def __init__(self, kind, text):
        super().__init__(text)
        self.kind, self.text = kind, text


def die(kind, text):
    raise Violation(kind, text)


# ------------------------------------------------------------------ generation
def gen_text(r, n, raw):
    m = r.choice([0, 1, n - 1, n, r.randint(0, n)])
    if raw:
        return [r.choice([0, 255, 128, 195, 40, 237, 160, r.randint(0, 255)]) for _ in range(m)]
    return [r.randint(33, 126) for _ in range(m)]


def gen_src(r, big=False, rawtext=False):
    nodes = []
    used = set()
    count = r.choice([0, 1, 2, 3, 5, 8, 12, r.randint(1, 20)] + ([40, 70] if big else []))
    maxd = r.choice([0, 1, 2, 3, 6])
    if r.random() < 0.3:
        maxd = 2
    cap = sum(8 ** d for d in range(min(maxd, 3) + 1))
    tries = 0
    while len(nodes) < min(count, cap) and tries < 400:
        tries += 1
        if nodes and r.random() < 0.6:
            k = r.choice(nodes)[:4]
            if k[0] >= maxd:
                continue
            k = [k[0] + 1] + [2 * v + r.randint(0, 1) for v in k[1:]]
        else:
            d = r.randint(0, maxd)
            k = [d] + [r.randrange(1 << d) for _ in range(3)]
        if tuple(k) in used:
            continue
        used.add(tuple(k))
        pd = r.choice([0, 0, r.randint(0, k[0])])
        pg = [pd] + [v >> (k[0] - pd) for v in k[1:]]
        n = r.choice([1, 2, 3, r.randint(1, 40), r.randint(1, 12)])
        if big and r.random() < 0.02:
            n = r.randint(500, 3000)
        nodes.append(k + pg + [n, r.getrandbits(32)])
    pf = r.choice([6, 7, 8])
    hdr = {}
    if r.random() < 0.6:
        hdr = {"file_source_id": r.randint(0, 65535), "global_encoding": r.randint(0, 31), "creation_day": r.randint(0, 65535),
               "creation_year": r.randint(0, 65535), "guid": gen_text(r, 16, False), "system_identifier": gen_text(r, 32, False),
               "generating_software": gen_text(r, 32, False), "points_by_return": [r.choice([0, 1, r.getrandbits(20), 2 ** 64 - 1]) for _ in range(15)]}
    src = {"pf": pf, "eb": r.choice([0, 0, 1, 3, r.randint(0, 30)]), "scale": [r.choice([0.01, 0.001, 1.0, 0.25, 0.1]) for _ in range(3)],
           "offset": [r.choice([0.0, 100.0, -5000.5, 1e6]) for _ in range(3)], "wkt": r.choice(["", "TEST_WKT", "x" * r.randint(1, 300)]),
           "ext": r.random() < 0.3, "hdr": hdr, "range": r.choice([100000, 100000, 3, 50, 0]), "nodes": nodes, "span": r.choice([1.0, 8.0, 1000.0, 333.3]), "spacing": r.choice([0.0, 1.0, 10.0, 0.37])}
    if r.random() < (0.5 if rawtext else 0.1):
        # what other software leaves in a header: bytes that are no text at all
        src["raw"] = [gen_text(r, 16, True), gen_text(r, 32, True), gen_text(r, 32, True)]
    if rawtext and r.random() < 0.4:
        patch = []
        for _ in range(r.randint(1, 4)):
            c = r.randint(0, 3)
            if c == 0:
                patch.append([247, list(struct.pack("<Q", r.choice([0, 2 ** 32, 2 ** 63, 2 ** 64 - 1, r.getrandbits(40)])))])
            elif c == 1:
                patch.append([255 + 8 * r.randint(0, 14), list(struct.pack("<Q", r.choice([2 ** 31, 2 ** 32 + 1, 2 ** 64 - 1, r.getrandbits(64)])))])
            elif c == 2:
                patch.append([179 + 8 * r.randint(0, 5), list(struct.pack("<d", r.choice([0.0, -0.0, 1e300, float("inf"), float("nan"), 5e-324, r.uniform(-1e7, 1e7)])))])
            else:
                patch.append([r.choice([4, 6, 90, 92]), [r.randint(0, 255) | 16, r.randint(0, 255)]])
        src["patch"] = patch
    return src


def gen_actions(r, out_pf, src, wild):
    acts = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        k = r.choice(["shift", "class", "each", "keep", "slice", "within", "twice", "reverse", "empty", "rebuild", "other", "ret", "bigret"])
        if k == "shift":
            acts.append([k] + [r.choice([0.0, 1.0, -2.5, 50.0, 7.125]) for _ in range(3)])
        elif k in ("class", "each"):
            acts.append([k, r.randint(0, 255)])
        elif k == "keep":
            acts.append([k, r.randint(1, 4), r.randint(0, 3)])
        elif k == "slice":
            acts.append([k, r.randint(0, 3), r.randint(1, 3)])
        elif k == "within":
            acts.append([k, r.choice([0.5, 5.0, 100.0])])
        elif k == "other":
            acts.append([k, r.choice(src["nodes"])[:4] if src["nodes"] else [0, 0, 0, 0]])
        elif k == "ret":
            acts.append([k, r.randint(0, 20)])
        elif k == "bigret":
            acts.append([k, r.choice([10, 5000, 200000])])
        elif k == "rebuild" and src["eb"]:
            continue
        else:
            acts.append([k])
    return acts


def gen_sched(r, plan):
    plan["grain"] = r.choice([0, 0, 1, 1, 2, 5])
    plan["lead"] = r.choice([0, 0, 1, 3, 20, 200])
    n = r.choice([0, 20, 100, 400])
    plan["sched"] = [r.getrandbits(30) for _ in range(n)]
    w = {}
    style = r.randint(0, 4)
    if style == 1:
        w = {"w%d" % i: r.choice([1, 10, 1000]) for i in range(8)}
    elif style == 2:
        w = {"deliver": r.choice([1, 1000]), "feed": r.choice([1, 1000]), "take": r.choice([1, 100])}
    elif style == 3:
        w = {"w0": 1, "deliver": 100}
    elif style == 4:
        w = {"start": 1}
    plan["weights"] = w
    plan["cpu"] = r.choice([1, 2, 4, 8])


def gen_selection(r, src):
    c = r.random()
    if c < 0.45 or not src["nodes"]:
        return {"how": "all"}
    if c < 0.75:
        ks = [n[:4] for n in src["nodes"]]
        r.shuffle(ks)
        return {"how": "list", "keys": ks[: r.choice([0, 1, len(ks), r.randint(0, len(ks))])]}
    return {"how": "res", "res": r.choice([0.0, src["spacing"], src["spacing"] / 2, src["spacing"] / 8, 1e9, 1e-6])}


def gen_call(r, src):
    c = {"sel": gen_selection(r, src), "chunk": r.choice([1024, 1, 2, 3, 5, 7]), "workers": r.choice([None, 1, 1, 2, 3, 4]),
         "progress": r.random() < 0.5}
    c["style"] = r.choice([0, 0, 1, 1, 2])  # see invoke
    return c


def gen_out(r, src):
    o = {"kind": r.choice(["copc", "copc", "laz"]), "from": r.choice(["reader", "reader", "new"]), "pf": src["pf"], "scale": src["scale"],
         "offset": src["offset"], "over": r.random() < 0.2}
    if r.random() < 0.35:
        o["pf"] = r.choice([6, 7, 8])
    if r.random() < 0.35:
        o["scale"] = [r.choice([0.01, 0.001, 1.0, 0.1]) for _ in range(3)]
        o["offset"] = [r.choice([0.0, 1000.0, -77.0]) for _ in range(3)]
    if o["from"] == "reader" and not (o["over"] and o["kind"] == "copc"):
        o["pf"], o["scale"], o["offset"] = src["pf"], src["scale"], src["offset"]
    return o


def gen_spec(r, plan):
    src = plan["src"]
    spec = {"*": gen_actions(r, plan["out"]["pf"] if "out" in plan else src["pf"], src, False)}
    for n in src["nodes"]:
        if r.random() < 0.25:
            spec["-".join(map(str, n[:4]))] = gen_actions(r, 0, src, False)
    if "out" in plan and plan["out"]["pf"] != src["pf"] and r.random() < 0.97:
        for v in spec.values():
            v.append(["format"])
    return spec


def gen_faults(r, plan, n):
    src = plan["src"]
    m = max(1, len(src["nodes"]))
    faults = []
    for _ in range(n):
        c = r.random()
        if c < 0.3:
            faults.append({"k": "kill", "task": r.randrange(m), "io": r.choice([-2, -1, 0, 1, 2, 3, r.randint(0, 12)])})
        elif c < 0.4:
            faults.append({"k": "kill", "task": -1 - r.randrange(4), "io": r.choice([-2, -1, 0, 1, r.randint(0, 20)])})
        elif c < 0.5:
            faults.append({"k": "killidle", "step": r.randint(0, 60), "w": r.randrange(4)})
        elif c < 0.7:
            faults.append({"k": r.choice(["eio", "eio", "eof", "short", "eintr"]), "task": r.randrange(m), "io": r.choice([0, 1, 2, r.randint(0, 12)])})
        elif c < 0.8:
            faults.append({"k": r.choice(["eio", "emfile", "eof", "short"]), "task": -1 - r.randrange(4), "io": r.choice([0, 1, 2, r.randint(0, 30)])})
        elif c < 0.9:
            faults.append({"k": r.choice(["eio", "enospc", "short", "eintr"]), "main": 1, "op": 2, "n": r.choice([0, 1, 2, r.randint(0, 12)])})
        else:
            faults.append({"k": r.choice(["eio", "eof", "short"]), "main": 1, "op": r.choice([1, 1, 3, 0]), "n": r.randint(0, 12)})
    return faults


def gen(prop, r, nested=False):
    plan = {"prop": prop, "src": gen_src(r, big=r.random() < 0.1 and not nested, rawtext=prop == "C16")}
    plan["call"] = gen_call(r, plan["src"])
    gen_sched(r, plan)
    plan["faults"] = []
    if prop in ("C13", "C14"):
        plan["mode"] = "transform" if prop == "C13" or r.random() < 0.7 else r.choice(["concat", "map", "multi"])
    elif prop == "C15":
        plan["mode"] = r.choice(["concat", "map", "multi"])
    else:
        plan["mode"] = "ship"
    c = plan["call"]
    if plan["mode"] == "transform":
        plan["out"] = gen_out(r, plan["src"])
        plan["spec"] = gen_spec(r, plan)
        c["fn"] = "default" if r.random() < 0.1 and plan["out"]["pf"] == plan["src"]["pf"] else "spec"
        c["minmax"] = r.random() < 0.5
        c["callback"] = r.random() < 0.6
        c["init"] = r.choice([None, None, 2.5, 7.0, 3.0])
        c["plain"] = c["init"] == 3.0  # an initialiser without arguments
        if c["init"] is not None:
            for k in plan["spec"]:
                if r.random() < 0.5:
                    plan["spec"][k].insert(0, ["state"])
    elif plan["mode"] in ("concat", "map"):
        c["limits"] = r.choice([[], [], None, [r.randint(0, 7) for _ in range(r.randint(1, 4))], [255, 0]])
    elif plan["mode"] == "multi":
        plan["spec"] = {"*": gen_actions(r, 0, plan["src"], False)[:1]}
        for v in plan["spec"].values():
            v[:] = [a for a in v if a[0] == "other"]
        c["callback"] = r.random() < 0.8
    if prop == "C14":
        if r.random() < 0.66:
            plan["faults"] = gen_faults(r, plan, r.choice([1, 1, 2, 3]))
        elif "spec" in plan and plan["src"]["nodes"] and r.random() < 0.6:
            # a function that fails or gives back something it should not
            bad = r.choice(["raise", "raise", "raise_odd", "raise_local", "exit", "interrupt", "give_none", "give_list", "give_tuple3",
                            "give_notdict", "give_unpicklable", "give_unreadable", "give_clash", "mix_format", "mix_format", "mix_length", "mix_length", "mix_same", "mix_same"])
            for _ in range(r.choice([1, 1, 2])):
                if bad in ("mix_format", "mix_length", "mix_same") and r.random() < 0.7:
                    # as many points as make whole records of the file's own length
                    node = r.choice(plan["src"]["nodes"])
                    a = r.randint(1, 6)
                    length = RECLEN[plan["src"]["pf"]] + plan["src"]["eb"]
                    if bad == "mix_length" and r.random() < 0.6:
                        node[8] = length // math.gcd(length, a) * r.choice([1, 1, 2])
                    else:
                        node[8] = r.choice([1, 1, 1, 2, 5, 10, 15, 18, 19, 30, 36, 38, length])
                    plan["spec"]["-".join(map(str, node[:4]))] = [[bad, a]]
                    break
                k = "-".join(map(str, r.choice(plan["src"]["nodes"])[:4]))
                plan["spec"].setdefault(k, [])
                plan["spec"][k] = plan["spec"][k] + [[bad, r.randint(1, 6)]]
        else:
            c["break"] = r.choice(["both", "clash", "callback", "init", "gone", "unpicklable_arg", "workers0", "invalid_node"])
            c["at"] = r.randint(0, 5)
    if prop == "C15" and r.random() < 0.15:
        plan["faults"] = [{"k": r.choice(["short", "eintr"]), "task": r.randrange(4), "io": r.randint(0, 8)}]
    if prop == "C16":
        plan["out"] = gen_out(r, plan["src"])
        plan["hops"] = r.choice([1, 1, 2, 3])
        plan["vals"] = [[r.choice(["node", "bignode", "key", "header", "whead", "vector", "bytes", "nodes", "dict", "page", "invalid", "badkey"]), r.getrandbits(30)]
                        for _ in range(r.randint(1, 8))]
        plan["add"] = r.randint(0, 3)
    if not nested:
        q = random.Random(r.getrandbits(64))
        if q.random() < 0.15:
            plan["prior"] = [gen_prior(prop, q, {k: v for k, v in plan.items() if k != "prior"}) for _ in range(q.choice([1, 1, 2]))]
    return plan


def gen_prior(prop, r, plan):
    """another call that precedes the one of the plan, often the same on a file that differs in its points only"""
    if r.random() < 0.4:
        prior = copy.deepcopy(plan)
        for n in prior["src"]["nodes"]:
            if r.random() < 0.7:
                n[9] ^= 1
        if "limits" in prior["call"] and r.random() < 0.5:
            prior["call"]["limits"] = r.choice([[], None, [r.randint(0, 7)]])
        if r.random() < 0.5:
            prior["faults"] = []
        return prior
    return gen(r.choice([prop, prop, "C13", "C14", "C15"]), r, True)


# ------------------------------------------------------------------ the source file
def point_bytes(src, n, seed):
    r = random.Random(seed)
    rl = RECLEN[src["pf"]] + src["eb"]
    out = bytearray()
    for i in range(n):
        rec = bytearray(r.getrandbits(8) for _ in range(rl))
        w = src.get("range", 100000)
        xyz = [r.randint(-w, w) for _ in range(3)]
        rec[0:12] = struct.pack("<3i", *xyz)
        rec[16] = r.randint(0, 7) if r.random() < 0.8 else r.randint(0, 255)
        rec[22:30] = struct.pack("<d", r.uniform(-1e6, 1e6))
        out += rec
    return bytes(out)


def build_source(src, path):
    cfg = copc.CopcConfigWriter(src["pf"], copc.Vector3(*src["scale"]), copc.Vector3(*src["offset"]), src["wkt"], copc.EbVlr(src["eb"]),
                                src["ext"])
    h = cfg.las_header
    h.min = copc.Vector3(*src["offset"])
    h.max = copc.Vector3(*[o + src["span"] for o in src["offset"]])
    for k, v in src["hdr"].items():
        if k in ("guid", "system_identifier", "generating_software"):
            v = bytes(v)
        setattr(h, k, v)
    info = cfg.copc_info
    info.center_x, info.center_y, info.center_z = [o + src["span"] / 2 for o in src["offset"]]
    info.halfsize = src["span"] / 2
    info.spacing = src["spacing"]
    w = copc.FileWriter(path, cfg)
    for n in src["nodes"]:
        w.AddNode(copc.VoxelKey(*n[:4]), copc.VectorChar(point_bytes(src, n[8], n[9])), copc.VoxelKey(*n[4:8]))
    w.Close()
    if "raw" in src or "patch" in src:
        with open(path, "r+b") as f:
            b = bytearray(f.read())
            for pos, size, v in ((8, 16, src["raw"][0]), (26, 32, src["raw"][1]), (58, 32, src["raw"][2])) if "raw" in src else ():
                b[pos:pos + size] = bytes(v)[:size].ljust(size, b"\0")
            for pos, v in src.get("patch", ()):
                b[pos:pos + len(v)] = bytes(v)
            f.seek(0)
            f.write(b)


# ------------------------------------------------------------------ running
class Progress:
    def __init__(self):
        self.total = None
        self.n = 0

    def reset(self, total):
        self.total = total
        self.n = 0

    def update(self, n=1):
        self.n += n


class Stop(Exception):
    pass


def selected(plan, reader):
    sel = plan["call"]["sel"]
    if sel["how"] == "list":
        nodes = [reader.FindNode(copc.VoxelKey(*k)) for k in sel["keys"]]
        return [n for n in nodes if n.IsValid()]
    if sel["how"] == "res":
        return reader.GetNodesWithinResolution(sel["res"])
    return reader.GetAllNodes()


def wanted_nodes(kw, reader):
    return reader.GetNodesWithinResolution(kw["resolution"]) if "resolution" in kw else reader.GetAllNodes()


def make_writer(plan, reader, path):
    o = plan["out"]
    src = plan["src"]
    if o["from"] == "reader":
        cfg = reader.copc_config
    elif o["kind"] == "copc":
        cfg = copc.CopcConfigWriter(o["pf"], copc.Vector3(*o["scale"]), copc.Vector3(*o["offset"]), src["wkt"], copc.EbVlr(src["eb"]))
    else:
        cfg = copc.LazConfigWriter(o["pf"], copc.Vector3(*o["scale"]), copc.Vector3(*o["offset"]), src["wkt"], copc.EbVlr(src["eb"]))
    if o["kind"] == "laz":
        return copc.LazWriter(path, cfg)
    if o["from"] == "reader" and o["over"]:
        return copc.FileWriter(path, cfg, point_format_id=o["pf"], scale=copc.Vector3(*o["scale"]), offset=copc.Vector3(*o["offset"]))
    return copc.FileWriter(path, cfg)


# the documented order and default values of the arguments
COMMON = [("nodes", None), ("resolution", -1), ("progress", None), ("completed_callback", None), ("chunk_size", 1024),
          ("max_workers", None)]
PARAMS = {
    "transform_multithreaded": [("transform_function", None), ("transform_function_args", {})] + COMMON +
        [("update_minmax", False), ("mp_init_function", None), ("mp_init_function_args", {})],
    "read_multithreaded": [("read_function", ...), ("read_function_args", {})] + COMMON,
    "read_concat_xyz_class_limit": [("classification_limits", []), ("resolution", -1), ("progress", None)],
    "read_map_xyz_class_limit": [("classification_limits", []), ("resolution", -1), ("progress", None)],
}


def invoke(fn, first, kw, style):
    """Call a helper with the given arguments by keyword, by keyword without those that equal their documented default,
    or by position as far as that goes."""
    params = PARAMS[fn.__name__]
    if style == 1:
        kw = {k: v for k, v in kw.items() if k not in dict(params + COMMON) or not (dict(params + COMMON)[k] is v or
              (type(v) in (int, bool, list, dict) and v == dict(params + COMMON)[k]))}
    elif style == 2:
        kw = dict(kw)
        last = max([i for i, (k, _) in enumerate(params) if k in kw], default=-1)
        first = list(first) + [kw.pop(k, dflt) for k, dflt in params[:last + 1]]
    return fn(*first, **kw)


def header_of(writer):
    return writer.copc_config.las_header if isinstance(writer, copc.FileWriter) else writer.laz_config.las_header


def sequential(plan, reader, nodes, header):
    """what the transform gives for each node, computed one after the other in this process"""
    out = {}
    c = plan["call"]
    fails = False  # None: may fail or not
    for n in nodes:
        pts = reader.GetPoints(n)
        ret = None
        if c["fn"] == "spec":
            acts = plan["spec"].get(name(n.key), plan["spec"]["*"])
            if failing(acts, c):
                fails = True
                continue
            try:
                r = simfuncs.transform(points=pts, node=n, writer_header=header, reader=reader, spec=plan["spec"])
            except Exception:  # the function itself refuses this node
                fails = True
                continue
            pts, ret = r if isinstance(r, tuple) else (r, None)
        if pts.point_format_id != header.point_format_id or pts.point_record_length != header.point_record_length:
            # points the file cannot hold; with no points at all it does not matter
            fails = fails or bool(len(pts)) or None
            if len(pts):
                continue
        out[name(n.key)] = (len(pts), bytes(pts.Pack(header)), [list(pts.x), list(pts.y), list(pts.z)], ret)
    return out, fails


def failing(acts, c):
    """return values that clash with the callback's arguments only matter if there is a callback"""
    return any(a[0] in FAILING and (a[0] != "give_clash" or c["callback"]) for a in acts)


def arm_main(world, on):
    simio.simio_reset()
    if on:
        for f in world.plan.get("faults", []):
            if f.get("main"):
                simio.simio_fault(f["op"], sched.ACT[f["k"]], f["n"])
    simio.simio_on(1 if on else 0)


def is_disturbed(plan, world):
    """has anything happened that a call may fail for? (transfers that are split or interrupted are not)"""
    if any(world.fired.get(k) for k in ("kill", "killidle", "eio", "eof", "emfile", "enospc")):
        return True
    hard = any(f.get("main") and (f["k"] not in ("short", "eintr") or f["op"] not in (1, 2)) for f in plan["faults"])
    return bool(world.fired.get("main")) and hard


def run_transform(plan, world, d):
    src_path, out_path = os.path.join(d, "in.copc.laz"), os.path.join(d, "out.laz")
    build_source(plan["src"], src_path)
    before = open(src_path, "rb").read()
    c = plan["call"]
    ref = copc.FileReader(src_path)
    header = header_of(make_writer(plan, ref, os.path.join(d, "x.laz")))
    if c["init"] is not None:
        simfuncs.STATE = c["init"]
    wanted = selected(plan, ref)
    expect, fails = sequential(plan, ref, wanted, header)
    simfuncs.STATE = None
    brk = c.get("break")
    calls = []
    prog = Progress() if c["progress"] else None

    def callback(node, point_count, compressed_points, **kw):
        if brk == "callback" and len(calls) == c["at"]:
            raise Stop("planned")
        calls.append((name(node.key), point_count, bytes(compressed_points), kw, str(node)))

    args = {"spec": plan["spec"]} if c["fn"] == "spec" else {}
    kw = dict(progress=prog, chunk_size=c["chunk"], max_workers=c["workers"], update_minmax=c["minmax"])
    if c["callback"] or brk == "callback":
        kw["completed_callback"] = callback
    if c["init"] is not None or brk == "init":
        if c.get("plain") and brk != "init":
            kw["mp_init_function"] = simfuncs.init_plain
        else:
            kw["mp_init_function"] = simfuncs.init_fn
            kw["mp_init_function_args"] = {"value": c["init"], "fail": brk == "init"}
    if c["fn"] == "spec":
        kw["transform_function"] = simfuncs.transform
    if brk == "clash":
        args = dict(args, node=1)
    if brk == "unpicklable_arg":
        args = dict(args, odd=lambda: 0)
    if brk == "workers0":
        kw["max_workers"] = 0
    kw["transform_function_args"] = args
    error = None
    reader = writer = None
    arm_main(world, True)
    try:
        reader = copc.FileReader(src_path)
        writer = make_writer(plan, reader, out_path)
        wh = header_of(writer)
        old_bounds = (wh.min.x, wh.min.y, wh.min.z, wh.max.x, wh.max.y, wh.max.z)
        sel = c["sel"]
        if sel["how"] == "list":
            kw["nodes"] = selected(plan, reader)
            if brk == "both":
                kw["resolution"] = 1.0
        elif sel["how"] == "res":
            kw["resolution"] = sel["res"]
            if brk == "both":
                kw["nodes"] = reader.GetAllNodes()
        elif brk == "both":
            kw["nodes"], kw["resolution"] = reader.GetAllNodes(), 0
        if brk == "gone":
            os.rename(src_path, src_path + ".moved")
        if brk == "invalid_node":
            if "nodes" not in kw:
                kw["nodes"] = wanted_nodes(kw, reader)
                kw.pop("resolution", None)
            kw["nodes"] = kw["nodes"] + [reader.FindNode(copc.VoxelKey(30, 5, 5, 5))]
        given = [str(n) for n in kw["nodes"]] if kw.get("nodes") is not None else None
        invoke(mp_transform.transform_multithreaded, [reader, writer], kw, c.get("style", 0))
        world.note("returned")
        writer.Close()
    except (Exception, SystemExit, KeyboardInterrupt) as e:
        error = e
        world.note("raised", type(e).__name__)
    finally:
        main_fired = simio.simio_fired()
        world.trace.update(struct.pack("<Q", simio.simio_trace()))
        arm_main(world, False)
    if main_fired:
        world.fired["main"] = world.fired.get("main", 0) + main_fired
    if brk == "gone":
        os.rename(src_path + ".moved", src_path)
    disturbed = is_disturbed(plan, world)
    ntask = len(wanted)
    must_fail = bool(fails)
    if brk in ("both", "workers0", "invalid_node"):
        must_fail = True
    if brk in ("clash", "init", "gone", "unpicklable_arg", "callback") and ntask:
        must_fail = must_fail or brk != "callback" or c["at"] < ntask
    if error is None:
        if must_fail:
            die("silent-failure", "a failing %s was not reported: the call returned normally" % (brk or "transform function"))
        check_output(plan, out_path, expect, c, old_bounds, {name(n.key): str(n.page_key) for n in wanted})
        check_calls(plan, expect, calls, c, wanted, header)
        if prog is not None and (prog.n != ntask or (kw.get("nodes") is None and prog.total != ntask)):
            die("progress", "%d nodes, progress counted %d of %s" % (ntask, prog.n, prog.total))
        if given is not None and [str(n) for n in kw["nodes"]] != given:
            die("source-changed", "the caller's list of nodes was changed")
    else:
        if not must_fail and fails is not None and not disturbed and not brk:
            die("spurious-failure", "nothing failed, but the call raised %s: %s" % (type(error).__name__, str(error)[:200]))
        if brk == "callback" and not disturbed and not fails and ntask > c["at"] and not isinstance(error, Stop):
            die("wrong-error", "the callback's exception became %s" % type(error).__name__)
    if open(src_path, "rb").read() != before:
        die("source-changed", "the source file was changed")
    return bool(wanted)


def made_of(raw, blocks):
    """Is raw these blocks one after another, in any order? Gives up, saying yes, on a heavily ambiguous input."""
    left = {}
    for b in blocks:
        left[b] = left.get(b, 0) + 1
    budget = [20000]

    def go(at):
        while True:
            if at == len(raw):
                return True
            budget[0] -= 1
            if budget[0] < 0:
                return True
            fit = [b for b in left if left[b] and raw.startswith(b, at)]
            if not fit:
                return False
            if len(fit) == 1:
                b = fit[0]
                left[b] -= 1
                undo.append(b)
                at += len(b)
                continue
            for b in sorted(fit, key=len):
                mark = len(undo)
                left[b] -= 1
                undo.append(b)
                if go(at + len(b)):
                    return True
                while len(undo) > mark:
                    left[undo.pop()] += 1
            return False

    undo = []
    return go(0)


def check_output(plan, path, expect, c, old_bounds, pages):
    expect = {k: v for k, v in expect.items()}
    written = {k: v for k, v in expect.items() if v[0]}
    total = sum(v[0] for v in written.values())
    o = plan["out"]
    if o["kind"] == "copc":
        try:
            r = copc.FileReader(path)
            nodes = r.GetAllNodes()
        except Exception as e:
            die("unreadable", "the result cannot be read: %s" % e)
        got = {}
        for n in nodes:
            if name(n.key) in got:
                die("duplicate-node", "node %s is listed twice" % name(n.key))
            got[name(n.key)] = n
        if set(got) != set(written):
            die("node-set", "missing %s, unexpected %s" % (sorted(set(written) - set(got)), sorted(set(got) - set(written))))
        h = r.copc_config.las_header
        for k, n in got.items():
            if n.point_count != written[k][0]:
                die("point-count", "node %s has %d points instead of %d" % (k, n.point_count, written[k][0]))
            if str(n.page_key) != pages[k]:
                die("node-set", "node %s is in page %s instead of %s" % (k, n.page_key, pages[k]))
            try:
                b = bytes(r.GetPointData(n))
            except Exception as e:
                die("unreadable", "node %s cannot be read: %s" % (k, e))
            if b != written[k][1]:
                die("wrong-points", "node %s does not hold the points of the transform" % k)
    else:
        try:
            r = copc.LazReader(path)
            pts = r.GetPoints()
        except Exception as e:
            die("unreadable", "the result cannot be read: %s" % e)
        h = r.laz_config.las_header
        raw = bytes(pts.Pack(h))
        rl = h.point_record_length
        recs = sorted(raw[i:i + rl] for i in range(0, len(raw), rl))
        want = sorted(v[1][i:i + rl] for v in written.values() for i in range(0, len(v[1]), rl))
        if len(recs) != len(want):
            die("point-count", "%d points instead of %d" % (len(recs), len(want)))
        if recs != want:
            die("wrong-points", "the points are not those of the transform")
        if not made_of(raw, [v[1] for v in written.values()]):
            die("wrong-points", "the points of the nodes are mixed up in the result")
    if h.point_count != total:
        die("point-count", "the header says %d points instead of %d" % (h.point_count, total))
    mn, mx = (h.min.x, h.min.y, h.min.z), (h.max.x, h.max.y, h.max.z)
    if not c["minmax"]:
        if mn + mx != old_bounds:
            die("bounds", "bounds changed without being asked to: %s instead of %s" % (mn + mx, old_bounds))
    elif written:
        # of the points as they are stored
        rl = h.point_record_length
        for i, (k, f) in enumerate(((h.scale.x, h.offset.x), (h.scale.y, h.offset.y), (h.scale.z, h.offset.z))):
            vals = [struct.unpack_from("<i", v[1], at + 4 * i)[0] for v in written.values() for at in range(0, len(v[1]), rl)]
            lo, hi = min(vals) * k + f, max(vals) * k + f
            tol = 1e-6 * k + 1e-12 * max(abs(lo), abs(hi), abs(f))
            if abs(mn[i] - lo) > tol or abs(mx[i] - hi) > tol:
                die("bounds", "header bounds %s..%s, the points have %s..%s" % (mn[i], mx[i], lo, hi))
    elif any(a > b for a, b in zip(mn, mx)):
        die("bounds", "nothing was written, but the bounds are %s" % (mn + mx,))


def check_calls(plan, expect, calls, c, wanted, header):
    if not c["callback"]:
        return
    seen = {}
    nodestr = {name(n.key): str(n) for n in wanted}
    for k, n, comp, kw, s in calls:
        if k in seen:
            die("callback", "called twice for node %s" % k)
        seen[k] = 1
        if k not in expect:
            die("callback", "called for node %s, which was not selected" % k)
        if n != expect[k][0]:
            die("callback", "node %s reported with %d points instead of %d" % (k, n, expect[k][0]))
        if n and bytes(copc.DecompressBytes(copc.VectorChar(comp), header, n)) != expect[k][1]:
            die("callback", "node %s came with other compressed points" % k)
        if kw != (expect[k][3] or {}):
            die("callback", "node %s came with another node's return values" % k)
        if s != nodestr[k]:
            die("callback", "node %s arrived as %s" % (nodestr[k], s))
    if set(seen) != set(expect):
        die("callback", "not called for %s" % sorted(set(expect) - set(seen)))


def run_read(plan, world, d):
    src_path = os.path.join(d, "in.copc.laz")
    build_source(plan["src"], src_path)
    c = plan["call"]
    ref = copc.FileReader(src_path)
    wanted = selected(plan, ref)
    brk = c.get("break")
    mode = plan["mode"]
    fails = False
    expect = {}
    for n in wanted:
        pts = ref.GetPoints(n)
        if mode == "multi":
            acts = plan["spec"].get(name(n.key), plan["spec"]["*"])
            if failing(acts, c):
                fails = True
                continue
            expect[name(n.key)] = {"d": digest(pts.Pack(ref.copc_config.las_header)), "n": len(pts)}
        else:
            lim = c["limits"]
            xyz = [[p.x, p.y, p.z] for p in pts if not lim or p.classification in lim]
            expect[str(n.key)] = xyz
    prog = Progress() if c["progress"] else None
    kw = dict(progress=prog, chunk_size=c["chunk"], max_workers=0 if brk == "workers0" else c["workers"])
    calls = {}
    error = None
    result = None

    def callback(node, **k):
        if brk == "callback" and len(calls) == c["at"]:
            raise Stop("planned")
        if name(node.key) in calls:
            die("callback", "called twice for node %s" % name(node.key))
        calls[name(node.key)] = k

    arm_main(world, True)
    try:
        reader = copc.FileReader(src_path)
        sel = c["sel"]
        if sel["how"] == "list":
            kw["nodes"] = selected(plan, reader)
        elif sel["how"] == "res":
            kw["resolution"] = sel["res"]
        if brk == "both":
            kw["nodes"], kw["resolution"] = reader.GetAllNodes(), 0.5
        if brk == "gone":
            os.rename(src_path, src_path + ".moved")
        if brk == "invalid_node":
            if "nodes" not in kw:
                kw["nodes"] = wanted_nodes(kw, reader)
                kw.pop("resolution", None)
            kw["nodes"] = kw["nodes"] + [reader.FindNode(copc.VoxelKey(30, 5, 5, 5))]
        if mode == "multi":
            args = {"spec": plan["spec"]}
            if brk == "clash":
                args["points"] = 1
            if brk == "unpicklable_arg":
                args["odd"] = lambda: 0
            if c["callback"] or brk == "callback":
                kw["completed_callback"] = callback
            kw["read_function"], kw["read_function_args"] = simfuncs.read, args
            result = invoke(mp_read.read_multithreaded, [reader], kw, c.get("style", 0))
        elif mode == "concat":
            kw["classification_limits"] = c["limits"]
            result = invoke(mp_read.read_concat_xyz_class_limit, [reader], kw, c.get("style", 0))
        else:
            kw["classification_limits"] = c["limits"]
            result = invoke(mp_read.read_map_xyz_class_limit, [reader], kw, c.get("style", 0))
        world.note("returned")
    except Violation:
        raise
    except (Exception, SystemExit, KeyboardInterrupt) as e:
        error = e
        world.note("raised", type(e).__name__)
    finally:
        main_fired = simio.simio_fired()
        world.trace.update(struct.pack("<Q", simio.simio_trace()))
        arm_main(world, False)
    if main_fired:
        world.fired["main"] = main_fired
    if brk == "gone":
        os.rename(src_path + ".moved", src_path)
    disturbed = is_disturbed(plan, world)
    ntask = len(wanted)
    must_fail = fails or brk in ("both", "workers0", "invalid_node") or (brk in ("gone",) and ntask > 0)
    if mode == "multi" and ntask:
        must_fail = must_fail or brk in ("clash", "unpicklable_arg") or (brk == "callback" and c["at"] < ntask)
    if error is not None:
        if not must_fail and not disturbed:
            die("spurious-failure", "nothing failed, but the call raised %s: %s" % (type(error).__name__, str(error)[:200]))
        return bool(wanted)
    if must_fail:
        die("silent-failure", "a failing %s was not reported: the call returned normally" % (brk or "read function"))
    if mode == "multi":
        if (c["callback"] or brk == "callback") and calls != expect:
            die("wrong-points", "the callback saw %s instead of %s" % (sorted(calls), sorted(expect)) if set(calls) != set(expect)
                else "a node came back with something else")
    elif mode == "concat":
        want = sorted(tuple(p) for v in expect.values() for p in v)
        got = np.asarray(result)
        if len(got) != len(want):
            die("point-count", "%d points instead of %d" % (len(got), len(want)))
        if len(want) and (got.ndim != 2 or got.shape[1] != 3):
            die("wrong-points", "the result has shape %s" % (got.shape,))
        if sorted(tuple(float(x) for x in p) for p in got) != want:
            die("wrong-points", "the points are not those of a sequential read")
    else:
        want = {k: v for k, v in expect.items() if v}
        if set(result) != set(want):
            die("node-set", "missing %s, unexpected %s" % (sorted(set(want) - set(result)), sorted(set(result) - set(want))))
        for k, v in want.items():
            if np.asarray(result[k]).shape != (len(v), 3) or [[float(x) for x in p] for p in result[k]] != v:
                die("wrong-points", "node %s holds other points than a sequential read gives" % k)
    if prog is not None and (prog.n != ntask or (kw.get("nodes") is None and prog.total != ntask)):
        die("progress", "%d nodes, progress counted %d of %s" % (ntask, prog.n, prog.total))
    return bool(wanted)


def run_ship(plan, world, d):
    src_path, out_path = os.path.join(d, "in.copc.laz"), os.path.join(d, "out.laz")
    build_source(plan["src"], src_path)
    reader = copc.FileReader(src_path)
    nodes = reader.GetAllNodes()
    writer = None
    if not plan["src"].get("raw") or True:
        writer = make_writer(plan, reader, out_path)
        same = header_of(writer).point_format_id == plan["src"]["pf"]
        if same:
            for n in nodes[: plan["add"]]:
                if isinstance(writer, copc.FileWriter):
                    writer.AddNodeCompressed(n.key, reader.GetPointDataCompressed(n), n.point_count, n.page_key)
                else:
                    writer.WritePointsCompressed(reader.GetPointDataCompressed(n), n.point_count)
    vals = []
    for kind, s in plan["vals"]:
        r = random.Random(s)
        n = r.choice(nodes) if nodes else None
        if kind == "node":
            vals.append(n if n is not None else copc.Node())
        elif kind == "bignode":
            b = reader.FindNode(n.key) if n is not None else copc.Node()
            b.offset = r.choice([2 ** 31, 2 ** 32, 2 ** 32 + 5, 2 ** 40, 2 ** 63, 2 ** 64 - 1])
            b.byte_size = r.choice([b.byte_size, 0, -1, 2 ** 31 - 1, 40000, 2 ** 24])
            b.point_count = r.choice([b.point_count, 0, -1, 2 ** 31 - 1, 70000])
            if r.random() < 0.3:
                b.page_key = copc.VoxelKey(r.randint(-1, 31), r.getrandbits(31), r.getrandbits(20), r.getrandbits(31))
            vals.append(b)
        elif kind == "invalid":
            vals.append(reader.FindNode(copc.VoxelKey(20, 1, 2, 3)))
        elif kind == "key":
            vals.append(n.key if n is not None else copc.VoxelKey(r.randint(0, 30), r.getrandbits(31), r.getrandbits(31), r.getrandbits(31)))
        elif kind == "badkey":
            vals.append(r.choice([copc.VoxelKey(), copc.VoxelKey.InvalidKey(), copc.VoxelKey(-1, -2 ** 31, 2 ** 31 - 1, 0)]))
        elif kind == "page":
            vals.append(n.page_key if n is not None else copc.VoxelKey.RootKey())
        elif kind == "header":
            vals.append(reader.copc_config.las_header)
        elif kind == "whead":
            vals.append(header_of(writer) if writer is not None else reader.copc_config.las_header)
        elif kind == "vector":
            f = [0.0, -0.0, 1e308, float("inf"), float("nan"), 5e-324, 0.1, r.uniform(-1e9, 1e9)]
            vals.append(r.choice([copc.Vector3(r.choice(f), r.choice(f), r.choice(f)), reader.copc_config.las_header.min,
                                  reader.copc_config.las_header.scale]))
        elif kind == "bytes":
            vals.append(r.choice([reader.GetPointDataCompressed(n), reader.GetPointData(n)] if n is not None else [copc.VectorChar()]))
        elif kind == "nodes":
            vals.append(list(nodes[:5]))
        elif kind == "dict":
            vals.append({"n": n.key if n is not None else copc.VoxelKey(0, 0, 0, 0), "h": reader.copc_config.las_header, "l": [copc.Vector3(1, 2, 3)]})
    before = [attrs(v) for v in vals]
    used = [use_all(reader, v) for v in vals]
    world.note("sent", digest(repr(before).encode()))
    pool = sched.SimPool(max_workers=plan["call"]["workers"], initializer=simfuncs.ship_init, initargs=(src_path,))
    with pool:
        cur = list(vals)
        for hop in range(plan["hops"]):
            futs = {pool.submit(simfuncs.ship, v, 0): i for i, v in enumerate(cur)}
            nxt = list(cur)
            for f in sched.as_completed(list(futs)):
                i = futs[f]
                try:
                    a, u, o = f.result()
                except Exception as e:
                    die("cannot-ship", "a %s cannot be sent to another process: %s: %s" % (plan["vals"][i][0], type(e).__name__, str(e)[:160]))
                if a != before[i]:
                    die("changed", "a %s arrived different on hop %d: %s" % (plan["vals"][i][0], hop + 1, diff(before[i], a)))
                if u != used[i]:
                    die("unusable", "a %s works differently after hop %d: %s" % (plan["vals"][i][0], hop + 1, diff(used[i], u)))
                if attrs(o) != before[i]:
                    die("changed", "a %s came back different: %s" % (plan["vals"][i][0], diff(before[i], attrs(o))))
                nxt[i] = o
            cur = nxt
    for v, o, k in zip(vals, cur, plan["vals"]):
        if attrs(v) != attrs(o) or use_all(reader, o) != use_all(reader, v):
            die("changed", "a %s came back different" % k[0])
        if isinstance(v, (copc.VoxelKey, copc.Vector3)) and "nan" not in str(v) and not v == o:
            die("changed", "a %s came back unequal" % k[0])
    return True


def diff(a, b):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y) if isinstance(x, list) and isinstance(y, list) and len(x) == len(y) else "%s instead of %s" % (str(y)[:120], str(x)[:120])
    return "%s instead of %s" % (str(b)[:160], str(a)[:160])


def execute(plan, d):
    """one simulated execution; returns its outcome as plain data"""
    outs = []
    for q in plan.get("prior", []):
        # calls made earlier by the same process, with files of the same names; those of another property are judged elsewhere
        o = execute_one(dict(q, verbose=plan.get("verbose")), d)
        outs.append(o)
        if o["kind"] and (q["prop"] == plan["prop"] or o["kind"] in ("hang", "crash")):
            o["text"] = "in an earlier call: " + o["text"]
            break
        o["kind"] = None
        simfuncs.STATE = None
    else:
        outs.append(execute_one(plan, d))
    out = outs[-1]
    for o in outs[:-1]:
        for k in ("steps", "switches", "tasks"):
            out[k] += o[k]
        for k in ("fired", "events"):
            for n, v in o[k].items():
                out[k][n] = out[k].get(n, 0) + v
        for k in ("trace", "inter"):
            out[k] = hashlib.sha256((o[k] + out[k]).encode()).hexdigest()[:len(out[k])]
        out["log"] = (o["log"] or []) + ["-- next call"] + (out["log"] or []) if out["log"] is not None else None
    return out


def execute_one(plan, d):
    world = World(plan)
    World.cur = world
    simio.simio_watch((d + "/").encode())
    arm_main(world, False)
    out = {"kind": None, "text": "", "nontrivial": False}
    try:
        if plan["mode"] == "transform":
            out["nontrivial"] = run_transform(plan, world, d)
        elif plan["mode"] == "ship":
            out["nontrivial"] = run_ship(plan, world, d)
        else:
            out["nontrivial"] = run_read(plan, world, d)
    except Violation as v:
        out["kind"], out["text"] = v.kind, v.text
    except sched.Hang as h:
        out["kind"], out["text"] = "hang", str(h)
    except (OSError, MemoryError):
        raise
    except Exception as e:
        # the library failed on legal input outside the call under test, or answered with something that is no answer
        import traceback
        f = traceback.extract_tb(e.__traceback__)[-1]
        out["kind"], out["text"] = "unexpected-error", "%s: %s (%s)" % (type(e).__name__, str(e)[:200], f.name)
    finally:
        simio.simio_on(0)
        for p in list(world.pools):
            p.finish()
    world.note("end", out["kind"], out["text"])
    out.update(trace=world.trace.hexdigest(), inter=world.inter.hexdigest()[:16], steps=world.steps, fired=world.fired, switches=world.switches,
               events=world.counts, tasks=world.ntask, used=world.pos, log=world.log)
    return out
