"""The functions a user hands to the multiprocessing helpers, as the simulated runs use them: importable by name, so that
they can be shipped to workers, and steered by plain data."""
import hashlib

import copclib as copc
import numpy as np

STATE = None


def name(key):
    return "%d-%d-%d-%d" % (key.d, key.x, key.y, key.z)


class Odd(Exception):
    """an exception that cannot be rebuilt on the other side"""

    def __init__(self, a, b):
        super().__init__("odd")
        self.a, self.b = a, b


class Unreadable:
    """arrives as bytes that cannot be turned back into an object"""

    def __reduce__(self):
        return (_explode, ())


def _explode():
    raise ValueError("cannot be rebuilt")


def _fine():
    return 0


def init_fn(value, fail=False):
    global STATE
    if fail:
        raise RuntimeError("initialiser failed")
    STATE = value


def init_plain():
    global STATE
    STATE = 3.0


def digest(b):
    return hashlib.sha256(bytes(b)).hexdigest()[:16]


def copy_points(points, header):
    out = copc.Points(header)
    for p in points:
        q = out.CreatePoint()
        for a in ("x", "y", "z", "intensity", "returns_bit_field", "flags_bit_field", "classification", "scan_angle", "user_data",
                  "point_source_id", "gps_time"):
            setattr(q, a, getattr(p, a))
        out.AddPoint(q)
    return out


LENGTH = {6: 30, 7: 36, 8: 38}


def transform(points, node, writer_header, reader, spec, **kwargs):
    acts = spec.get(name(node.key), spec.get("*", []))
    ret = None
    for a in acts:
        k = a[0]
        if k == "shift":
            if len(points):
                xyz = np.stack([points.x, points.y, points.z], axis=1) + np.array(a[1:4], dtype=float)
                points.x, points.y, points.z = xyz[:, 0], xyz[:, 1], xyz[:, 2]
        elif k == "class":
            points.classification = [a[1]] * len(points)
        elif k == "each":
            for i, p in enumerate(points):
                p.intensity = (i * 7 + a[1]) % 65536
                p.user_data = (i + a[1]) % 256
        elif k == "keep":
            kept = [p for i, p in enumerate(points) if i % a[1] == a[2] % a[1]]
            points = copc.Points(kept) if kept else copc.Points(points.point_format_id, points.eb_byte_size)
        elif k == "slice":
            points = points[a[1]::a[2]]
        elif k == "within":
            c = [points.x[0], points.y[0], points.z[0]] if len(points) else [0, 0, 0]
            points = copc.Points(points.GetWithin(copc.Box(c[0] - a[1], c[1] - a[1], c[2] - a[1], c[0] + a[1], c[1] + a[1], c[2] + a[1])) or
                                 []) if len(points) else points
        elif k == "twice":
            points.AddPoints(points[:])
        elif k == "reverse":
            points = points[::1]
            ps = [p for p in points]
            points = copc.Points(ps[::-1]) if ps else points
        elif k == "empty":
            points = copc.Points(writer_header)
        elif k == "rebuild":
            points = copy_points(points, writer_header)
        elif k == "format":
            points.ToPointFormat(writer_header.point_format_id)
        elif k == "other":  # look at another node on the way
            n = reader.FindNode(copc.VoxelKey(*a[1]))
            if n.IsValid():
                len(reader.GetPoints(n))
        elif k == "state":
            s = STATE
            if len(points):
                points.x = [x + s for x in points.x]
        elif k == "ret":
            ret = {"k": name(node.key), "n": len(points), "extra": list(range(a[1]))}
        elif k == "bigret":
            ret = {"k": name(node.key), "n": len(points), "extra": b"x" * a[1]}
        elif k == "raise":
            raise {0: ValueError, 1: RuntimeError, 2: KeyError, 3: MemoryError, 4: AssertionError, 5: StopIteration}[a[1] % 6]("planned")
        elif k == "raise_odd":
            raise Odd(1, 2)
        elif k == "raise_local":
            class Local(Exception):
                pass
            raise Local("planned")
        elif k == "exit":
            raise SystemExit(3)
        elif k == "interrupt":
            raise KeyboardInterrupt()
        elif k == "give_none":
            return None
        elif k == "give_list":
            return [p for p in points]
        elif k == "give_tuple3":
            return points, {}, 1
        elif k == "give_notdict":
            return points, [1]
        elif k == "give_unpicklable":
            return points, {"k": lambda: 0}
        elif k == "give_unreadable":
            return points, {"k": Unreadable()}
        elif k == "give_clash":
            return points, {"node": 1}
        elif k == "mix_format":
            points.ToPointFormat({6: 7, 7: 8, 8: 6}[points.point_format_id])
        elif k == "mix_length":
            q = copc.Points(points.point_format_id, points.eb_byte_size + a[1])
            for p in points:
                q.AddPoint(q.CreatePoint())
            points = q
        elif k == "mix_same":  # another format whose records are just as long
            f, e = points.point_format_id, points.eb_byte_size
            g = {6: 7 if e >= 6 else 8, 7: 6, 8: 6}[f]
            q = copc.Points(g, max(0, e + LENGTH[f] - LENGTH[g]))
            for p in points:
                q.AddPoint(q.CreatePoint())
            points = q
    return points if ret is None else (points, ret)


FAILING = {"raise", "raise_odd", "raise_local", "exit", "interrupt", "give_none", "give_list", "give_tuple3", "give_notdict",
           "give_unpicklable", "give_unreadable", "give_clash"}


def read(points, node, reader, spec, **kwargs):
    acts = spec.get(name(node.key), spec.get("*", []))
    for a in acts:
        k = a[0]
        if k == "other":
            n = reader.FindNode(copc.VoxelKey(*a[1]))
            if n.IsValid():
                len(reader.GetPoints(n))
        elif k == "raise":
            raise {0: ValueError, 1: RuntimeError, 2: KeyError, 3: MemoryError, 4: AssertionError, 5: StopIteration}[a[1] % 6]("planned")
        elif k == "raise_odd":
            raise Odd(1, 2)
        elif k == "raise_local":
            class Local(Exception):
                pass
            raise Local("planned")
        elif k == "exit":
            raise SystemExit(3)
        elif k == "interrupt":
            raise KeyboardInterrupt()
        elif k == "give_none":
            return None
        elif k in ("give_list", "give_notdict", "give_tuple3"):
            return [1]
        elif k == "give_unpicklable":
            return {"d": lambda: 0}
        elif k == "give_unreadable":
            return {"d": Unreadable()}
        elif k == "give_clash":
            return {"node": 1}
    return {"d": digest(points.Pack(reader.copc_config.las_header)), "n": len(points)}


# ---- shipping
def attrs(o):
    """everything a holder of the object can see"""
    import struct

    def val(v, depth=0):
        if isinstance(v, float):
            return struct.pack("<d", v).hex()
        if isinstance(v, (list, tuple)):
            return [val(x, depth + 1) for x in v]
        if isinstance(v, (int, str, bytes, bool, type(None))):
            return repr(v)
        return attrs(v) if depth < 4 else str(v)

    if isinstance(o, copc.VectorChar):
        return ["VectorChar", digest(bytes(o)), len(o)]
    if isinstance(o, (list, tuple)):
        return [attrs(x) for x in o]
    if isinstance(o, dict):
        return {k: attrs(v) for k, v in o.items()}
    if isinstance(o, (int, float, str, bytes)):
        return val(o)
    out = [type(o).__name__]
    for a in dir(type(o)):
        if a.startswith("_") or a in ("max_box",):
            continue
        try:
            v = getattr(o, a)
        except Exception as e:
            out.append([a, "raises " + type(e).__name__])
            continue
        if callable(v):
            if a in ("IsValid", "IsPage", "EbByteSize", "Span", "Bounds", "GetParent", "GetChildren"):
                try:
                    r = v()
                    out.append([a, str(r) if not isinstance(r, (list, float)) else val(r) if isinstance(r, float) else [str(x) for x in r]])
                except Exception as e:
                    out.append([a, "raises " + type(e).__name__])
            continue
        out.append([a, val(v)])
    try:
        out.append(str(o))
    except Exception as e:
        out.append("raises " + type(e).__name__)
    try:
        out.append(hash(o) if type(o).__name__ == "VoxelKey" else 0)
    except Exception as e:
        out.append("raises " + type(e).__name__)
    return out


def use(reader, o):
    """the object put to use, with this process's own reader"""
    if isinstance(o, copc.Node):
        try:
            f = reader.FindNode(o.key)
            return [digest(reader.GetPointData(o)), digest(reader.GetPointDataCompressed(o)), len(reader.GetPoints(o)), str(f), f.key == o.key]
        except Exception as e:
            return ["raises " + type(e).__name__]
    if isinstance(o, copc.VoxelKey):
        n = reader.FindNode(o)
        return [str(n), n.IsValid(), digest(reader.GetPointData(o)) if n.IsValid() and not n.IsPage() else 0,
                o == copc.VoxelKey(o.d, o.x, o.y, o.z), copc.VoxelKey(o.d, o.x, o.y, o.z) in {o: 1}]
    if isinstance(o, copc.LasHeader):
        p = copc.Points(o)
        q = p.CreatePoint()
        q.x, q.y, q.z = o.offset.x, o.offset.y, o.offset.z
        p.AddPoint(q)
        raw = p.Pack(o)
        comp = copc.CompressBytes(raw, o)
        back = copc.DecompressBytes(comp, o, 1)
        return [digest(raw), digest(comp), digest(back), len(copc.Points.Unpack(back, o)) if hasattr(copc.Points, "Unpack") else 0,
                o.ApplyScaleX(7), o.RemoveScaleX(1.5), str(copc.VoxelKey(0, 0, 0, 0).Intersects(o, copc.Box(0, 0, 0, 1, 1, 1)))]
    if isinstance(o, copc.VectorChar):
        return [len(o), digest(bytes(o)), o == copc.VectorChar(bytes(o)) if len(o) else True]
    if isinstance(o, copc.Vector3):
        return [o == copc.Vector3(o.x, o.y, o.z), str(o + copc.Vector3(1, 2, 3))]
    return []


class Ship:
    reader = None


def ship_init(path):
    Ship.reader = copc.FileReader(path)


def ship(obj, mutate):
    """runs in the worker: what arrived, what it does there, and the object itself back"""
    a, u = attrs(obj), use_all(Ship.reader, obj)
    return a, u, obj


def use_all(reader, o):
    if isinstance(o, (list, tuple)):
        return [use_all(reader, x) for x in o]
    if isinstance(o, dict):
        return {k: use_all(reader, v) for k, v in o.items()}
    return use(reader, o)
