"""C09: loading a map from a stream is all or nothing."""

import io
import json
import math

import numpy as np

from .. import core, lib
from .. import sim as simmod
from ..core import Violation

RUNS = {"quick": 3000, "thorough": 60000}


def CLEAR(plan):
    return plan["mode"] == "jit"


RULE = (
    "1-3 loader threads load random documents (polygons with holes, other geometries, missing geometries, padding up to "
    "300 kB, several encodings) as text, bytes or simulated streams; streams fail, are cut short, or deliver damaged "
    "bytes; two loaders may race on one stream; asynchronous interrupts inside the loader; each failed load is followed "
    "by a load from a fresh stream. Non-trivial: a fault fired or control changed hands inside a load."
)
REAL = ["differt2d.scene.from_geojson", "differt2d.geometry/abc (walls, bounding boxes)", "json", "JAX"]
STUB = ["streams (simulated readers)", "thread scheduling"]
LOCS = ["N", "E", "S", "W", "C", "NE", "NW", "SE", "SW"]


def r_num(rng):
    k = rng.random()
    if k < 0.3:
        return rng.randrange(-20, 21)
    if k < 0.8:
        return rng.randrange(-640, 641) / 32.0
    return round(rng.uniform(-5, 60), 7)


def r_ring(rng, closed=True):
    n = rng.choice([1, 2, 3, 3, 4, 4, 5, 7]) if rng.random() < 0.99 else rng.choice([17, 40, 65, 130])
    r = [[r_num(rng), r_num(rng)] for _ in range(n)]
    if closed and rng.random() < 0.8:
        r.append(list(r[0]))
    return r


def r_geometry(rng):
    k = rng.random()
    if k < 0.5:
        rings = [r_ring(rng)]
        while rng.random() < 0.3:
            rings.append(r_ring(rng))
        return {"type": "Polygon", "coordinates": rings}
    t = rng.choice(["Point", "LineString", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection",
                    "Point0", "Empty"])
    if t == "Point":
        return {"type": "Point", "coordinates": [r_num(rng), r_num(rng)]}
    if t == "Point0":
        return {"type": "Point", "coordinates": []}
    if t == "Empty":
        return {"type": rng.choice(["LineString", "MultiPolygon", "MultiPoint"]), "coordinates": []}
    if t in ("LineString", "MultiPoint"):
        return {"type": t, "coordinates": r_ring(rng, False)}
    if t == "MultiLineString":
        return {"type": t, "coordinates": [r_ring(rng, False), r_ring(rng, False)]}
    if t == "MultiPolygon":
        return {"type": t, "coordinates": [[r_ring(rng)], [r_ring(rng), r_ring(rng)]]}
    return {"type": t, "geometries": [{"type": "Point", "coordinates": [0, 1]},
                                      {"type": "Polygon", "coordinates": [r_ring(rng)]}]}


def r_doc(rng):
    feats = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4]) if rng.random() < 0.985 else rng.choice([12, 33, 70])):
        f = {"type": "Feature"}
        if rng.random() < 0.5:
            f["properties"] = {"name": rng.choice(["é", "b\u00e2timent", "\U0001f3e0", "x\"y\\", "a\nb", "type"]),
                               "geometry": rng.choice([None, 3, {"type": "Polygon"}])}
        k = rng.random()
        if k < 0.85:
            f["geometry"] = r_geometry(rng)
        elif k < 0.93:
            f["geometry"] = None
        if rng.random() < 0.3:
            f["id"] = rng.randrange(99)
        feats.append(f)
    d = {"type": "FeatureCollection"}
    if rng.random() < 0.4:
        d["generator"] = "g"
    if rng.random() < 0.95 or feats:
        d["features"] = feats
    if rng.random() < 0.3:
        d["features"] = d.pop("features", [])
    return d


FORMS = ["str", "bytes", "bytearray", "StringIO", "BytesIO", "text", "binary", "text", "binary", "minimal", "raw",
         "buffered", "wrapper", "bytearrays"]
SOURCES = ("text", "binary", "minimal", "raw", "buffered", "wrapper", "bytearrays")


def r_load(rng, tier):
    ld = {"doc": r_doc(rng), "form": rng.choice(FORMS), "loc": [rng.choice(LOCS), rng.choice(LOCS)],
          "how": rng.choice(["pos", "kw", "default", "mixed"]),
          "enc": rng.choice(["utf-8", "utf-8", "utf-8", "utf-8-sig", "utf-16", "utf-32-be"]),
          "ascii": rng.random() < 0.5, "indent": rng.choice([None, None, 1]),
          "skip": rng.random() < 0.25,
          "pad": rng.choice([0, 0, 0, 50, 5000, 70000, 300000]), "padpos": rng.choice(["head", "tail", "space"])}
    k = rng.random()
    if k < 0.5:
        f = rng.choice(["truncate", "flip", "flip", "drop", "insert", "error", "error", "interrupt", "interrupt", "empty",
                        "dup"])
        ld["fault"] = {"kind": f, "at": rng.random(), "bit": rng.randrange(8), "byte": rng.randrange(256),
                       "exc": rng.choice(simmod.IO_FAILURES)}
        if f == "interrupt":
            ld["fault"]["at"] = core.r_interrupt(rng, 400)["at"]
    return ld


def gen(rng, tier):
    n = rng.choice([1, 1, 2, 2, 3])
    actors = [[r_load(rng, tier) for _ in range(rng.choice([1, 2]))] for _ in range(n)]
    plan = {"actors": actors, "sched": core.r_sched(rng, n), "mode": "jit" if rng.random() < 0.04 else "eager"}
    if n > 1 and rng.random() < 0.3:
        plan["race"] = r_load(rng, tier)
        plan["race"].pop("fault", None)
        if plan["race"]["form"] in ("str", "bytes", "bytearray", "buffered", "wrapper"):
            plan["race"]["form"] = "text"
    return plan


def encode(ld):
    """The text and bytes of a document."""
    d = ld["doc"]
    if ld["pad"] and ld["padpos"] == "head":
        d = {"pad": "x" * ld["pad"], **d}
    elif ld["pad"] and ld["padpos"] == "tail":
        d = {**d, "pad": "x" * ld["pad"]}
    s = json.dumps(d, ensure_ascii=ld["ascii"], indent=ld["indent"])
    if ld["pad"] and ld["padpos"] == "space":
        s = s.replace("{", "{" + " " * ld["pad"], 1)
    return s


TEXT = ("str", "StringIO", "text")


def damaged(data, f):
    """What a faulty source delivers instead of ``data`` (text or bytes)."""
    n = len(data)
    i = min(int(f["at"] * n), max(n - 1, 0))
    k = f["kind"]
    if k == "truncate":
        return data[:i]
    if k == "empty":
        return data[:0]
    if n == 0:
        return data
    if isinstance(data, str):
        c = chr((ord(data[i]) ^ (1 << f["bit"])) & 0x7F or 0x41)
        new = chr(f["byte"] or 65)
    else:
        c = bytes([data[i] ^ (1 << f["bit"])])
        new = bytes([f["byte"]])
    if k == "flip":
        return data[:i] + c + data[i + 1 :]
    if k == "drop":
        return data[:i] + data[i + 1 :]
    if k == "insert":
        return data[:i] + new + data[i:]
    if k == "dup":
        return data + data[i:]
    return data


class Source:
    """A simulated stream.  Records who reads, what and whether it is closed."""

    def __init__(self, sim, data, error=None):
        self.sim, self.data, self.error = sim, data, error
        self.pos = 0
        self.closed = False
        self.readers = set()
        self.nreads = 0
        self.name = "map.geojson"  # every map comes from a file of the same name

    def _read(self, size=-1):
        a = simmod._ACTORS.get(simmod._get_ident())
        self.readers.add(a.idx if a else None)
        self.nreads += 1
        self.sim.point("read")
        if self.error is not None and (size is None or size < 0 or self.pos >= self.error[1]):
            e = simmod.make_exc(self.error[0])
            self.sim.count("read error:" + self.error[0])
            raise e
        rest = len(self.data) - self.pos
        n = rest if size is None or size < 0 else min(size, rest)
        if size is not None and size > 1 and n > 1:
            n = max(1, n - n // 3)  # short reads are legal when a size is given
        r = self.data[self.pos : self.pos + n]
        self.pos += n
        self.sim.point("read done")
        return r

    def read(self, size=-1):
        return self._read(size)

    def close(self):
        self.closed = True

    def readable(self):
        return True


class Minimal:
    """Only what the protocol requires."""

    def __init__(self, src):
        self._src = src

    def read(self):
        return self._src._read(-1)

    def close(self):
        self._src.close()


class ByteArrays(Minimal):
    """Delivers bytearrays."""

    def read(self):
        return bytearray(self._src._read(-1))


class Raw(io.RawIOBase):
    def __init__(self, src):
        super().__init__()
        self._src = src

    def readable(self):
        return True

    def readinto(self, b):
        d = self._src._read(min(len(b), 8192) or 1)
        b[: len(d)] = d
        return len(d)

    def readall(self):
        out = []
        while True:
            d = self._src._read(65536)
            if not d:
                return b"".join(out)
            out.append(bytes(d))

    def close(self):
        self._src.close()


def make_source(sim, ld, data, rec):
    """The object handed to the library and a handle to inspect it."""
    form = ld["form"]
    f = ld.get("fault") or {}
    err = None
    if f.get("kind") == "error" and form in SOURCES:
        err = (f["exc"], int(f["at"] * len(data)))
    if form == "str":
        return data, None
    if form == "bytes":
        return data, None
    if form == "bytearray":
        return bytearray(data), None
    # the caller may have read a header before
    head = '{"a": 1}\n' if ld.get("skip") else ""
    if form == "StringIO":
        s = io.StringIO(head + data, newline="")
        s.seek(len(head))
        return s, s
    if form == "BytesIO":
        s = io.BytesIO(head.encode() + data)
        s.seek(len(head))
        return s, s
    src = Source(sim, data, err)
    if form == "buffered":
        return io.BufferedReader(Raw(src)), src
    if form == "wrapper":
        return io.TextIOWrapper(io.BufferedReader(Raw(src)), encoding=ld["enc"], newline=""), src
    if form == "bytearrays":
        return ByteArrays(src), src
    if form == "minimal":
        return Minimal(src), src
    if form == "raw":
        return Raw(src), src
    return src, src


SPEC = object()


def meaning(data, ld=None):
    """('walls', rings) | ('raise',) | ('any',): what the delivered data must give."""
    try:
        if ld is not None and ld["form"] == "wrapper":
            data = data.decode(ld["enc"])
        d = json.loads(data)
    except (ValueError, RecursionError):
        return ("raise",)
    if not isinstance(d, dict):
        return ("any",)
    feats = d.get("features", [])
    if not isinstance(feats, list):
        return ("any",)
    rings = []
    for f in feats:
        if not isinstance(f, dict):
            return ("any",)
        g = f.get("geometry")
        if g is None:
            continue
        if not isinstance(g, dict) or not g or not isinstance(g.get("type"), str):
            return ("any",)
        if g["type"] != "Polygon":
            if g["type"] not in ("Point", "LineString", "MultiPoint", "MultiLineString", "MultiPolygon",
                                 "GeometryCollection"):
                return ("any",)
            if g["type"] != "GeometryCollection" and not isinstance(g.get("coordinates"), list):
                return ("any",)
            continue
        c = g.get("coordinates")
        if not isinstance(c, list) or not c or not isinstance(c[0], list) or not c[0]:
            return ("any",)
        for q in c[0]:
            if not isinstance(q, list) or len(q) != 2:
                return ("any",)
            for v in q:
                if isinstance(v, bool) or not isinstance(v, (int, float)) or not math.isfinite(v) or abs(v) > 1e30:
                    return ("any",)
                if isinstance(v, int) and abs(v) > 2**31:
                    return ("any",)
        rings.append(c[0])
    return ("walls", rings)


def execute(plan, rec):
    sim = rec.sim()
    S = lib.S
    mode = plan["mode"]

    def data_of(ld):
        s = encode(ld)
        text = ld["form"] in TEXT or (ld["form"] == "minimal" and ld["ascii"])
        return s if text else s.encode(ld["enc"])

    race = None
    if "race" in plan:
        ld = plan["race"]
        d = data_of(ld)
        obj, h = make_source(sim, ld, d, rec)
        race = (ld, d, obj, h)
    raced = []

    def call(ld, obj):
        a, b = ld["loc"]
        if ld["how"] == "default":
            return S.Scene.from_geojson(obj), ["NW", "SE"]
        if ld["how"] == "kw":
            return S.Scene.from_geojson(obj, tx_loc=a, rx_loc=b), [a, b]
        if ld["how"] == "mixed":
            return S.Scene.from_geojson(obj, a, rx_loc=b), [a, b]
        return S.Scene.from_geojson(obj, a, b), [a, b]

    def load(a, ld, obj, fault=None):
        """('scene', spec, loc) or ('raised', exception)."""
        try:
            with lib.mode_ctx(mode), core.op(sim, a, mode, fault):
                s, loc = call(ld, obj)
        except simmod.SimAbort:
            raise
        except BaseException as e:
            rec.result(e)
            return ("raised", e)
        spec = lib.spec_of_scene(s)
        rec.result(spec)
        return ("scene", spec, loc)

    def judge(what, res, m, may_fail=None):
        if res[0] == "raised":
            e = res[1]
            if may_fail is not None and simmod.is_injected(e):
                return
            if m[0] == "walls":
                raise Violation("load-failed", f"{what}: raised {type(e).__name__}: {str(e)[:300]}")
            return
        if may_fail == "must":
            raise Violation("failure-hidden", f"{what}: a scene was returned although the source failed")
        if m[0] == "raise":
            raise Violation("damaged-accepted", f"{what}: damaged data that is not a document gave a scene {lib.show(res[1], 300)}")
        if m[0] == "walls":
            try:
                lib.check_geojson(m[1], res[2], res[1])
            except lib.Bad as e:
                raise Violation("wrong-scene", f"{what}: {e}") from None

    def inspect(what, a, ld, h):
        if h is None:
            return
        if h.closed:
            raise Violation("stream-closed", f"{what}: the loader closed the stream")
        if isinstance(h, Source) and not h.readers <= {a.idx}:
            raise Violation("stream-shared", f"{what}: the stream was read by {h.readers}")

    def main(a, loads):
        for ld in loads:
            what = f"actor {a.idx}: {ld['form']}"
            clean = data_of(ld)
            f = ld.get("fault")
            data, fault, may = clean, None, None
            if f is not None:
                if f["kind"] == "interrupt":
                    fault, may = f, "may"
                elif f["kind"] == "error":
                    if ld["form"] in SOURCES:
                        may = "must"
                else:
                    data = damaged(clean, f)
                    if data != clean:
                        sim.count("source " + f["kind"])
            obj, h = make_source(sim, ld, data, rec)
            before = bytes(obj) if isinstance(obj, bytearray) else None
            m = meaning(data, ld)
            rec.probe("meaning " + m[0])
            res = load(a, ld, obj, fault)
            if may == "must" and isinstance(h, Source) and h.error and h.error[1] >= len(data) and h.nreads > 1:
                may = "may"
            judge(what, res, m, may)
            inspect(what, a, ld, h)
            if before is not None and bytes(obj) != before:
                raise Violation("input-changed", f"{what}: the caller's buffer was modified")
            if f is not None or sim.rng is None:
                # once the fault is over, a fresh stream must load
                obj, h = make_source(sim, {**ld, "fault": None}, clean, rec)
                res = load(a, ld, obj)
                judge(what + " again", res, meaning(clean, ld))
                inspect(what + " again", a, ld, h)
                rec.probe("reloaded after a fault")
        if race is not None and a.idx < 2:
            ld, d, obj, h = race
            res = load(a, ld, obj)
            raced.append(res[0])
            m = meaning(d, ld)
            if res[0] == "scene":
                judge(f"actor {a.idx}: racing", res, m)
            if h.closed:
                raise Violation("stream-closed", "racing: the loader closed the stream")

    for i, loads in enumerate(plan["actors"]):
        sim.actor(f"loader{i}", lambda a, loads=loads: main(a, loads))
    core.run_sim(sim, rec)
    if race is not None:
        rec.probe("race: " + "+".join(sorted(raced)))
        if race[0]["form"] in ("StringIO", "BytesIO", "text", "binary", "minimal") and meaning(race[1], race[0])[0] == "walls" \
                and raced.count("scene") == 0 and getattr(race[3], "nreads", 2) <= 2:
            raise Violation("load-failed", "racing: neither loader of an intact stream got the document")


def shrink(plan):
    if "race" in plan:
        q = json.loads(json.dumps(plan))
        del q["race"]
        yield q
    yield from core.generic_shrink(plan)
    for i, a in enumerate(plan["actors"]):
        for j, ld in enumerate(a):
            yield from core.shrink_lists(plan, ["actors", i, j, "doc", "features"]) if ld["doc"].get("features") else ()
            for k, v in (("pad", 0), ("form", "str"), ("form", "StringIO"), ("enc", "utf-8"), ("ascii", True)):
                if ld[k] != v:
                    q = json.loads(json.dumps(plan))
                    q["actors"][i][j][k] = v
                    yield q


assert np
