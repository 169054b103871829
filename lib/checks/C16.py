"""Hostile counts and lengths cannot make a conversion run away."""
import gc
import itertools
import struct
import sys
import time
import tracemalloc

from checks import C06, common
from checks.common import seed_of
from pwref import codec, core, gen
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one reading whose calls and memory are metered (every call the interpreter makes, peak of all allocations) against "
    "budgets proportional to the input; distinct by input"
)
ASSUMES = [
    "budget: 300000 + 300 per byte calls, 6 MB + 3000 bytes per byte of input; the ordinary reading of a save takes less than a tenth of it",
    "property names have ordinary length (the tool builds the path of every property from the names around it)",
    "a reading that takes over 60 s of its own is counted as run away",
]
MEMORY = 2 << 30


def units(tier, seed):
    q = tier == "quick"
    out = []
    for n in range(16 if q else 64):
        c = ["fast", "std", "sys"][n % 3]
        out.append({"kind": "marks", "n": n, "docs": 26 if q else 250, "config": c})
    for n in range(4 if q else 16):
        out.append({"kind": "damaged", "n": n, "cases": 900 if q else 12000})
    out.append({"kind": "container", "n": 0, "cases": 1200 if q else 20000})
    for n in range(4):
        out.append({"kind": "growth", "n": n, "config": ["fast", "std"][n % 2]})
    for n in range(8):
        out.append({"kind": "blockgrowth", "n": n, "of": 8, "config": ["fast", "std", "sys"][n % 3]})
    out.append({"kind": "nesting", "n": 0})
    return out


class RanAway(BaseException):
    pass


class Meter:
    """Counts every call made while active and stops the reading when there are too many."""

    def __init__(self, calls):
        self.limit, self.calls = calls, 0

    def __enter__(self):
        def hook(frame, event, arg):
            if event == "call" or event == "c_call":
                self.calls += 1
                if self.calls > self.limit:
                    sys.setprofile(None)
                    raise RanAway()

        tracemalloc.reset_peak()
        self.base = tracemalloc.get_traced_memory()[0]
        sys.setprofile(hook)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)
        self.peak = tracemalloc.get_traced_memory()[1] - self.base


def metered(m, what, size, f, data):
    """Run f; its work and memory must stay within the budget."""
    if not tracemalloc.is_tracing():
        tracemalloc.start(1)
    meter = Meter(300000 + 300 * size)
    began = time.process_time()
    m.seen(data[:100000])
    why = None
    try:
        with meter:
            f()
        m.count("read")
    except RanAway:
        why = "more than %d calls" % meter.limit
    except MemoryError:
        why = "runs out of memory"
    except RecursionError:
        m.count("refused_for_nesting")
    except Exception:
        m.count("refused")
    m.count("calls", meter.calls)
    if not why and meter.peak > 6e6 + 3000 * size:
        why = "allocates %d bytes" % meter.peak
    t = time.process_time() - began
    if not why and t > 60:
        why = "takes %d s" % t
    if why:
        m.fail("%s: reading %d bytes %s" % (what, size, why), {"input": data if len(data) < 200000 else None})
    return meter


HOSTILE32 = [0x7FFFFFFF, 0xFFFFFFFF, 0x80000000, 0x80000001, 0x10000000, 1 << 20, 1 << 24, 100000000, 0x40000000, 0xFFFF, 65536]


def hostile(r, raw, marks):
    """(what, bytes) with declared counts and lengths overwritten."""
    for kind, at, n in marks:
        if kind in ("count", "strlen", "bytecount", "u32", "vercount"):
            for v in r.sample(HOSTILE32, 3 if kind == "strlen" else 6):
                b = bytearray(raw)
                b[at : at + 4] = struct.pack("<I", v)
                yield "%s %#x" % (kind, v), bytes(b)
                if kind == "bytecount":
                    # with the size of the property to match
                    for k2, a2, n2 in marks:
                        if k2 == "size" and a2 < at:
                            last = a2
                    b[last : last + 8] = struct.pack("<Q", v + 4)
                    yield "%s %#x and size" % (kind, v), bytes(b)
        elif kind == "size":
            for v in r.sample([1 << 63, (1 << 64) - 1, 1 << 31, 0xFFFFFFFF, 1 << 40, 0x7FFFFFFFFFFFFFFF, 0], 2):
                b = bytearray(raw)
                b[at : at + 8] = struct.pack("<Q", v)
                yield "size %#x" % v, bytes(b)
        elif kind in ("int", "flag") and n >= 4 and r.random() < 0.3:
            b = bytearray(raw)
            b[at : at + 4] = struct.pack("<I", r.choice(HOSTILE32))
            yield "number", bytes(b)
    # the file ends right after a hostile count
    for kind, at, n in marks:
        if kind in ("count", "bytecount", "u32"):
            v = r.choice(HOSTILE32)
            yield "%s %#x at the end" % (kind, v), raw[:at] + struct.pack("<I", v) + r.choice([b"", bytes(8), bytes(64)])


def reader(r, raw):
    custom = None if r.random() < 0.8 else [p for p in sorted(codec.CUSTOM_PATHS) if r.random() < 0.5]
    return lambda: pwt.read(raw, custom, r.random() < 0.8)


def run(unit, m):
    k = unit["kind"]
    g = gen.Gen(seed_of(m.seed, "c16", k, unit["n"]))
    r = g.r
    globals()[k](unit, m, g, r)


def marks(unit, m, g, r):
    done = {}
    todo = []
    for _ in range(unit["docs"]):
        if not todo:
            todo = gen.variants(g)
            r.shuffle(todo)
        doc = g.level([todo.pop()]) if r.random() < 0.8 else g.generic(r.choice([0, 1, 3]))
        o = codec.Codec().encode(doc)
        raw = bytes(o.b)
        with m.case(250):
            mt = metered(m, "as it is", len(raw), reader(r, raw), raw)
            m.count("calls_of_good_saves", mt.calls)
            m.count("bytes_of_good_saves", len(raw))
            every = list(hostile(r, raw, o.marks))
            r.shuffle(every)
            # what has been tried least first
            every.sort(key=lambda e: done.get(e[0].split()[0], 0) // 40)
            for what, bad in every[:120]:
                done[what.split()[0]] = done.get(what.split()[0], 0) + 1
                m.count(what.split()[0] + "_overwritten")
                metered(m, what, len(bad), reader(r, bad), bad)
                m.sample({"what": what, "bytes": len(bad)})


def damaged(unit, m, g, r):
    n = 0
    while n < unit["cases"]:
        doc = g.level([r.choice(gen.variants(g))]) if r.random() < 0.5 else g.generic(3)
        raw = codec.encode(doc)
        with m.case(250):
            for _ in range(30):
                n += 1
                if r.random() < 0.3:
                    what, bad = C06.odd(g)
                else:
                    bad = raw
                    for _ in range(r.choice([1, 1, 3])):
                        what, bad = C06.damage(g, bad)
                metered(m, what, len(bad), reader(r, bad), bad)
                m.count("damaged")


def container(unit, m, g, r):
    for _ in range(unit["cases"]):
        with m.case(100):
            raw = r.choice([b"", r.randbytes(50), b"\0" * 3000, codec.encode(g.generic(1))])
            t = r.choice([0x31, 0x32])
            sav = bytearray(pwt.pack(raw, t, 6, r.choice([None, None, b"abcdefghCNK1"])))
            o = 12 if sav[8:11] == b"CNK" else 0
            for at in r.choice([(0,), (4,), (0, 4)]):
                sav[o + at : o + at + 4] = struct.pack("<I", r.choice(HOSTILE32 + [len(raw), 0]))
            if r.random() < 0.2:
                sav = sav[: r.randrange(len(sav))]
            m.count("containers")
            data = bytes(sav)
            metered(m, "container lengths", len(data) + len(raw), lambda: pwt.palsav.decompress_sav_to_gvas(data), data)


def growth(unit, m, g, r):
    """Longer inputs of the same shape: the work grows with the length."""
    for name, f in SHAPES[unit["n"] :: 4]:
        with m.case(90):

            def make(k):
                doc = g.generic(0)
                doc["properties"] = f(g, k)
                return codec.encode(doc)

            res = []
            for k in (2000, 16000):
                raw = make(k)
                mt = metered(m, "%s of %d" % (name, k), len(raw), reader(r, raw), raw)
                res.append((mt.calls, mt.peak, len(raw)))
            grown = res[1][2] / res[0][2]
            for i, unit_ in ((0, "calls"), (1, "bytes of memory")):
                if res[1][i] > 3 * grown * res[0][i] + 200000:
                    m.fail("%s: %.1f times the input needs %d instead of %d %s" % (name, grown, res[1][i], res[0][i], unit_))
            t = timed(m, name, make(1000), make(40000))
            m.sample({"shape": name, "calls, peak bytes, bytes": res, "bytes, seconds": t})


def timed(m, name, small, big):
    """The time for a long input is what a short one of the same shape suggests."""
    tracemalloc.stop()

    def best(raw, n):
        t = []
        for _ in range(n):
            gc.collect()
            b = time.process_time()
            try:
                pwt.read(raw).dump()
            except Exception:
                pass
            t.append(time.process_time() - b)
        return min(t)

    m.count("shapes_timed")
    m.count("bytes_timed", len(big))
    for _ in range(2):
        a, b = best(small, 3), best(big, 1)
        grown = len(big) / len(small)
        if b <= 6 * grown * max(a, 0.003) + 1:
            return [(len(small), round(a, 4)), (len(big), round(b, 4))]
    m.fail("%s: %.1f times the input needs %.2f s instead of %.4f s" % (name, grown, b, a))


class Place:
    role = "list"

    def __init__(self, cont, key):
        self.cont, self.key, self.path = cont, key, "~" + key

    def get(self):
        return self.cont[self.key]

    def set(self, v):
        self.cont[self.key] = v


def blockgrowth(unit, m, g, r):
    """Every list inside a raw data block made long."""
    done = set()
    v = gen.variants(g)
    r.shuffle(v)
    for _ in range(2):
        for i, one in enumerate(v):
            if i % unit["of"] != unit["n"]:
                continue
            doc = g.level([one])
            places = list(codec.Codec().sites(doc))
            for slot, blob, kind in list(C06.slots(doc)):
                x = slot["value"]
                if isinstance(x, dict) and x.get("other_connectors"):
                    places.append(Place(x, "other_connectors"))
            for site in places:
                key = site.path
                if site.role != "list" or "~" not in key and "RawData" not in key or key in done or not site.get():
                    continue
                old = site.get()
                done.add(key)
                res = []
                for k in (500, 100000):
                    each = max(4, len(str(old)) // len(old))
                    n = min(k, 10000000 // each)
                    site.set(list(itertools.islice(itertools.cycle(old), n)))
                    res.append(codec.encode(doc))
                site.set(old)
                with m.case(90):
                    m.seen(res[1][:100000])
                    m.count("block_lists_grown")
                    t = timed(m, key, *res)
                    m.sample({"list": key, "bytes, seconds": t})


def _arr(kind, make):
    return lambda g, k: {"A": {"array_type": kind, "id": None, "value": {"values": [make(i) for i in range(k)]}, "type": "ArrayProperty"}}


SHAPES = [
    ("bytes", lambda g, k: {"A": {"array_type": "ByteProperty", "id": None, "value": {"values": [i % 256 for i in range(20 * k)]}, "type": "ArrayProperty"}}),
    ("names", _arr("NameProperty", lambda i: "name%d" % i)),
    ("wide names", _arr("NameProperty", lambda i: "näme%d" % i)),
    ("enums", _arr("EnumProperty", lambda i: "E::V%d" % i)),
    ("identifiers", _arr("Guid", lambda i: core.guid_text(struct.pack("<4I", i, i, 0, i)))),
    ("structs", lambda g, k: {"A": g.array_("A", "S", [{"I": {"id": None, "value": i, "type": "IntProperty"}} for i in range(k)])}),
    ("vectors", lambda g, k: {"A": g.array_("A", "Vector", [{"x": 1.0, "y": 2.0, "z": float(i)} for i in range(k)])}),
    ("properties", lambda g, k: {"P%d" % i: {"id": None, "value": i, "type": "IntProperty"} for i in range(k)}),
    ("strings", lambda g, k: {"P%d" % i: {"id": None, "value": "x" * 30, "type": "StrProperty"} for i in range(k)}),
    ("long string", lambda g, k: {"P": {"id": None, "value": "x" * (50 * k), "type": "StrProperty"}}),
    ("map of names", lambda g, k: {"M": g.smap_("NameProperty", None, [("k%d" % i, {}) for i in range(k)])}),
    ("empty structs", lambda g, k: {"S%d" % i: g.struct_("T", {}) for i in range(k // 2)}),
    ("nested arrays", lambda g, k: {"A": g.array_("A", "S", [{"B": g.array_("B", "T", [{}] * 3)} for i in range(k // 6)])}),
]


def nesting(unit, m, g, r):
    """Nesting without end is refused like anything else."""
    for depth in (10, 50, 100, 200, 400, 1000, 3000, 10000, 30000):
        for name, head in (("struct", None), ("array", None), ("map", None)):
            with m.case(120):
                raw = nest(name, depth)
                doc = g.generic(0)
                doc["properties"] = {}
                whole = codec.encode(doc)
                at = whole.rindex(b"\x05\0\0\0None\0")
                whole = whole[:at] + raw + whole[at:]
                m.count("nested_" + name)
                # names along the path add up: depth counts once more
                metered(m, "%s nested %d times" % (name, depth), len(whole) * 3, reader(r, whole), whole)


def nest(name, depth):
    def s(t):
        return struct.pack("<i", len(t) + 1) + t.encode() + b"\0"

    if name == "struct":
        one = s("N") + s("StructProperty") + struct.pack("<Q", 0) + s("T") + bytes(16) + b"\0"
        return one * depth + s("None") * depth
    if name == "array":
        one = s("N") + s("ArrayProperty") + struct.pack("<Q", 0) + s("StructProperty") + b"\0" + struct.pack("<I", 1) + s("N")
        one += s("StructProperty") + struct.pack("<Q", 0) + s("T") + bytes(16) + b"\0"
        return one * depth + s("None") * depth
    one = s("N") + s("MapProperty") + struct.pack("<Q", 0) + s("NameProperty") + s("StructProperty") + b"\0" + struct.pack("<II", 0, 1) + s("k")
    return one * depth + s("None") * depth
