"""Every archive primitive reads back exactly what was written."""
import math
import random
import struct
import uuid

from checks.common import seed_of
from pwref import core
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one value written and read back, its bytes compared with an independent encoding, with following bytes left alone "
    "and every cut refused; distinct by primitive, value and surroundings"
)


def units(tier, seed):
    q = tier == "quick"
    out = []
    for n in range(6 if q else 36):
        out.append({"kind": "sequences", "n": n, "cases": 2500 if q else 40000, "config": ["fast", "std", "sys"][n % 3]})
    for n in range(6 if q else 36):
        out.append({"kind": "single", "n": n, "cases": 6000 if q else 100000, "config": ["fast", "std", "sys"][n % 3]})
    for k in ("ints", "rotators", "characters", "lengths", "vectors"):
        out.append({"kind": k, "n": 0})
    for n in range(2 if q else 8):
        out.append({"kind": "refusals", "n": n, "cases": 3000 if q else 40000, "config": ["fast", "std"][n % 2]})
    return out


INTS = {"i16": ("h", 16, True), "u16": ("H", 16, False), "i32": ("i", 32, True), "u32": ("I", 32, False), "i64": ("q", 64, True), "u64": ("Q", 64, False)}


def bounds(name):
    fmt, bits, signed = INTS[name]
    return (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)


def eq(a, b):
    """Same value and kind of value; identifiers by text."""
    if isinstance(b, Ident):
        return not isinstance(a, str) and str(a) == b.text
    if isinstance(b, float):
        return isinstance(a, float) and struct.pack("<d", a) == struct.pack("<d", b)
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(map(eq, a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and a.keys() == b.keys() and all(eq(a[k], b[k]) for k in b)
    return type(a) is type(b) and a == b


class Ident:
    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return self.text


class Prim:
    """A primitive with a value: how to write it, its bytes, how to read it, what is read."""

    def __init__(self, name, value, write, data, read, back):
        self.name, self.value, self.write, self.data, self.read, self.back = name, value, write, data, read, back

    def __repr__(self):
        return "%s(%s)" % (self.name, repr(self.value)[:120])


def one_int(name, v):
    return Prim(name, v, lambda w: getattr(w, name)(v), struct.pack("<" + INTS[name][0], v), lambda r: getattr(r, name)(), v)


def float_(v):
    d = struct.pack("<f", math.nan if v is None else v)
    back = struct.unpack("<f", d)[0]
    return Prim("float", v, lambda w: w.float(v), d, lambda r: r.float(), back)


def double_(v):
    d = struct.pack("<d", math.nan if v is None else v)
    return Prim("double", v, lambda w: w.double(v), d, lambda r: r.double(), struct.unpack("<d", d)[0])


def bool_(v):
    return Prim("bool", v, lambda w: w.bool(v), bytes([v]), lambda r: r.bool(), v)


def byte_(v, name="byte"):
    return Prim(name, v, lambda w: getattr(w, name)(v), bytes([v]), lambda r: r.byte(), v)


def string_(s):
    o = core.Out()
    core.enc_str(o, s)
    return Prim("fstring", s, lambda w: w.fstring(s), bytes(o.b), lambda r: r.fstring(), s)


def form(r, raw):
    t = core.guid_text(raw)
    return r.choice([t, t.upper(), t.replace("-", ""), uuid.UUID(t), pwt.archive.UUID(raw)])


def guid_(r, raw):
    v = form(r, raw)
    return Prim("guid", v, lambda w: w.guid(v), raw, lambda r: r.guid(), Ident(core.guid_text(raw)))


def optional_(r, raw):
    if raw is None:
        return Prim("optional_guid", None, lambda w: w.optional_guid(None), b"\0", lambda r: r.optional_guid(), None)
    v = form(r, raw)
    return Prim("optional_guid", v, lambda w: w.optional_guid(v), b"\1" + raw, lambda r: r.optional_guid(), Ident(core.guid_text(raw)))


def raw_(r, b):
    """Bytes as they are."""
    if r.random() < 0.5:
        return Prim("bytes", b, lambda w: w.write(b), b, lambda x: bytes(x.read(len(b))), b)
    return Prim("byte_list", b, lambda w: w.write(b), b, lambda x: list(x.byte_list(len(b))), list(b))


def doubles(r, keys):
    return [dbl(r) for _ in keys]


def vec(v):
    d = struct.pack("<3d", *v)
    return Prim("vector", v, lambda w: w.vector(*v), d, lambda r: r.vector(), tuple(v))


def vec_dict(v):
    x = dict(zip("xyz", v))
    return Prim("vector_dict", x, lambda w: w.vector_dict(x), struct.pack("<3d", *v), lambda r: r.vector_dict(), x)


def quat(v):
    return Prim("quat", v, lambda w: w.quat(*v), struct.pack("<4d", *v), lambda r: r.quat(), tuple(v))


def quat_dict(v):
    x = dict(zip("xyzw", v))
    return Prim("quat_dict", x, lambda w: w.quat_dict(x), struct.pack("<4d", *v), lambda r: r.quat_dict(), x)


def transform(v):
    x = {"rotation": dict(zip("xyzw", v[:4])), "translation": dict(zip("xyz", v[4:7])), "scale3d": dict(zip("xyz", v[7:]))}
    return Prim("ftransform", x, lambda w: w.ftransform(x), struct.pack("<10d", *v), lambda r: r.ftransform(), x)


def rotator(v):
    """v: three 16-bit angles, or degrees (floats), which take the nearest."""
    s = [x if isinstance(x, int) else round(x * 65536 / 360) % 65536 for x in v]
    deg = [x * 360 / 65536 if isinstance(x, int) else x for x in v]
    d = b"".join(b"\1" + struct.pack("<H", x) if x else b"\0" for x in s)
    back = tuple(x * 360 / 65536 for x in s)
    return Prim("compressed_short_rotator", deg, lambda w: w.compressed_short_rotator(*deg), d, lambda r: r.compressed_short_rotator(), back)


def packed(scale, v):
    xs = list(v)
    sc = [x * scale for x in xs]
    if all(abs(x) < 1 << 62 for x in sc):
        use = min(map(abs, xs)) < 1 << 52
        ints = [round(x) for x in (sc if use else xs)]
        n = max(map(core.bits_needed, ints))
        d = struct.pack("<I", (64 if use else 0) | n) + b"".join(i.to_bytes((n + 7) // 8, "little", signed=True) for i in ints)
        back = tuple(i / scale if use else i for i in ints)
    else:
        d = struct.pack("<I3d", 64, *xs)
        back = tuple(float(x) for x in xs)
    return Prim("packed_vector/%d" % scale, xs, lambda w: w.packed_vector(scale, *xs), d, lambda r: r.packed_vector(scale), back)


def array(r, depth=0):
    """A list of values of one kind."""
    A = pwt.archive
    n = r.choice([0, 1, 2, 3, 7, 30])
    k = r.randrange(5)
    if k == 0:
        name = r.choice(list(INTS))
        vals = [whole(r, name) for _ in range(n)]
        ps = [one_int(name, v) for v in vals]
        rd, wr = (lambda x: getattr(x, name)()), (lambda w, v: getattr(w, name)(v))
    elif k == 1:
        vals = [text(r) for _ in range(n)]
        ps = [string_(v) for v in vals]
        rd, wr = (lambda x: x.fstring()), (lambda w, v: w.fstring(v))
    elif k == 2:
        raws = [r.randbytes(16) for _ in range(n)]
        vals = [form(r, b) for b in raws]
        return Prim("tarray of ids", vals, lambda w: w.tarray(A.uuid_writer, vals), struct.pack("<I", n) + b"".join(raws),
                    lambda x: x.tarray(A.uuid_reader), [Ident(core.guid_text(b)) for b in raws])
    elif k == 3:
        raws = [(r.randbytes(16), r.randbytes(16)) for _ in range(n)]
        vals = [{"guid": form(r, a), "instance_id": form(r, b)} for a, b in raws]
        return Prim("tarray of instance ids", vals, lambda w: w.tarray(A.instance_id_writer, vals), struct.pack("<I", n) + b"".join(a + b for a, b in raws),
                    lambda x: x.tarray(A.instance_id_reader), [{"guid": Ident(core.guid_text(a)), "instance_id": Ident(core.guid_text(b))} for a, b in raws])
    else:
        vals = [dbl(r) for _ in range(n)]
        ps = [double_(v) for v in vals]
        rd, wr = (lambda x: x.double()), (lambda w, v: w.double(v))
    return Prim("tarray", vals, lambda w: w.tarray(wr, vals), struct.pack("<I", n) + b"".join(p.data for p in ps), lambda x: x.tarray(rd), [p.back for p in ps])


# ---- values -------------------------------------------------------------------------------


def whole(r, name):
    lo, hi = bounds(name)
    k = r.randrange(4)
    if k == 0:
        return r.choice([lo, hi, lo + 1, hi - 1, 0, 1, max(lo, -1)])
    if k == 1:
        v = r.choice([-1, 1]) * ((1 << r.randrange(64)) + r.choice([-1, 0, 1]))
        return min(hi, max(lo, v))
    return r.randint(lo, hi)


SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.1, math.inf, -math.inf, math.nan, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 1e16, math.pi,
           2.0**53, -(2.0**53) - 1, 1 / 3, 1e-7, 123456789.123]


def dbl(r):
    k = r.randrange(4)
    if k == 0:
        return r.choice(SPECIAL)
    if k == 1:
        return r.uniform(-1e6, 1e6)
    if k == 2:
        while True:
            v = struct.unpack("<d", r.randbytes(8))[0]
            if v == v:
                return v
    return float(r.randint(-1000, 1000))


def flt(r):
    k = r.randrange(5)
    if k == 0:
        return r.choice([0.0, -0.0, 1.0, 3.4028234663852886e38, -3.4028234663852886e38, 1.401298464324817e-45, math.inf, -math.inf, math.nan, 0.1, 1e-46, 16777217.0])
    if k == 1:
        return r.uniform(-1e5, 1e5)
    if k == 2:
        return r.choice([1, 0, -7, 16777216, 1000000])
    while True:
        v = struct.unpack("<f", r.randbytes(4))[0]
        if v == v:
            return v


ALPHABETS = ["abcXYZ 012_.-/", "aé", "äöüßñ", "日本語한국", "😀🎮𝔘", "\0a", "a\u0080\u007f", "\ud800a\udfff", "\ufeff\ufffe\uffff\u2028", "\r\n\t\"\\'"]


def text(r):
    n = r.choice([0, 1, 1, 2, 3, 5, 10, 40, 127, 128, 255, 256, 300])
    a = r.choice(ALPHABETS)
    s = "".join(r.choice(a) for _ in range(n))
    # a high and a low half next to each other are one character, not two
    return s.encode("utf-16-le", "surrogatepass").decode("utf-16-le", "surrogatepass")


def coordinate(r, scale):
    k = r.randrange(7)
    if k == 0:
        return float(r.randint(-100, 100))
    if k == 1:
        return r.uniform(-1e6, 1e6)
    if k == 2:
        return r.choice([-1, 1]) * float((1 << r.randrange(63)) + r.choice([-1, 0, 1])) / r.choice([1, scale])
    if k == 3:
        return r.choice([0.0, 0.5, -0.5, 1.5, -1.5, 2.5, 0.05, 0.15, -0.25, 0.005])
    if k == 4:
        return r.randint(-1000000, 1000000) / scale
    if k == 5:
        return r.choice([1e18, 4.6e18, 4.7e18, 1e19, -1e19, 1e300, math.inf, -math.inf, math.nan, 2.0**62, -(2.0**62), 2.0**61])
    return r.uniform(-1, 1)


def any_prim(r):
    k = r.randrange(18)
    if k < 4:
        name = r.choice(list(INTS))
        return one_int(name, whole(r, name))
    if k == 4:
        return float_(None if r.random() < 0.05 else flt(r))
    if k == 5:
        return double_(None if r.random() < 0.05 else dbl(r))
    if k == 6:
        return bool_(r.random() < 0.5)
    if k == 7:
        return byte_(r.randrange(256), r.choice(["byte", "u"]))
    if k in (8, 9):
        return string_(text(r))
    if k == 10:
        return guid_(r, r.choice([bytes(16), r.randbytes(16)]))
    if k == 11:
        return optional_(r, r.choice([None, bytes(16), r.randbytes(16)]))
    if k == 12:
        return array(r)
    if k == 13:
        return r.choice([lambda: vec(doubles(r, "xyz")), lambda: vec_dict(doubles(r, "xyz"))])()
    if k == 14:
        return r.choice([lambda: quat(doubles(r, "xyzw")), lambda: quat_dict(doubles(r, "xyzw")), lambda: transform(doubles(r, range(10)))])()
    if k == 15:
        if r.random() < 0.3:
            return rotator([r.uniform(-720, 720) for _ in "xyz"])
        return rotator([r.choice(core.Rotator.SH + [r.randrange(65536)] * 5) for _ in "xyz"])
    if k == 16:
        scale = r.choice([1, 10, 100])
        return packed(scale, [coordinate(r, scale) for _ in "xyz"])
    return raw_(r, r.randbytes(r.choice([0, 1, 5, 100])))


# ---- judging ------------------------------------------------------------------------------


def judge(m, p, cuts=True):
    A = pwt.archive
    m.count(p.name.split()[0])
    w = A.FArchiveWriter()
    p.write(w)
    got = bytes(w.bytes())
    if got != p.data:
        m.fail("%r writes %s instead of %s" % (p, got[:80].hex(), p.data[:80].hex()))
        return
    tail = b"\xa5\x01\x00"
    r = A.FArchiveReader(p.data + tail)
    back = p.read(r)
    if not eq(back, p.back):
        m.fail("%r reads back as %r instead of %r" % (p, back, p.back))
    elif bytes(r.read_to_end()) != tail:
        m.fail("%r: reading does not stop where the value ends" % p)
    if not cuts or p.name == "bytes":
        return
    for c in range(len(p.data)) if len(p.data) < 40 else list(range(20)) + [len(p.data) // 2, len(p.data) - 2, len(p.data) - 1]:
        try:
            x = p.read(A.FArchiveReader(p.data[:c]))
        except Exception:
            m.count("cuts_refused")
            continue
        m.fail("%r cut to %d of %d bytes reads as %r" % (p, c, len(p.data), x))
        return


def run(unit, m):
    k = unit["kind"]
    globals()[k](unit, m, random.Random(seed_of(m.seed, "c17", k, unit["n"])))


def single(unit, m, r):
    for _ in range(unit["cases"]):
        with m.case():
            p = any_prim(r)
            m.seen(p.name, p.data)
            judge(m, p)
            m.sample({"primitive": repr(p), "bytes": p.data[:60].hex()})


def sequences(unit, m, r):
    A = pwt.archive
    for _ in range(unit["cases"]):
        with m.case():
            ps = [any_prim(r) for _ in range(r.choice([2, 3, 5, 10, 25]))]
            whole_ = b"".join(p.data for p in ps)
            m.seen(whole_)
            m.count("sequences")
            m.count("primitives_in_sequences", len(ps))
            w = A.FArchiveWriter()
            for n, p in enumerate(ps):
                p.write(w)
                if r.random() < 0.1 and bytes(w.bytes()) != b"".join(x.data for x in ps[: n + 1]):
                    m.fail("%s writes something else" % ps[: n + 1])
            if bytes(w.bytes()) != whole_:
                m.fail("%s writes %s instead of %s" % (ps, bytes(w.bytes())[:100].hex(), whole_[:100].hex()))
                continue
            allow = r.random() < 0.8
            x = A.FArchiveReader(whole_, allow_nan=allow)
            left = len(whole_)
            for p in ps:
                if x.eof() != (left == 0):
                    m.fail("eof() is %s with %d bytes left" % (x.eof(), left))
                    break
                want = p.back if allow else nulled(p.back)
                got = p.read(x)
                left -= len(p.data)
                if not eq(got, want):
                    m.fail("%s: %r reads back as %r instead of %r" % (ps, p, got, want))
                    break
            else:
                if not x.eof() or x.read_to_end():
                    m.fail("%s: bytes are left after reading everything" % ps)
            if not ps[-1].data:
                continue
            try:
                y = A.FArchiveReader(whole_[:-1])
                for p in ps:
                    p.read(y)
            except Exception:
                m.count("cuts_refused")
            else:
                if ps[-1].name != "bytes":
                    m.fail("%s: the last byte missing is not noticed" % ps)


def nulled(v):
    if isinstance(v, float):
        return v if math.isfinite(v) else None
    if isinstance(v, (list, tuple)):
        return type(v)(nulled(x) for x in v)
    if isinstance(v, dict):
        return {k: nulled(x) for k, x in v.items()}
    return v


def ints(unit, m, r):
    with m.case(200):
        for name in ("i16", "u16"):
            lo, hi = bounds(name)
            for v in range(lo, hi + 1):
                m.seen(name, v)
                judge(m, one_int(name, v), v % 251 == 0)
    with m.case(100):
        for name in INTS:
            lo, hi = bounds(name)
            for e in range(65):
                for d in (-2, -1, 0, 1, 2):
                    for s in (1, -1):
                        v = s * (1 << e) + d
                        if lo <= v <= hi:
                            m.seen(name, v)
                            judge(m, one_int(name, v))
                        else:
                            refuse(m, name, v)
        for v in range(256):
            m.seen("byte", v)
            judge(m, byte_(v))
            judge(m, byte_(v, "u"))


def rotators(unit, m, r):
    with m.case(200):
        for v in range(65536):
            m.seen("rotator", v)
            x = [v, r.choice(core.Rotator.SH), r.randrange(65536)]
            k = v % 3
            judge(m, rotator(x[k:] + x[:k]), False)
        for v in core.Rotator.SH:
            for w in core.Rotator.SH:
                judge(m, rotator([v, w, 0]))
                judge(m, rotator([0, v, w]))


def characters(unit, m, r):
    with m.case(200):
        for c in list(range(1, 0x3000)) + list(range(0x3000, 0x10000, 7)) + list(range(0xD7F0, 0xE010)) + list(range(0xFFF0, 0x10010)) + [0x1F600, 0x10FFFF]:
            m.seen("character", c)
            judge(m, string_(chr(c)), False)
            judge(m, string_("a" + chr(c)), False)


def lengths(unit, m, r):
    with m.case(200):
        for n in list(range(0, 600)) + [1023, 1024, 1025, 4095, 4096, 65534, 65535, 65536, 70000, 300000]:
            m.seen("length", n)
            for c in ("a", "é", "😀"):
                judge(m, string_(c * n), n < 20)
            judge(m, string_("a" * n + "é"), n < 20)
    with m.case(200):
        A = pwt.archive
        for n in list(range(0, 260)) + [1000, 65535, 65536, 100000]:
            vals = list(range(n))
            m.seen("list", n)
            judge(m, Prim("tarray", n, lambda w: w.tarray(lambda w, v: w.u32(v), vals), struct.pack("<%dI" % (n + 1), n, *vals), lambda x: x.tarray(lambda y: y.u32()), vals))


def vectors(unit, m, r):
    with m.case(200):
        for scale in (1, 10, 100):
            for e in range(0, 64):
                for d in (-1, 0, 1):
                    for s in (1, -1):
                        v = float(s * (1 << e) + d)
                        for at in range(3):
                            for other in (0.0, 1.0, -1.0, v, -v, 2.0**52, 2.0**53):
                                x = [other, other, other]
                                x[at] = v
                                m.seen("packed", scale, repr(x))
                                judge(m, packed(scale, x), False)
                                judge(m, packed(scale, [y / scale for y in x]), False)
    with m.case(200):
        for scale in (1, 10, 100):
            for n in range(4000):
                x = [coordinate(r, scale) for _ in "xyz"]
                m.seen("packed", scale, repr(x))
                p = packed(scale, x)
                judge(m, p, n % 10 == 0)
                # what was read is written as the same bytes
                w = pwt.archive.FArchiveWriter()
                w.packed_vector(scale, *p.back)
                m.count("packed_again")
                if bytes(w.bytes()) != p.data:
                    m.fail("%r: reading and writing again gives %s instead of %s" % (p, bytes(w.bytes()).hex(), p.data.hex()))


def refuse(m, name, v, call=None):
    w = pwt.archive.FArchiveWriter()
    try:
        (call or (lambda w: getattr(w, name)(v)))(w)
    except Exception:
        m.count("refused")
        return
    m.fail("%s accepts %r and writes %s" % (name, v, bytes(w.bytes())[:60].hex()))


def refusals(unit, m, r):
    for _ in range(unit["cases"]):
        with m.case():
            k = r.randrange(8)
            if k < 3:
                name = r.choice(list(INTS))
                lo, hi = bounds(name)
                e = r.randint(0, 70)
                v = r.choice([hi + 1 + r.getrandbits(e), lo - 1 - r.getrandbits(e), hi + 1, lo - 1, "5", None, 1.5, [1], b"1", "", {}])
            elif k == 3:
                name, v = r.choice(["byte", "u"]), r.choice([-1, 256, 257, 1 << 20, -(1 << 33), "1", None, 1.5])
            elif k == 4:
                name, v = "float", r.choice([1e39, -1e39, 3.4028235677973366e38, 1e308, "1", "", [], {}, 10**400, b"1"])
            elif k == 5:
                name, v = "double", r.choice(["1", "", [], {}, 10**400, b"1", -(10**310)])
            elif k == 6:
                name, v = "fstring", r.choice([None, 5, 1.5, [], b"x", {}, True])
            else:
                t = core.guid_text(r.randbytes(16))
                name = r.choice(["guid", "guid", "optional_guid"])
                v = r.choice(["", t[:-1], t + "0", t[:-1] + "g", "x", t.replace("-", "")[:31], 5, 1.5, [t], {"guid": t}])
                if v == "" and name == "optional_guid":
                    v = t[1:]
            m.seen(name, repr(v))
            refuse(m, name, v)
