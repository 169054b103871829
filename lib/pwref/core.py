"""Independent reference codec: primitive and composite field types.

Every type knows how to encode a JSON value to bytes, decode bytes strictly (canonical
encodings only), generate values, and enumerate the editable sites inside a value.
"""
import contextlib
import math
import struct


class RefError(Exception):
    """The reference decoder refuses the input, or the value is not representable."""


class NonCanonical(RefError):
    """Readable, but not the encoding the game writes; the JSON cannot tell the two apart."""


LENIENT = False


@contextlib.contextmanager
def lenient():
    """Read other encodings than the game's as well."""
    global LENIENT
    LENIENT = True
    try:
        yield
    finally:
        LENIENT = False


def odd(what):
    if not LENIENT:
        raise NonCanonical(what)


class Out:
    def __init__(self):
        self.b = bytearray()
        self.marks = []  # (kind, offset, length)

    def put(self, data):
        self.b += data

    def mark(self, kind, n):
        self.marks.append((kind, len(self.b), n))

    def u32(self, n, kind="u32"):
        self.mark(kind, 4)
        self.b += struct.pack("<I", n)

    def str(self, s):
        enc_str(self, s)


class In:
    def __init__(self, data):
        self.d = bytes(data)
        self.p = 0

    def left(self):
        return len(self.d) - self.p

    def take(self, n):
        if n < 0 or self.left() < n:
            raise RefError("short read of %d at %d/%d" % (n, self.p, len(self.d)))
        r = self.d[self.p : self.p + n]
        self.p += n
        return r

    def rest(self):
        return self.take(self.left())

    def unpack(self, fmt):
        return struct.unpack("<" + fmt, self.take(struct.calcsize("<" + fmt)))[0]

    def str(self):
        n = self.unpack("i")
        if n == 0:
            return ""
        if n > 0:
            raw = self.take(n)
            if raw[-1]:
                raise RefError("string without end")
            if n == 1:
                odd("non-canonical string")
            try:
                return raw[:-1].decode("ascii")
            except UnicodeDecodeError:
                raise RefError("non-ascii string")
        raw = self.take(-n * 2)
        if raw[-2:] != b"\0\0":
            raise RefError("string without end")
        s = raw[:-2].decode("utf-16-le", "surrogatepass")
        if s.isascii():
            odd("non-canonical wide string")
        return s

    def done(self):
        if self.left():
            raise RefError("%d bytes left" % self.left())


def enc_str(o, s):
    if not isinstance(s, str):
        raise RefError("not a string")
    if s == "":
        o.mark("strlen", 4)
        o.put(b"\0\0\0\0")
    elif all(ord(c) < 128 for c in s):
        o.mark("strlen", 4)
        o.put(struct.pack("<i", len(s) + 1) + s.encode("ascii") + b"\0")
    else:
        raw = s.encode("utf-16-le", "surrogatepass")
        o.mark("strlen", 4)
        o.put(struct.pack("<i", -(len(raw) // 2 + 1)) + raw + b"\0\0")


def guid_text(raw):
    a, b, c, d = struct.unpack("<4I", raw)
    return "%08x-%04x-%04x-%04x-%04x%08x" % (
        a,
        b >> 16,
        b & 0xFFFF,
        c >> 16,
        c & 0xFFFF,
        d,
    )


def guid_raw(text):
    h = text.replace("-", "").lower()
    if len(h) != 32:
        raise RefError("bad guid")
    return struct.pack("<4I", *(int(h[i : i + 8], 16) for i in (0, 8, 16, 24)))


class Site:
    """An editable place: container[key] holds a value of type ty."""

    __slots__ = ("cont", "key", "ty", "path", "role")

    def __init__(self, cont, key, ty, path, role="scalar"):
        self.cont, self.key, self.ty, self.path, self.role = cont, key, ty, path, role

    def get(self):
        return self.cont[self.key]

    def set(self, v):
        self.cont[self.key] = v


class Ty:
    name = "?"

    def sites(self, cont, key, path):
        yield Site(cont, key, self, path)

    def edit(self, g, path, old):
        """A representable value different from old."""
        for _ in range(50):
            v = self.gen(g, path)
            if not same(v, old):
                return v
        return old


def same(a, b):
    """Deep equality: NaN equals NaN, -0.0 differs from 0.0, bool differs from int,
    and integral floats equal ints."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        if a == 0 and b == 0:
            return math.copysign(1, a) == math.copysign(1, b)
        return a == b
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def first_diff(a, b, path="$"):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return "%s: key %r only in first" % (path, k)
        for k in b:
            if k not in a:
                return "%s: key %r only in second" % (path, k)
        for k in a:
            d = first_diff(a[k], b[k], "%s.%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: lengths %d and %d" % (path, len(a), len(b))
        for n, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, "%s[%d]" % (path, n))
            if d:
                return d
        return None
    if same(a, b):
        return None
    return "%s: %.80r vs %.80r" % (path, a, b)


class Int(Ty):
    zero = 0

    def __init__(self, fmt, name):
        self.fmt, self.name = fmt, name
        bits = 8 * struct.calcsize("<" + fmt)
        if fmt.islower():
            self.lo, self.hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        else:
            self.lo, self.hi = 0, (1 << bits) - 1
        self.bits = bits
        vals = set()
        for e in range(0, bits + 1):
            for d in (-1, 0, 1):
                for s in (1, -1):
                    v = s * ((1 << e) + d)
                    if self.lo <= v <= self.hi:
                        vals.add(v)
        if bits == 8:
            vals = set(range(self.lo, self.hi + 1))
        self.deck = sorted(vals)

    def enc(self, o, v):
        if isinstance(v, float) or not self.lo <= v <= self.hi:
            raise RefError("out of range")
        o.mark("int", self.bits // 8)
        o.put(struct.pack("<" + self.fmt, v))

    def dec(self, i):
        return i.unpack(self.fmt)

    def rand(self, r):
        k = r.randrange(4)
        if k == 0:
            return r.randint(max(self.lo, -200), min(self.hi, 200))
        if k == 1:
            n = r.getrandbits(r.randint(1, self.bits))
            if n > self.hi:
                n = self.lo + (n - self.hi - 1)
            return n
        return r.randint(self.lo, self.hi)

    def gen(self, g, path):
        return g.draw(path, self)


def f32(v):
    return struct.unpack("<f", struct.pack("<f", v))[0]


class Float(Ty):
    zero = 0.0

    def __init__(self, fmt, name):
        self.fmt, self.name = fmt, name
        big = fmt == "d"
        base = [
            0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 0.1, 1 / 3, 2 / 3, math.pi, 1e-7, 1e7, 1e15,
            1e16, 1e17, 123456.789, -100.25, 16777216.0, 16777217.0, 33554433.0,
            2147483648.0, -2147483648.0, 4294967296.0, 9007199254740992.0, 1e21, 1e22, 1e23, 1e30,
            3.4028234663852886e38, -3.4028234663852886e38, 1.17549435e-38, 1.1754942e-38,
            1.401298464324817e-45, -1.401298464324817e-45, 5e-40, 65504.0, 255.0, 256.0, 359.99,
            math.inf, -math.inf, math.nan, 100.0, 99.99999, -0.001,
        ]
        if big:
            base += [
                1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308,
                5e-324, -5e-324, 9007199254740993.0, 4503599627370497.5, 1e300, -1e-300,
                0.1 + 0.2, 1e100, 3.4028235677973366e38, 1e39, -1e39, 1.0000000000000002,
            ]
            self.deck = base
        else:
            self.deck = [f32(x) for x in base]

    def enc(self, o, v):
        if v is None:
            v = math.nan
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            raise RefError("not a number")
        o.mark("float", 4 if self.fmt == "f" else 8)
        try:
            if v != v:
                v = math.nan
            o.put(struct.pack("<" + self.fmt, v))
        except OverflowError:
            raise RefError("float out of range")

    def dec(self, i):
        raw = i.take(struct.calcsize("<" + self.fmt))
        v = struct.unpack("<" + self.fmt, raw)[0]
        if v != v and raw != struct.pack("<" + self.fmt, math.nan):
            odd("non-canonical NaN")
        return v

    def rand(self, r):
        k = r.randrange(3)
        if k == 0:
            v = float(r.randint(-100000, 100000))
        elif k == 1:
            v = r.uniform(-1e6, 1e6)
        else:
            n = struct.calcsize("<" + self.fmt)
            v = struct.unpack("<" + self.fmt, r.randbytes(n))[0]
            if v != v:
                v = math.nan
        return f32(v) if self.fmt == "f" else v

    def gen(self, g, path):
        return g.draw(path, self)


class Str(Ty):
    name = "str"
    zero = ""
    ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_:/. "
    deck = [
        "", "a", "None", "0", "\x7f", "\x80", "\xff", "\u0100", "A" * 2, "ab\0cd", "\0", "é", "日本語", "Привет",
        "😀", "a😀b", "\ud83d", "\ude00", "x\udc00y", "\ude00\ud83d", "𝔸𝔹", "\uffff", "\ufeffbom", "\u2028\u2029",
        "\n", "\r\n\t", '"quoted"', "\\back\\slash", "</script>", "{}[]", "null", "NaN", " leading", "trailing ",
        "B" * 31, "c" * 32, "d" * 33, "e" * 63, "f" * 64, "g" * 126, "h" * 127, "i" * 128, "j" * 129, "k" * 254,
        "l" * 255, "m" * 256, "n" * 257, "é" * 127, "é" * 128, "日" * 255, "日" * 256, "😀" * 64,
        "00000000-0000-0000-0000-000000000000", "StructProperty", "values", "EPalGroupType::Guild", "\x01\x02\x1f",
        "ÿþ", "ａ", "\u200b", "ß", "İ", "Ǆ", "Straße", "CamelCase_Name_01", "1e5", "-1", "true",
    ]

    def enc(self, o, v):
        enc_str(o, v)

    def dec(self, i):
        return i.str()

    def rand(self, r):
        k = r.randrange(8)
        n = r.randint(1, 24)
        if k < 5:
            return "".join(r.choice(self.ALPHA) for _ in range(n))
        if k == 5:
            return "".join(chr(r.randint(0x20, 0x2FF)) for _ in range(n))
        if k == 6:
            return "".join(
                chr(r.choice([r.randint(0x3040, 0x9FFF), r.randint(0x1F300, 0x1F6FF), r.randint(32, 126)]))
                for _ in range(n)
            )
        return self.long(r, r.randint(25, 600))

    ODD = "\n\r\t\0\x01\x1f\x7f\"'\\/<>&,;=%${}[]()#@!?*~^|`+-"
    WIDE = "éßя日本語😀𝔸\u00a0\u200b\u2028\ufeff\uffff\ud83d\ude00"

    def long(self, r, n):
        """n characters, with peculiar ones here and there and at the ends."""
        k = r.randrange(4)
        if k == 0:
            return (r.choice(["a", "é", "😀", "ab", "日本"]) * n)[:n]
        t = [r.choice(self.ALPHA) for _ in range(min(n, 997))]
        t = (t * (n // max(len(t), 1) + 1))[:n]
        odd = self.ODD if k < 3 else self.ODD + self.WIDE
        for i in [0, n - 1, *(r.randrange(n) for _ in range(r.choice([0, 1, 3, 12, n // 10])))] if n else ():
            if r.random() < 0.7:
                t[i] = r.choice(odd)
        # surrogates that happen to stand together are one character
        return "".join(t).encode("utf-16-le", "surrogatepass").decode("utf-16-le", "surrogatepass")

    def gen(self, g, path):
        if g.r.random() < 0.0006 and not g.mood:
            return self.long(g.r, g.r.choice([1023, 1024, 4096, 32768, 65535, 65536, 70001]))
        return g.draw(path, self)


class Guid(Ty):
    name = "guid"
    zero = "00000000-0000-0000-0000-000000000000"
    deck = [
        guid_text(x)
        for x in [
            bytes(16), b"\xff" * 16, bytes(range(16)), bytes(range(16, 32)), bytes(15) + b"\1", b"\1" + bytes(15),
            b"\x80" + bytes(15), bytes(15) + b"\x80", bytes.fromhex("0123456789abcdeffedcba9876543210"),
            bytes(4) + b"\xff" * 4 + bytes(8), bytes(8) + b"\xff" * 4 + bytes(4), b"\x00\x01" * 8, b"\x0f" * 16,
        ]
    ]

    def enc(self, o, v):
        o.mark("guid", 16)
        o.put(guid_raw(v))

    def dec(self, i):
        return guid_text(i.take(16))

    def rand(self, r):
        k = r.randrange(3)
        if k == 0:
            b = bytearray(16)
            b[r.randrange(16)] = r.randrange(1, 256)
            return guid_text(bytes(b))
        return guid_text(r.randbytes(16))

    def gen(self, g, path):
        return g.draw(path, self)


class OptGuid(Ty):
    name = "optguid"

    def enc(self, o, v):
        if v is None:
            o.mark("flag", 1)
            o.put(b"\0")
        else:
            o.mark("flag", 1)
            o.put(b"\1")
            GUID.enc(o, v)

    def dec(self, i):
        f = i.unpack("B")
        if f > 1:
            odd("non-canonical flag")
        return GUID.dec(i) if f else None

    def gen(self, g, path):
        return GUID.gen(g, path) if g.r.random() < 0.12 else None


class Bool(Ty):
    def __init__(self, fmt, name):
        self.fmt, self.name = fmt, name

    def enc(self, o, v):
        o.mark("flag", struct.calcsize(self.fmt))
        o.put(struct.pack("<" + self.fmt, 1 if v else 0))

    def dec(self, i):
        v = i.unpack(self.fmt)
        if v > 1:
            odd("non-canonical flag")
        return v > 0

    def gen(self, g, path):
        return g.r.random() < 0.5 and g.mood != "still"


class Bytes(Ty):
    """A fixed number of raw bytes, shown as a list of integers."""

    name = "bytes"

    def __init__(self, n):
        self.n = n

    def enc(self, o, v):
        if len(v) != self.n:
            raise RefError("wrong number of bytes")
        o.put(bytes(v))

    def dec(self, i):
        return list(i.take(self.n))

    def gen(self, g, path):
        k = g.r.randrange(4)
        if k == 0 or g.mood == "still":
            return [0] * self.n
        if k == 1:
            return [255] * self.n
        return list(g.r.randbytes(self.n))


class Rest(Ty):
    """All remaining bytes, shown as a list of integers."""

    name = "rest"

    def enc(self, o, v):
        o.put(bytes(v))

    def dec(self, i):
        return list(i.rest())

    def gen(self, g, path):
        n = g.r.choice([0, 1, 2, 3, 5, 16, 40]) if g.r.random() < 0.97 else g.r.choice([256, 4097, 70001])
        return [0] * n if g.mood == "still" else list(g.r.randbytes(n))


class Const(Ty):
    """A value shown in the JSON that takes no bytes in the block."""

    name = "const"

    def __init__(self, v):
        self.v = v

    def enc(self, o, v):
        pass

    def dec(self, i):
        return self.v

    def gen(self, g, path):
        return self.v

    def sites(self, cont, key, path):
        return iter(())


class Rec(Ty):
    name = "rec"

    def __init__(self, *fields):
        self.f = fields

    def plus(self, *fields):
        return Rec(*(self.f + fields))

    def enc(self, o, v):
        for k, t in self.f:
            if k not in v:
                raise RefError("missing " + k)
            t.enc(o, v[k])

    def dec(self, i):
        return {k: t.dec(i) for k, t in self.f}

    def gen(self, g, path):
        return {k: t.gen(g, path + "." + k) for k, t in self.f}

    def sites(self, cont, key, path):
        v = cont[key]
        for k, t in self.f:
            yield from t.sites(v, k, path + "." + k)


class Arr(Ty):
    name = "arr"

    def __init__(self, t):
        self.t = t

    def enc(self, o, v):
        o.u32(len(v), "count")
        for x in v:
            self.t.enc(o, x)

    def dec(self, i):
        return [self.t.dec(i) for _ in range(i.unpack("I"))]

    def gen(self, g, path):
        n = g.length(path, big=isinstance(self.t, (Int, Guid)))
        g.depth += 1
        v = [self.t.gen(g, path + "[]") for _ in range(n)]
        g.depth -= 1
        return v

    def sites(self, cont, key, path):
        v = cont[key]
        yield Site(cont, key, self, path, "list")
        for n in range(len(v)):
            yield from self.t.sites(v, n, "%s[]" % path)


class Rotator(Ty):
    name = "rotator"
    SH = [0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x3FFF, 0x4000, 0x7FFF, 0x8000, 0x8001, 0xC000, 0xFFFE, 0xFFFF]

    def enc(self, o, v):
        for k in ("pitch", "yaw", "roll"):
            s = round(v[k] * 65536 / 360) % 65536
            o.put(b"\0" if s == 0 else b"\1" + struct.pack("<H", s))

    def dec(self, i):
        r = {}
        for k in ("pitch", "yaw", "roll"):
            f = i.unpack("B")
            if f > 1:
                odd("non-canonical flag")
            s = i.unpack("H") if f else 0
            if f and not s:
                odd("non-canonical rotator")
            r[k] = s * 360 / 65536
        return r

    def gen(self, g, path):
        if g.mood == "still":
            return dict.fromkeys(("pitch", "yaw", "roll"), 0.0)
        return {
            k: (g.r.choice(self.SH) if g.r.random() < 0.4 else g.r.randrange(65536)) * 360 / 65536
            for k in ("pitch", "yaw", "roll")
        }


def bits_needed(v):
    return 1 + (v if v >= 0 else ~v).bit_length()


class Packed(Ty):
    """Packed vector with scale factor 1."""

    name = "packed"

    def enc(self, o, v):
        xs = [math.nan if v[k] is None else v[k] for k in "xyz"]
        if not all(abs(x) < 1 << 62 for x in xs):
            o.put(struct.pack("<I3d", 1 << 6, *xs))
            return
        scaled = min(map(abs, xs)) < 1 << 52
        ints = [round(x) for x in xs]
        n = max(map(bits_needed, ints))
        o.put(struct.pack("<I", (64 if scaled else 0) | n))
        for x in ints:
            o.put(x.to_bytes((n + 7) // 8, "little", signed=True))

    def dec(self, i):
        start = i.p
        h = i.unpack("I")
        n, ex = h & 63, h >> 6
        if ex > 1:
            odd("non-canonical packed vector")
        if n == 0:
            if ex == 0:
                odd("single-precision packed vector")
            v = {k: i.unpack("d" if ex else "f") for k in "xyz"}
        else:
            v = {}
            for k in "xyz":
                x = int.from_bytes(i.take((n + 7) // 8), "little") % (1 << n)
                x -= x >> (n - 1) << n
                v[k] = float(x) if ex else x
        o = Out()
        self.enc(o, v)
        if o.b != i.d[start : i.p]:
            odd("non-canonical packed vector")
        return v

    def gen(self, g, path):
        r = g.r
        k = r.randrange(9)
        if g.mood == "still":
            return dict.fromkeys("xyz", 0.0)
        if k == 8:
            v = [r.choice([0.0, -1.5, math.nan, math.inf, 1e20]) for _ in "xyz"]
            v[r.randrange(3)] = r.choice([math.nan, math.inf, -math.inf])
            return dict(zip("xyz", v))
        if k < 5:
            n = r.randint(0, 30)
            return {c: float(r.randint(-(1 << r.randint(0, n)), 1 << r.randint(0, n))) for c in "xyz"}
        if k == 5:
            e = r.randint(0, 51)
            b = (1 << e) + r.choice([-1, 0, 1])
            v = [float(r.choice([b, -b, 0, 1, -1])) for _ in "xyz"]
            # one component may be large as long as one stays below 2**52
            v[r.randrange(3)] = float(r.choice([-1, 1]) * (1 << r.randint(0, 61)))
            if min(map(abs, v)) >= 1 << 52:
                v[0] = 0.0
            return dict(zip("xyz", v))
        if k == 6:
            v = [r.choice([-1, 1]) * ((1 << 52) + r.getrandbits(r.randint(1, 52))) for _ in "xyz"]
            if r.random() < 0.5:
                v[r.randrange(3)] = r.choice([1, -1]) * (1 << r.randint(53, 61))
            return dict(zip("xyz", v))
        v = [r.choice([0.0, 1.5, -1e18, 1e300, float(1 << 62), -float(1 << 63)]) for _ in "xyz"]
        v[r.randrange(3)] = r.choice([float(1 << 62), -float(1 << 62), 1e19, -1.5e200])
        return dict(zip("xyz", v))


U8, I16, U16 = Int("B", "u8"), Int("h", "i16"), Int("H", "u16")
I32, U32, I64, U64 = Int("i", "i32"), Int("I", "u32"), Int("q", "i64"), Int("Q", "u64")
F32, F64 = Float("f", "f32"), Float("d", "f64")
STR, GUID, OPTGUID = Str(), Guid(), OptGuid()
BOOL8, BOOL32 = Bool("B", "bool8"), Bool("I", "bool32")
VEC = Rec(("x", F64), ("y", F64), ("z", F64))
QUAT = Rec(("x", F64), ("y", F64), ("z", F64), ("w", F64))
COLOR = Rec(("r", F32), ("g", F32), ("b", F32), ("a", F32))
XFORM = Rec(("rotation", QUAT), ("translation", VEC), ("scale3d", VEC))
