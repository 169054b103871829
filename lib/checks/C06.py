"""Content that is not understood is kept or refused, never altered."""
import copy
import json
import struct

from checks import common
from checks.C01 import diff
from checks.common import seed_of
from pwref import codec, core, gen
from pwref import schemas as S
from pwref.codec import RAW
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one save with something the tool cannot fully interpret, read and (unless refused) written back and compared "
    "with the original bytes; distinct by content of the save"
)
ASSUMES = [
    "encodings the game never writes but the tool understands (flags other than 0/1, wide strings for ASCII text, NaN payloads, wrong "
    "property sizes, non-minimal packed numbers) may come back as the game's encoding of the same content"
]


def units(tier, seed):
    q = tier == "quick"
    out = []
    for n in range(8 if q else 32):
        c = ["fast", "std", "sys"][n % 3]
        out.append({"kind": "blocks", "n": n, "rounds": 2 if q else 30, "config": c})
        out.append({"kind": "kinds", "n": n, "docs": 1000 if q else 10000, "config": c})
    for n in range(4 if q else 16):
        out.append({"kind": "cuts", "n": n, "docs": 8 if q else 80})
        out.append({"kind": "bytes", "n": n, "docs": 40 if q else 600})
    out.append({"kind": "cli", "n": 0, "docs": 120 if q else 1500})
    return out


class Judge:
    def __init__(self, m, convert):
        self.m, self.convert = m, convert

    def __call__(self, what, raw):
        m = self.m
        m.seen(raw)
        m.count(what.split(":")[0].replace(", ", " "))
        try:
            text = self.convert[0](raw)
        except Exception as e:
            m.count("refused")
            return False
        except RecursionError:
            m.count("refused")
            return False
        back = None
        try:
            back = self.convert[1](text)
            if back == raw:
                m.count("kept")
                return True
            why = diff(raw, back)
        except Exception as e:
            why = "its JSON cannot be converted back: %r" % e
        try:
            with core.lenient():
                doc = codec.decode(raw)
            if back is not None and back == codec.encode(doc):
                m.count("understood_but_encoded_otherwise")
                return None
        except core.RefError:
            pass
        m.fail("%s: %s" % (what, why), {"gvas": raw if len(raw) < 200000 else None})


LIB = (pwt.to_json, pwt.from_json)


def run(unit, m):
    k = unit["kind"]
    g = gen.Gen(seed_of(m.seed, "c06", k, unit["n"]))
    judge = Judge(m, LIB)
    if k == "blocks":
        for doc in gen.rounds(seed_of(m.seed, "c06b", unit["n"]), unit["rounds"], chunk=1):
            with m.case(200):
                for what, raw in blocks(g, doc):
                    judge(what, raw)
    elif k == "kinds":
        for _ in range(unit["docs"]):
            with m.case(100):
                what, raw = odd(g)
                judge(what, raw)
                m.sample({"what": what, "bytes": len(raw)})
    elif k == "cuts":
        for _ in range(unit["docs"]):
            with m.case(200):
                v = gen.variants(g)
                doc = g.level([g.r.choice(v)]) if g.r.random() < 0.7 else g.generic(4)
                for what, raw in cuts(g, codec.encode(doc)):
                    judge(what, raw)
    elif k == "bytes":
        for _ in range(unit["docs"]):
            with m.case(200):
                v = gen.variants(g)
                doc = g.level([g.r.choice(v)]) if g.r.random() < 0.7 else g.generic(3)
                o = codec.Codec().encode(doc)
                raw = bytes(o.b)
                for _ in range(60):
                    judge(*damage(g, raw))
                places = [x for x in o.marks if x[2]]
                for mark in g.r.sample(places, min(40, len(places))):
                    judge(*aimed(g.r, raw, mark))
    else:
        cli(unit, m, g)


def slots(doc):
    for path, p in common.custom_props(doc["properties"]):
        yield from codec.blob_slots(p["custom_type"], p)


def blocks(g, doc):
    """Every raw data block of a document cut short, extended, emptied, replaced."""
    r = g.r
    for slot, blob, kind in list(slots(doc)):
        old = slot["value"]
        o = core.Out()
        blob.enc(o, old, kind)
        b = bytes(o.b)
        variants = []
        cutset = range(len(b)) if len(b) <= 40 else sorted(set(r.sample(range(len(b)), 16)) | {0, 1, len(b) - 1, len(b) - 2, len(b) - 4})
        if len(cutset) > 24:
            cutset = r.sample(list(cutset), 24)
        for c in cutset:
            if 0 <= c < len(b):
                variants.append(("block cut short", b[:c]))
        for n in (1, 2, 3, 4, 5, 8, 12, 16, 17, 20, 33):
            if r.random() < 0.5:
                variants.append(("block with extra bytes", b + bytes(n)))
            else:
                variants.append(("block with extra bytes", b + bytes(r.randint(0x20, 0x6F) for _ in range(n))))
        if r.random() < 0.2:
            n = r.choice([300, 4100, 66000])
            variants.append(("block with extra bytes", b + r.choice([bytes(n), r.randbytes(n), b"\xff" * n])))
            variants.append(("other block", r.randbytes(n)))
        if len(b) > 4:
            c = r.randrange(len(b))
            variants.append(("block with bytes missing inside", b[:c] + b[c + r.choice([1, 4, 16]) :]))
            variants.append(("block with bytes inserted", b[:c] + bytes(r.choice([1, 4, 16])) + b[c:]))
            variants.append(("block twice", b + b))
        variants.append(("other block", g.junk()))
        # counts inside the block that claim more or fewer elements than there are
        for mk, at, n in o.marks:
            if mk in ("count", "strlen") and r.random() < 0.5:
                v = struct.unpack("<i", b[at : at + 4])[0]
                w = r.choice([v + 1, v - 1, -v - 1, -1, -2, 1 << 30, -(1 << 31), 0, v + 256, v | 1 << 31 if v >= 0 else v & 0x7FFFFFFF])
                w &= 0xFFFFFFFF
                variants.append(("block with wrong count", b[:at] + struct.pack("<I", w) + b[at + 4 :]))
        for what, x in variants:
            if x == b:
                continue
            slot["value"] = {"values": list(x)}
            yield "%s: %s %s" % (what, blob.name, kind), codec.encode(doc)
        slot["value"] = old


def cuts(g, raw):
    """The file cut at every point, or with more bytes."""
    pts = range(len(raw)) if len(raw) < 700 else sorted(g.r.sample(range(len(raw)), 400)) + list(range(len(raw) - 60, len(raw)))
    for c in pts:
        yield "file cut short: at %d of %d" % (c, len(raw)), raw[:c]
    for n in (1, 2, 3, 4, 5, 8, 100, 5000, 70000):
        for fill in (bytes(n), g.r.randbytes(n), b"\xff" * n):
            yield "file with extra bytes: %d" % n, raw + fill


def damage(g, raw):
    r = g.r
    k = r.randrange(7)
    b = bytearray(raw)
    at = r.randrange(len(b))
    if k == 0:
        b[at] ^= 1 << r.randrange(8)
    elif k == 1:
        b[at] = r.randrange(256)
    elif k == 2:
        del b[at : at + r.choice([1, 1, 2, 4, 8, 16])]
    elif k == 3:
        b[at:at] = r.choice([bytes(r.choice([1, 2, 4, 16])), r.randbytes(r.choice([1, 4, 16]))])
    elif k == 4:
        n = r.choice([4, 8, 16, 40])
        c = r.randrange(len(b))
        b[at : at + n] = b[c : c + n]
    elif k == 5:
        b[at : at + 4] = struct.pack("<I", r.choice([0, 1, 255, 65536, 1 << 31, 0xFFFFFFFF]))
    else:
        h = r.randrange(min(len(b), 60))
        b[h] ^= 1 << r.randrange(8)
    return "byte damage: kind %d at %d" % (k, at), bytes(b)


def aimed(r, raw, mark):
    """Damage to one length, count, flag or number, or to the end of a text."""
    kind, at, n = mark
    b = bytearray(raw)
    if kind == "strlen":
        size = struct.unpack_from("<i", raw, at)[0]
        k = r.randrange(4)
        if size and k < 2:
            end = at + 4 + (size if size > 0 else -2 * size)
            b[end - (1 if size > 0 else r.choice([1, 2]))] = r.choice([1, 32, 65, 128, 255])
            return "text without end: at %d" % at, bytes(b)
        if k == 2:
            size = -size
        else:
            size += r.choice([-2, -1, 1, 2])
        b[at : at + 4] = struct.pack("<i", size)
    else:
        v = int.from_bytes(b[at : at + n], "little") + r.choice([-2, -1, 1, 2, 128, 1 << (8 * n - 1)])
        b[at : at + n] = (v % (1 << 8 * n)).to_bytes(n, "little")
    return "damaged %s: at %d" % (kind, at), bytes(b)


PAYLOADS = [b"\0" + bytes(8), b"\0" + b"\x01\0\0\0", b"\0" + b"\0\0\0\0", b"\0\x05", b"\0" + b"\x03\0\0\0ab\0", b"", b"\0"]
TYPES = (
    "DoubleProperty Int8Property Int16Property UInt16Property UInt32Property UInt64Property ObjectProperty TextProperty "
    "SetProperty ByteProperty SoftObjectProperty InterfaceProperty DelegateProperty FieldPathProperty intproperty Foo None"
).split() + ["", "日本語"]
ELEMENT = {
    "IntProperty": 4, "Int64Property": 8, "FloatProperty": 4, "BoolProperty": 1, "DoubleProperty": 8, "UInt32Property": 4,
    "Int8Property": 1, "Vector": 24, "ObjectProperty": None, "StrProperty": None, "TextProperty": None, "SoftObjectProperty": None,
    "MapProperty": 8, "byteproperty": 1,
}


def fstr(s):
    o = core.Out()
    core.enc_str(o, s)
    return bytes(o.b)


def unknown_property(g):
    """(what, property record with raw payload)"""
    r = g.r
    k = r.randrange(9)
    if k == 0:
        t = r.choice(TYPES)
        p = r.choice(PAYLOADS)
        if r.random() < 0.3:
            p = fstr("SomeEnum") + p
        return "unsupported property type: " + t, {"type": t, RAW: (max(0, len(p) - 1), p)}
    if k in (1, 2):
        t = r.choice(list(ELEMENT))
        n = r.choice([0, 1, 2, 3, 50])
        if ELEMENT[t] is None:
            body = b"".join(fstr(r.choice(["", "a", "Hello"])) for _ in range(n))
        elif t in ("BoolProperty",):
            body = bytes(r.randrange(2) for _ in range(n))
        elif t in ("FloatProperty", "DoubleProperty", "Vector"):
            body = bytes(ELEMENT[t] * n)
        else:
            body = r.randbytes(ELEMENT[t] * n)
        return "unsupported array type: %s x %d" % (t, n), {
            "type": "ArrayProperty", RAW: (4 + len(body), fstr(t) + b"\0" + struct.pack("<I", n) + body),
        }
    if k == 3:
        n = r.choice([1, 2, 3])
        body = b"".join(fstr("Enum::V%d" % i) for i in range(n))
        return "labelled byte array: %d" % n, {
            "type": "ArrayProperty", RAW: (4 + len(body), fstr("ByteProperty") + b"\0" + struct.pack("<I", n) + body),
        }
    if k in (4, 5):
        kt = r.choice(["NameProperty", "IntProperty", "StrProperty", "Int64Property", "FloatProperty", "ObjectProperty", "ByteProperty", "UInt32Property"])
        vt = r.choice(["IntProperty", "NameProperty", "StrProperty", "Int64Property", "FloatProperty", "ObjectProperty", "ByteProperty", "DoubleProperty"])
        n = r.choice([0, 1, 2])

        def part(t):
            return {
                "IntProperty": lambda: r.randbytes(4), "Int64Property": lambda: r.randbytes(8), "FloatProperty": lambda: struct.pack("<f", r.choice([0, 1.5])),
                "DoubleProperty": lambda: struct.pack("<d", r.choice([0, 1.5])), "ByteProperty": lambda: r.randbytes(1), "UInt32Property": lambda: r.randbytes(4),
            }.get(t, lambda: fstr(r.choice(["k", "Some", ""])))()

        body = struct.pack("<II", 0, n) + b"".join(part(kt) + part(vt) for _ in range(n))
        return "unsupported map: %s to %s x %d" % (kt, vt, n), {
            "type": "MapProperty", RAW: (len(body), fstr(kt) + fstr(vt) + b"\0" + body),
        }
    if k == 6:
        st, body = r.choice(
            [
                ("Rotator", struct.pack("<3d", 0, 90, 0)), ("IntVector", struct.pack("<3i", 1, 2, 3)), ("Vector2D", struct.pack("<2d", 1, 2)),
                ("Color", b"\1\2\3\4"), ("IntPoint", bytes(8)), ("Timespan", bytes(8)), ("SoftObjectPath", fstr("/a/b") + fstr("")), ("Box", bytes(49)),
                ("LinearColor", bytes(12)), ("Vector", bytes(12)), ("Quat", bytes(16)), ("Guid", bytes(12)),
            ]
        )
        return "unsupported struct: " + st, {"type": "StructProperty", RAW: (len(body), fstr(st) + bytes(17) + body)}
    if k == 7:
        removed = r.choice([1, 2, 3, 1 << 31, 0xFFFFFFFF])
        n = r.choice([0, 1])
        keys = b"".join(fstr("gone%d" % i) for i in range(removed)) if removed < 4 and r.random() < 0.6 else b""
        body = struct.pack("<I", removed) + keys + struct.pack("<I", n) + b"".join(fstr("k") + struct.pack("<i", 7) for _ in range(n))
        return "map with removed keys: %d" % removed, {
            "type": "MapProperty", RAW: (len(body), fstr("NameProperty") + fstr("IntProperty") + b"\0" + body),
        }
    flag = r.choice([1, 2, 255])
    gid = r.choice([b"", r.randbytes(16)])
    items = [struct.pack("<Q", r.getrandbits(40)) for _ in range(r.choice([0, 1, 2]))]
    inner = b"".join(items)
    body = (
        struct.pack("<I", len(items)) + fstr("Times") + fstr("StructProperty") + struct.pack("<Q", len(inner)) + fstr("DateTime")
        + bytes(16) + bytes([flag]) + gid + inner
    )
    return "struct array with guid flag: %d, %d bytes" % (flag, len(gid)), {
        "type": "ArrayProperty", RAW: (len(body), fstr("StructProperty") + b"\0" + body),
    }


def odd(g):
    """(what, save) with something unusual in its structure."""
    r = g.r
    k = r.randrange(12)
    if k == 0:
        doc = g.generic(2)
        h = doc["header"]
        f = r.choice(["magic", "save_game_version", "custom_version_format"])
        h[f] = r.choice([0, 1, 2, 4, 5, -1, 0x53415648, 0x47564153, 1 << 30, h[f] ^ (1 << r.randrange(31))])
        if (h["magic"], h["save_game_version"], h["custom_version_format"]) == (0x53415647, 3, 3):
            h[f] += 1
        return "header: %s=%d" % (f, h[f]), codec.encode(doc)
    if k == 1:
        # two properties of the same name, or elements of a static array
        doc = g.generic(0)
        a, b = g.any_prop(9), g.any_prop(9)
        doc["properties"] = {"Twice": a, "TwicX": b, **g.props(2, 3)}
        raw = codec.encode(doc)
        if r.random() < 0.5:
            return "duplicate property: ", raw.replace(b"TwicX\0", b"Twice\0", 1)
        at = raw.index(fstr("Twice")) + len(fstr("Twice")) + len(fstr(a["type"]))
        b = bytearray(raw)
        b[at + 4 + r.randrange(4)] = r.choice([1, 2, 128])
        return "static array index: ", bytes(b)
    if k < 7:
        what, p = unknown_property(g)
        doc = g.generic(2)
        tgt = doc["properties"]
        d = r.randrange(4)
        if d == 1:
            inner = g.props(1, 3)
            tgt["Outer"] = g.struct_("SomeStruct", inner)
            tgt = inner
        elif d == 2:
            inner = g.props(1, 3)
            tgt["List"] = g.array_("List", "SomeStruct", [g.props(1, 3), inner])
            tgt = inner
        elif d == 3:
            inner = g.props(1, 3)
            tgt["Map"] = g.smap_("NameProperty", None, [("a", inner), ("b", {})])
            tgt = inner
        tgt[g.prop_name(tgt)] = p
        if r.random() < 0.7:
            tgt[g.prop_name(tgt)] = g.any_prop(9)
        return what, codec.encode(doc)
    v = gen.variants(g)
    if k == 10:
        v = [x for x in v if x[0] == "character" or x[1] == "egg" or "egg" in str(x[1]).lower()]
    doc = g.level([r.choice(v) for _ in range(r.choice([1, 2]))])
    if k == 7:
        # something else than a block where a block is expected
        props = [p for _, p in common.custom_props(doc["properties"])]
        if props:
            p = r.choice(props)
            new = unknown_property(g)[1] if r.random() < 0.4 else g.any_prop(9)
            p.clear()
            p.update(new)
            return "other property in place of a block: ", codec.encode(doc)
    if k in (8, 9):
        # a kind nobody knows (or another known one) for an existing block
        what = rename_kind(g, doc)
        if what:
            return "other kind: " + what, what_raw(doc)
    if k == 10:
        sl = list(slots(doc))
        r.shuffle(sl)
        for slot, blob, kind in sl:
            inside = [k for k in ("object", "hatched_character_save_parameter") if isinstance(slot["value"], dict) and k in slot["value"]]
            if inside:
                what, q = unknown_property(g)
                slot["value"][inside[0]]["Odd"] = q
                return "in a block, " + what, codec.encode(doc)
    what = drop_part(g, doc)
    return "part missing: " + what, what_raw(doc)


def what_raw(doc):
    """Encode a document whose blocks were turned into raw bytes."""
    return codec.encode(doc)


def freeze(doc):
    """Turn every block into its bytes, so that changes around it do not change them."""
    for slot, blob, kind in list(slots(doc)):
        o = core.Out()
        blob.enc(o, slot["value"], kind)
        slot["value"] = {"values": list(o.b)}
    for _, p in list(common.custom_props(doc["properties"])):
        del p["custom_type"]


def rename_kind(g, doc):
    r = g.r
    found = []
    for _, p in list(common.custom_props(doc["properties"])):
        c = p["custom_type"]
        if c == codec.W + "GroupSaveDataMap":
            found += [(e["value"]["GroupType"]["value"], "value", S.GROUP_KINDS) for e in p["value"]]
        elif c == codec.W + "BaseCampSaveData.Value.ModuleMap":
            found += [(e, "key", S.CAMP_MODULE_KINDS) for e in p["value"]]
        elif c == codec.W + "WorkSaveData":
            found += [(e["WorkableType"]["value"], "value", S.WORK_KINDS) for e in p["value"]["values"]]
        elif c == codec.W + "MapObjectSaveData":
            for e in p["value"]["values"]:
                found.append((e["MapObjectId"], "value", S.CONCRETE_KINDS))
                found += [(x, "key", S.MODULE_KINDS) for x in e["ConcreteModel"]["value"]["ModuleMap"]["value"]]
    freeze(doc)
    if not found:
        return None
    cont, key, known = r.choice(found)
    old = cont[key]
    if r.random() < 0.6:
        cont[key] = r.choice([old + "X", "", "Unknown", old[:-1], "None", old.split("::")[0] + "::Max", "日本"])
    else:
        cont[key] = r.choice(known)
    return "%s becomes %s" % (old, cont[key])


def drop_part(g, doc):
    """Remove a property the decoders look for, or give it another type."""
    r = g.r
    freeze(doc)
    lists = []

    def walk(props):
        lists.append(props)
        for p in props.values():
            for q in common.inner_props(p):
                walk(q)

    walk(doc["properties"])
    lists = [x for x in lists if x]
    props = r.choice(lists)
    k = r.choice(list(props))
    if r.random() < 0.5:
        del props[k]
        return k
    props[k] = g.any_prop(9)
    return k + " replaced"


def cli(unit, m, g):
    def to(raw):
        with pwt.Dir() as d:
            d.put("a.sav", pwt.pack(raw))
            r = pwt.cli([d("a.sav"), "-o", d("a.json")])
            if r.rc:
                raise ValueError(str(r))
            return d.get("a.json").decode("utf8")

    def back(text):
        with pwt.Dir() as d:
            d.put("a.json", text)
            r = pwt.cli([d("a.json"), "-o", d("a.sav")])
            if r.rc:
                raise ValueError(str(r))
            return pwt.unpack(d.get("a.sav"))[0]

    judge = Judge(m, (to, back))
    blk = (x for doc in gen.rounds(seed_of(m.seed, "c06cli"), 10**6, chunk=1) for x in g.r.sample(list(blocks(g, doc)) or [("none", codec.encode(doc))], 1))
    for n in range(unit["docs"]):
        with m.case(100):
            judge(*(odd(g) if n % 2 else next(blk)))
            m.count("through_command")
