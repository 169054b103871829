"""Decoders and type hints supplied by the caller are used as the library promises."""
import json

from checks import common
from checks.C01 import diff
from checks.C02 import pairs
from checks.common import seed_of
from pwref import codec, core, gen
from pwref import schemas as S
from pwref.tables import CUSTOM_PATHS, HINTS
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one save read and written back with one table of caller-supplied decoder/encoder pairs and type hints, each "
    "call of which is recorded and compared with what an independent decoder says it must be given; distinct by save, table and hints"
)
W = codec.W
# The shipped decoders at these paths look into properties below them
DEEP = (W + "GroupSaveDataMap", W + "BaseCampSaveData.Value.ModuleMap", W + "WorkSaveData", W + "MapObjectSaveData")
STYLES = ["pass", "pass", "skip", "skip", "wrap", "sub", "equal", "debug"]


def units(tier, seed):
    q = tier == "quick"
    out = []
    for n in range(6 if q else 30):
        out.append({"kind": "rounds", "n": n, "rounds": 10 if q else 80, "times": 3, "config": ["fast", "std", "sys"][n % 3]})
    for n in range(13):
        out.insert(0, {"kind": "real", "n": n, "times": 1 if q else 12})
    for n in range(2 if q else 8):
        out.append({"kind": "generic", "n": n, "docs": 600 if q else 4000, "times": 3})
    for n in range(4 if q else 12):
        out.append({"kind": "hints", "n": n, "docs": 400 if q else 1500, "config": ["fast", "std", "sys"][n % 3]})
    out.append({"kind": "faults", "n": 0, "docs": 400 if q else 1500})
    return out


# ---- what the independent decoder expects -----------------------------------------------------


class Ext(codec.Codec):
    def __init__(self, table, hints=HINTS):
        super().__init__([p for p, s in table.items() if s == "shipped"], hints)
        self.styles = {p: s for p, s in table.items() if s != "shipped"}
        self.calls = {}
        self.places = []  # (path, type, what of) of every property met, the path starting over inside a block
        self.nest = 0  # property lists that start a path: 1 in the save itself, 2 in a block

    def dec_props(self, i, path):
        self.nest += path == ""
        try:
            return super().dec_props(i, path)
        finally:
            self.nest -= path == ""

    def decode(self, data):
        old, S.Props.codec = S.Props.codec, self
        try:
            return super().decode(data)
        finally:
            S.Props.codec = old

    def dec_prop(self, i, t, size, path):
        style = self.styles.get(path)
        at = i.p
        if style is None:
            v = super().dec_prop(i, t, size, path)
            self.places.append((path, t, v.get("array_type"), v.get("struct_type")))
            return v
        call = {"type": t, "size": size, "path": path, "inside": self.nest > 1}
        self.calls.setdefault(path, []).append(call)
        if style == "skip":
            v = {"skipped": t}
            for k, ty in SKIP[t]:
                v[k] = ty.dec(i)
            v["payload"] = bytes(i.take(size)).hex()
        else:
            v = super().dec_prop(i, t, size, path)
            if style == "wrap":
                v = {"wrapped": v, "at": path, "declared": size}
        call["given"] = v
        v["custom_type"] = path
        v["type"] = t
        return v


ID = [("id", core.OPTGUID)]
SKIP = {t: ID for t in codec.SIMPLE}
SKIP.update(
    EnumProperty=[("enum", core.STR)] + ID,
    BoolProperty=[("flag", core.BOOL8)] + ID,
    StructProperty=[("struct", core.STR), ("sid", core.GUID)] + ID,
    ArrayProperty=[("of", core.STR)] + ID,
    MapProperty=[("keys", core.STR), ("values", core.STR)] + ID,
)
NAME = {id(core.STR): "fstring", id(core.OPTGUID): "optional_guid", id(core.GUID): "guid", id(core.BOOL8): "bool"}


# ---- the caller's side ------------------------------------------------------------------------


def pair(style, path, log):
    """A decoder and an encoder as callers write them, which note what they are given."""

    def decode(reader, type_name, size, where):
        call = {"type": type_name, "size": size, "path": where}
        log["decode"].setdefault(path, []).append(call)
        if style == "skip":
            v = {"skipped": type_name}
            for k, ty in SKIP[type_name]:
                v[k] = getattr(reader, NAME[id(ty)])()
            v["payload"] = bytes(reader.read(size)).hex()
        elif style == "sub":
            v = {"struct_type": reader.fstring(), "struct_id": reader.guid(), "id": reader.optional_guid()}
            inner = reader.internal_copy(reader.read(size), debug=False)
            v["value"] = inner.properties_until_end(where)
            if not inner.eof():
                raise Exception("more than the declared size of %s" % where)
        elif style == "debug":
            from palworld_save_tools.rawdata import debug

            v = debug.decode(reader, type_name, size, where)
        elif style == "equal":
            v = reader.property(type_name, size, where, nested_caller_path="".join(list(where)))
        else:
            v = reader.property(type_name, size, where, nested_caller_path=where)
            if style == "wrap":
                v = {"wrapped": v, "at": where, "declared": size}
        call["given"] = json.loads(pwt.text(v))
        return v

    def encode(writer, type_name, p):
        log["encode"].setdefault(path, []).append({"type": type_name, "given": json.loads(pwt.text(p))})
        if style == "skip":
            for k, ty in SKIP[type_name]:
                getattr(writer, NAME[id(ty)])(p[k])
            data = bytes.fromhex(p["payload"])
            writer.write(data)
            return len(data)
        if style == "sub":
            writer.fstring(p["struct_type"])
            writer.guid(p["struct_id"])
            writer.optional_guid(p["id"])
            inner = writer.copy()
            inner.properties(p["value"])
            writer.write(inner.bytes())
            return len(inner.bytes())
        if style == "debug":
            from palworld_save_tools.rawdata import debug

            return debug.encode(writer, type_name, p)
        if style == "wrap":
            p = p["wrapped"]
        p.pop("custom_type", None)
        return writer.property_inner(type_name, p)

    return decode, encode


def tables(table, log):
    out = {}
    for path, style in table.items():
        out[path] = pwt.PALWORLD_CUSTOM_PROPERTIES[path] if style == "shipped" else pair(style, path, log)
    return out


def below(path, tops):
    return any(path.startswith(t + ".") for t in tops)


def choose(r, places, exotic=True):
    """A table for a save with these places."""
    k = r.randrange(6)
    table = {}
    if k:
        for p in CUSTOM_PATHS:
            if k > 2 or r.random() < 0.6:
                table[p] = "shipped"
    kinds = {}
    for path, t, at, st in places:
        kinds.setdefault(path, set()).add((t, at, st))
    paths = sorted(kinds)
    if not paths:
        return table
    n = min(len(paths), r.choice([1, 1, 2, 4, 10, 40]))
    mine = r.sample(paths, n)
    known = [p for p in paths if p in CUSTOM_PATHS]
    if known and r.random() < 0.5:
        mine.append(r.choice(known))
    if r.random() < 0.3:
        mine += [p for p in (".worldSaveData", ".SaveParameter", W + "MapObjectSaveData") if p in kinds]
    for p in mine:
        fits = [
            s for s in STYLES
            if (s != "sub" or all(t == "StructProperty" and st not in codec.NATIVE for t, _, st in kinds[p]))
            and (s != "debug" or all(t == "ArrayProperty" and at == "ByteProperty" for t, at, _ in kinds[p]))
        ]
        table[p] = r.choice(fits)
    # Keep the caller's decoders away from what shipped ones look into
    tops = [t for t in DEEP if table.get(t) == "shipped"]
    for p in list(table):
        if table[p] != "shipped" and below(p, tops):
            del table[p]
    if r.random() < 0.2:
        table[".not.there"] = "pass"
    items = list(table.items())
    r.shuffle(items)
    return dict(items)


def compare_calls(m, what, got, expect, keys, raw, table):
    for path in sorted(set(got) | set(expect)):
        a, b = got.get(path, []), expect.get(path, [])
        if len(a) != len(b):
            m.fail("%s at %r was called %d times for %d properties" % (what, path, len(a), len(b)), {"gvas": raw, "table": table})
            return False
        for n, (x, y) in enumerate(zip(a, b)):
            for k in keys:
                d = core.first_diff(x[k], y[k])
                if d:
                    m.fail("%s at %r, call %d: %s (first: what it was given, second: what is there) %s" % (what, path, n, k, d), {"gvas": raw, "table": table})
                    return False
    return True


def small(raw):
    return raw if len(raw) < 200000 else None


def judge(m, raw, table, hints, expect=None, through_json=True):
    """One save with one table and one set of hints."""
    data = {"gvas": small(raw), "table": table, "hints": hints if len(hints) < 60 else None}
    ref = Ext(table, hints)
    want = ref.decode(raw)
    if expect is not None and core.first_diff(want, expect):
        raise core.RefError("the model disagrees with itself: " + core.first_diff(want, expect))
    log = {"decode": {}, "encode": {}}
    t = tables(table, log)
    g = pwt.GvasFile.read(raw, hints, t)
    doc = g.dump()
    text = pwt.text(doc)
    m.count("decoder_calls", sum(map(len, log["decode"].values())))
    got = json.loads(text, object_pairs_hook=pairs)
    if not compare_calls(m, "the decoder", log["decode"], ref.calls, ("type", "size", "path"), raw, table):
        return
    d = core.first_diff(got, want)
    if d:
        m.fail("the JSON shows (first) and decoders and save give (second) at %s" % d, data)
        return
    if not codec.same_order(got, want):
        m.fail("properties are not in file order", data)
        return
    if through_json:
        doc = json.loads(text)
    back = pwt.GvasFile.load(doc).write(t)
    m.count("encoder_calls", sum(map(len, log["encode"].values())))
    given = {
        p: [{"type": c["type"], "given": {**c["given"], "custom_type": p, "type": c["type"]}} for c in calls]
        for p, calls in log["decode"].items()
    }
    if not compare_calls(m, "the encoder", log["encode"], given, ("type", "given"), raw, table):
        return
    if back != raw:
        m.fail("written with the same table: " + diff(raw, back), data)
        return
    if pwt.text(doc) != text:
        m.fail("writing changed the document", data)
    return text


def survey(raw, table=None):
    ref = Ext({p: "shipped" for p in CUSTOM_PATHS} if table is None else table)
    ref.decode(raw)
    return ref.places


def run(unit, m):
    k = unit["kind"]
    g = gen.Gen(seed_of(m.seed, "c21", k, unit["n"]))
    if k == "hints":
        return hinted(unit, m, g)
    if k == "faults":
        return faults(unit, m, g)
    if k == "rounds":
        docs = (codec.encode(d) for d in gen.rounds(seed_of(m.seed, "c21r", unit["n"]), unit["rounds"]))
    elif k == "generic":
        docs = (codec.encode(g.generic(g.r.choice([1, 4, 6, 9]))) for _ in range(unit["docs"]))
    else:
        docs = [raw for _, raw, _ in common.real_docs()][unit["n"] :: 13]
    for raw in docs:
        places = survey(raw)
        if g.r.random() < 0.5:
            places += survey(raw, {})
        for _ in range(unit["times"]):
            table = choose(g.r, places)
            with m.case(200, {"table": table, "gvas": small(raw)}):
                m.seen(raw, repr(sorted(table.items())))
                for s in table.values():
                    m.count("entries_" + s)
                text = judge(m, raw, table, HINTS if k != "generic" else {}, through_json=g.r.random() < 0.7)
                if text:
                    m.sample({"table": {p: s for p, s in table.items() if s != "shipped"}, "json": text[:300]})


# ---- type hints ---------------------------------------------------------------------------------


class Learn(dict):
    """Hands out the types the maps were made with and notes under which path they are asked for."""

    def __init__(self, made):
        super().__init__()
        self.made, self.found = made, {}

    def get(self, path, default=None):
        name, part = path.split(".")[-2:]
        if name in self.made:
            t = self.made[name][part]
            if t is not None and t != default:
                self.found[path] = t
            elif t is not None and self.made[name]["always"]:
                self.found[path] = t
            return t or default
        return HINTS.get(path, default)


TYPES = list(codec.NATIVE) + ["StructProperty", "PalInstanceID", "vector", "GUID", "Transform"]


def part_value(g, t, st, made, depth):
    if t != "StructProperty":
        return g.part(t, None, 3)
    if st in codec.NATIVE:
        return codec.NATIVE[st].gen(g, "hint/" + st)
    v = g.props(g.r.randrange(3), 3)
    if depth < 3 and g.r.random() < 0.4:
        add_map(g, v, made, depth + 1)
    return v


def add_map(g, props, made, depth=0):
    r = g.r
    name = "Hinted%d" % len(made)
    made[name] = {}
    while True:
        kt, vt = r.choice(gen.MAP_TYPES), r.choice(gen.MAP_TYPES)
        if "StructProperty" in (kt, vt):
            break
    ks = g.pick("ks", TYPES) if kt == "StructProperty" else None
    vs = g.pick("vs", TYPES) if vt == "StructProperty" else None
    made[name] = {"Key": ks, "Value": vs, "always": r.random() < 0.5}
    n = r.choice([0, 1, 1, 2, 3, 5])
    sub = {}
    entries = []
    for _ in range(n):
        # Maps inside are at the same path in every entry, so only one entry has them
        entries.append((part_value(g, kt, ks, made, 3 if sub else depth), part_value(g, vt, vs, made, 3 if sub else depth)))
        sub = True
    p = g.map_(kt, ks, vt, vs, entries)
    items = list(props.items())
    items.insert(r.randrange(len(items) + 1), (name, p))
    props.clear()
    props.update(items)


def hinted(unit, m, g):
    level = gen.rounds(seed_of(m.seed, "c21h", unit["n"]), 10**6)
    for n in range(unit["docs"]):
        doc = next(level) if n % 3 == 0 else g.generic(g.r.choice([1, 3, 5]))
        made = {}
        lists = [s for s in codec.Codec().sites(doc) if s.role == "props"]
        inner = [s for s in lists if "~" in s.path]
        for _ in range(g.r.choice([1, 2, 3])):
            s = g.r.choice(inner if inner and g.r.random() < 0.4 else lists)
            add_map(g, s.get(), made)
        raw = codec.encode(doc)
        learn = Learn(made)
        shipped = {p: "shipped" for p in CUSTOM_PATHS}
        expect = Ext(shipped, learn).decode(raw)
        hints = {**HINTS, **learn.found}
        # Hints for other places, and for keys and values that are no structs, say nothing
        for name, d in made.items():
            for part in ("Key", "Value"):
                if d[part] is None:
                    for p in learn.found:
                        if ("." + name) in p:
                            hints[p.split("." + name)[0] + "." + name + "." + part] = "Vector"
        hints[".Elsewhere.Key"] = "Quat"
        places = survey_hinted(raw, hints)
        table = choose(g.r, places) if n % 2 else shipped
        with m.case(120, {"hints": learn.found, "table": table, "gvas": small(raw)}):
            m.seen(raw, repr(sorted(learn.found.items())), repr(sorted(table.items())))
            m.count("hinted_maps", len(made))
            m.count("hints", len(learn.found))
            judge(m, raw, table, hints, expect if table is shipped else None, g.r.random() < 0.5)
            m.sample({"hints": learn.found})


def survey_hinted(raw, hints):
    ref = Ext({p: "shipped" for p in CUSTOM_PATHS}, hints)
    ref.decode(raw)
    return ref.places


# ---- failing and missing decoders ------------------------------------------------------------------


class Oops(Exception):
    pass


def faults(unit, m, g):
    level = gen.rounds(seed_of(m.seed, "c21f", unit["n"]), 10**6)
    for n in range(unit["docs"]):
        raw = codec.encode(next(level) if n % 2 else g.generic(5))
        places = survey(raw)
        table = choose(g.r, places)
        ref = Ext(table)
        want = ref.decode(raw)
        # Blocks that cannot be decoded may be kept as they are
        mine = sorted(p for p, calls in ref.calls.items() if not all(c["inside"] for c in calls))
        if not mine:
            continue
        bad = g.r.choice(mine)
        data = {"gvas": small(raw), "table": table, "path": bad}
        with m.case(120, data):
            m.seen(raw, repr(sorted(table.items())), bad)
            log = {"decode": {}, "encode": {}}
            t = tables(table, log)
            text = pwt.text(pwt.GvasFile.read(raw, HINTS, t).dump())

            def fail(*_):
                raise Oops()

            broken = dict(t)
            broken[bad] = (fail, t[bad][1])
            m.count("failing_decoders")
            try:
                pwt.GvasFile.read(raw, HINTS, broken)
                m.fail("the decoder at %r failed, the save was read nevertheless" % bad, data)
            except Oops:
                pass
            m.count("failing_encoders")
            broken[bad] = (t[bad][0], fail)
            try:
                pwt.GvasFile.load(json.loads(text)).write(broken)
                m.fail("the encoder at %r failed, the save was written nevertheless" % bad, data)
            except Oops:
                pass
            m.count("missing_encoders")
            del broken[bad]
            try:
                pwt.GvasFile.load(json.loads(text)).write(broken)
                written = True
            except Exception:
                written = False
            if written:
                m.fail("there was no encoder for %r, the save was written nevertheless" % bad, data)
            # and nothing of this lasts
            back = pwt.GvasFile.load(json.loads(text)).write(t)
            if back != raw:
                m.fail("after failures: " + diff(raw, back), data)
