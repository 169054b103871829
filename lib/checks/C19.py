"""Equivalent and older JSON forms give the same save."""
import copy
import itertools
import json
import math

from checks import common
from checks.C01 import diff
from checks.common import seed_of
from pwref import codec, core, gen
from pwref import schemas as S
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one document in another accepted form, converted and compared byte for byte with the save the format prescribes "
    "for the canonical document; distinct by the text converted"
)
FORMS = ["raw", "old_transform", "guids", "no_ids", "ints", "order", "layout"]


def units(tier, seed):
    q = tier == "quick"
    out = []
    for n in range(12 if q else 48):
        out.append({"kind": "rounds", "n": n, "rounds": 7 if q else 40, "config": ["fast", "std", "sys"][n % 3]})
    for n in range(3 if q else 12):
        out.append({"kind": "generic", "n": n, "docs": 200 if q else 3000, "config": ["fast", "std", "sys"][n % 3]})
    for n in range(4):
        out.append({"kind": "real", "n": n})
    for n in range(2 if q else 8):
        out.append({"kind": "cli", "n": n, "docs": 60 if q else 800})
    return out


RAW_OK = {id(x) for x in (S.GROUP, S.CAMP_MODULE, S.WORK, S.MAP_MODEL, S.CONNECTOR, S.BUILD_PROCESS, S.CONCRETE, S.MODULE)}


def slots(doc):
    for path, p in common.custom_props(doc["properties"]):
        yield from codec.blob_slots(p["custom_type"], p)


def block_bytes(slot, blob, kind):
    v = slot["value"]
    if isinstance(v, dict) and v.keys() == {"values"}:
        return bytes(v["values"])
    o = core.Out()
    blob.enc(o, v, kind)
    return bytes(o.b)


def raw(doc, r, share):
    n = 0
    for slot, blob, kind in list(slots(doc)):
        if id(blob) in RAW_OK and r.random() < share:
            slot["value"] = {"values": list(block_bytes(slot, blob, kind))}
            n += 1
    return n


def old_transform(doc, r, share):
    n = 0
    for slot, blob, kind in slots(doc):
        v = slot["value"]
        if blob is not S.WORK or not isinstance(v, dict) or "transform" not in v:
            continue
        t = v["transform"]
        if t.get("type") != 1 or "v2" not in t or r.random() >= share:
            continue
        d = [t["rotation"][k] for k in "xyzw"] + [t["translation"][k] for k in "xyz"] + [t["scale3d"][k] for k in "xyz"]
        new = [("type", 1), ("location", dict(zip("xyz", d[:3]))), ("rotation", dict(zip("xyzw", d[3:7]))), ("scale", dict(zip("xyz", d[7:])))]
        if r.random() < 0.3:
            r.shuffle(new)
        v["transform"] = dict(new)
        n += 1
    return n


def guids(doc, r, share):
    n = 0
    for s in list(codec.Codec().sites(doc)):
        if s.ty.name in ("guid", "optguid") and isinstance(s.cont, dict) and s.key not in s.cont:
            continue
        if s.ty.name in ("guid", "optguid") and s.get() is not None and r.random() < share:
            t = s.get()
            s.set(r.choice([t.upper(), t.replace("-", ""), t.upper().replace("-", ""), "".join(r.choice([c, c.upper()]) for c in t)]))
            n += 1
    return n


def no_ids(doc, r, share):
    n = 0
    for s in list(codec.Codec().sites(doc)):
        if s.ty.name == "optguid" and s.key == "id" and isinstance(s.cont, dict) and "type" in s.cont and s.cont.get("id", 0) is None and r.random() < share:
            del s.cont["id"]
            n += 1
    return n


def ints(doc, r, share):
    n = 0

    def whole(x):
        return isinstance(x, float) and math.isfinite(x) and x == int(x) and abs(x) < 1 << 53 and not (x == 0 and math.copysign(1, x) < 0)

    for s in list(codec.Codec().sites(doc)):
        if s.ty in (core.F32, core.F64) and whole(s.get()) and r.random() < share:
            s.set(int(s.get()))
            n += 1
        elif s.ty.name in ("rotator", "packed") and r.random() < share:
            s.set({k: int(x) if whole(x) else x for k, x in s.get().items()})
            n += 1
    return n


def order(doc, r, share):
    props = {id(s.get()) for s in codec.Codec().sites(doc) if s.role == "props"}
    n = [0]

    def walk(x):
        if isinstance(x, dict):
            items = list(x.items())
            if id(x) not in props and len(items) > 1 and r.random() < share:
                r.shuffle(items)
                x.clear()
                x.update(items)
                n[0] += 1
            for k, v in items:
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    walk(doc)
    return n[0]


def dump(doc, r):
    """JSON with whitespace, escapes and notation of numbers all over the place."""
    k = r.randrange(4)
    if k == 0:
        return json.dumps(doc, ensure_ascii=True, indent=r.choice([None, 0, 1, 4, "\t", " \t"]), separators=r.choice([None, (",", ":"), (" , ", " : ")]))
    if k == 1:
        t = json.dumps(doc, ensure_ascii=False, indent=r.choice([None, 3]))
        return t if not any("\ud800" <= c <= "\udfff" for c in t) else json.dumps(doc)
    out = []
    lazy = r.random() < 0.5

    def ws():
        if not lazy and r.random() < 0.2:
            out.append(r.choice([" ", "\n", "\t", "\r\n", "   "]))

    def text(s):
        if lazy and r.random() < 0.8:
            out.append(json.dumps(s))
            return
        out.append('"')
        for c in s:
            o = ord(c)
            if o > 0xFFFF:
                o -= 0x10000
                out.append("\\u%04x\\u%04X" % (0xD800 + (o >> 10), 0xDC00 + (o & 0x3FF)))
            elif c in '"\\':
                out.append("\\" + c)
            elif c == "/" and r.random() < 0.5:
                out.append("\\/")
            elif o < 32 or r.random() < 0.2 or 0xD800 <= o <= 0xDFFF:
                out.append(r.choice(["\\u%04x", "\\u%04X"]) % o)
            elif o > 126 and r.random() < 0.5:
                out.append("\\u%04x" % o)
            else:
                out.append(c)
        out.append('"')

    def put(x):
        ws()
        if isinstance(x, bool) or x is None:
            out.append(json.dumps(x))
        elif isinstance(x, float):
            if math.isfinite(x) and x == x and r.random() < 0.4:
                out.append(r.choice(["%.17e", "%.20g", "%.17E"]) % x if "." in repr(x) else repr(x))
                if not any(c in out[-1] for c in ".eE"):
                    out[-1] += ".0"
            else:
                out.append(json.dumps(x))
        elif isinstance(x, int):
            out.append(str(x))
        elif isinstance(x, str):
            text(x)
        elif isinstance(x, dict):
            out.append("{")
            for i, (a, b) in enumerate(x.items()):
                if i:
                    out.append(",")
                ws()
                text(a)
                ws()
                out.append(":")
                put(b)
            ws()
            out.append("}")
        else:
            if x and all(type(i) is int for i in x):
                out.append(json.dumps(list(x)))
            else:
                out.append("[")
                for i, b in enumerate(x):
                    if i:
                        out.append(",")
                    put(b)
                ws()
                out.append("]")
        ws()

    put(doc)
    return "".join(out)


def variants(m, doc, r):
    """(forms used, text)"""
    plan = [[f] for f in FORMS if f != "layout"] + [r.sample(FORMS, r.randint(2, len(FORMS))) for _ in range(2)] + [["layout"]]
    r.shuffle(plan)
    for forms in plan:
        d = copy.deepcopy(doc)
        share = r.choice([1.0, 1.0, 0.5, 0.1])
        changed = 0
        # forms that need the document as it is shown come first
        for f in ("ints", "guids", "no_ids", "order", "raw", "old_transform"):
            if f in forms:
                c = globals()[f](d, r, share)
                m.count("changed_by_" + f, c)
                changed += c
        if changed or "layout" in forms:
            yield forms, dump(d, r) if "layout" in forms else json.dumps(d)


def judge(m, doc, r, convert, limit=99):
    want = codec.encode(doc)
    for forms, text in itertools.islice(variants(m, doc, r), limit):
        m.seen(text)
        m.count("documents")
        try:
            got = convert(text)
        except Exception as e:
            m.fail("%s: refused: %r" % (forms, e), {"json": text if len(text) < 100000 else None})
            continue
        if got != want:
            m.fail("%s: %s" % (forms, diff(want, got)), {"json": text if len(text) < 100000 else None})
        m.sample({"forms": forms, "json": text[:400]})


def command(n):
    def f(text):
        with pwt.Dir() as d:
            d.put("a.json", text.encode("utf8"))
            res = (pwt.real_cli if n < 2 else pwt.cli)([d("a.json"), "-o", d("o")])
            if res.rc:
                raise ValueError(str(res))
            return pwt.unpack(d.get("o"))[0]

    return f


def run(unit, m):
    k = unit["kind"]
    g = gen.Gen(seed_of(m.seed, "c19", k, unit["n"]))
    if k == "rounds":
        for doc in gen.rounds(seed_of(m.seed, "c19r", unit["n"]), unit["rounds"], 5):
            with m.case(200):
                judge(m, doc, g.r, pwt.from_json)
    elif k == "generic":
        for _ in range(unit["docs"]):
            with m.case(100):
                judge(m, g.generic(g.r.choice([1, 4, 7])), g.r, pwt.from_json)
    elif k == "real":
        docs = [(p, rw) for p, rw, t in common.real_docs()][unit["n"] :: 4]
        for p, rw in docs:
            with m.case(200):
                judge(m, codec.decode(rw), g.r, pwt.from_json, 99 if len(rw) < 300000 else 2)
    else:
        level = gen.rounds(seed_of(m.seed, "c19c", unit["n"]), 10**6, 4)
        for n in range(unit["docs"]):
            with m.case(100):
                doc = next(level)
                vs = list(variants(m, doc, g.r))
                forms, text = g.r.choice(vs)
                m.seen(text)
                m.count("through_command")
                got = command(n)(text)
                if got != codec.encode(doc):
                    m.fail("%s: %s" % (forms, diff(codec.encode(doc), got)))
