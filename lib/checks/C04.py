"""Values that do not fit are refused, never wrapped."""
import copy
import json

from checks import common, edits
from checks.common import seed_of
from pwref import codec, core, gen
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one document that holds one value its field cannot hold (or lacks a mandatory part, or names an unknown "
    "kind), given to the writer; distinct by place and value"
)


def units(tier, seed):
    q = tier == "quick"
    out = []
    for n in range(8 if q else 32):
        out.append({"kind": "rounds", "n": n, "rounds": 1 if q else 12, "config": ["fast", "std", "sys"][n % 3]})
    out.append({"kind": "generic", "n": 0, "docs": 60 if q else 800})
    out.append({"kind": "real", "n": 0})
    out.append({"kind": "cli", "n": 0, "docs": 250 if q else 3000})
    for n in range(4 if q else 12):
        out.append({"kind": "late", "n": n, "parts": 4, "rounds": 1 if q else 6, "config": ["fast", "std", "sys"][n % 3]})
    out.append({"kind": "numbers", "n": 0, "docs": 200 if q else 3000})
    return out


def run(unit, m):
    k = unit["kind"]
    g = gen.Gen(seed_of(m.seed, "c04", k, unit["n"]))
    per = {}
    if k == "rounds":
        docs = gen.rounds(seed_of(m.seed, k, unit["n"]), unit["rounds"], chunk=1)
    elif k == "generic":
        docs = (g.generic(4) for _ in range(unit["docs"]))
    elif k == "real":
        docs = (codec.decode(raw) for _, raw, _ in common.real_docs() if len(raw) < 60000)
    else:
        return globals()[k](unit, m, g)
    for n, doc in enumerate(docs):
        with m.case(200):
            for what, value, d in wrong(doc, g, per, k):
                refused(m, what, value, d)
    m.count("places_" + k, len(per))


def wrong(doc, g, per, kind):
    """(where and what, value, document): each document has exactly one thing wrong."""
    pristine = json.dumps(doc)
    for s in list(codec.Codec().sites(doc)):
        if per.get(s.path, 0) >= 2:
            continue
        per[s.path] = per.get(s.path, 0) + 1
        if isinstance(s.cont, dict) and s.key not in s.cont:
            continue
        old = s.get()
        bad = list(edits.misfits(s))
        if s.role in ("list", "props", "blob"):
            bad = bad[:14]
        elif len(bad) > 7:
            bad = g.r.sample(bad, 7)
        for why, v in bad:
            s.set(v)
            yield (s.path, why), v, doc
        s.set(old)
        if s.role == "scalar" and isinstance(s.cont, dict) and s.key not in edits.OPTIONAL:
            saved = dict(s.cont)
            del s.cont[s.key]
            yield (s.path, "missing"), s.key, doc
            s.cont.clear()
            s.cont.update(saved)
    for gen_ in (edits.broken_props, edits.broken_kinds):
        for what, undo in gen_(doc):
            key = (gen_.__name__, what)
            if per.get(key, 0) < 2:
                per[key] = per.get(key, 0) + 1
                yield ("kind", what), None, doc
            undo()
    for k in ("header", "properties", "trailer"):
        v = doc.pop(k)
        yield (k, "missing"), None, doc
        doc[k] = v
    if json.dumps(doc) != pristine and json.loads(json.dumps(doc)) != json.loads(pristine):
        if "NaN" not in pristine:
            raise Exception("the check did not restore the document")


def refused(m, what, value, doc):
    m.seen(repr(what), repr(value)[:200])
    m.count("refusable_" + str(what[1] if what[0] != "kind" else "kind"))
    try:
        out = pwt.from_json(json.dumps(doc))
    except Exception:
        m.count("refused")
        return
    m.fail("%s: accepted %.200r and wrote a save of %d bytes" % (what, value, len(out)), {"document": doc})


def cli(unit, m, g):
    docs = gen.rounds(seed_of(m.seed, "cli", unit["n"]), 10**6, chunk=1)
    done = 0
    while done < unit["docs"]:
        doc = next(docs)
        cases = [(w, v, json.dumps(d)) for w, v, d in wrong(doc, g, {}, "cli")]
        for what, value, text in g.r.sample(cases, min(12, len(cases))):
            done += 1
            with pwt.Dir() as d, m.case(60, {"json": text, "what": what}):
                d.put("a.json", text)
                before = d.snap()
                r = (pwt.real_cli if done < 5 else pwt.cli)([d("a.json"), "--output", d("a.sav")])
                m.seen("cli", repr(what), repr(value)[:200])
                m.count("through_command")
                if r.rc == 0 or pwt.changes(before, d.snap()):
                    m.fail("%s: %.200r: %s; files: %s" % (what, value, r, pwt.changes(before, d.snap())), {"json": text})


def late(unit, m, g):
    """Long lists in which only something far from the start does not fit."""
    r = g.r
    done = set()
    docs = gen.rounds(seed_of(m.seed, "late", unit["n"] // unit["parts"]), unit["rounds"], chunk=1)
    for i, doc in enumerate(docs):
        if i % unit["parts"] != unit["n"] % unit["parts"]:
            continue
        for s in list(codec.Codec().sites(doc)):
            if s.path in done or isinstance(s.cont, dict) and s.key not in s.cont:
                continue
            old = s.get()
            if not (s.role == "list" or s.ty.name == "rest") or not isinstance(old, list) or not old:
                continue
            done.add(s.path)
            plain = not isinstance(old[0], (dict, list))
            n = r.choice([300, 1030, 5000, 66000] if plain else [260, 700])
            n = max(40, min(n, 600000 // max(1, len(json.dumps(old)) // len(old))))
            new = json.loads(json.dumps((old * (n // len(old) + 1))[:n]))
            s.set(new)
            with m.case(200):
                at = r.choice([n - 1, n - 1, n // 2, r.randrange(n // 2, n)])
                if plain:
                    v = old[0]
                    if isinstance(v, int):
                        bad = [1 << 40, None, "a", []]
                        if s.ty.name == "rest" or getattr(s.ty, "kind", None) == "ByteProperty":
                            bad = [256, -1, 256, -1] + bad
                    else:
                        bad = [None, 5, [], {}]
                    for x in r.sample(bad, 3):
                        keep, new[at] = new[at], x
                        refused(m, (s.path, "in a long list"), x, doc)
                        new[at] = keep
                else:
                    inside = set()
                    reach(new[at], inside)
                    places = [t for t in codec.Codec().sites(doc) if id(t.cont) in inside and t.role == "scalar"]
                    for t in r.sample(places, min(3, len(places))):
                        if isinstance(t.cont, dict) and t.key not in t.cont:
                            continue
                        bad = list(edits.misfits(t))
                        if bad:
                            keep = t.get()
                            why, x = r.choice(bad)
                            t.set(x)
                            refused(m, (t.path, "in a long list"), x, doc)
                            t.set(keep)
                    for x in (None, 5):
                        keep, new[at] = new[at], x
                        refused(m, (s.path, "in a long list"), x, doc)
                        new[at] = keep
            s.set(old)


def reach(x, out):
    if isinstance(x, (dict, list)):
        out.add(id(x))
        for v in x.values() if isinstance(x, dict) else x:
            reach(v, out)


BIG = ["1e999", "-1e999", "1e309", "-1E+400", "1.7976931348623159e308", "9" * 400 + ".5", "179769313486231590772931e300"]


def numbers(unit, m, g):
    """Numbers that only JSON text can hold."""
    docs = gen.rounds(seed_of(m.seed, "numbers", unit["n"]), 10**6, chunk=1)
    done = 0
    per = {}
    while done < unit["docs"]:
        doc = next(docs) if g.r.random() < 0.8 else g.generic(4)
        places = [s for s in codec.Codec().sites(doc) if s.role == "scalar" and s.ty.name in ("f32", "f64")]
        g.r.shuffle(places)
        places.sort(key=lambda s: per.get(s.path, 0))
        for s in places[:8]:
            if isinstance(s.cont, dict) and s.key not in s.cont:
                continue
            per[s.path] = per.get(s.path, 0) + 1
            done += 1
            old = s.get()
            s.set("@BIG@")
            number = g.r.choice(BIG)
            text = json.dumps(doc).replace('"@BIG@"', number)
            s.set(old)
            with pwt.Dir() as d, m.case(60, {"json": text, "at": s.path}):
                d.put("a.json", text)
                before = d.snap()
                r = (pwt.real_cli if done < 3 else pwt.cli)([d("a.json"), "--output", d("a.sav")])
                m.seen("number", s.path, number)
                m.count("numbers_beyond_all_floats")
                if r.rc == 0 or pwt.changes(before, d.snap()):
                    m.fail("%s: the number %.30s: %s; files: %s" % (s.path, number, r, pwt.changes(before, d.snap())), {"json": text})
    m.count("places_of_numbers", len(per))
