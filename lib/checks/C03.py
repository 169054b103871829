"""JSON edits reach the save, and nothing else changes."""
import copy
import json

from checks import common, edits
from checks.C01 import diff
from checks.common import seed_of
from pwref import codec, core, gen
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one document with one or more edits converted to a save, compared byte for byte with the save an "
    "independent encoder prescribes and read back to the edited document; distinct by the edited place, kind of edit and document"
)


def units(tier, seed):
    q = tier == "quick"
    out = []
    for n in range(8 if q else 48):
        out.append({"kind": "rounds", "n": n, "rounds": 6 if q else 80, "config": ["fast", "std", "sys"][n % 3]})
    out.append({"kind": "generic", "n": 0, "docs": 300 if q else 4000})
    for n in range(13):
        out.insert(0, {"kind": "real", "n": n, "times": 1 if q else 10})
    out.append({"kind": "cli", "n": 0, "docs": 80 if q else 600})
    return out


def judge(m, doc, what, convert):
    raw = edits.prescribed(doc)
    if raw is None:
        m.count("edits_with_no_prescribed_save")
        return False
    got = convert(json.dumps(doc))
    m.seen(repr(what), raw[-4096:])
    for w in what:
        m.count("edit_" + str(w[1]))
    if got != raw:
        m.fail("after %r: %s" % (what, diff(raw, got)), {"document": doc if len(raw) < 60000 else None, "edits": what})
        return
    back = json.loads(pwt.to_json(got))
    d = core.first_diff(back, doc)
    if d or not codec.same_order(back, doc):
        m.fail("after %r the save shows (first) instead of the edited (second): %s" % (what, d or "another order"))


def apply(doc, g, n):
    what = []
    for s in edits.sites(doc, g, n):
        how = edits.edit(s, g)
        if how:
            what.append((s.path, how))
            if how in ("delete", "clear", "insert", "shuffle", "rename", "swap", "dup", "reverse", "grow") or s.role == "blob":
                break  # other sites may be gone now
    return what


def run(unit, m):
    k = unit["kind"]
    g = gen.Gen(seed_of(m.seed, "edit", k, unit["n"]))
    if k == "rounds":
        for n, doc in enumerate(gen.rounds(seed_of(m.seed, k, unit["n"]), unit["rounds"], chunk=3)):
            session(m, g, doc, 8, pwt.from_json)
            if n == 0:
                m.sample({"edited": sorted(g.used)[:20]})
    elif k == "generic":
        for _ in range(unit["docs"]):
            session(m, g, g.generic(5), 6, pwt.from_json)
    elif k == "real":
        for _ in range(unit["times"]):
            for name, raw, t in list(common.real_docs())[unit["n"] :: 13]:
                session(m, g, codec.decode(raw), 1 if len(raw) > 400000 else 6, pwt.from_json, many=25)
    elif k == "cli":
        docs = gen.rounds(seed_of(m.seed, k, unit["n"]), 10**6, chunk=3)
        for _ in range(unit["docs"]):
            session(m, g, next(docs), 1, command)
    m.count("places_edited_" + k, len(g.used))


def session(m, g, doc, times, convert, many=4):
    """Repeated edits of the same document, each judged."""
    for _ in range(times):
        with m.case(120, {"document": doc if len(str(doc)) < 60000 else None}):
            before = copy.deepcopy(doc)
            what = apply(doc, g, g.r.randint(1, many))
            if not what:
                continue
            if judge(m, doc, what, convert) is False:
                doc = before


def command(text):
    with pwt.Dir() as d:
        d.put("a.json", text)
        r = pwt.cli([d("a.json"), "-o", d("a.sav")])
        if r.rc:
            raise Exception("the command failed: %s" % r)
        raw, t = pwt.unpack(d.get("a.sav"))
        want = pwt.save_type_for(json.loads(text)["header"]["save_game_class_name"])
        if t != want:
            raise Exception("save type is %x and should be %x" % (t, want))
        return raw
