"""--convert-nan-to-null gives strict JSON and changes nothing else."""
import json
import math

from checks import common
from checks.C01 import diff
from checks.C02 import judge as judge_doc
from checks.common import seed_of
from pwref import codec, core, gen
from pwref.tables import CUSTOM_PATHS
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one save converted with the option, parsed as strict JSON, compared with the independently decoded document "
    "in which every number that is not finite is null, and converted back; distinct by content of the save"
)


def units(tier, seed):
    q = tier == "quick"
    u = common.units(tier, seed, quick_rounds=25, thorough_rounds=200)
    u = [x for x in u if x["kind"] not in ("stretch",)]
    for n in range(8 if q else 32):
        u.append({"kind": "odd", "n": n, "rounds": 10 if q else 100, "config": ["fast", "std", "sys"][n % 3]})
    for n in range(2 if q else 8):
        u.append({"kind": "cli", "n": n, "docs": 60 if q else 600, "config": ["fast", "sys"][n % 2]})
    return u


def nulled(v, count):
    if isinstance(v, float) and not math.isfinite(v):
        count[0] += 1
        return None
    if isinstance(v, dict):
        return {k: nulled(x, count) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [nulled(x, count) for x in v]
    return v


def strict(text):
    def no(x):
        raise ValueError("not strict JSON: " + x)

    return json.loads(text, parse_constant=no)


def poison(doc, r, share):
    """Put numbers that are not finite into float fields."""
    n = 0
    for s in list(codec.Codec().sites(doc)):
        if s.ty in (core.F32, core.F64) and r.random() < share:
            s.set(r.choice([math.nan, math.inf, -math.inf]))
            n += 1
        elif s.ty.name == "packed" and r.random() < share:
            v = dict(s.get())
            v = {k: float(x) for k, x in v.items()}
            for k in r.sample("xyz", r.randint(1, 3)):
                v[k] = r.choice([math.nan, math.inf, -math.inf])
            s.set(v)
    return doc


def judge(m, doc, raw, text, back, label):
    count = [0]
    want = nulled(doc, count)
    m.seen(raw)
    m.count("nulls", count[0])
    m.count("saves_with_such_numbers" if count[0] else "saves_without")
    try:
        strict(text)
    except ValueError as e:
        m.fail("%s: %s" % (label, e), {"gvas": raw})
        return
    judge_doc(m, label, want, text, raw)
    expect = bytes(codec.Codec().encode(want).b)
    got = back(text)
    if got != expect:
        m.fail("%s, converted back: %s" % (label, diff(expect, got)), {"gvas": raw})


def run(unit, m):
    k = unit["kind"]
    if k == "cli":
        return cli(unit, m)
    g = gen.Gen(seed_of(m.seed, "c12", k, unit.get("n")))
    if k == "odd":
        docs = ((("odd", n), poison(d, g.r, g.r.choice([0.05, 0.5, 1.0]))) for n, d in enumerate(gen.rounds(seed_of(m.seed, "c12r", unit["n"]), unit["rounds"], 6)))
    else:
        docs = common.docs(unit, m)
    for n, (label, doc) in enumerate(docs):
        raw = codec.encode(doc)
        with m.case(120, {"gvas": raw if len(raw) < 200000 else None}):
            custom = None
            if n % 6 == 5:
                custom = [p for p in sorted(CUSTOM_PATHS) if g.r.random() < 0.5]
                doc = codec.decode(raw, custom)
            text = pwt.to_json(raw, custom=custom, allow_nan=False)
            judge(m, doc, raw, text, pwt.from_json, str(label))
            m.sample({"label": label, "json": text[:300]})


def cli(unit, m):
    g = gen.Gen(seed_of(m.seed, "c12cli", unit["n"]))
    level = gen.rounds(seed_of(m.seed, "c12cl", unit["n"]), 10**6, 6)
    for n in range(unit["docs"]):
        doc = poison(next(level) if n % 3 else g.generic(8), g.r, 0.3)
        raw = codec.encode(doc)
        with pwt.Dir() as d, m.case(60, {"gvas": raw if len(raw) < 200000 else None}):
            d.put("a.sav", pwt.pack(raw))
            run = pwt.real_cli if n < 3 else pwt.cli
            r = run([d("a.sav"), "--convert-nan-to-null"] + (["--minify-json"] if n % 2 else []))
            m.count("through_command")
            if r.rc:
                m.fail("the conversion fails: %s" % r)
                continue

            def back(text):
                r = run([d("a.sav.json"), "-o", d("b.sav")])
                if r.rc:
                    raise ValueError("converting back fails: %s" % r)
                return pwt.unpack(d.get("b.sav"))[0]

            judge(m, doc, raw, d.get("a.sav.json").decode("utf8"), back, "command")
