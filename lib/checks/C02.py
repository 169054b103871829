"""The JSON shows exactly what the save contains."""
import json

from checks import common
from checks.common import seed_of
from pwref import codec, core, gen
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one whole save whose JSON is compared, value by value and in file order, with the document an independent "
    "implementation of the format assigns to those bytes; distinct by content of the save"
)


def units(tier, seed):
    u = common.units(tier, seed, quick_rounds=60)
    u.append({"kind": "cli", "n": 0, "docs": 60 if tier == "quick" else 600, "config": "std"})
    return u


def judge(m, label, expect, text, raw):
    got = json.loads(text, object_pairs_hook=pairs)
    d = core.first_diff(got, expect)
    if d:
        m.fail("%s: the JSON shows (first) and the save contains (second) at %s" % (label, d), {"gvas": raw})
    elif not codec.same_order(got, expect):
        m.fail("%s: properties are not in file order" % (label,), {"gvas": raw})


def pairs(items):
    d = dict(items)
    if len(d) != len(items):
        raise ValueError("duplicate keys in JSON object: %r" % [k for k, _ in items])
    return d


def run(unit, m):
    if unit["kind"] == "cli":
        return cli(unit, m)
    kinds = set()
    for n, (label, doc) in enumerate(common.docs(unit, m)):
        raw = codec.encode(doc)
        with m.case(90, {"label": label, "gvas": raw if len(raw) < 200000 else None}):
            text = pwt.to_json(raw, minify=bool(n % 7))
            m.seen(raw)
            m.count("bytes", len(raw))
            m.count("json_chars", len(text))
            common.blob_kinds(doc, kinds)
            if n == 3:
                m.sample({"label": label, "bytes": len(raw), "json": text[:1500]})
            judge(m, label, doc, text, raw)
    m.count("kinds_of_block_in_" + unit["kind"], len(kinds))


def cli(unit, m):
    level = gen.rounds(seed_of(m.seed, "cli", unit["n"]), 10**6)
    real = [raw for _, raw, t in common.real_docs() if len(raw) < 300000]
    for n in range(unit["docs"]):
        raw = codec.encode(next(level)) if n % 2 else real[n // 2 % len(real)]
        with pwt.Dir() as d, m.case(120, {"gvas": raw if len(raw) < 200000 else None}):
            d.put("a.sav", pwt.pack(raw))
            r = (pwt.real_cli if n < 4 else pwt.cli)([d("a.sav")] + (["--minify-json"] if n % 3 else []))
            m.seen("cli", raw)
            m.count("saves_through_command")
            if r.rc:
                m.fail("converting a well-formed save failed: %s" % r)
                continue
            judge(m, "command", codec.decode(raw), d.get("a.sav.json").decode("utf8"), raw)
