"""SAV to JSON to SAV is lossless."""
import json
import struct

from checks import common
from checks.common import seed_of
from pwref import codec, gen
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one whole save read, dumped to JSON text, parsed and written back, compared byte for byte with the "
    "original; distinct by content of the save"
)
ASSUMES = ["well-formed means the canonical encodings the game writes (one-byte flags 0/1, narrow strings for ASCII text)"]


def units(tier, seed):
    u = common.units(tier, seed, quick_rounds=60)
    for n in range(2 if tier == "quick" else 8):
        u.append({"kind": "cli", "n": n, "docs": 60 if tier == "quick" else 400, "config": ["fast", "sys"][n % 2]})
    u.append({"kind": "nan"})
    return u


def diff(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "%d bytes instead of %d, first difference at offset %d: %s instead of %s" % (
        len(b), len(a), n, b[n : n + 16].hex(), a[n : n + 16].hex(),
    )


def run(unit, m):
    if unit["kind"] == "cli":
        return cli(unit, m)
    if unit["kind"] == "nan":
        return nan(m)
    kinds = set()
    for n, (label, doc) in enumerate(common.docs(unit, m)):
        raw = codec.encode(doc)
        with m.case(90, {"label": label, "gvas": raw if len(raw) < 200000 else None}):
            back = pwt.from_json(pwt.to_json(raw, minify=bool(n % 5)))
            m.seen(raw)
            m.count("bytes", len(raw))
            m.count("saves_" + unit["kind"])
            common.blob_kinds(doc, kinds)
            if n == 3:
                m.sample({"label": label, "bytes": len(raw), "document": pwt.text(doc)[:1500]})
            if back != raw:
                m.fail("%s does not survive: %s" % (label, diff(raw, back)), {"gvas": raw})
    m.count("kinds_of_block_in_" + unit["kind"], len(kinds))


def cli(unit, m):
    """The same through the command, two files and two processes."""
    g = gen.Gen(seed_of(m.seed, "cli", unit["n"]))
    level = gen.rounds(seed_of(m.seed, "cli-rounds", unit["n"]), 10**6)
    real = [(raw, t) for _, raw, t in common.real_docs() if len(raw) < 300000]
    for n in range(unit["docs"]):
        k = n % 3
        if k == 0:
            raw = codec.encode(next(level))
            t = 0x32
        elif k == 1:
            d = g.generic(8)
            raw, t = codec.encode(d), pwt.save_type_for(d["header"]["save_game_class_name"])
        else:
            raw, t = real[n // 3 % len(real)]
        with pwt.Dir() as d, m.case(120, {"gvas": raw if len(raw) < 200000 else None}):
            d.put("a.sav", pwt.pack(raw, t))
            opts = ["--minify-json"] if g.r.random() < 0.5 else []
            run = pwt.real_cli if n < 6 else pwt.cli
            r = run([d("a.sav"), "--output", d("b.json")] + opts)
            if r.rc:
                m.fail("converting a well-formed save to JSON failed: %s" % r)
                continue
            r = run([d("b.json"), "--output", d("c.sav")])
            if r.rc:
                m.fail("converting its JSON back failed: %s" % r)
                continue
            got, gt = pwt.unpack(d.get("c.sav"))
            m.seen("cli", raw)
            m.count("saves_through_commands")
            if (got, gt) != (raw, t):
                m.fail("does not survive the command: save type %x, was %x; %s" % (gt, t, diff(raw, got)))


def nan(m):
    """NaN values with other bits than the canonical ones (known finding)."""
    g = gen.Gen(1)
    d = g.generic(0)
    d["properties"]["F"] = {"id": None, "value": float("nan"), "type": "FloatProperty"}
    raw = codec.encode(d)
    at = raw.rindex(struct.pack("<f", float("nan")))
    with m.case():
        for bits in (0x7FC00000, 0xFFC00000):
            x = raw[:at] + struct.pack("<I", bits) + raw[at + 4 :]
            back = pwt.from_json(pwt.to_json(x))
            m.seen(x)
            canonical = x[:at] + struct.pack("<f", float("nan")) + x[at + 4 :]
            if back != x:
                if bits != 0x7FC00000 and back == canonical:
                    m.finding("nan-payload", "NaN bits %08x come back as another NaN" % bits)
                else:
                    m.fail("NaN %08x does not survive: %s" % (bits, diff(x, back)), {"gvas": x})
