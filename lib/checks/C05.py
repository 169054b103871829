"""Choosing which blocks to decode never changes the save."""
import json

from checks import common
from checks.C01 import diff
from checks.C02 import judge
from checks.common import seed_of
from pwref import codec, core, gen
from pwref.tables import CUSTOM_PATHS
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one save read with one subset of the decodable paths: its JSON is compared with what an independent decoder "
    "gives for that subset and its re-encoding with the original bytes; distinct by save and subset"
)


def units(tier, seed):
    q = tier == "quick"
    out = []
    for n in range(8 if q else 32):
        out.append({"kind": "rounds", "n": n, "rounds": 12 if q else 80, "config": ["fast", "std", "sys"][n % 3]})
    for n in range(13):
        out.insert(0, {"kind": "real", "n": n, "times": 2 if q else 12})
    for n in range(4 if q else 12):
        out.append({"kind": "cli", "n": n, "docs": 40 if q else 400})
    return out


def present(raw):
    """The decodable paths that occur in a save."""
    found = set()

    def walk(x):
        if isinstance(x, dict):
            if isinstance(x.get("custom_type"), str):
                found.add(x["custom_type"])
            x = x.values()
        if not isinstance(x, str):
            for y in x:
                if isinstance(y, (dict, list)):
                    walk(y)

    walk(codec.decode(raw, CUSTOM_PATHS)["properties"])
    return sorted(found & set(CUSTOM_PATHS))


def subset(r, paths, here=()):
    k = r.randrange(7)
    if here and k in (1, 6):
        return [r.choice(here)]
    if here and k == 2:
        x = r.choice(here)
        return [p for p in paths if p != x]
    if k == 0:
        return []
    if k == 1:
        return [r.choice(paths)]
    if k == 2:
        x = r.choice(paths)
        return [p for p in paths if p != x]
    return [p for p in paths if r.random() < 0.5]


def run(unit, m):
    paths = sorted(CUSTOM_PATHS)
    if sorted(pwt.PALWORLD_CUSTOM_PROPERTIES) != paths and not set(paths) <= set(pwt.PALWORLD_CUSTOM_PROPERTIES):
        m.fail("paths that were decodable are not any more: %s" % sorted(set(paths) - set(pwt.PALWORLD_CUSTOM_PROPERTIES)))
    k = unit["kind"]
    g = gen.Gen(seed_of(m.seed, "c05", k, unit["n"]))
    if k == "cli":
        return cli(unit, m, g, paths)
    if k == "rounds":
        docs = (codec.encode(d) for d in gen.rounds(seed_of(m.seed, "c05r", unit["n"]), unit["rounds"]))
        times = 4
    else:
        docs = [raw for _, raw, _ in common.real_docs()][unit["n"] :: 13]
        times = unit["times"]
    for raw in docs:
        here = present(raw)
        for _ in range(times):
            sub = subset(g.r, paths, here)
            with m.case(200, {"subset": sub, "gvas": raw if len(raw) < 200000 else None}):
                g.r.shuffle(sub)
                text = pwt.to_json(raw, custom=sub)
                m.seen(repr(sorted(sub)), raw)
                m.count("subsets_of_%d" % len(sub))
                judge(m, "with %s" % sub, codec.decode(raw, sub), text, raw)
                back = pwt.from_json(text)
                if back != raw:
                    m.fail("with %s: %s" % (sub, diff(raw, back)), {"gvas": raw, "subset": sub})
                m.sample({"subset": sub, "json": text[:300]})


def option(r, sub, paths):
    """(option arguments, paths it selects)"""
    k = r.randrange(8)
    blank = lambda: r.choice(["", "", " ", "  ", "\t"])
    if k == 0:
        return ["--custom-properties", r.choice(["all", " all", "all ", " all "])], paths
    if k == 1:
        return [], paths
    if k == 2:
        return ["--custom-properties", r.choice(["", ",", " ", ", ,"])], []
    names = list(sub)
    if k in (3, 4):
        names += r.sample(
            [".worldSaveData", ".worldSaveData.Unknown", "RawData", "nonsense", ".worldSaveData.MapObjectSaveDat", "ALL",
             ".worldSaveData.GroupSaveDataMap.Value", ".worldsavedata.groupsavedatamap"], 2)
    if k == 5 and names:
        names.append(r.choice(names))
    r.shuffle(names)
    if not names:
        return ["--custom-properties", ""], []
    text = ",".join(blank() + n + blank() for n in names)
    return r.choice([["--custom-properties", text], ["--custom-properties=" + text]]), sub


def cli(unit, m, g, paths):
    level = gen.rounds(seed_of(m.seed, "c05cli", unit["n"]), 10**6)
    for n in range(unit["docs"]):
        raw = codec.encode(next(level))
        opts, sub = option(g.r, subset(g.r, paths), paths)
        with pwt.Dir() as d, m.case(120, {"options": opts, "gvas": raw if len(raw) < 200000 else None}):
            d.put("Level.sav", pwt.pack(raw))
            run = pwt.real_cli if n < 2 else pwt.cli
            if n % 5 == 4:
                # the function behind the command takes the paths as a list
                sub = subset(g.r, paths)
                opts = {"custom_properties_keys": sub + g.r.choice([[], [], [".worldSaveData.Unknown"]]), "minify": True}
                if g.r.random() < 0.2:
                    opts, sub = g.r.choice([{"custom_properties_keys": ["all"]}, {}]), paths
                r = pwt.cli(["to", d("Level.sav"), d("Level.sav.json"), json.dumps(opts)], module=pwt.DIRECT)
                m.count("through_function")
            else:
                r = run([d("Level.sav"), "--minify-json"] + opts)
                m.count("through_command")
            m.seen("cli", repr(opts), raw)
            if r.rc:
                m.fail("%s: %s" % (opts, r))
                continue
            text = d.get("Level.sav.json").decode("utf8")
            judge(m, "%s" % opts, codec.decode(raw, sub), text, raw)
            r = run([d("Level.sav.json"), "-o", d("out.sav")])
            if r.rc:
                m.fail("converting back after %s: %s" % (opts, r))
                continue
            back = pwt.unpack(d.get("out.sav"))[0]
            if back != raw:
                m.fail("%s: %s" % (opts, diff(raw, back)))
