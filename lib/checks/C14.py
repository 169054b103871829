"""Results do not depend on optional packages or environment."""
import json
import os
import subprocess
import sys

from checks import C06, cmd, common, edits
from checks.C12 import poison
from checks.common import seed_of
from pwref import codec, gen
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one conversion in one environment; the results (JSON text, save bytes, or refusal) of the same input in all "
    "environments are compared byte for byte; distinct by input"
)
ASSUMES = ["nesting so deep that it reaches the interpreter's recursion limit is not part of the inputs"]

C = {"LC_ALL": "C", "LANG": "C"}
ASCII = {**C, "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
ENVS = [
    ("fast", {}, ()),
    ("std", {}, ()),
    ("sys", {}, ()),
    ("fast", {"PYTHONHASHSEED": "1"}, ("-O",)),
    ("std", {"PYTHONHASHSEED": "2"}, ("-OO",)),
    ("sys", {"PYTHONHASHSEED": "random", **ASCII}, ("-O",)),
    ("fast", {"PYTHONHASHSEED": "random", "DEBUG": "1"}, ("-OO",)),
    ("std", {"PYTHONHASHSEED": "4294967295", "DEBUG": "1", **C}, ()),
]


def units(tier, seed):
    q = tier == "quick"
    out = []
    for stream in range(2 if q else 12):
        for n, (config, env, flags) in enumerate(ENVS):
            out.append({
                "kind": "library", "stream": stream, "n": n, "config": config, "env": env, "flags": flags,
                "rounds": 14 if q else 120, "docs": 260 if q else 2500,
            })
    for n in range(4 if q else 16):
        out.append({"kind": "cli", "n": n, "docs": 4 if q else 30, "config": ["fast", "sys"][n % 2]})
    return out


def run(unit, m):
    if unit["kind"] == "cli":
        return cli(unit, m)
    s = seed_of(m.seed, "c14", unit["stream"])
    m.count("environment_%s_%s" % (unit["config"], "".join(unit["flags"]) or "plain"))
    if len(pwt.archive.UUID.__slots__ if hasattr(pwt.archive.UUID, "__slots__") else ()) > 1:
        m.count("stdlib_identifiers")
    else:
        m.count("other_identifiers")
    g = gen.Gen(s)
    for n, doc in enumerate(gen.rounds(s, unit["rounds"])):
        poison(doc, g.r, 0.02)
        with m.case(120):
            one(m, "level %d" % n, codec.encode(doc), None if n % 3 else [p for p in sorted(codec.CUSTOM_PATHS) if g.r.random() < 0.5], n % 2 == 0)
    for n, doc in enumerate(gen.rounds(s + "/blocks", 2 if m.tier == "quick" else 12, chunk=1)):
        with m.case(120):
            faults = list(C06.blocks(g, doc))
            for what, raw in g.r.sample(faults, min(len(faults), 5)):
                one(m, "block %d %s" % (n, what), raw, None, True)
                m.count("odd_blocks")
    for n in range(unit["docs"]):
        with m.case(120):
            k = n % 4
            if k == 0:
                one(m, "generic %d" % n, codec.encode(poison(g.generic(5), g.r, 0.02)), None, n % 8 == 0)
            elif k == 1:
                what, raw = C06.odd(g)
                one(m, "odd %d" % n, raw, None, True)
            else:
                doc = g.generic(4) if g.r.random() < 0.3 else g.level([g.r.choice(gen.variants(g))])
                if k == 2:
                    what, doc = misfit(doc, g)
                else:
                    what = edit(doc, g)
                try:
                    raw = pwt.from_json(json.dumps(doc))
                    m.count("written")
                except Exception:
                    raw = b"refused"
                    m.count("not_written")
                m.seen(json.dumps(doc))
                m.digest("%s %d" % (what, n), raw)


def misfit(doc, g):
    s = edits.sites(doc, g, 12)
    g.r.shuffle(s)
    for site in s:
        bad = list(edits.misfits(site)) if site.role in ("scalar", "list", "props", "ident") else []
        if bad:
            what, v = g.r.choice(bad)
            site.set(v)
            return "misfit at %s" % site.path, doc
    return "none", doc


def edit(doc, g):
    done = []
    for site in edits.sites(doc, g, 3):
        done.append(str(edits.edit(site, g)))
    return "edits " + ",".join(done)


def one(m, label, raw, custom, allow_nan):
    m.seen(raw, repr(custom), allow_nan)
    try:
        doc = pwt.read(raw, custom, allow_nan).dump()
        text = pwt.text(doc, minify=False, allow_nan=allow_nan)
        m.count("read")
    except Exception:
        m.digest(label + " read", b"refused")
        m.count("not_read")
        return
    m.digest(label + " read", text)
    m.digest(label + " read, one line", pwt.text(doc, True, allow_nan))
    for what, f in (("text", lambda: pwt.from_json(text)), ("objects", lambda: pwt.from_doc(doc))):
        try:
            back = f()
        except Exception:
            back = b"refused"
        m.digest(label + " write " + what, back)
        m.digest(label + " compress " + what, pwt.palsav.compress_gvas_to_sav(back, 0x32))


def finish(units, results):
    out = []
    streams = {}
    for u, r in zip(units, results):
        if u["kind"] == "library" and "error" not in r and not r["violations"]:
            streams.setdefault(u["stream"], []).append((u, r["digests"]))
    for s, all_ in streams.items():
        u0, d0 = all_[0]
        for u, d in all_[1:]:
            if d != d0:
                k = next((i for i, (a, b) in enumerate(zip(d0, d)) if a != b), min(len(d0), len(d)))
                where = (d0[k] if k < len(d0) else d[k])[0]
                out.append("stream %d, %s: %s %s %s gives another result than %s" % (s, where, u["config"], u["env"], u["flags"], u0["config"]))
    return out


# ---- the command ---------------------------------------------------------------------------

VARIANTS = [
    ({}, ()), ({"PYTHONHASHSEED": "7"}, ()), ({"PYTHONHASHSEED": "random"}, ("-O",)), ({}, ("-OO",)), (C, ()), (ASCII, ()),
    ({"LC_ALL": "POSIX", "PYTHONUTF8": "0"}, ()), ({"LC_ALL": "C.UTF-8"}, ()), ({"LC_ALL": "no_SUCH.locale"}, ()),
    ({"PYTHONIOENCODING": "ascii"}, ()), ({"PYTHONIOENCODING": "latin-1"}, ()), ({"PYTHONIOENCODING": "cp1252", **ASCII}, ()),
    ({"FORCE_STDLIB_ONLY": "1"}, ()), ({"FORCE_STDLIB_ONLY": "1", "PYTHONHASHSEED": "9"}, ("-OO",)), ({"DEBUG": "1"}, ()),
    ({"DEBUG": "1", "FORCE_STDLIB_ONLY": "1", "PYTHONIOENCODING": "ascii"}, ()), ({"TZ": "Asia/Tokyo", "HOME": None, "TERM": None, "LANG": None}, ()),
    ({"PYTHONUTF8": "1"}, ("-X", "dev")), ({"COLUMNS": "10"}, ("-u",)),
]


def cli(unit, m):
    pool = cmd.Pool(seed_of(m.seed, "c14cli", unit["n"]))
    g, r = pool.g, pool.g.r
    pythons = sorted({sys.executable, "/usr/bin/python3", "/opt/venv/bin/python"})
    for n in range(unit["docs"]):
        with pwt.Dir() as d, m.case(200):
            to = n % 2 == 0
            if to:
                if r.random() < 0.25:
                    what, raw = C06.odd(g)
                else:
                    raw = codec.encode(poison(wide(g, pool.doc()), r, 0.05))
                data = pwt.pack(raw)
                opts = r.choice([[], ["--minify-json"], ["--convert-nan-to-null"]])
            else:
                doc = pool.doc()
                if r.random() < 0.3:
                    what, doc = misfit(doc, g)
                data = json.dumps(wide(g, doc), ensure_ascii=r.random() < 0.5).encode("utf8", "surrogatepass")
                opts = []
            name = r.choice(["a", "ü", "日本", "a b", "é😀"]) + (".sav" if to else ".json")
            d.put(name, data)
            m.seen(data, repr(opts))
            first = None
            some = [VARIANTS[0], VARIANTS[5], VARIANTS[9]] + r.sample(VARIANTS[1:], 8)
            for i, (env, flags) in enumerate(some):
                py = r.choice(pythons)
                out = d("out")
                p = subprocess.run(
                    [py, *flags, "-m", pwt.CONVERT, d(name), "-o", out, *opts], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, env=environ(env), cwd=r.choice([d.path, "/"]), timeout=100,
                )
                got = ("refused", b"") if p.returncode else ("converted", d.get("out"))
                if os.path.exists(out):
                    os.remove(out)
                m.evaluations += 1
                m.count("command_" + got[0])
                if first is None:
                    first = got, (py, env, flags)
                elif got != first[0]:
                    m.fail(
                        "%s %s: %s with %s, but %s with %s%s" % (name, opts, first[0][0], first[1], got[0], (py, env, flags),
                        "" if got[0] != first[0][0] else " and another result"), {"input": data, "output": p.stdout[-2000:]},
                    )
                    break
            m.sample({"file": name, "options": opts, "result": first[0][0], "environments": len(some)})


def wide(g, doc):
    """Names that not every encoding covers, where the code prints them."""
    r = g.r
    if r.random() < 0.6:
        props = doc["properties"]
        name = r.choice(["Größe", "日本", "é", "😀", "Ω\u2028"])
        if name not in props:
            props[name] = g.smap_("NameProperty", None, [("k", {})]) if r.random() < 0.7 else g.struct_(name, {})
    return doc


def environ(extra):
    e = pwt.environ(extra)
    if "PYTHONIOENCODING" not in extra:
        e.pop("PYTHONIOENCODING", None)
    if "FORCE_STDLIB_ONLY" not in extra:
        e.pop("FORCE_STDLIB_ONLY", None)
    return e
