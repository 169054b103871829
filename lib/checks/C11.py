"""Command-line options select direction, names and format as documented."""
import json
import os

from checks import cmd
from checks.common import seed_of
from pwref import core
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one run of the convert command; which file appeared, and what is in it, is compared with the documented meaning of "
    "the options; distinct by name, options and existing files"
)


def units(tier, seed):
    q = tier == "quick"
    return [
        {"kind": "names", "n": n, "cases": 300 if q else 3000, "config": ["fast", "sys", "std"][n % 3]} for n in range(8 if q else 32)
    ] + [{"kind": "process", "n": n, "cases": 20 if q else 200, "config": ["fast", "sys"][n % 2]} for n in range(2 if q else 8)]


STEMS = [
    "Level", "a", "x.sav", "x.json", "a.json.json", "my save", "Größe", "日本", "sav", "json", "x.sav.sav", "a.b.c", "0123ABCD", "x.json.sav",
    "x.sav.json", "...", "a.json.d", "-x", "x y.json z", "x.", "%d{}", "x.jsonx", "save.json.bak",
]
EXTS = [".sav", ".sav", ".sav", ".json", ".json", ".json", ".sav.json", "", ".bin", ".txt", ".jso", ".sa", ".json.txt", ".sav.bak", ".json "]
DIRS = ["", "", "", "d/", "d.json/", "d.sav/", "d.json.d/e/", "./", "x/../d/", "ab", "ln/", "ln/../"]


def model(path, to, frm, out):
    """(direction, output path) or None for an error."""
    if to and frm:
        return None
    if to:
        direction = "to"
    elif frm:
        direction = "from"
    elif path.endswith(".sav"):
        direction = "to"
    elif path.endswith(".json"):
        direction = "from"
    else:
        return None
    if out:
        return direction, out
    if direction == "to":
        return direction, path + ".json"
    return direction, path[:-5] if path.endswith(".json") else path + ".sav"


def place(d, path):
    """Where the file of this name is, relative to the directory."""
    at, name = os.path.split(os.path.join(d.path, path))
    return os.path.relpath(os.path.join(os.path.realpath(at), name), os.path.realpath(d.path))


def run(unit, m):
    pool = cmd.Pool(seed_of(m.seed, "c11", unit["n"], unit["kind"]))
    r = pool.g.r
    for n in range(unit["cases"]):
        stem, ext, sub = r.choice(STEMS), r.choice(EXTS), r.choice(DIRS)
        path = sub + stem + ext
        flags = r.choice([[], [], [], ["--to-json"], ["--from-json"], ["--to-json"], ["--from-json"], ["--from-json", "--to-json"]])
        with pwt.Dir() as d, m.case(100, {"path": path, "flags": flags}):
            for s in ("d", "d.json", "d.sav", "d.json.d/e", "x", "w"):
                os.makedirs(d(s), exist_ok=True)
            os.makedirs(d("far/deep"))
            os.symlink("far/deep", d("ln"))
            absolute = r.random() < 0.3
            arg = os.path.join(d.path, path) if absolute else path
            if arg.startswith("-"):
                arg = path = "./" + path
            out = None
            opts = []
            if r.random() < 0.35:
                out = r.choice(["o", "o.sav", "o.json", "w/o.json", "w/o.sav", "w/o x", "o.json.json", os.path.join(d.path, "w", "abs.out")])
                opts.append(r.choice([["-o", out], ["--output", out], ["--output=" + out], ["-o" + out]]))
            minify = r.random() < 0.4
            if minify:
                opts.append(["--minify-json"])
            if r.random() < 0.2:
                opts.append(["--force"])
            opts += [[f] for f in flags]
            pos = [arg]
            items = opts + [pos]
            r.shuffle(items)
            args = [x for i in items for x in i]
            want = model(path, "--to-json" in flags, "--from-json" in flags, out)
            # content: what the direction needs; where there is an error anyway, either
            direction = want[0] if want else r.choice(["to", "from"])
            if direction == "to":
                data, raw, doc = pool.save()
            else:
                data, doc = pool.json()
            name = place(d, path)
            if want and os.path.isdir(d(want[1])):
                continue
            if r.random() < 0.15:
                # the name given is a link to a file of another name
                stored = "far/" + r.choice(["stored", "real.sav", "real.json", "real.sav.json"])
                d.put(stored, data)
                os.makedirs(os.path.dirname(d(name)), exist_ok=True)
                os.symlink(d(stored), d(name))
                m.count("input_is_a_link")
            else:
                d.put(name, data)
            before = d.snap()
            res = (pwt.real_cli if unit["kind"] == "process" else pwt.cli)(args, b"n\n", cwd=d.path)
            ch = pwt.changes(before, d.snap())
            what = "%s: %s" % (args, res)
            m.seen(path, repr(args))
            m.count("direction_%s" % (want and want[0]))
            m.sample({"args": args, "appeared": ch, "status": res.rc})
            if want is None:
                m.count("both_flags" if len(flags) == 2 else "no_direction")
                if res.rc == 0 or ch:
                    m.fail("%s: contradictory or undecidable, yet changed %s" % (what, ch))
                continue
            target = place(d, want[1])
            if target == name:
                continue
            if res.rc:
                m.fail("%s: fails" % what)
                continue
            if ch != [target]:
                m.fail("%s: expected only %s, files that appeared or changed: %s" % (what, target, ch))
                continue
            got = d.get(target)
            m.count("default_name" if out is None else "given_name")
            if direction == "from":
                why = cmd.sav_ok(got, doc)
                if why:
                    m.fail("%s: output is %s" % (what, why))
                continue
            why = cmd.json_ok(got, doc)
            if why:
                m.fail("%s: output is %s" % (what, why))
                continue
            lines = got.strip().count(b"\n")
            m.count("minified" if minify else "default_layout")
            if minify and lines:
                m.fail("%s: the minified JSON has %d line breaks" % (what, lines))
            if not minify and lines < 10:
                m.fail("%s: the JSON has only %d line breaks by default" % (what, lines))
            if direction == "to" and r.random() < 0.3:
                opts = {"minify": True} if minify else r.choice([{}, {"minify": False}])
                res2 = pwt.cli(["to", d(name), d("w/direct"), json.dumps(opts)], cwd=d.path, module=pwt.DIRECT)
                m.count("function_called_directly")
                if res2.rc or d.get("w/direct") != got:
                    m.fail("%s: the function with %s gives another file than the command: %s" % (what, opts, res2))
            if r.random() < 0.3:
                other = [a for a in args if a != "--minify-json"] + ([] if minify else ["--minify-json"]) + ["--force"]
                res2 = pwt.cli(other, b"", cwd=d.path)
                got2 = d.get(target)
                m.count("both_layouts")
                if res2.rc or core.first_diff(json.loads(got), json.loads(got2)):
                    m.fail("%s: with the other layout: %s, %s" % (what, res2, core.first_diff(json.loads(got), json.loads(got2))))
                elif list_keys(json.loads(got)) != list_keys(json.loads(got2)):
                    m.fail("%s: the layouts order their keys differently" % what)
                elif (len(got2) < len(got)) == minify:
                    m.fail("%s: the minified JSON is not smaller" % what)


def list_keys(x):
    if isinstance(x, dict):
        return [(k, list_keys(v)) for k, v in x.items()]
    if isinstance(x, list):
        return [list_keys(v) for v in x]
    return None
