"""Conversions do not influence each other."""
import copy
import hashlib
import io
import json
import os
import pickle
import signal
import struct
import subprocess
import sys
import threading

from checks import C06, C14, cmd, edits
from checks.C12 import poison
from checks.common import seed_of
from pwref import codec, core, gen
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one conversion inside a history, a group of threads or a group of processes, its result compared with that of the "
    "same conversion alone in a process that did nothing else; distinct by conversion and what surrounded it"
)


def units(tier, seed):
    q = tier == "quick"
    out = []
    for n in range(8 if q else 32):
        c = ["fast", "std", "sys"][n % 3]
        out.append({"kind": "history", "n": n, "histories": 10 if q else 60, "steps": 120 if q else 200, "config": c})
        out.append({"kind": "repeat", "n": n, "docs": 80 if q else 800, "config": c})
    for n in range(2 if q else 6):
        out.append({"kind": "large", "n": n, "docs": 3 if q else 24, "config": ["fast", "std"][n % 2]})
    for n in range(6 if q else 24):
        out.append({"kind": "threads", "n": n, "groups": 12 if q else 80, "config": ["fast", "std", "sys"][n % 3]})
    for n in range(2 if q else 8):
        out.append({"kind": "processes", "n": n, "groups": 8 if q else 80, "config": ["fast", "sys"][n % 2]})
    return out


def digest(x):
    if isinstance(x, str):
        x = x.encode("utf8", "backslashreplace")
    return hashlib.blake2b(x, digest_size=12).hexdigest()


class Pristine:
    """A process that has converted nothing and does each conversion in a fresh copy of itself."""

    def __init__(self):
        self.r, w2 = os.pipe()
        r2, self.w = os.pipe()
        if os.fork() == 0:
            try:
                signal.alarm(0)
                os.close(self.r)
                os.close(self.w)
                while True:
                    f = receive(r2)
                    if f is None:
                        break
                    pid = os.fork()
                    if pid == 0:
                        try:
                            send(w2, attempt(f))
                        finally:
                            os._exit(0)
                    os.waitpid(pid, 0)
            finally:
                os._exit(0)
        os.close(w2)
        os.close(r2)

    def __call__(self, f):
        send(self.w, f)
        x = receive(self.r)
        if x is None:
            raise RuntimeError("no answer from the conversion alone")
        return x


def send(fd, x):
    b = pickle.dumps(x)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b) :]


def receive(fd):
    def some(n):
        got = b""
        while len(got) < n:
            b = os.read(fd, n - len(got))
            if not b:
                return None
            got += b
        return got

    n = some(8)
    return None if n is None else pickle.loads(some(struct.unpack("<Q", n)[0]))


alone = None


def attempt(f, *a):
    try:
        return digest(f(*a))
    except Exception:
        return "refused"


# ---- conversions ----------------------------------------------------------------------------


class Reading:
    def __init__(self, raw, custom, allow_nan, plain):
        self.raw, self.custom, self.allow_nan, self.plain = raw, custom, allow_nan, plain

    def objects(self):
        if self.plain:
            return pwt.GvasFile.read(self.raw)
        return pwt.read(self.raw, self.custom, self.allow_nan)

    def __call__(self):
        return pwt.text(self.objects().dump(), True, self.allow_nan)

    def label(self):
        return "read %d bytes%s%s" % (len(self.raw), " plain" if self.plain else "", "" if self.custom is None else " with %d paths" % len(self.custom))


class Writing:
    def __init__(self, text):
        self.text = text

    def __call__(self):
        return pwt.from_json(self.text)

    def label(self):
        return "write %d characters" % len(self.text)


class Resaving(Reading):
    def __call__(self):
        f = self.objects()
        return f.write({} if self.plain else pwt.PALWORLD_CUSTOM_PROPERTIES)

    def label(self):
        return "re" + Reading.label(self)


class Command:
    """The convert command run inside this process."""

    def __init__(self, name, data, opts):
        self.name, self.data, self.opts = name, data, opts

    def __call__(self):
        from palworld_save_tools.commands import convert

        old = sys.argv, sys.stdin, sys.stdout
        with pwt.Dir() as d:
            d.put(self.name, self.data)
            sys.argv = ["palworld-save-tools", d(self.name), "-o", d("out"), *self.opts]
            sys.stdin, sys.stdout = io.StringIO(), pwt.Sink()
            try:
                convert.main()
                code = 0
            except SystemExit as e:
                code = e.code
            finally:
                sys.argv, sys.stdin, sys.stdout = old
            return repr((code, d.get("out") if os.path.exists(d("out")) else None))

    def label(self):
        return "command with %d bytes as %s %s" % (len(self.data), self.name, self.opts)


def options(r):
    out = []
    if r.random() < 0.7:
        k = r.randrange(4)
        paths = sorted(codec.CUSTOM_PATHS)
        some = ["all"] if k == 0 else [r.choice(paths)] if k == 1 else ["none"] if k == 2 else [p for p in paths if r.random() < 0.5]
        out += ["--custom-properties", ",".join(some)]
    for o in ("--minify-json", "--convert-nan-to-null", "--force"):
        if r.random() < 0.3:
            out.append(o)
    return out


def nearby(g, doc):
    """The same document with many values changed as little as possible."""
    r = g.r
    d = copy.deepcopy(doc)
    share, ids = r.choice([0.1, 0.5, 1]), r.random() < 0.3
    for site in codec.Codec().sites(d):
        if site.role != "scalar" or r.random() > share or isinstance(site.cont, dict) and site.key not in site.cont:
            continue
        v, t = site.get(), site.ty.name
        if t == "str" and v:
            site.set(v[:-1] + ("b" if v[-1] == "a" else "a") if r.random() < 0.7 else v + "a")
        elif t in edits.WIDE and isinstance(v, int) and not isinstance(v, bool):
            site.set(v ^ 1)
        elif t == "guid" and ids and isinstance(v, str):
            site.set(v[:-1] + ("1" if v[-1] == "0" else "0"))
    raw = edits.prescribed(d)
    return None if raw is None else (d, raw)


def relatives(g, doc):
    """Documents with the same names and identifiers, but other content."""
    out = [x for x in (nearby(g, doc) for _ in range(2)) if x]
    for _ in range(2):
        d = copy.deepcopy(doc)
        for site in edits.sites(d, g, 6, roles=("scalar", "list")):
            if site.ty.name not in ("guid", "optguid"):
                edits.edit(site, g)
        raw = edits.prescribed(d)
        if raw is not None:
            out.append((d, raw))
    return out


def conversions(g, count, commands=False):
    """Good and bad conversions."""
    r = g.r
    out = []
    while len(out) < count:
        k = r.randrange(9)
        if k < 4:
            doc = g.level([r.choice(gen.variants(g)) for _ in range(r.randint(1, 3))]) if r.random() < 0.7 else g.generic(4)
            raw = codec.encode(doc)
            custom = None if r.random() < 0.6 else [p for p in sorted(codec.CUSTOM_PATHS) if r.random() < 0.5]
            cls = r.choice([Reading, Reading, Resaving])
            out.append(cls(raw, custom, r.random() < 0.7 or cls is Resaving, r.random() < 0.1))
            if k == 0:
                # the same save again in other ways
                out.append(Reading(raw, None, True, False))
                out.append(Resaving(raw, None, True, False))
                out.append(Writing(json.dumps(doc)))
            if k < 2:
                for d, raw2 in relatives(g, doc):
                    out.append(r.choice([Reading, Resaving])(raw2, custom, True, False))
                    out.append(Writing(json.dumps(d)))
            if commands and k > 1:
                for _ in range(2):
                    out.append(Command("a.sav", pwt.pack(raw), options(r)))
                out.append(Command("a.json", json.dumps(doc).encode(), options(r)))
                out.append(Command("b.sav", pwt.pack(raw)[: r.choice([5, 40])], options(r)))
        elif k == 4:
            out.append(Reading(C06.odd(g)[1], None, True, False))
        elif k == 5:
            doc = g.level([r.choice(gen.variants(g))])
            out.append(Reading(C06.damage(g, codec.encode(doc))[1], None, True, False))
        elif k == 6:
            doc = g.level([r.choice(gen.variants(g))])
            out.append(Writing(json.dumps(C14.misfit(doc, g)[1])))
        else:
            doc = g.level([r.choice(gen.variants(g))]) if r.random() < 0.7 else g.generic(4)
            out.append(Writing(json.dumps(doc)))
    return out


# ---- histories ------------------------------------------------------------------------------


def wreck(x, r, depth=0):
    """Change everything inside a document that can be changed."""
    if depth > 60:
        return
    if isinstance(x, dict):
        for k in list(x):
            wreck(x[k], r, depth + 1)
            if r.random() < 0.3:
                x[k] = r.choice([None, 0, "wrecked", []])
            elif r.random() < 0.1:
                del x[k]
    elif isinstance(x, list):
        for v in x:
            wreck(v, r, depth + 1)
        if r.random() < 0.5:
            x.clear()
        else:
            x.append("wrecked")


def tables():
    return (
        list(pwt.PALWORLD_CUSTOM_PROPERTIES.items()), list(pwt.PALWORLD_TYPE_HINTS.items()),
    )


def nested(g, path, prop):
    """A save with this property at this path."""
    *names, last = path.split(".")[1:]
    inner = {last: prop}
    for n in reversed(names):
        inner = {n: g.struct_("PalThing", inner)}
    return codec.encode({"header": g.header(), "properties": inner, "trailer": g.trailer()})


def at_path(g, path):
    """Saves with what a table could say something about at this path."""
    thing = {"A": g.int_(5), "B": g.bool_()}
    end = path.rsplit(".", 1)[-1]
    kinds = [("Guid", GUIDS[0]), ("Vector", {"x": 1.5, "y": 0.0, "z": -2.0}), ("StructProperty", thing)]
    if end in ("Key", "Value") and path.count(".") > 1:
        for st, v in kinds:
            entries = [(5, v)]
            if end == "Key":
                yield nested(g, path[:-4], g.map_("StructProperty", st, "IntProperty", None, [(v, 5)]))
            else:
                yield nested(g, path[:-6], g.map_("IntProperty", None, "StructProperty", st, entries))
    for n in (0, 1, 20):
        yield nested(g, path, g.bytes_(n))
    yield nested(g, path, g.array_(end, "PalThing", [thing, {}]))
    yield nested(g, path, g.map_("StructProperty", "Guid", "StructProperty", "StructProperty", [(GUIDS[0], thing)]))
    yield nested(g, path, g.map_("NameProperty", None, "IntProperty", None, [("a", 5)]))
    yield nested(g, path, g.struct_("PalThing", thing))


GUIDS = ["00112233-4455-6677-8899-aabbccddeeff"]


def influence(m, g, before, all_, expect, when):
    """The tables changed: has that any effect on a conversion?"""
    now = tables()
    m.count("tables_changed")
    for f, want in zip(all_, expect):
        m.evaluations += 1
        got = attempt(f)
        if got != want:
            m.fail("%s: %s alone, %s with changed tables %s" % (f.label(), want, got, when))
    changed = set()
    for a, b in zip(before, now):
        a, b = dict(a), dict(b)
        changed |= {p for p in {*a, *b} if a.get(p) != b.get(p)}
    for p in g.r.sample(sorted(changed, key=str), min(len(changed), 40)):
        for raw in at_path(g, p) if isinstance(p, str) and p.startswith(".") else ():
            for f in (Reading(raw, None, True, False), Reading(raw, [], True, False), Resaving(raw, None, True, False)):
                m.count("reads_at_changed_paths")
                m.evaluations += 1
                got, want = attempt(f), alone(f)
                if got != want:
                    m.fail("%s: %s alone, %s with another table entry for %s %s" % (f.label(), want, got, p, when))
                    return now
    for n in range(6):
        f = Reading(codec.encode(g.level([g.r.choice(gen.variants(g)) for _ in range(4)])), None, True, False)
        got, want = attempt(f), alone(f)
        if got != want:
            m.fail("%s: %s alone, %s with changed tables %s" % (f.label(), want, got, when))
    return now


def run(unit, m):
    k = unit["kind"]
    g = gen.Gen(seed_of(m.seed, "c15", k, unit["n"]))
    global alone
    alone = Pristine()
    globals()[k](unit, m, g)


def history(unit, m, g):
    r = g.r
    all_ = conversions(g, 60, unit["n"] % 2 == 0)
    expect = []
    with m.case(200):
        for f in all_:
            expect.append(alone(f))
    m.count("refused_alone", expect.count("refused"))
    m.count("converted_alone", len(expect) - expect.count("refused"))
    before = tables()
    for h in range(unit["histories"]):
        past = []
        with m.case(200, {"history": past}):
            for _ in range(unit["steps"]):
                i = r.randrange(len(all_))
                f = all_[i]
                k = r.randrange(5)
                if k == 0 and isinstance(f, Reading):
                    # leave something changed behind
                    try:
                        x = f.objects()
                        d = x.dump()
                        if r.random() < 0.5:
                            x.write(pwt.PALWORLD_CUSTOM_PROPERTIES)
                        wreck(d, r)
                        if r.random() < 0.5:
                            x.write(pwt.PALWORLD_CUSTOM_PROPERTIES)
                    except Exception:
                        pass
                    past.append("wreck result of " + f.label())
                    m.count("wrecked_results")
                elif k == 1 and isinstance(f, Writing):
                    try:
                        d = json.loads(f.text)
                        x = pwt.GvasFile.load(d)
                        wreck(d, r)
                        x.write(pwt.PALWORLD_CUSTOM_PROPERTIES)
                    except Exception:
                        pass
                    past.append("wreck input of " + f.label())
                    m.count("wrecked_inputs")
                else:
                    got = attempt(f)
                    past.append(f.label())
                    m.seen(expect[i], i, past[-2:-1])
                    m.count("conversions_in_histories")
                    if got != expect[i]:
                        m.fail("%s: %s alone, %s after %s" % (f.label(), expect[i], got, past[:-1][-12:]))
                        break
            if tables() != before:
                before = influence(m, g, before, all_, expect, "after %s" % past[-12:])
    m.sample({"conversions": len(all_), "history": past[:15]})


def repeat(unit, m, g):
    """The same document dumped and written again and again, edited in between."""
    r = g.r
    level = gen.rounds(seed_of(m.seed, "c15r", unit["n"]), 10**6, 5)
    for n in range(unit["docs"]):
        doc = poison(next(level) if n % 3 else g.generic(6), r, 0.02)
        raw = codec.encode(doc)
        with m.case(200, {"gvas": raw if len(raw) < 200000 else None}):
            # objects as read
            f = pwt.read(raw, allow_nan=n % 4 > 0)
            ops = r.choices(["dump", "write", "text"], k=6)
            seen = {"dump": repr_doc(f.dump())}
            for i, o in enumerate(ops):
                if o == "dump":
                    got = repr_doc(f.dump())
                elif o == "text":
                    got = pwt.text(f.dump())
                else:
                    got = digest(f.write(pwt.PALWORLD_CUSTOM_PROPERTIES))
                m.count("repeated_" + o)
                if seen.setdefault(o, got) != got:
                    m.fail("%s gives another result after %s" % (o, ops[:i]))
            m.seen(raw, repr(ops))
            # a document from JSON
            d = json.loads(json.dumps(doc))
            for step in range(3):
                keep = repr_doc(d)
                want = alone(Writing(keep))
                for again in range(2):
                    got = attempt(pwt.from_doc, d)
                    m.count("written_again")
                    m.evaluations += 1
                    if got != want:
                        m.fail("write number %d of the same document after %d edits gives another result" % (again + 1, step))
                    if repr_doc(d) != keep:
                        m.fail("writing changed the document: %s" % core.first_diff(d, json.loads(keep)))
                        d = json.loads(keep)
                for site in edits.sites(d, g, 2):
                    edits.edit(site, g)
                if edits.prescribed(d) is None:
                    break
            # what was edited in between does not reach what was read before
            if repr_doc(f.dump()) != seen["dump"]:
                m.fail("a document read earlier changed")
            # nor do the caller's tables or bytes change
            hints, custom, data = dict(pwt.PALWORLD_TYPE_HINTS), dict(pwt.PALWORLD_CUSTOM_PROPERTIES), bytearray(raw)
            before = list(custom.items()), list(hints.items())
            f2 = pwt.GvasFile.read(bytes(data), hints, custom)
            f2.write(custom)
            if (list(custom.items()), list(hints.items())) != before:
                old = tables()
                try:
                    for t, new in ((pwt.PALWORLD_CUSTOM_PROPERTIES, custom), (pwt.PALWORLD_TYPE_HINTS, hints)):
                        t.clear()
                        t.update(new)
                    influence(m, g, before, [], [], "with the caller's own tables after one conversion")
                finally:
                    for t, new in zip((pwt.PALWORLD_CUSTOM_PROPERTIES, pwt.PALWORLD_TYPE_HINTS), old):
                        t.clear()
                        t.update(new)


def bulky(doc, size):
    """A document whose blocks of decoded data are very large."""
    doc = copy.deepcopy(doc)
    for p in doc["properties"].get("worldSaveData", {"value": {}})["value"].values():
        v = p["value"]
        if "custom_type" in p and isinstance(v, dict) and "prop_name" in v:
            v = v["values"]
        if isinstance(v, list) and v:
            v *= size // (len(repr_doc(v)) + 1) + 1
    return json.loads(json.dumps(doc))


def large(unit, m, g):
    level = gen.rounds(seed_of(m.seed, "c15l", unit["n"]), 10**6, 9)
    for n in range(unit["docs"]):
        doc = bulky(next(level), [300000, 1500000, 5000000][n % 3])
        with m.case(300):
            keep = repr_doc(doc)
            got = []
            for again in range(2):
                got.append(attempt(pwt.from_doc, doc))
                m.seen(keep, str(again))
                m.count("large_documents_written")
                if repr_doc(doc) != keep:
                    m.fail("writing changed a document of %d characters" % len(keep))
                    break
            f = pwt.read(pwt.from_doc(doc))
            for again in range(2):
                if attempt(f.write, pwt.PALWORLD_CUSTOM_PROPERTIES) != got[0]:
                    m.fail("write number %d of a large save gives another result" % (again + 1))
            m.sample({"characters": len(keep)})


def repr_doc(d):
    return json.dumps(d, default=str)


# ---- threads ------------------------------------------------------------------------------


def threads(unit, m, g):
    r = g.r
    sys.setswitchinterval(1e-6)
    all_ = conversions(g, 40)
    with m.case(200):
        expect = [alone(f) for f in all_]
    before = tables()
    for group in range(unit["groups"]):
        with m.case(200):
            shared = []
            for i, f in enumerate(all_):
                if isinstance(f, Reading) and not f.plain and expect[i] != "refused" and len(shared) < 3:
                    again = [Resaving(f.raw, f.custom, f.allow_nan, False), Reading(f.raw, f.custom, f.allow_nan, False)]
                    shared.append((f.objects(), f.allow_nan, *map(alone, again)))
            jobs = [[r.randrange(len(all_)) for _ in range(6)] for _ in range(8)]
            if group % 2:
                jobs = [list(jobs[0]) for _ in jobs]  # all the same at the same time
            log, bad, gate = [], [], threading.Barrier(8)

            def work(me):
                gate.wait()
                for i in jobs[me]:
                    log.append((me, "begin"))
                    got = attempt(all_[i])
                    log.append((me, "end"))
                    if got != expect[i]:
                        bad.append("%s: %s alone, %s with other threads" % (all_[i].label(), expect[i], got))
                for f, nan, w, t in shared:
                    log.append((me, "begin"))
                    if me % 2:
                        got, want = attempt(f.write, pwt.PALWORLD_CUSTOM_PROPERTIES), w
                    else:
                        got, want = attempt(lambda: pwt.text(f.dump(), True, nan)), t
                    log.append((me, "end"))
                    if got != want:
                        bad.append("%s of a document shared by threads gives another result" % ("write" if me % 2 else "dump"))

            ts = [threading.Thread(target=work, args=(i,)) for i in range(8)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            m.count("conversions_in_threads", len(log) // 2)
            m.evaluations += len(log) // 2
            m.count("changes_of_thread", sum(1 for a, b in zip(log, log[1:]) if a[0] != b[0]))
            m.count("begun_while_others_ran", sum(1 for a, b in zip(log, log[1:]) if a[1] == b[1] == "begin"))
            m.seen(repr(log))
            for b in bad[:2]:
                m.fail(b)
            if tables() != before:
                before = influence(m, g, before, all_, expect, "after other threads")
    sys.setswitchinterval(0.005)


# ---- processes ----------------------------------------------------------------------------


def processes(unit, m, g):
    r = g.r
    pool = cmd.Pool(seed_of(m.seed, "c15p", unit["n"]))
    names = ["Level", "Level.sav", "x", "x.json", "a", "b", "Players", "a.b"]
    for group in range(unit["groups"]):
        with pwt.Dir() as d, m.case(200):
            jobs = []
            r.shuffle(names)
            taken = set()
            for i in range(6):
                to = r.random() < 0.5
                stem = names[i]
                name = stem + (".sav" if to else ".json")
                out = name + ".json" if to else stem
                if name in taken or out in taken:
                    continue
                sav, raw, doc = pool.save()
                kind = r.choice(["convert", "convert", "broken", "resave"]) if to else r.choice(["convert", "convert", "broken"])
                taken |= {name, out}
                data = sav if to else json.dumps(doc).encode()
                if kind == "broken":
                    data = data[: len(data) // 2]
                if kind == "resave":
                    if {name + ".resave.json", name + ".resave.sav"} & taken:
                        continue
                d.put(name, data)
                jobs.append((kind, to, name, out, doc, data))
            ps = []
            for kind, to, name, out, doc, data in jobs:
                args = [name] if kind != "broken" else [name, "--force"]
                ps.append(subprocess.Popen(
                    pwt.argv(args, pwt.RESAVE if kind == "resave" else pwt.CONVERT) if kind != "resave" else pwt.argv([name], pwt.RESAVE),
                    stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d.path, env=pwt.environ(),
                ))
            outs = [p.communicate()[0].decode("utf8", "replace") for p in ps]
            for p, o, (kind, to, name, out, doc, data) in zip(ps, outs, jobs):
                m.seen(data, name, kind, len(jobs))
                m.count("processes_" + kind)
                what = "%s %s next to %s: " % (kind, name, [j[:3] for j in jobs if j[2] != name])
                if d.get(name) != data:
                    m.fail(what + "the input changed")
                elif kind == "broken":
                    if p.returncode == 0 or os.path.exists(d(out)):
                        m.fail(what + "no failure for half a file")
                elif p.returncode:
                    m.fail(what + "fails: %s" % o[-600:])
                elif kind == "resave":
                    if "same" not in o:
                        m.fail(what + o[-300:])
                else:
                    why = (cmd.json_ok if to else cmd.sav_ok)(d.get(out), doc)
                    if why:
                        m.fail(what + why)
            m.sample({"together": [j[:3] for j in jobs]})
