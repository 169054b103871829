"""Documents that programs edit in memory are written like the JSON of the same document."""
import base64
import copy
import json
import random
import uuid

from checks import common, edits
from checks.C01 import diff
from checks.C02 import pairs
from checks.C03 import apply
from checks.common import seed_of
from pwref import codec, core, gen
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one document read, edited in memory, written, shown and written again, each result compared with what an "
    "independent encoder prescribes for the edited document; distinct by resulting save and by what was done in memory"
)


def units(tier, seed):
    q = tier == "quick"
    out = []
    for n in range(8 if q else 48):
        out.append({"kind": "rounds", "n": n, "rounds": 7 if q else 60, "config": ["fast", "std", "sys"][n % 3]})
    for n in range(13):
        out.insert(0, {"kind": "real", "n": n, "times": 1 if q else 8, "config": ["std", "fast", "sys"][n % 3]})
    for n in range(3 if q else 9):
        out.append({"kind": "generic", "n": n, "docs": 200 if q else 2000, "config": ["fast", "std", "sys"][n % 3]})
    return out


# ---- editing what the library returned -----------------------------------------------------------


class Memory:
    """A document in memory, changed the ways programs change it."""

    def __init__(self, r, m):
        self.r, self.m = r, m
        self.respelled = self.shared = 0

    def ident(self, v):
        """The same identifier in another form (v: library identifier, standard identifier or text)."""
        r = self.r
        t = str(v)
        k = r.randrange(4)
        self.respelled += 1
        if k == 0:
            return t
        if k == 1:
            return uuid.UUID(t)
        if k == 2:
            return pwt.archive.UUID.from_str(t)
        u = pwt.archive.UUID.from_str(t)
        r.choice([str, hash, repr, lambda x: x.UUID(), lambda x: x == u, lambda x: x])(u)
        return u

    def fresh(self, new, old=None):
        """A new value as a program would set it; old: what was at this place."""
        if isinstance(old, pwt.archive.UUID) and isinstance(new, str):
            return self.ident(new)
        if isinstance(new, list):
            x = [self.fresh(v) for v in new]
            return tuple(x) if isinstance(old, tuple) and self.r.random() < 0.5 else x
        if isinstance(new, dict):
            return {k: self.fresh(v) for k, v in new.items()}
        return new

    def merge(self, old, new):
        """old (of the document in memory), changed where it has to be to mean new."""
        if isinstance(old, dict) and isinstance(new, dict):
            if list(old) == list(new):
                for k in old:
                    x = self.merge(old[k], new[k])
                    if x is not old[k]:
                        old[k] = x
                return old
            items = [(k, self.merge(old[k], v) if k in old else self.fresh(v)) for k, v in new.items()]
            if self.r.random() < 0.5:
                return dict(items)
            old.clear()
            old.update(items)
            return old
        if isinstance(old, (list, tuple)) and isinstance(new, list):
            n = min(len(old), len(new))
            if len(old) == len(new) and all(isinstance(x, int) for x in new) and list(old) == new:
                return old
            x = [self.merge(a, b) for a, b in zip(old, new)] + [self.fresh(v) for v in new[n:]]
            if isinstance(old, tuple):
                return old if len(x) == len(old) and all(a is b for a, b in zip(old, x)) else self.fresh(new, old)
            old[:] = x
            return old
        if isinstance(old, (pwt.archive.UUID, uuid.UUID)) and isinstance(new, str):
            return old if str(old) == new else self.fresh(new, old)
        if core.same(old, new):
            return old
        return self.fresh(new, old)

    def respell(self, x, share):
        """Other objects for some of the same values."""
        r = self.r
        if isinstance(x, dict):
            for k, v in x.items():
                y = self.respell(v, share)
                if y is not v:
                    x[k] = y
        elif isinstance(x, list):
            if len(x) > 4 and isinstance(x[0], int):
                return tuple(x) if r.random() < share / 2 else x
            for n, v in enumerate(x):
                y = self.respell(v, share)
                if y is not v:
                    x[n] = y
            if r.random() < share / 8:
                self.respelled += 1
                return tuple(x)
        elif isinstance(x, tuple):
            if r.random() < share:
                self.respelled += 1
                return [self.respell(v, share) if not isinstance(v, int) else v for v in x]
        elif isinstance(x, pwt.archive.UUID):
            if r.random() < share:
                return self.ident(x)
        return x

    def share(self, x, seen=None):
        """Equal parts become one object, as after a program has copied entries by reference."""
        seen = {} if seen is None else seen
        if isinstance(x, dict):
            for k, v in x.items():
                if isinstance(v, (dict, list)):
                    x[k] = self.share(v, seen)
        elif isinstance(x, list):
            for n, v in enumerate(x):
                if isinstance(v, (dict, list)):
                    x[n] = self.share(v, seen)
        if not x:
            return x
        key = pwt.text(x)
        if len(key) > 20000:
            return x
        if key in seen:
            self.shared += seen[key] is not x
            return seen[key]
        seen[key] = x
        return x



def judge(m, g, gvas, doc, what, data):
    """The document in memory is made to mean doc, and written; gives the object to go on with, or None after a violation."""
    r = g.r
    want = codec.encode(doc)
    mem = Memory(r, m)
    if r.random() < 0.5:
        d = gvas.dump()
        d["header"] = mem.merge(d["header"], doc["header"])
        d["properties"] = mem.merge(d["properties"], doc["properties"])
        d["trailer"] = doc["trailer"]
    else:  # attributes of the object itself
        for k, v in doc["header"].items():
            setattr(gvas.header, k, mem.merge(getattr(gvas.header, k), v))
        gvas.properties = mem.merge(gvas.properties, doc["properties"])
        gvas.trailer = base64.b64decode(doc["trailer"])
        d = None
    share = r.choice([0, 0, 0.05, 0.5, 1])
    props = d["properties"] if d else gvas.properties
    if share:
        mem.respell(props, share)
        h = d["header"] if d else vars(gvas.header)
        h["custom_versions"] = mem.respell(list(h["custom_versions"]), share)
    if r.random() < 0.4:
        mem.share(props)
    if d:
        gvas = pwt.GvasFile.load(d)
    m.seen(want[-8192:], repr(what), share, mem.shared)
    m.count("values_in_another_form", mem.respelled)
    m.count("parts_shared", mem.shared)
    m.count("edits", len(what))

    def shown(when):
        text = pwt.text(gvas.dump())
        x = core.first_diff(json.loads(text, object_pairs_hook=pairs), doc)
        if not x and not codec.same_order(json.loads(text), doc):
            x = "another order of properties"
        if x:
            m.fail("edited in memory (%s)%s, the document shows (first) and should show (second): %s" % (what, when, x), data)
        return not x

    if r.random() < 0.5 and not shown(""):
        return None
    for n in ("", " the second time"):
        got = gvas.write(pwt.PALWORLD_CUSTOM_PROPERTIES)
        if got != want:
            m.fail("edited in memory (%s), written%s: %s" % (what, n, diff(want, got)), data)
            return None
        if r.random() < 0.5:
            break
    if not shown(" and written"):
        return None
    # Equal parts that are one object would change together
    return pwt.GvasFile.load(apart(gvas.dump())) if mem.shared or r.random() < 0.2 else gvas


def apart(x):
    """A copy in which nothing is shared."""
    if isinstance(x, dict):
        return {k: apart(v) for k, v in x.items()}
    if isinstance(x, list):
        return [apart(v) for v in x]
    if isinstance(x, tuple):
        return x if x and isinstance(x[0], int) else tuple(apart(v) for v in x)
    return x


def by_reference(doc, g):
    """Entries of lists repeated, as programs do that copy an entry."""
    what = []
    r = g.r
    lists = [s for s in codec.Codec().sites(doc) if s.role == "list" and s.get() and isinstance(s.get()[0], dict)]
    for s in r.sample(lists, min(len(lists), r.choice([1, 2, 4]))):
        try:
            old = s.get()
        except (KeyError, IndexError):
            continue
        if not old or len(str(old)) > 300000:
            continue
        new = list(old)
        for _ in range(r.choice([1, 1, 2, 3])):
            new.insert(r.randrange(len(new) + 1), copy.deepcopy(r.choice(old)))
        s.set(new)
        what.append((s.path, "copy entry"))
        if r.random() < 0.5:
            break
    return what


def session(m, g, raw, times, many=4):
    """Several edits of one document in memory, each written."""
    doc = codec.decode(raw)
    data = {"gvas": raw if len(raw) < 100000 else None}
    with m.case(300, data):
        gvas = pwt.read(raw)
        done = []
        for n in range(times):
            before = copy.deepcopy(doc)
            k = g.r.randrange(4)
            what = [] if k == 0 else by_reference(doc, g) if k == 1 else apply(doc, g, g.r.randint(1, many))
            if edits.prescribed(doc) is None:
                m.count("edits_with_no_prescribed_save")
                doc = before
                continue
            done.append(what)
            data["edits"] = done
            gvas = judge(m, g, gvas, doc, what, data)
            if gvas is None:
                return


def run(unit, m):
    k = unit["kind"]
    g = gen.Gen(seed_of(m.seed, "c22", k, unit["n"]))
    if k == "rounds":
        for doc in gen.rounds(seed_of(m.seed, "c22r", unit["n"]), unit["rounds"], chunk=3):
            session(m, g, codec.encode(doc), 4)
    elif k == "generic":
        for _ in range(unit["docs"]):
            session(m, g, codec.encode(g.generic(g.r.choice([2, 5, 8]))), 3)
    else:
        for name, raw, t in list(common.real_docs())[unit["n"] :: 13]:
            session(m, g, raw, unit["times"] * (1 if len(raw) > 400000 else 4), many=25)
