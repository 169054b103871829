"""Identifiers have one consistent value in all their forms."""
import copy
import json
import random
import uuid

from checks.common import seed_of
from pwref import core
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one identifier taken through a random sequence of operations, each compared with an independent definition of its "
    "forms; distinct by identifier and operations"
)


def units(tier, seed):
    q = tier == "quick"
    out = []
    for c in ("fast", "std", "sys"):
        out.append({"kind": "positions", "n": 0, "config": c})
        for n in range(3 if q else 16):
            out.append({"kind": "random", "n": n, "cases": 12000 if q else 300000, "config": c})
        out.append({"kind": "groups", "n": 0, "cases": 300 if q else 6000, "config": c})
    return out


def ids(r, n):
    for _ in range(n):
        k = r.randrange(6)
        if k == 0:
            yield r.randbytes(16)
        elif k == 1:
            b = bytearray(16)
            for _ in range(r.randint(1, 4)):
                b[r.randrange(16)] = r.randrange(256)
            yield bytes(b)
        elif k == 2:
            yield bytes(r.choice([0, 1, 0x0F, 0x10, 0x7F, 0x80, 0xFF]) for _ in range(16))
        elif k == 3:
            b = bytearray(b"\xff" * 16)
            b[r.randrange(16)] = r.randrange(256)
            yield bytes(b)
        elif k == 4:
            yield bytes(r.sample(range(256), 16))
        else:
            yield r.randbytes(16)[: r.randrange(17)].ljust(16, b"\0")


def std(raw):
    return uuid.UUID(core.guid_text(raw))


def make(r, raw):
    """An identifier object by one of the ways there are."""
    A = pwt.archive
    k = r.randrange(8)
    t = core.guid_text(raw)
    if k == 0:
        return "UUID(bytes)", A.UUID(raw)
    if k == 1:
        return "from_str", A.UUID.from_str(t)
    if k == 2:
        return "from_str upper", A.UUID.from_str(t.upper())
    if k == 3:
        return "from_str without dashes", A.UUID.from_str(t.replace("-", ""))
    if k == 4:
        return "guid()", A.FArchiveReader(raw + b"x").guid()
    if k == 5:
        return "uuid_reader", A.uuid_reader(A.FArchiveReader(raw))
    if k == 6:
        return "optional_guid()", A.FArchiveReader(b"\x01" + raw).optional_guid()
    i = A.instance_id_reader(A.FArchiveReader(bytes(16) + raw))
    return "instance_id_reader", i["instance_id"]


def written(f):
    w = pwt.archive.FArchiveWriter()
    f(w)
    return w.bytes()


def operations(m, r, raw, u, others):
    """(name, what the code says, what is right)"""
    A = pwt.archive
    t = core.guid_text(raw)
    o = r.choice(others)
    ot = core.guid_text(o)
    same = o == raw
    forms = [u, t, std(raw)]
    yield "str", lambda: str(u), t
    yield "format", lambda: "%s" % (u,), t
    yield "raw_bytes", lambda: bytes(u.raw_bytes), raw
    yield "UUID()", lambda: u.UUID(), std(raw)
    yield "UUID().int", lambda: u.UUID().int, int(t.replace("-", ""), 16)
    yield "str(UUID())", lambda: str(u.UUID()), t
    yield "from_str(str)", lambda: bytes(A.UUID.from_str(str(u)).raw_bytes), raw
    yield "from_str(str(UUID()))", lambda: bytes(A.UUID.from_str(str(u.UUID())).raw_bytes), raw
    yield "== itself", lambda: u == u, True
    yield "== equal one", lambda: u == make(r, raw)[1], True
    yield "!= equal one", lambda: u != make(r, raw)[1], False
    yield "== text", lambda: u == t, True
    yield "text ==", lambda: t == u, True
    yield "!= text", lambda: u != t, False
    yield "== standard", lambda: u == std(raw), True
    yield "standard ==", lambda: std(raw) == u, True
    yield "!= standard", lambda: u != std(raw), False
    yield "== other", lambda: u == make(r, o)[1], same
    yield "!= other", lambda: u != make(r, o)[1], not same
    yield "== other text", lambda: u == ot, same
    yield "!= other text", lambda: u != ot, not same
    yield "== other standard", lambda: u == std(o), same
    yield "!= other standard", lambda: u != std(o), not same
    yield "== None", lambda: u == None, False  # noqa: E711
    yield "== number", lambda: u == 5, False
    yield "hash stays", lambda: hash(u) == hash(u), True
    yield "hash of equal one", lambda: hash(u) == hash(make(r, raw)[1]), True
    yield "hash of used equal one", lambda: hash(u) == hash(used(make(r, raw)[1])), True
    yield "in set", lambda: make(r, raw)[1] in {u}, True
    yield "other in set", lambda: make(r, o)[1] in {u}, same
    yield "as key", lambda: {u: 1, make(r, o)[1]: 2}[make(r, raw)[1]], 2 if same else 1
    yield "set size", lambda: len({u, make(r, raw)[1], make(r, o)[1]}), 1 if same else 2
    yield "in list", lambda: [make(r, o)[1], u].index(make(r, raw)[1]), 0 if same else 1
    for name, f in zip(("identifier", "text", "standard form"), forms):
        yield "write " + name, lambda f=f: written(lambda w: w.guid(f)), raw
        yield "write optional " + name, lambda f=f: written(lambda w: w.optional_guid(f)), b"\x01" + raw
        yield "uuid_writer " + name, lambda f=f: written(lambda w: A.uuid_writer(w, f)), raw
        yield "instance_id_writer " + name, lambda f=f: written(lambda w: A.instance_id_writer(w, {"guid": f, "instance_id": o_form(r, o)})), raw + o
        yield "write struct " + name, lambda f=f: written(lambda w: w.struct_value("Guid", f)), raw
    yield "write own text", lambda: written(lambda w: w.guid(str(u))), raw
    yield "write own standard form", lambda: written(lambda w: w.guid(u.UUID())), raw
    yield "JSON", lambda: json.loads(pwt.text([u, {"a": u}])), [t, {"a": t}]
    yield "JSON of standard form", lambda: json.loads(pwt.text({"a": std(raw)})), {"a": t}
    yield "copy", lambda: (copy.copy(u) == u, str(copy.copy(u))), (True, t)
    yield "deep copy", lambda: (copy.deepcopy([u])[0] == u, str(copy.deepcopy(u)), bytes(copy.deepcopy(u).raw_bytes)), (True, t, raw)


def used(u):
    str(u), u.UUID(), hash(u), u == str(u), repr(u)
    return u


def o_form(r, o):
    return r.choice([core.guid_text(o), std(o), pwt.archive.UUID(o)])


def judge(m, r, raw, others, steps):
    how, u = make(r, raw)
    names = []
    ops = list(operations(m, r, raw, u, others))
    for name, f, want in r.choices(ops, k=steps) if steps else ops:
        names.append(name)
        try:
            got = f()
        except Exception as e:
            got = repr(e)
        m.count("operations")
        if got != want or (isinstance(want, bool) and got is not want):
            m.fail("identifier %s by %s, after %s: %s gives %r instead of %r" % (raw.hex(), how, names[:-1][-8:], name, got, want))
            break
    m.seen(raw, repr(names))
    m.count("by_" + how.replace(" ", "_"))
    m.sample({"bytes": raw.hex(), "text": core.guid_text(raw), "by": how, "operations": names[:12]})


def run(unit, m):
    k = unit["kind"]
    r = random.Random(seed_of(m.seed, "c13", k, unit["n"], unit["config"]))
    if k == "positions":
        for base in (bytes(16), b"\xff" * 16, bytes(range(1, 17))):
            with m.case(100):
                for i in range(16):
                    for v in range(256):
                        raw = base[:i] + bytes([v]) + base[i + 1 :]
                        other = base[:i] + bytes([v ^ (1 << r.randrange(8))]) + base[i + 1 :]
                        judge(m, r, raw, [other, other, raw, raw[::-1]], 12)
        with m.case(60):
            for x in (bytes(16), b"\xff" * 16, bytes(range(16)), bytes(range(255, 239, -1))):
                for other in (bytes(16), x[::-1], x, x[:15] + b"\x80", b"\x80" + x[1:]):
                    judge(m, r, x, [other], 0)
    elif k == "random":
        prev = [bytes(16)]
        for raw in ids(r, unit["cases"]):
            with m.case():
                near = bytearray(raw)
                near[r.randrange(16)] ^= 1 << r.randrange(8)
                swap = bytearray(raw)
                i, j = r.sample(range(16), 2)
                swap[i], swap[j] = swap[j], swap[i]
                judge(m, r, raw, prev[-3:] + [raw, bytes(near), bytes(swap), bytes(16)], r.choice([1, 3, 8, 25]))
                prev.append(raw)
                del prev[:-3]
    else:
        # collections of identifiers, some equal, in different states of use
        for _ in range(unit["cases"]):
            with m.case():
                pool = list(ids(r, r.randint(2, 60)))
                picks = [r.choice(pool) for _ in range(r.randint(2, 150))]
                objs = []
                for p in picks:
                    u = make(r, p)[1]
                    for _ in range(r.randrange(3)):
                        r.choice([str, hash, repr, lambda x: x.UUID(), lambda x: x == str(x)])(u)
                    objs.append(u)
                m.seen(b"".join(picks))
                m.count("collections")
                got = {bytes(u.raw_bytes) for u in set(objs)}
                if len(set(objs)) != len(set(picks)) or got != set(picks):
                    m.fail("%d different identifiers make a set of %d" % (len(set(picks)), len(set(objs))), picks)
                d = {}
                for p, u in zip(picks, objs):
                    d[u] = d.get(u, 0) + 1
                for p in set(picks):
                    if d.get(make(r, p)[1]) != picks.count(p):
                        m.fail("identifier %s counted %s times instead of %d" % (p.hex(), d.get(make(r, p)[1]), picks.count(p)), picks)
