"""Workloads shared by the checks: well-formed documents and their encodings."""
import copy
import itertools
import random

from pwref import codec, core, gen
from pwref import schemas as S


def seed_of(seed, *parts):
    return "/".join([str(seed)] + [str(p) for p in parts])


def real_docs():
    """(name, gvas bytes, save type) of the sample saves."""
    from vk import pwt

    for p in pwt.saves():
        with open(p, "rb") as f:
            raw, t = pwt.unpack(f.read())
        yield p, raw, t


def blob_kinds(doc, out):
    """Kinds of raw data blocks in a document."""
    for path, p in custom_props(doc["properties"]):
        for slot, blob, kind in codec.blob_slots(p["custom_type"], p):
            v = slot["value"]
            if v is None or (isinstance(v, dict) and v.get("values") == []):
                state = "empty"
            elif isinstance(v, dict) and "values" in v:
                state = "raw"
            else:
                state = v.get("type") or v.get("concrete_model_type") or "decoded"
            out.add((blob.name, str(kind), str(state)))
    return out


def custom_props(props, path=""):
    """Properties with a custom type, outermost first."""
    for name, p in props.items():
        if not isinstance(p, dict):
            continue
        if "custom_type" in p:
            yield path + "." + name, p
        for q in inner_props(p):
            yield from custom_props(q, path + "." + name)


def inner_props(p):
    """Property lists directly inside the value of a property."""
    t, v = p.get("type"), p.get("value")
    if t == "StructProperty" and p["struct_type"] not in codec.NATIVE:
        yield v
    elif t == "ArrayProperty" and p["array_type"] == "StructProperty" and isinstance(v, dict) and "prop_name" in v:
        if v["type_name"] not in codec.NATIVE:
            yield from v["values"]
    elif t == "MapProperty":
        for e in v:
            if p["key_type"] == "StructProperty" and p["key_struct_type"] not in codec.NATIVE:
                yield e["key"]
            if p["value_type"] == "StructProperty" and p["value_struct_type"] not in codec.NATIVE:
                yield e["value"]


def nested(g, depth):
    """Structs, arrays and maps inside each other."""
    doc = g.generic(2)
    props = doc["properties"]
    for d in range(depth):
        inner = g.props(1, 9)
        k = g.r.randrange(3)
        if k == 0:
            p = g.struct_("Nested%d" % d, inner)
        elif k == 1:
            p = g.array_("Nested", "NestedStruct", [g.props(1, 9), inner] if g.r.random() < 0.3 else [inner])
        else:
            p = g.smap_("NameProperty", None, [("k%d" % d, inner)])
        name = g.prop_name(props)
        props[name] = p
        props = inner
    return doc


LIST_SIZES = [255, 256, 257, 1000, 1023, 1024, 1025, 4097]
PROP_SIZES = [130, 260, 260, 520, 1030, 4100]
BIG_SIZES = [10001, 32768, 65535, 65536, 70001, 131073]
STR_SIZES = [255, 256, 1022, 1023, 1024, 1025, 4095, 4096, 16384, 32767, 32768, 65535, 65536, 131073]


def stretches(seed, n_rounds=1, part=0, parts=1):
    """Documents in which one list or string is much longer than usual, once per place."""
    g = gen.Gen(seed)
    done = set()
    r = g.r
    large = 3
    for _ in range(n_rounds):
        v = gen.variants(g)
        r.shuffle(v)
        for i, one in enumerate(v):
            if i % parts != part:
                continue
            doc = g.level([one])
            for site in list(codec.Codec().sites(doc)):
                key = site.path
                if key in done:
                    continue
                if site.role == "list" and site.get():
                    old = site.get()
                    each = max(1, len(str(old)) // len(old))
                    cheap = not isinstance(old[0], dict)
                    sizes = [g.pick("size", LIST_SIZES)]
                    if cheap and each < 200:
                        sizes.append(g.pick("big", BIG_SIZES))
                    else:
                        sizes[0] = min(sizes[0], max(40, 400000 // each))
                        if large and each < 300:
                            large -= 1
                            sizes.append(10001)
                    new = [list(itertools.islice(itertools.cycle(old), n)) for n in sizes]
                elif site.role == "props":
                    old = site.get()
                    n = g.pick("props", PROP_SIZES)
                    extra = [(("More%d" % k), g.any_prop(4)) for k in range(50)]
                    more = {"%s_%d" % (k, i): p for i in range(n // 50 + 1) for k, p in extra}
                    new = [{**more, **old} if r.random() < 0.5 else {**old, **more}]
                elif site.ty is core.STR:
                    old = site.get()
                    new = [core.STR.long(r, g.pick("strsize", STR_SIZES))]
                else:
                    continue
                done.add(key)
                for x in new:
                    site.set(x)
                    yield (site.role, key), copy.deepcopy(doc) if isinstance(x, (list, dict)) else doc
                site.set(old)


def units(tier, seed, quick_shards=8, quick_rounds=40, thorough_shards=48, thorough_rounds=400, configs=("fast", "std", "sys")):
    """Standard division of the well-formed inputs."""
    out = []
    shards, rounds = (quick_shards, quick_rounds) if tier == "quick" else (thorough_shards, thorough_rounds)
    for n in range(shards):
        out.append({"kind": "rounds", "n": n, "rounds": rounds, "config": configs[n % len(configs)]})
    for n in range(max(1, shards // 8)):
        out.append({"kind": "generic", "n": n, "docs": 600 if tier == "quick" else 4000, "config": configs[n % len(configs)]})
    for n in range(max(1, shards // 8)):
        for part in range(4):
            out.append({"kind": "stretch", "n": n, "part": part, "rounds": 1, "config": configs[(n + part) % len(configs)]})
    out.append({"kind": "real", "config": "fast"})
    out.append({"kind": "deep", "n": 0, "config": "fast"})
    return out


def docs(unit, m):
    """(label, document) of a unit."""
    k = unit["kind"]
    if k == "rounds":
        for n, d in enumerate(gen.rounds(seed_of(m.seed, k, unit["n"]), unit["rounds"])):
            yield (k, n), d
    elif k == "generic":
        g = gen.Gen(seed_of(m.seed, k, unit["n"]))
        for n in range(unit["docs"]):
            yield (k, n), g.generic(g.r.choice([0, 1, 4, 6, 6, 8]))
    elif k == "stretch":
        yield from stretches(seed_of(m.seed, k, unit["n"]), unit["rounds"], unit["part"], 4)
    elif k == "real":
        for name, raw, t in real_docs():
            yield (k, name), codec.decode(raw)
    elif k == "deep":
        g = gen.Gen(seed_of(m.seed, k, unit["n"]))
        for depth in list(range(1, 41)) * (1 if m.tier == "quick" else 10):
            yield (k, depth), nested(g, depth)
