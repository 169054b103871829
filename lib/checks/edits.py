"""Edits a user can make to the JSON document, and edits that give a field what it cannot hold."""
import copy
import itertools

from pwref import codec, core, gen
from pwref import schemas as S


def sites(doc, g, want, roles=None):
    """Up to `want` sites, those at places edited least often first."""
    all_ = [s for s in codec.Codec().sites(doc) if roles is None or s.role in roles]
    g.r.shuffle(all_)
    used = g.__dict__.setdefault("used", {})
    all_.sort(key=lambda s: used.get(s.path, 0))
    out, paths = [], set()
    for s in all_:
        if s.path not in paths:
            paths.add(s.path)
            out.append(s)
            if len(out) == want:
                break
    return out


def edit(site, g):
    """Change a site to another representable value; says what was done, or None."""
    r = g.r
    role, old = site.role, site.get() if not isinstance(site.cont, dict) or site.key in site.cont else None
    key = (site.path, role)
    g.__dict__.setdefault("used", {})
    g.used[site.path] = g.used.get(site.path, 0) + 1
    if role in ("scalar", "blob", "ident"):
        if site.ty.name == "optguid":
            new = core.GUID.gen(g, site.path) if old is None or r.random() < 0.5 else None
        else:
            new = site.ty.edit(g, site.path, old)
        if core.same(new, old):
            return None
        site.set(new)
        return "set"
    if role == "list":
        new = list(old)
        how = g.pick("how" + site.path, ["insert", "delete", "swap", "clear", "dup", "reverse", "grow"])
        if how == "insert":
            t = getattr(site.ty, "t", None)
            x = None
            if t is not None:
                x = t.gen(g, site.path + "[]")
            elif new:
                x = copy.deepcopy(r.choice(new))
            elif isinstance(site.ty, codec.ListTy):
                k = site.ty.kind
                if k in codec.ELEMENTS:
                    x = codec.ELEMENTS[k].gen(g, site.path)
                elif k == "ByteProperty":
                    x = r.randrange(256)
                elif k == "versions":
                    x = [core.GUID.gen(g, "v"), core.I32.gen(g, "v")]
            if x is None:
                return None
            new.insert(r.randrange(len(new) + 1), x)
        elif not new:
            return None
        elif how == "delete":
            del new[r.randrange(len(new))]
        elif how == "swap":
            if len(new) < 2:
                return None
            i, j = r.sample(range(len(new)), 2)
            new[i], new[j] = new[j], new[i]
        elif how == "clear":
            new = []
        elif how == "dup":
            new += copy.deepcopy(new)
        elif how == "reverse":
            new.reverse()
        else:
            n = r.choice([20, 130, 260, 300])
            each = max(1, len(str(new)) // len(new))
            n = max(2, min(n, 60000 // each))
            new = [copy.deepcopy(x) for x in itertools.islice(itertools.cycle(new), n)]
        if core.same(new, list(old)):
            return None
        site.set(new)
        return how
    if role == "props":
        props = dict(old)
        how = g.pick("how" + site.path, ["insert", "insert", "delete", "shuffle", "rename"])
        if how == "insert":
            items = list(props.items())
            items.insert(r.randrange(len(items) + 1), (g.prop_name(props), g.any_prop(3)))
            props = dict(items)
        elif not props:
            return None
        elif how == "delete":
            free = [k for k in props if k not in STRUCTURE] or list(props)
            del props[r.choice(free)]
        elif how == "rename":
            free = [k for k in props if k not in STRUCTURE]
            if not free:
                return None
            k = r.choice(free)
            n = g.prop_name(props)
            props = {n if x == k else x: v for x, v in props.items()}
        else:
            items = list(props.items())
            r.shuffle(items)
            if [k for k, _ in items] == list(props):
                return None
            props = dict(items)
        site.set(props)
        return how
    return None


STRUCTURE = {
    "worldSaveData", "RawData", "GroupType", "WorkableType", "WorkAssignMap", "Model", "ConcreteModel", "Connector",
    "BuildProcess", "ModuleMap", "MapObjectId", "GroupSaveDataMap", "CharacterSaveParameterMap",
    "ItemContainerSaveData", "CharacterContainerSaveData", "DynamicItemSaveData", "FoliageGridSaveDataMap",
    "BaseCampSaveData", "WorkSaveData", "MapObjectSaveData", "WorkerDirector", "WorkCollection", "Slots",
}


def prescribed(doc):
    """The save the format prescribes for a document, or None if the document is not one the tool would show."""
    try:
        raw = codec.encode(doc)
        back = codec.decode(raw)
    except (core.RefError, KeyError, TypeError, ValueError, AttributeError):
        return None
    if core.first_diff(back, doc) or not codec.same_order(back, doc):
        return None
    return raw


WIDE = {"u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "i64": 64, "u64": 64}


def misfits(site):
    """(what, value) a scalar site cannot hold."""
    ty = site.ty
    n = ty.name
    if n in WIDE:
        w = WIDE[n]
        v = site.get()
        for x in (
            ty.lo - 1, ty.hi + 1, ty.hi + 2, ty.lo - 2, v + (1 << w), v - (1 << w), (1 << w) + 1, -(1 << w), 1 << 64,
            -(1 << 64), 10**30, -(1 << 63) - 1,
        ):
            if not ty.lo <= x <= ty.hi:
                yield "out of range", x
        for x in ("5", "", "abc", 1.5, v + 0.5, None, [], [1], {}, {"value": 1}):
            yield "wrong type", x
    elif n in ("f32", "f64"):
        if n == "f32":
            for x in (1e39, -1e39, 3.5e38, 1e308, 10**39):
                yield "out of range", x
        yield "out of range", 10**400
        yield "out of range", -(10**309)
        for x in ("1.0", "", "nan", [], [1.0], {}):
            yield "wrong type", x
    elif n == "str":
        for x in (5, None, 1.5, [], ["a"], {}, True):
            yield "wrong type", x
    elif n in ("guid", "optguid"):
        v = site.get() or "01234567-89ab-cdef-0123-456789abcdef"
        for x in (
            "", "x", v[:-1], v + "0", v[:-1] + "g", "g" + v[1:], v[:8] + "é" + v[9:] if len(v) > 9 else "é", "0" * 31,
            "0" * 33, v[:35] + "-", "+" + v[1:], "-" * 5 + "+" + v.replace("-", "")[1:], " " + v[1:], v[:-1] + " ", v[:-1] + "\n",
            "0x" + v[2:], "0_" + v[2:], v[:-3] + "0_" + v[-1], "\u0663" * 32, "\uff11" + v[1:], v[:-1] + "\u00a0", "0b" + v[2:].replace("-", "-")[:-2] + "zz",
        ):
            yield "malformed", x
        for x in (5, 1.5, [], list(range(16)), {}, {"id": v}) + ((None,) if n == "guid" else ()):
            yield "wrong type", x
    elif n == "bytes":
        for x in ([256] * ty.n, [-1] * ty.n, [0] * (ty.n - 1), [0] * (ty.n + 1), [], "abcd", None, 5, [0.5] * ty.n):
            yield "bytes", x
    elif n == "rest":
        for x in ([256], [-1], [1, 2, 300], "abcd", None, [0.5], ["a"], 5, 0, True):
            yield "bytes", x
    elif n == "rotator":
        for k in ("pitch", "yaw", "roll"):
            for x in ("1", [], {}):
                yield "wrong type", {**site.get(), k: x}
            yield "missing", {a: b for a, b in site.get().items() if a != k}
    elif n == "packed":
        for k in "xyz":
            for x in ("1", [], {}):
                yield "wrong type", {**site.get(), k: x}
            yield "missing", {a: b for a, b in site.get().items() if a != k}
    elif n == "trailer":
        for x in ("A", "A===", "AAAA*", "é", 5, None, [], "AAA AAA="):
            yield "malformed", x
    elif n in ("list", "arr"):
        for x in (5, None, True, 1.5, "abc", "EPalThing::A", " "):
            yield "wrong type", x
        kind = getattr(ty, "kind", None)
        v = site.get()
        if kind == "ByteProperty":
            for x in ([256], [-1], ["a"], [None], [1.5], v + [256], [1 << 40] + v):
                yield "element", x
        elif kind == "entries" and v:
            for k in ("key", "value"):
                e = [dict(x) for x in v]
                del e[-1][k]
                yield "missing", e
            yield "element", v + [None]
            yield "element", v + [5]
        elif kind == "versions":
            yield "element", v + [5]
            yield "element", v + [[]]
    elif n == "props":
        for x in (5, None, 1.5, True):
            yield "wrong type", x
        v = site.get()
        for x in (5, None, "text", []):
            yield "wrong type", {**v, "Extra": x}
        end = {"id": None, "value": 7, "type": "IntProperty"}
        yield "name", {**v, "None": end}
        yield "name", {"None": end, **v}


OPTIONAL = {"id", "v2", "other_connectors", "state_machine"}


def broken_props(doc):
    """(what, undo) for property records: unknown kinds and missing parts; the document is changed while yielded."""
    seen = set()
    for path, p, custom in all_props(doc["properties"], ""):
        t = p["type"]
        key = (path, t)
        if key in seen:
            continue
        seen.add(key)

        def change(k, v, cont=p):
            old = cont[k]
            cont[k] = v
            return lambda: cont.__setitem__(k, old)

        def drop(k, cont=p):
            old = dict(cont)
            del cont[k]

            def undo():
                cont.clear()
                cont.update(old)

            return undo

        for bad in ("DoubleProperty", "Int8Property", "TextProperty", "intproperty", "", None, 5):
            yield "property type %r at %s" % (bad, path), change("type", bad)
        yield "no type at %s" % path, drop("type")
        yield "no value at %s" % path, drop("value")
        if t == "StructProperty":
            yield "no struct_type at %s" % path, drop("struct_type")
            yield "no struct_id at %s" % path, drop("struct_id")
            yield "struct_type 5 at %s" % path, change("struct_type", 5)
        if t == "EnumProperty":
            yield "no enum type at %s" % path, drop("type", p["value"])
            yield "no enum value at %s" % path, drop("value", p["value"])
        if t == "ArrayProperty":
            yield "no array_type at %s" % path, drop("array_type")
            if isinstance(p["value"], dict) and p["value"].get("values") and not custom:
                for bad in ("DoubleProperty", "UInt32Property", "Vector", ""):
                    yield "array type %r at %s" % (bad, path), change("array_type", bad)
                yield "no values at %s" % path, drop("values", p["value"])
                if p["array_type"] == "StructProperty":
                    for k in ("prop_name", "prop_type", "type_name", "id"):
                        yield "no %s at %s" % (k, path), drop(k, p["value"])
        if t == "MapProperty":
            yield "no key_type at %s" % path, drop("key_type")
            yield "no value_type at %s" % path, drop("value_type")
            if p["value"]:
                for k in ("key_type", "value_type"):
                    for bad in ("FloatProperty", "StrProperty", "Guid", ""):
                        yield "%s %r at %s" % (k, bad, path), change(k, bad)
                for k in ("key_struct_type", "value_struct_type"):
                    yield "no %s at %s" % (k, path), drop(k)
        if "custom_type" in p:
            for bad in (".worldSaveData.Unknown", p["custom_type"] + "x", p["custom_type"][1:], "", None, 5):
                yield "custom type %r at %s" % (bad, path), change("custom_type", bad)


def all_props(props, path, inside=None):
    from checks.common import inner_props

    blobs = {}
    yield from _all(props, path, blobs)


def _all(props, path, blobs):
    from checks.common import inner_props

    for name, p in props.items():
        if "custom_type" in p:
            for slot, blob, kind in codec.blob_slots(p["custom_type"], p):
                blobs[id(slot)] = blob
        here = path + "." + name
        yield here, p, id(p) in blobs
        if id(p) in blobs:
            v = p["value"]
            if isinstance(v, dict):
                for k in ("object", "hatched_character_save_parameter"):
                    if k in v:
                        yield from _all(v[k], here + "~" + k, {})
            continue
        for q in inner_props(p):
            yield from _all(q, here, blobs)


def broken_kinds(doc):
    """(what, undo): raw data blocks of kinds nobody knows, with data in decoded form."""
    from checks.common import custom_props

    def change(cont, k, v):
        old = cont[k]
        cont[k] = v
        return lambda: cont.__setitem__(k, old)

    for path, p in custom_props(doc["properties"]):
        W = codec.W
        c = p["custom_type"]
        for slot, blob, kind in list(codec.blob_slots(c, p)):
            v = slot["value"]
            if not isinstance(v, dict) or "values" in v:
                continue
            if blob is S.CONCRETE:
                for bad in ("PalMapObjectBrandNewModel", "palmapobjecttorchmodel", "", None, 5):
                    yield "concrete model type %r" % (bad,), change(v, "concrete_model_type", bad)
            if blob is S.DYNAMIC_ITEM:
                for bad in ("food", "Egg", "", None, 5):
                    yield "item type %r" % (bad,), change(v, "type", bad)
            if blob is S.CAMP_MODULE:
                for e in v.get("passive_effects", ())[:1]:
                    for bad in (3, 4, 255, 256, -1, "2", None):
                        yield "passive effect %r" % (bad,), change(e, "type", bad)
            if blob is S.WORK:
                tr = v["transform"]
                if "raw_data" not in tr:
                    for bad in (0, 4, 255, 256, -1, "1", None):
                        yield "transform type %r" % (bad,), change(tr, "type", bad)
        if c == W + "WorkSaveData":
            for e in p["value"]["values"]:
                if "values" not in e["RawData"]["value"]:
                    for bad in ("EPalWorkableType::BrandNew", "", "EPalWorkableType::Illegal"):
                        yield "work type %r" % (bad,), change(e["WorkableType"]["value"], "value", bad)
        if c == W + "BaseCampSaveData.Value.ModuleMap":
            for e in p["value"]:
                if "values" not in e["value"]["RawData"]["value"]:
                    for bad in ("EPalBaseCampModuleType::BrandNew", ""):
                        yield "camp module %r" % (bad,), change(e, "key", bad)
        if c == W + "MapObjectSaveData":
            for o in p["value"]["values"]:
                for e in o["ConcreteModel"]["value"]["ModuleMap"]["value"]:
                    x = e["value"]["RawData"]["value"]
                    if x and "values" not in x:
                        for bad in (S.Module.T + "BrandNew", S.Module.T + "Energy", ""):
                            yield "module %r" % (bad,), change(e, "key", bad)
