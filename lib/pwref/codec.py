"""Reference codec for whole GVAS documents, in the JSON layout the tool shows."""
import base64

from .core import *
from . import schemas as S
from .tables import HINTS, CUSTOM_PATHS

RAW = "\0raw"
NATIVE = {"Vector": VEC, "DateTime": U64, "Guid": GUID, "Quat": QUAT, "LinearColor": COLOR}
SIMPLE = {
    "IntProperty": I32,
    "Int64Property": I64,
    "FixedPoint64Property": I32,
    "FloatProperty": F32,
    "StrProperty": STR,
    "NameProperty": STR,
}
ELEMENTS = {"EnumProperty": STR, "NameProperty": STR, "Guid": GUID}
MAP_PARTS = {"EnumProperty": STR, "NameProperty": STR, "IntProperty": I32, "BoolProperty": BOOL8}

W = ".worldSaveData."
DIRECT = {
    W + "CharacterSaveParameterMap.Value.RawData": S.CHARACTER,
    W + "ItemContainerSaveData.Value.RawData": S.ITEM_CONTAINER,
    W + "ItemContainerSaveData.Value.Slots.Slots.RawData": S.ITEM_SLOTS,
    W + "CharacterContainerSaveData.Value.Slots.Slots.RawData": S.CHAR_CONTAINER,
    W + "DynamicItemSaveData.DynamicItemSaveData.RawData": S.DYNAMIC_ITEM,
    W + "FoliageGridSaveDataMap.Value.ModelMap.Value.RawData": S.FOLIAGE,
    W + "FoliageGridSaveDataMap.Value.ModelMap.Value.InstanceDataMap.Value.RawData": S.FOLIAGE_INSTANCE,
    W + "BaseCampSaveData.Value.RawData": S.BASE_CAMP,
    W + "BaseCampSaveData.Value.WorkerDirector.RawData": S.WORKER_DIRECTOR,
    W + "BaseCampSaveData.Value.WorkCollection.RawData": S.WORK_COLLECTION,
}


def blob_slots(path, prop):
    """Raw data properties inside the property at a custom path: (property, block, kind)."""
    if path in DIRECT:
        yield prop, DIRECT[path], None
    elif path == W + "GroupSaveDataMap":
        for e in prop["value"]:
            yield e["value"]["RawData"], S.GROUP, e["value"]["GroupType"]["value"]["value"]
    elif path == W + "BaseCampSaveData.Value.ModuleMap":
        for e in prop["value"]:
            yield e["value"]["RawData"], S.CAMP_MODULE, e["key"]
    elif path == W + "WorkSaveData":
        for e in prop["value"]["values"]:
            yield e["RawData"], S.WORK, e["WorkableType"]["value"]["value"]
            for a in e["WorkAssignMap"]["value"]:
                yield a["value"]["RawData"], S.WORK_ASSIGN, None
    elif path == W + "MapObjectSaveData":
        for e in prop["value"]["values"]:
            m = e["Model"]["value"]
            yield m["RawData"], S.MAP_MODEL, None
            yield m["Connector"]["value"]["RawData"], S.CONNECTOR, None
            yield m["BuildProcess"]["value"]["RawData"], S.BUILD_PROCESS, None
            c = e["ConcreteModel"]["value"]
            yield c["RawData"], S.CONCRETE, e["MapObjectId"]["value"]
            for x in c["ModuleMap"]["value"]:
                yield x["value"]["RawData"], S.MODULE, x["key"]
    else:
        raise RefError("unknown custom path " + path)


class Codec:
    def __init__(self, custom=CUSTOM_PATHS, hints=HINTS):
        self.custom, self.hints = set(custom), hints
        self.blob_at = {}

    # ---- encoding -------------------------------------------------------------------------

    def encode(self, doc):
        o = Out()
        self.blob_at = {}
        self.enc_header(o, doc["header"])
        self.enc_props(o, doc["properties"])
        o.put(base64.b64decode(doc["trailer"], validate=True))
        self.blob_at = {}
        return o

    def enc_header(self, o, h):
        for k, t in HEADER_A:
            t.enc(o, h[k])
        o.u32(len(h["custom_versions"]), "count")
        for a, b in h["custom_versions"]:
            GUID.enc(o, a)
            I32.enc(o, b)
        STR.enc(o, h["save_game_class_name"])

    def enc_props(self, o, props):
        for name, p in props.items():
            STR.enc(o, name)
            self.enc_prop(o, p)
        STR.enc(o, "None")

    def enc_prop(self, o, p):
        t = p["type"]
        STR.enc(o, t)
        at = len(o.b)
        o.mark("size", 8)
        o.put(bytes(8))
        if RAW in p:  # bytes after the size, for kinds of property the codec does not know
            size, data = p[RAW]
            o.put(data)
            o.b[at : at + 8] = struct.pack("<Q", size)
            return
        if "custom_type" in p:
            for slot, blob, kind in blob_slots(p["custom_type"], p):
                self.blob_at[id(slot)] = (blob, kind)
        ident = p.get("id")
        if t in SIMPLE:
            OPTGUID.enc(o, ident)
            start = len(o.b)
            SIMPLE[t].enc(o, p["value"])
        elif t == "EnumProperty":
            STR.enc(o, p["value"]["type"])
            OPTGUID.enc(o, ident)
            start = len(o.b)
            STR.enc(o, p["value"]["value"])
        elif t == "BoolProperty":
            BOOL8.enc(o, p["value"])
            OPTGUID.enc(o, ident)
            start = len(o.b)
        elif t == "StructProperty":
            STR.enc(o, p["struct_type"])
            GUID.enc(o, p["struct_id"])
            OPTGUID.enc(o, ident)
            start = len(o.b)
            self.enc_struct(o, p["struct_type"], p["value"])
        elif t == "ArrayProperty":
            STR.enc(o, p["array_type"])
            OPTGUID.enc(o, ident)
            start = len(o.b)
            self.enc_array(o, p)
        elif t == "MapProperty":
            STR.enc(o, p["key_type"])
            STR.enc(o, p["value_type"])
            OPTGUID.enc(o, ident)
            start = len(o.b)
            o.put(bytes(4))
            o.u32(len(p["value"]), "count")
            for e in p["value"]:
                self.enc_part(o, p["key_type"], p["key_struct_type"], e["key"])
                self.enc_part(o, p["value_type"], p["value_struct_type"], e["value"])
        else:
            raise RefError("unknown property type %r" % t)
        o.b[at : at + 8] = struct.pack("<Q", len(o.b) - start)

    def enc_part(self, o, t, st, v):
        if t == "StructProperty":
            self.enc_struct(o, st, v)
        elif t in MAP_PARTS:
            MAP_PARTS[t].enc(o, v)
        else:
            raise RefError("unknown map part " + t)

    def enc_struct(self, o, st, v):
        if st in NATIVE:
            NATIVE[st].enc(o, v)
        else:
            self.enc_props(o, v)

    def enc_array(self, o, p):
        t = p["array_type"]
        if id(p) in self.blob_at:
            blob, kind = self.blob_at[id(p)]
            at = len(o.b)
            o.u32(0, "bytecount")
            if isinstance(p["value"], dict) and p["value"].keys() == {"values"}:
                o.put(bytes(p["value"]["values"]))
            else:
                blob.enc(o, p["value"], kind)
            n = len(o.b) - at - 4
            o.b[at : at + 4] = struct.pack("<I", n)
            o.marks.append(("blob", at + 4, n))
            return
        v = p["value"]
        vals = v["values"]
        if t == "ByteProperty":
            o.u32(len(vals), "bytecount")
            o.put(bytes(vals))
            return
        o.u32(len(vals), "count")
        if t == "StructProperty":
            STR.enc(o, v["prop_name"])
            STR.enc(o, v["prop_type"])
            at = len(o.b)
            o.mark("size", 8)
            o.put(bytes(8))
            STR.enc(o, v["type_name"])
            GUID.enc(o, v["id"])
            o.put(b"\0")
            start = len(o.b)
            for x in vals:
                self.enc_struct(o, v["type_name"], x)
            o.b[at : at + 8] = struct.pack("<Q", len(o.b) - start)
        elif t in ELEMENTS:
            for x in vals:
                ELEMENTS[t].enc(o, x)
        else:
            raise RefError("unknown array type " + t)

    # ---- decoding -------------------------------------------------------------------------

    def decode(self, data):
        i = In(data)
        doc = {"header": self.dec_header(i)}
        doc["properties"] = self.dec_props(i, "")
        doc["trailer"] = base64.b64encode(i.rest()).decode()
        return doc

    def dec_header(self, i):
        h = {k: t.dec(i) for k, t in HEADER_A}
        if (h["magic"], h["save_game_version"], h["custom_version_format"]) != (0x53415647, 3, 3):
            raise RefError("bad header")
        h["custom_versions"] = [[GUID.dec(i), I32.dec(i)] for _ in range(i.unpack("I"))]
        h["save_game_class_name"] = STR.dec(i)
        return h

    def dec_props(self, i, path):
        props = {}
        while True:
            name = i.str()
            if name == "None":
                return props
            if name in props:
                raise RefError("duplicate property")
            t = i.str()
            size = i.unpack("Q")
            props[name] = self.dec_prop(i, t, size, path + "." + name)

    def dec_prop(self, i, t, size, path):
        if t in SIMPLE:
            v = {"id": OPTGUID.dec(i)}
            start = i.p
            v["value"] = SIMPLE[t].dec(i)
        elif t == "EnumProperty":
            e = i.str()
            v = {"id": OPTGUID.dec(i)}
            start = i.p
            v["value"] = {"type": e, "value": i.str()}
        elif t == "BoolProperty":
            v = {"value": BOOL8.dec(i), "id": OPTGUID.dec(i)}
            start = i.p
        elif t == "StructProperty":
            v = {"struct_type": i.str(), "struct_id": GUID.dec(i), "id": OPTGUID.dec(i)}
            start = i.p
            v["value"] = self.dec_struct(i, v["struct_type"], path)
        elif t == "ArrayProperty":
            v = {"array_type": i.str(), "id": OPTGUID.dec(i)}
            start = i.p
            v["value"] = self.dec_array(i, v["array_type"], size, path)
        elif t == "MapProperty":
            v = {"key_type": i.str(), "value_type": i.str()}
            ks = self.hints.get(path + ".Key", "Guid") if v["key_type"] == "StructProperty" else None
            vs = self.hints.get(path + ".Value", "StructProperty") if v["value_type"] == "StructProperty" else None
            v.update(key_struct_type=ks, value_struct_type=vs, id=OPTGUID.dec(i))
            start = i.p
            if i.unpack("I"):
                raise RefError("removed keys")
            v["value"] = [
                {
                    "key": self.dec_part(i, v["key_type"], ks, path + ".Key"),
                    "value": self.dec_part(i, v["value_type"], vs, path + ".Value"),
                }
                for _ in range(i.unpack("I"))
            ]
        else:
            raise RefError("unknown property type %r" % t)
        if i.p - start != size:
            odd("size mismatch at " + path)
        v["type"] = t
        if path in self.custom:
            for slot, blob, kind in list(blob_slots(path, v)):
                slot["value"] = blob.dec(bytes(slot["value"]["values"]), kind)
            v["custom_type"] = path
        return v

    def dec_part(self, i, t, st, path):
        if t == "StructProperty":
            return self.dec_struct(i, st, path)
        if t in MAP_PARTS:
            return MAP_PARTS[t].dec(i)
        raise RefError("unknown map part " + t)

    def dec_struct(self, i, st, path):
        return NATIVE[st].dec(i) if st in NATIVE else self.dec_props(i, path)

    def dec_array(self, i, t, size, path):
        n = i.unpack("I")
        if t == "ByteProperty":
            return {"values": list(i.take(n))}
        if t == "StructProperty":
            v = {"prop_name": i.str(), "prop_type": i.str()}
            inner = i.unpack("Q")
            v["type_name"] = i.str()
            v["id"] = GUID.dec(i)
            if i.unpack("B"):
                raise RefError("inner guid flag")
            start = i.p
            v["values"] = [self.dec_struct(i, v["type_name"], path + "." + v["prop_name"]) for _ in range(n)]
            if i.p - start != inner:
                odd("inner size mismatch")
            return v
        if t in ELEMENTS:
            return {"values": [ELEMENTS[t].dec(i) for _ in range(n)]}
        raise RefError("unknown array type " + t)

    # ---- editable places -------------------------------------------------------------------

    def sites(self, doc):
        h = doc["header"]
        for k, t in HEADER_A:
            if k not in ("magic", "save_game_version", "custom_version_format"):
                yield Site(h, k, t, "header." + k)
        yield Site(h, "custom_versions", VERSIONS, "header.custom_versions", "list")
        for v in h["custom_versions"]:
            yield Site(v, 0, GUID, "header.custom_versions[].id")
            yield Site(v, 1, I32, "header.custom_versions[].version")
        yield Site(h, "save_game_class_name", STR, "header.class")
        yield Site(doc, "trailer", TRAILER, "trailer")
        yield from self.prop_sites(doc, "properties", "", {})

    def prop_sites(self, cont, key, path, blobs=None):
        blobs = {} if blobs is None else blobs
        props = cont[key]
        yield Site(cont, key, S.PROPS, path + "{}", "props")
        for name, p in props.items():
            yield from self.one_prop_sites(p, path + "." + name, blobs)

    def one_prop_sites(self, p, path, blobs):
        t = p["type"]
        fixed = set()
        if "custom_type" in p:
            for slot, blob, kind in blob_slots(p["custom_type"], p):
                blobs[id(slot)] = (blob, kind)
        yield Site(p, "id", OPTGUID, path + "#id", "ident")
        if id(p) in blobs:
            blob, kind = blobs[id(p)]
            yield Site(p, "value", BlobTy(blob, kind), path + "~" + blob.name, "blob")
            yield from blob.sites(p, "value", kind, "%s~%s/%s" % (path, blob.name, kind))
        elif t in SIMPLE:
            if not path.endswith(".MapObjectSaveData.MapObjectId"):
                yield Site(p, "value", SIMPLE[t], path)
        elif t == "EnumProperty":
            if not path.endswith((".GroupType", ".WorkableType")):
                yield Site(p["value"], "type", STR, path + "#enum")
                yield Site(p["value"], "value", STR, path)
        elif t == "BoolProperty":
            yield Site(p, "value", BOOL8, path)
        elif t == "StructProperty":
            yield Site(p, "struct_id", GUID, path + "#sid")
            yield from self.struct_sites(p, "value", p["struct_type"], path, blobs)
        elif t == "ArrayProperty":
            v = p["value"]
            at = p["array_type"]
            yield Site(v, "values", ListTy(at), path + "[]", "list")
            if at == "StructProperty":
                yield Site(v, "id", GUID, path + "#aid")
                for n in range(len(v["values"])):
                    yield from self.struct_sites(
                        v["values"], n, v["type_name"], path + "." + v["prop_name"], blobs
                    )
            elif at == "ByteProperty":
                size = len(v["values"])
                for n in sorted({*range(min(size, 4)), size // 2, size - 1} - {-1} if size else ()):
                    yield Site(v["values"], n, U8, path + "[]")
            elif at in ELEMENTS:
                for n in range(len(v["values"])):
                    yield Site(v["values"], n, ELEMENTS[at], path + "[]")
        elif t == "MapProperty":
            yield Site(p, "value", ListTy("entries"), path + "[]", "list")
            for e in p["value"]:
                if not path.endswith(".ModuleMap"):
                    yield from self.part_sites(e, "key", p["key_type"], p["key_struct_type"], path + ".Key", blobs)
                yield from self.part_sites(e, "value", p["value_type"], p["value_struct_type"], path + ".Value", blobs)

    def part_sites(self, cont, key, t, st, path, blobs):
        if t == "StructProperty":
            yield from self.struct_sites(cont, key, st, path, blobs)
        else:
            yield Site(cont, key, MAP_PARTS[t], path)

    def struct_sites(self, cont, key, st, path, blobs):
        if st in NATIVE:
            yield from NATIVE[st].sites(cont, key, path)
        else:
            yield from self.prop_sites(cont, key, path, blobs)


class ListTy(Ty):
    name = "list"

    def __init__(self, kind):
        self.kind = kind


class BlobTy(Ty):
    name = "blob"

    def __init__(self, blob, kind):
        self.blob, self.kind = blob, kind

    def gen(self, g, path):
        return self.blob.gen(g, self.kind)


class Trailer(Ty):
    name = "trailer"

    def gen(self, g, path):
        return base64.b64encode(g.r.randbytes(g.r.choice([0, 1, 2, 3, 4, 5, 64]))).decode()


TRAILER = Trailer()
VERSIONS = ListTy("versions")
HEADER_A = [
    ("magic", I32),
    ("save_game_version", I32),
    ("package_file_version_ue4", I32),
    ("package_file_version_ue5", I32),
    ("engine_version_major", U16),
    ("engine_version_minor", U16),
    ("engine_version_patch", U16),
    ("engine_version_changelist", U32),
    ("engine_version_branch", STR),
    ("custom_version_format", I32),
]
S.Props.codec = Codec()


def encode(doc):
    return bytes(Codec().encode(doc).b)


def decode(data, custom=CUSTOM_PATHS):
    return Codec(custom).decode(data)


def same_order(a, b):
    """Property lists appear in the same order in two equal documents."""
    if isinstance(a, dict) and isinstance(b, dict):
        if a and all(isinstance(x, dict) and "type" in x for x in a.values()) and list(a) != list(b):
            return False
        return all(k in b and same_order(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return all(same_order(x, y) for x, y in zip(a, b))
    return True
