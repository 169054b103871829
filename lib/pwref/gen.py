"""Random well-formed documents in the JSON layout of the tool."""
import base64
import contextlib
import random

from .core import *
from . import schemas as S
from .codec import NATIVE, SIMPLE, ELEMENTS, W
from .tables import CLASS_OF, EMPTY_CLASSES

CLASSES = {
    "world": "/Script/Pal.PalWorldSaveGame",
    "local": "/Script/Pal.PalLocalWorldSaveGame",
    "player": "/Script/Pal.PalWorldPlayerSaveGame",
    "meta": "/Script/Pal.PalWorldBaseInfoSaveGame",
    "option": "/Script/Pal.PalWorldOptionSaveGame",
}
NAMES = (
    "SaveParameter Level Exp NickName HP Timestamp worldData Version ID Guid RawData Value Key values type id value "
    "Slots PlayerUId InstanceId custom_type struct_type bIsPlayer Gotta x none NONE".split()
)
STRUCTS = "PalInstanceID PalContainerId Transform GameDateTime Rotator IntVector Vector2D vector StructProperty".split()
ARRAY_TYPES = ["EnumProperty", "NameProperty", "Guid", "ByteProperty", "StructProperty"]
MAP_TYPES = ["StructProperty", "EnumProperty", "NameProperty", "IntProperty", "BoolProperty"]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.depth = 0
        self.decks = {}
        self.mood = None
        self.seen = {}

    @contextlib.contextmanager
    def in_mood(self):
        """Now and then a block holds nothing but zeros, or one value everywhere."""
        k = self.r.random()
        if self.mood or k > 0.16:
            yield
            return
        self.mood, self.seen = ("still" if k < 0.1 else "same"), {}
        try:
            yield
        finally:
            self.mood = None

    def pick(self, path, items):
        """Draw from a shuffled deck, so that every item comes up."""
        d = self.decks.get(path)
        if not d:
            d = self.decks[path] = list(items)
            self.r.shuffle(d)
        return d.pop()

    def draw(self, path, ty):
        if self.mood == "still":
            return ty.zero
        if self.mood == "same":
            if ty.name not in self.seen:
                self.seen[ty.name] = self.pick(path, ty.deck)
            return self.seen[ty.name]
        if self.r.random() < 0.65:
            return self.pick(path, ty.deck)
        return ty.rand(self.r)

    def length(self, path, big=False):
        if self.mood == "still":
            return 0
        if self.mood == "same" and self.depth < 2:
            return self.r.choice([1, 2, 2, 3])
        if self.depth >= 2:
            return self.r.choice([0, 1, 2])
        n = self.pick("#" + path, [0, 0, 1, 1, 2, 2, 3, 4, 5, 7] + ([16, 33, 64, 129, 257] if big else []))
        return n

    def junk(self):
        n = self.r.choice([1, 2, 3, 4, 8, 16, 17, 40, 200]) if self.r.random() < 0.97 else self.r.choice([1025, 4097, 70001])
        return self.r.choice([bytes(n), b"\xff" * n, self.r.randbytes(n)])

    # ---- properties ------------------------------------------------------------------------

    def opt(self):
        return OPTGUID.gen(self, "optid")

    def simple(self, t, v):
        return {"id": self.opt(), "value": v, "type": t}

    def int_(self, v):
        return self.simple("IntProperty", v)

    def name_(self, v):
        return self.simple("NameProperty", v)

    def enum_(self, e, v):
        return {"id": self.opt(), "value": {"type": e, "value": v}, "type": "EnumProperty"}

    def bool_(self):
        return {"value": self.r.random() < 0.5, "id": self.opt(), "type": "BoolProperty"}

    def struct_(self, st, v):
        sid = "00000000-0000-0000-0000-000000000000"
        if self.r.random() < 0.2:
            sid = GUID.gen(self, "sid")
        return {"struct_type": st, "struct_id": sid, "id": self.opt(), "value": v, "type": "StructProperty"}

    def native_(self, st, path="native"):
        return self.struct_(st, NATIVE[st].gen(self, path + st))

    def guid_(self):
        return self.native_("Guid")

    def raw_(self, v, custom=None):
        p = {"array_type": "ByteProperty", "id": self.opt(), "value": v, "type": "ArrayProperty"}
        if custom:
            p["custom_type"] = custom
        return p

    def bytes_(self, n=None):
        if n is None:
            n = self.r.choice([0, 1, 2, 3, 4, 7, 16, 17, 255, 256])
        return self.raw_({"values": list(self.r.randbytes(n))})

    def array_(self, name, tname, values, custom=None):
        aid = "00000000-0000-0000-0000-000000000000"
        if self.r.random() < 0.2:
            aid = GUID.gen(self, "aid")
        p = {
            "array_type": "StructProperty",
            "id": self.opt(),
            "value": {
                "prop_name": name, "prop_type": "StructProperty", "values": values, "type_name": tname, "id": aid,
            },
            "type": "ArrayProperty",
        }
        if custom:
            p["custom_type"] = custom
        return p

    def map_(self, kt, ks, vt, vs, entries, custom=None):
        p = {
            "key_type": kt, "value_type": vt, "key_struct_type": ks, "value_struct_type": vs, "id": self.opt(),
            "value": [{"key": k, "value": v} for k, v in entries], "type": "MapProperty",
        }
        if custom:
            p["custom_type"] = custom
        return p

    def smap_(self, kt, ks, entries, custom=None):
        return self.map_(kt, ks, "StructProperty", "StructProperty", entries, custom)

    # ---- arbitrary property lists ------------------------------------------------------------

    def prop_name(self, used):
        while True:
            k = self.r.random()
            if k < 0.5:
                n = self.r.choice(NAMES)
            elif k < 0.8:
                n = "".join(self.r.choice(Str.ALPHA) for _ in range(self.r.randint(1, 30)))
            else:
                n = STR.gen(self, "propname")
            if n != "None" and n not in used and n != "worldSaveData":
                return n

    def props(self, n=None, depth=0):
        if n is None:
            n = self.r.choice([0, 1, 2, 3, 5, 8])
        out = {}
        for _ in range(n):
            out[self.prop_name(out)] = self.any_prop(depth)
        return out

    def object_props(self, path):
        if self.mood == "still":
            return {}
        return self.props(self.r.choice([0, 1, 2, 4]), depth=2)

    KINDS = list(SIMPLE) + ["EnumProperty", "BoolProperty", "StructProperty", "ArrayProperty", "MapProperty"]

    def any_prop(self, depth):
        kinds = self.KINDS if depth < 4 else self.KINDS[:-3]
        t = self.pick("kind%d" % (depth < 4), kinds)
        if t in SIMPLE:
            return self.simple(t, SIMPLE[t].gen(self, "p/" + t))
        if t == "EnumProperty":
            return self.enum_(STR.gen(self, "enumtype"), STR.gen(self, "enumvalue"))
        if t == "BoolProperty":
            return self.bool_()
        if t == "StructProperty":
            if self.r.random() < 0.6:
                return self.native_(self.pick("native", NATIVE))
            return self.struct_(self.r.choice(STRUCTS), self.props(None if depth < 2 else 1, depth + 1))
        if t == "ArrayProperty":
            at = self.pick("arraytype", ARRAY_TYPES)
            if at == "ByteProperty":
                return self.bytes_()
            if at == "StructProperty":
                st = self.r.choice(list(NATIVE) + STRUCTS)
                n = self.length("structarray")
                vals = [self.struct_value(st, depth) for _ in range(n)]
                return self.array_(self.prop_name(()), st, vals)
            n = self.length("array", big=True)
            return {
                "array_type": at, "id": self.opt(),
                "value": {"values": [ELEMENTS[at].gen(self, "el/" + at) for _ in range(n)]}, "type": "ArrayProperty",
            }
        kt, vt = self.pick("maptypes", [(a, b) for a in MAP_TYPES for b in MAP_TYPES])
        n = self.length("map")
        return self.map_(
            kt, "Guid" if kt == "StructProperty" else None, vt, "StructProperty" if vt == "StructProperty" else None,
            [(self.part(kt, "Guid", depth), self.part(vt, "StructProperty", depth)) for _ in range(n)],
        )

    def struct_value(self, st, depth):
        return NATIVE[st].gen(self, "sv/" + st) if st in NATIVE else self.props(self.r.randrange(3), depth + 1)

    def part(self, t, st, depth):
        if t == "StructProperty":
            return self.struct_value(st, depth)
        if t == "IntProperty":
            return I32.gen(self, "part/int")
        if t == "BoolProperty":
            return self.r.random() < 0.5
        return STR.gen(self, "part/str")

    # ---- whole documents ----------------------------------------------------------------------

    def header(self, cls=None):
        i = self.r.random() < 0.5
        return {
            "magic": 0x53415647,
            "save_game_version": 3,
            "package_file_version_ue4": 522 if i else I32.gen(self, "ue4"),
            "package_file_version_ue5": 1008 if i else I32.gen(self, "ue5"),
            "engine_version_major": 5 if i else U16.gen(self, "maj"),
            "engine_version_minor": 1 if i else U16.gen(self, "min"),
            "engine_version_patch": 1 if i else U16.gen(self, "pat"),
            "engine_version_changelist": 0 if i else U32.gen(self, "cl"),
            "engine_version_branch": "++UE5+Release-5.1" if i else STR.gen(self, "branch"),
            "custom_version_format": 3,
            "custom_versions": [
                [GUID.gen(self, "cvid"), I32.gen(self, "cv")] for _ in range(self.length("versions", big=True))
            ],
            "save_game_class_name": cls or self.r.choice(list(CLASSES.values()) + ["", "/Script/Pal.Other"]),
        }

    def trailer(self):
        n = self.r.choice([4, 4, 4, 0, 1, 3, 5, 20]) if self.r.random() < 0.99 else self.r.choice([257, 5000, 70001])
        return base64.b64encode(bytes(4) if n == 4 else self.r.randbytes(n)).decode()

    def generic(self, n=None):
        return {"header": self.header(), "properties": self.props(n if n is not None else 6), "trailer": self.trailer()}

    def level(self, variants):
        secs = {}
        for s, k in variants:
            secs.setdefault(s, []).append(k)
        world = {}
        if self.r.random() < 0.5:
            world["Misc"] = self.struct_("PalMisc", self.props(3, 2))
        for s, kinds in secs.items():
            getattr(self, "sec_" + s)(world, kinds)
        if self.r.random() < 0.5:
            world["Tail"] = self.any_prop(2)
        top = {"Version": self.int_(100)} if self.r.random() < 0.5 else {}
        top["worldSaveData"] = self.struct_("PalWorldSaveData", world)
        if self.r.random() < 0.5:
            top["Timestamp"] = self.native_("DateTime")
        return {"header": self.header(CLASSES["world"]), "properties": top, "trailer": self.trailer()}

    def extra(self, d):
        """Other properties around those the tool looks at."""
        if self.r.random() < 0.3:
            d = dict(d)
            items = list(d.items())
            items.insert(self.r.randrange(len(items) + 1), (self.prop_name(d), self.any_prop(3)))
            d = dict(items)
        return d

    def sec_group(self, w, kinds):
        w["GroupSaveDataMap"] = self.smap_(
            "StructProperty", "Guid",
            [
                (
                    GUID.gen(self, "groupkey"),
                    self.extra(
                        {
                            "GroupType": self.enum_("EPalGroupType", k),
                            "RawData": self.raw_(S.GROUP.gen(self, k)),
                        }
                    ),
                )
                for k in kinds
            ],
            W + "GroupSaveDataMap",
        )

    def sec_character(self, w, kinds):
        c = W + "CharacterSaveParameterMap.Value.RawData"
        w["CharacterSaveParameterMap"] = self.smap_(
            "StructProperty", "StructProperty",
            [
                (
                    {
                        "PlayerUId": self.guid_(), "InstanceId": self.guid_(),
                        "DebugName": self.simple("StrProperty", STR.gen(self, "dbg")),
                    },
                    self.extra({"RawData": self.raw_(S.CHARACTER.gen(self, None), c)}),
                )
                for _ in kinds
            ],
        )

    def sec_item_container(self, w, kinds):
        c = W + "ItemContainerSaveData.Value."
        w["ItemContainerSaveData"] = self.smap_(
            "StructProperty", "StructProperty",
            [
                (
                    {"ID": self.guid_()},
                    self.extra(
                        {
                            "BelongInfo": self.struct_("PalItemContainerBelongInfo", {"GroupID": self.guid_()}),
                            "Slots": self.array_(
                                "Slots", "PalItemSlotSaveData",
                                [
                                    self.extra(
                                        {
                                            "SlotIndex": self.int_(n),
                                            "RawData": self.raw_(
                                                S.ITEM_SLOTS.gen(self, None), c + "Slots.Slots.RawData"
                                            ),
                                        }
                                    )
                                    for n in range(self.length("slots"))
                                ],
                            ),
                            "RawData": self.raw_(S.ITEM_CONTAINER.gen(self, None), c + "RawData"),
                        }
                    ),
                )
                for _ in kinds
            ],
        )

    def sec_char_container(self, w, kinds):
        c = W + "CharacterContainerSaveData.Value.Slots.Slots.RawData"
        w["CharacterContainerSaveData"] = self.smap_(
            "StructProperty", "StructProperty",
            [
                (
                    {"ID": self.guid_()},
                    self.extra(
                        {
                            "bReferenceSlot": self.bool_(),
                            "Slots": self.array_(
                                "Slots", "PalCharacterSlotSaveData",
                                [
                                    self.extra({"RawData": self.raw_(S.CHAR_CONTAINER.gen(self, None), c)})
                                    for _ in range(self.length("cslots"))
                                ],
                            ),
                            "RawData": self.bytes_(),
                        }
                    ),
                )
                for _ in kinds
            ],
        )

    def sec_dynamic_item(self, w, kinds):
        c = W + "DynamicItemSaveData.DynamicItemSaveData.RawData"
        w["DynamicItemSaveData"] = self.array_(
            "DynamicItemSaveData", "PalDynamicItemSaveData",
            [
                self.extra(
                    {
                        "StaticItemId": self.name_(STR.gen(self, "static")),
                        "RawData": self.raw_(S.DYNAMIC_ITEM.gen(self, k), c),
                    }
                )
                for k in kinds
            ],
        )

    def sec_foliage(self, w, kinds):
        c = W + "FoliageGridSaveDataMap.Value.ModelMap.Value."
        w["FoliageGridSaveDataMap"] = self.smap_(
            "StructProperty", "StructProperty",
            [
                (
                    {k: self.simple("Int64Property", I64.gen(self, "fx")) for k in "XYZ"},
                    {
                        "ModelMap": self.smap_(
                            "NameProperty", None,
                            [
                                (
                                    STR.gen(self, "fmk"),
                                    self.extra(
                                        {
                                            "RawData": self.raw_(S.FOLIAGE.gen(self, None), c + "RawData"),
                                            "InstanceDataMap": self.smap_(
                                                "StructProperty", "StructProperty",
                                                [
                                                    (
                                                        {"Guid": self.guid_()},
                                                        self.extra(
                                                            {
                                                                "RawData": self.raw_(
                                                                    S.FOLIAGE_INSTANCE.gen(self, None),
                                                                    c + "InstanceDataMap.Value.RawData",
                                                                )
                                                            }
                                                        ),
                                                    )
                                                    for _ in range(self.length("finst") + 2)
                                                ],
                                            ),
                                        }
                                    ),
                                )
                                for _ in range(self.r.randrange(3))
                            ],
                        )
                    },
                )
                for _ in kinds
            ],
        )

    def sec_camp(self, w, kinds):
        """kinds: base camp module kinds."""
        c = W + "BaseCampSaveData.Value."
        camps = []
        while kinds:
            n = self.r.randint(1, 4)
            mods, kinds = kinds[:n], kinds[n:]
            camps.append(
                (
                    GUID.gen(self, "campkey"),
                    self.extra(
                        {
                            "RawData": self.raw_(S.BASE_CAMP.gen(self, None), c + "RawData"),
                            "WorkerDirector": self.struct_(
                                "PalBaseCampSaveData_WorkerDirector",
                                {"RawData": self.raw_(S.WORKER_DIRECTOR.gen(self, None), c + "WorkerDirector.RawData")},
                            ),
                            "WorkCollection": self.struct_(
                                "PalBaseCampSaveData_WorkCollection",
                                {"RawData": self.raw_(S.WORK_COLLECTION.gen(self, None), c + "WorkCollection.RawData")},
                            ),
                            "ModuleMap": self.smap_(
                                "EnumProperty", None,
                                [(k, self.extra({"RawData": self.raw_(S.CAMP_MODULE.gen(self, k))})) for k in mods],
                                c + "ModuleMap",
                            ),
                        }
                    ),
                )
            )
        w["BaseCampSaveData"] = self.smap_("StructProperty", "Guid", camps)

    def sec_work(self, w, kinds):
        w["WorkSaveData"] = self.array_(
            "WorkSaveData", "PalWorkSaveData",
            [
                self.extra(
                    {
                        "WorkableType": self.enum_("EPalWorkableType", k),
                        "RawData": self.raw_(S.WORK.gen(self, k)),
                        "WorkAssignMap": self.smap_(
                            "IntProperty", None,
                            [
                                (I32.gen(self, "wak"), self.extra({"RawData": self.raw_(S.WORK_ASSIGN.gen(self, None))}))
                                for _ in range(self.length("assign"))
                            ],
                        ),
                    }
                )
                for k in kinds
            ],
            W + "WorkSaveData",
        )

    def effect_map(self):
        return self.smap_(
            "EnumProperty", None,
            [(STR.gen(self, "eff"), self.props(self.r.randrange(3), 3)) for _ in range(self.r.choice([0, 0, 1, 2]))],
        )

    def map_object(self, k, plain=False):
        name = k if self.r.random() < 0.5 else self.r.choice([k.upper(), k.capitalize(), k.lower()])
        if name.lower() not in CLASS_OF and k in CLASS_OF:
            name = k

        def raw(blob, kind=None):
            if plain:
                return self.bytes_()
            return self.raw_(blob.gen(self, kind))

        mods = [self.pick("module", S.MODULE_KINDS) for _ in range(self.r.choice([0, 1, 1, 2, 3]))]
        model = {
            "BuildProcess": self.struct_("PalMapObjectBuildProcessSaveData", {"RawData": raw(S.BUILD_PROCESS)}),
            "Connector": self.struct_("PalMapObjectConnectorSaveData", {"RawData": raw(S.CONNECTOR)}),
            "EffectMap": self.effect_map(),
            "RawData": raw(S.MAP_MODEL),
        }
        concrete = {
            "ModuleMap": self.smap_("EnumProperty", None, [(m, self.extra({"RawData": raw(S.MODULE, m)})) for m in mods]),
            "RawData": raw(S.CONCRETE, name),
        }
        return self.extra(
            {
                "MapObjectId": self.name_(name),
                "WorldLocation": self.native_("Vector"),
                "WorldRotation": self.native_("Quat"),
                "Model": self.struct_("PalMapObjectModelSaveData", self.extra(model)),
                "ConcreteModel": self.struct_("PalMapObjectConcreteModelSaveData", self.extra(concrete)),
            }
        )

    def sec_map_object(self, w, kinds):
        w["MapObjectSaveData"] = self.array_(
            "MapObjectSaveData", "PalMapObjectSaveData", [self.map_object(k) for k in kinds], W + "MapObjectSaveData"
        )

    def sec_dungeon(self, w, kinds):
        w["DungeonSaveData"] = self.array_(
            "DungeonSaveData", "PalDungeonSaveData",
            [
                self.extra(
                    {
                        "InstanceId": self.guid_(),
                        "MapObjectSaveData": self.array_(
                            "MapObjectSaveData", "PalMapObjectSaveData",
                            [self.map_object(self.r.choice(list(CLASS_OF)), plain=True) for _ in range(2)],
                        ),
                    }
                )
                for _ in kinds
            ],
        )

    def sec_enemy_camp(self, w, kinds):
        w["EnemyCampSaveData"] = self.struct_(
            "PalEnemyCampSaveData",
            {
                "EnemyCampStatusMap": self.smap_(
                    "NameProperty", None,
                    [(STR.gen(self, "eck"), {"ClearDate": self.native_("DateTime"), **self.props(2, 3)}) for _ in kinds],
                )
            },
        )

    def sec_spawner(self, w, kinds):
        w["MapObjectSpawnerInStageSaveData"] = self.smap_(
            "StructProperty", "StructProperty",
            [
                (
                    {"InternalId": self.guid_(), "bValid": self.bool_()},
                    {
                        "SpawnerDataMapByLevelObjectInstanceId": self.smap_(
                            "StructProperty", "Guid",
                            [
                                (
                                    GUID.gen(self, "spk"),
                                    {
                                        "ItemMap": self.smap_(
                                            "IntProperty", None,
                                            [
                                                (
                                                    I32.gen(self, "spi"),
                                                    {
                                                        "MapObjectInstanceId": self.guid_(),
                                                        "NextLotteryGameTime": self.simple(
                                                            "Int64Property", I64.gen(self, "spt")
                                                        ),
                                                    },
                                                )
                                                for _ in range(self.r.randrange(3))
                                            ],
                                        )
                                    },
                                )
                                for _ in range(self.r.randrange(3))
                            ],
                        )
                    },
                )
                for _ in kinds
            ],
        )


# Every kind of block, once per round; map objects once per concrete model class.
BY_CLASS = {}
for _n, _c in CLASS_OF.items():
    BY_CLASS.setdefault(_c, []).append(_n)


def variants(g):
    v = [("group", k) for k in S.GROUP_KINDS]
    v += [("character", None)] * 3
    v += [("item_container", None)] * 3 + [("char_container", None)] * 3
    v += [("dynamic_item", k) for k in S.DYNAMIC_KINDS]
    v += [("foliage", None)] * 3
    v += [("camp", k) for k in S.CAMP_MODULE_KINDS]
    v += [("work", k) for k in S.WORK_KINDS]
    for c, names in BY_CLASS.items():
        v.append(("map_object", g.pick("objname" + c, names)))
    v += [("map_object", k) for k in S.CONCRETE_KINDS[len(CLASS_OF):]]
    v += [("dungeon", None), ("enemy_camp", None), ("spawner", None)]
    return v


def rounds(seed, n, chunk=14):
    """n rounds of documents that together hold every kind of block once per round."""
    g = Gen(seed)
    for _ in range(n):
        v = variants(g)
        g.r.shuffle(v)
        for i in range(0, len(v), chunk):
            yield g.level(v[i : i + chunk])
