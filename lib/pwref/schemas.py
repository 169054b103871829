"""Layout of the game-specific raw data blocks."""
import functools

from .core import *
from .tables import *


def rec(**k):
    return Rec(*k.items())


DYN_ID = rec(created_world_id=GUID, local_id_in_created_world=GUID)
ITEM_ID = rec(static_id=STR, dynamic_id=DYN_ID)
ITEM_NUM = rec(item_id=ITEM_ID, num=U32)
PERMISSION = rec(type_a=Arr(U8), type_b=Arr(U8), item_static_ids=Arr(STR))
INDIVIDUAL = rec(player_uid=GUID, instance_id=GUID)
PLAYER_INFO = rec(last_online_real_time=I64, player_name=STR)


class Props(Ty):
    """A property list inside a block (the codec installs itself here)."""

    name = "props"
    codec = None

    def enc(self, o, v):
        self.codec.enc_props(o, v)

    def dec(self, i):
        return self.codec.dec_props(i, "")

    def gen(self, g, path):
        return g.object_props(path)

    def sites(self, cont, key, path):
        return self.codec.prop_sites(cont, key, path)


PROPS = Props()


def moody(gen):
    @functools.wraps(gen)
    def inner(self, g, kind):
        with g.in_mood():
            return gen(self, g, kind)

    return inner


class Blob:
    """A raw data block of some kind; v is what the JSON shows in its place."""

    raw_ok = False  # the JSON may hold {"values": [...]} in place of the decoded block

    def __init__(self, name, ty):
        self.name, self.ty = name, ty

    def __init_subclass__(cls):
        if "gen" in cls.__dict__:
            cls.gen = moody(cls.gen)

    def type_for(self, kind, v=None):
        return self.ty

    def enc(self, o, v, kind):
        if isinstance(v, dict) and "values" in v:
            o.put(bytes(v["values"]))
        elif v is not None:
            self.type_for(kind, v).enc(o, v)

    def dec(self, raw, kind):
        i = In(raw)
        v = self.type_for(kind).dec(i)
        i.done()
        return v

    @moody
    def gen(self, g, kind):
        return self.type_for(kind).gen(g, self.name + "/" + str(kind))

    def sites(self, cont, key, kind, path):
        v = cont[key]
        if isinstance(v, dict) and "values" not in v:
            yield from self.type_for(kind, v).sites(cont, key, path)


class MaybeEmpty(Blob):
    def __init__(self, name, ty):
        super().__init__(name, ty)

    def dec(self, raw, kind):
        return super().dec(raw, kind) if raw else None

    def gen(self, g, kind):
        return None if g.r.random() < 0.1 else super().gen(g, kind)


BASE_CAMP = Blob(
    "base_camp",
    rec(
        id=GUID, name=STR, state=U8, transform=XFORM, area_range=F32, group_id_belong_to=GUID,
        fast_travel_local_transform=XFORM, owner_map_object_instance_id=GUID,
    ),
)
WORKER_DIRECTOR = Blob(
    "worker_director",
    rec(id=GUID, spawn_transform=XFORM, current_order_type=U8, current_battle_type=U8, container_id=GUID),
)
WORK_COLLECTION = Blob("work_collection", rec(id=GUID, work_ids=Arr(GUID)))
CHARACTER = Blob("character", rec(object=PROPS, unknown_bytes=Bytes(4), group_id=GUID))
CHAR_CONTAINER = MaybeEmpty(
    "character_container", rec(player_uid=GUID, instance_id=GUID, permission_tribe_id=U8)
)
ITEM_CONTAINER = MaybeEmpty("item_container", rec(permission=PERMISSION))
ITEM_SLOTS = MaybeEmpty("item_container_slots", rec(permission=PERMISSION, corruption_progress_value=F32))
FOLIAGE = Blob("foliage_model", rec(model_id=STR, foliage_preset_type=U8, cell_coord=rec(x=I64, y=I64, z=I64)))
FOLIAGE_INSTANCE = Blob(
    "foliage_instance",
    rec(
        model_instance_id=GUID,
        world_transform=rec(rotator=Rotator(), location=Packed(), scale_x=F32),
        hp=I32,
    ),
)
BUILD_PROCESS = Blob("build_process", rec(state=U8, id=GUID))
BUILD_PROCESS.raw_ok = True
MAP_MODEL = Blob(
    "map_model",
    rec(
        instance_id=GUID, concrete_model_instance_id=GUID, base_camp_id_belong_to=GUID, group_id_belong_to=GUID,
        hp=rec(current=I32, max=I32), initital_transform_cache=XFORM, repair_work_id=GUID,
        owner_spawner_level_object_instance_id=GUID, owner_instance_id=GUID, build_player_uid=GUID,
        interact_restrict_type=U8, stage_instance_id_belong_to=rec(id=GUID, valid=BOOL32), created_at=I64,
    ),
)
MAP_MODEL.raw_ok = True
WORK_ASSIGN = Blob(
    "work_assign",
    rec(id=GUID, location_index=I32, assign_type=U8, assigned_individual_id=INDIVIDUAL, state=U8, fixed=BOOL32),
)


class Connector(Blob):
    raw_ok = True
    CONNECT = rec(connect_to_model_instance_id=GUID, index=U8)
    BASE = rec(supported_level=I32, connect=rec(index=U8, any_place=Arr(CONNECT)))
    OTHER = rec(index=U8, connect=Arr(CONNECT))

    def enc(self, o, v, kind):
        if "values" in v:
            o.put(bytes(v["values"]))
            return
        self.BASE.enc(o, v)
        for x in v.get("other_connectors", ()):
            self.OTHER.enc(o, x)

    def dec(self, raw, kind):
        if not raw:
            return {"values": []}
        i = In(raw)
        v = self.BASE.dec(i)
        if i.left():
            v["other_connectors"] = []
            while i.left():
                v["other_connectors"].append(self.OTHER.dec(i))
        return v

    def gen(self, g, kind):
        if g.r.random() < 0.15:
            return {"values": []}
        v = self.BASE.gen(g, "connector")
        n = g.r.choice([0, 0, 1, 2, 2, 3, 4, 4, 5])
        if n:
            v["other_connectors"] = [self.OTHER.gen(g, "connector.other") for _ in range(n)]
        return v

    def sites(self, cont, key, kind, path):
        v = cont[key]
        if "values" in v:
            return
        yield from self.BASE.sites(cont, key, path)
        o = v.get("other_connectors", [])
        for n in range(len(o)):
            yield from self.OTHER.sites(o, n, path + ".other_connectors[]")


CONNECTOR = Connector("connector", None)


class Group(Blob):
    raw_ok = True
    BASE = rec(group_id=GUID, group_name=STR, individual_character_handle_ids=Arr(rec(guid=GUID, instance_id=GUID)))
    ORG = BASE.plus(("org_type", U8), ("base_ids", Arr(GUID)))
    CAMP = ORG.plus(
        ("base_camp_level", I32), ("map_object_instance_ids_base_camp_points", Arr(GUID)), ("guild_name", STR)
    )
    KINDS = {
        "EPalGroupType::Organization": ORG,
        "EPalGroupType::IndependentGuild": CAMP.plus(
            ("player_uid", GUID), ("guild_name_2", STR), ("player_info", PLAYER_INFO)
        ),
        "EPalGroupType::Guild": CAMP.plus(
            ("admin_player_uid", GUID), ("players", Arr(rec(player_uid=GUID, player_info=PLAYER_INFO)))
        ),
    }

    def type_for(self, kind, v=None):
        if v is not None:
            kind = v["group_type"]
        return Rec(("group_type", Const(kind)), *self.KINDS.get(kind, self.BASE).f)


GROUP = Group("group", None)
GROUP_KINDS = list(Group.KINDS) + ["EPalGroupType::Neutral", "EPalGroupType::SomethingNew"]


class PassiveEffect(Ty):
    HARD = rec(work_hard_type=U8, unknown_trailer=Bytes(4))

    def enc(self, o, v):
        if v["type"] not in (0, 1, 2):
            raise RefError("unknown passive effect")
        U8.enc(o, v["type"])
        if v["type"] == 2:
            self.HARD.enc(o, v)

    def dec(self, i):
        t = i.unpack("B")
        if t > 2:
            raise RefError("unknown passive effect")
        v = {"type": t}
        if t == 2:
            v.update(self.HARD.dec(i))
        return v

    def gen(self, g, path):
        t = g.r.randrange(3)
        v = {"type": t}
        if t == 2:
            v.update(self.HARD.gen(g, path))
        return v

    def sites(self, cont, key, path):
        if cont[key]["type"] == 2:
            yield from self.HARD.sites(cont, key, path)


def values(raw):
    return {"values": list(raw)}


class CampModule(Blob):
    raw_ok = True
    KINDS = {
        "EPalBaseCampModuleType::TransportItemDirector": rec(
            transport_item_character_infos=Arr(rec(item_infos=Arr(ITEM_NUM), character_location=VEC))
        ),
        "EPalBaseCampModuleType::PassiveEffect": rec(passive_effects=Arr(PassiveEffect())),
    }

    def type_for(self, kind, v=None):
        if kind in EMPTY_CAMP_MODULES:
            return Rec()
        return self.KINDS[kind]

    def dec(self, raw, kind):
        if kind not in EMPTY_CAMP_MODULES and kind not in self.KINDS:
            return values(raw)
        return super().dec(raw, kind)

    def gen(self, g, kind):
        if kind not in EMPTY_CAMP_MODULES and kind not in self.KINDS:
            return values(g.junk())
        return super().gen(g, kind)


CAMP_MODULE = CampModule("camp_module", None)
CAMP_MODULE_KINDS = EMPTY_CAMP_MODULES + list(CampModule.KINDS) + ["EPalBaseCampModuleType::BrandNew"]


class DynamicItem(Blob):
    HEAD = rec(
        id=Rec(("created_world_id", GUID), ("local_id_in_created_world", GUID), ("static_id", STR)),
    )
    EGG = rec(type=Const("egg"), character_id=STR, object=PROPS, unknown_bytes=Bytes(4), unknown_id=GUID)
    ARMOR = rec(type=Const("armor"), durability=F32)
    WEAPON = rec(type=Const("weapon"), durability=F32, remaining_bullets=I32, passive_skill_list=Arr(STR))
    UNKNOWN = rec(type=Const("unknown"), trailer=Rest())
    KINDS = {"egg": EGG, "armor": ARMOR, "weapon": WEAPON, "unknown": UNKNOWN}

    def type_for(self, kind, v=None):
        return Rec(*self.HEAD.f, *self.KINDS[v["type"] if v else kind].f)

    def enc(self, o, v, kind):
        if v is None:
            return
        if v.get("type") not in self.KINDS:
            raise RefError("unknown item type")
        self.type_for(None, v).enc(o, v)

    def dec(self, raw, kind):
        if not raw:
            return None
        i = In(raw)
        v = self.HEAD.dec(i)
        rest = i.rest()
        for k in ("egg", "armor", "weapon"):
            j = In(rest)
            try:
                w = self.KINDS[k].dec(j)
                j.done()
                return {**v, **w}
            except RefError:
                pass
        return {**v, **self.UNKNOWN.dec(In(rest))}

    def gen(self, g, kind):
        if kind is None:
            return None
        while True:
            v = self.HEAD.gen(g, "dynamic_item")
            v.update(self.KINDS[kind].gen(g, "dynamic_item/" + kind))
            if kind == "unknown":
                n = g.r.choice([0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11])
                v["trailer"] = [g.r.randrange(0x70) for _ in range(n)]
                if g.r.random() < 0.3:
                    # looks like a weapon whose list goes on past the end
                    v["trailer"] = [5] * 8 + [255, 255, 255, 127] + [g.r.randrange(0x70) for _ in range(20)]
            return v


DYNAMIC_ITEM = DynamicItem("dynamic_item", None)
DYNAMIC_KINDS = [None, "egg", "armor", "weapon", "unknown"]


class Farm(Ty):
    BASE = rec(crop_data_id=STR, current_state=U8, crop_progress_rate_value=F32, water_stack_rate_value=F32)
    MORE = rec(state_machine=rec(growup_required_time=F32, growup_progress_time=F32))


CONCRETE_FIELDS = {
    "PalMapObjectDeathDroppedCharacterModel": rec(stored_parameter_id=GUID, owner_player_uid=GUID),
    "PalMapObjectConvertItemModel": rec(
        current_recipe_id=STR, remain_product_num=I32, requested_product_num=I32, work_speed_additional_rate=F32
    ),
    "PalMapObjectPickupItemOnLevelModel": rec(auto_picked_up=BOOL32),
    "PalMapObjectDropItemModel": rec(auto_picked_up=BOOL32, item_id=ITEM_ID),
    "PalMapObjectItemDropOnDamagModel": rec(drop_item_infos=Arr(ITEM_NUM)),
    "PalMapObjectDeathPenaltyStorageModel": rec(owner_player_uid=GUID),
    "PalMapObjectDefenseBulletLauncherModel": rec(remaining_bullets=I32, magazine_size=I32, bullet_item_name=STR),
    "PalMapObjectGenerateEnergyModel": rec(stored_energy_amount=F32),
    "PalMapObjectFarmBlockV2Model": Farm.BASE,
    "PalMapObjectFastTravelPointModel": rec(location_instance_id=GUID),
    "PalMapObjectShippingItemModel": rec(shipping_hours=Arr(I32)),
    "PalMapObjectProductItemModel": rec(work_speed_additional_rate=F32, product_item_id=STR),
    "PalMapObjectRecoverOtomoModel": rec(recover_amount_by_sec=F32),
    "PalMapObjectHatchingEggModel": rec(
        hatched_character_save_parameter=PROPS, unknown_bytes=U32, hatched_character_guid=GUID
    ),
    "PalMapObjectTreasureBoxModel": rec(treasure_grade_type=U8),
    "PalMapObjectBreedFarmModel": rec(spawned_egg_instance_ids=Arr(GUID)),
    "PalMapObjectSignboardModel": rec(signboard_text=STR),
    "PalMapObjectTorchModel": rec(extinction_date_time=I64),
    "PalMapObjectPalEggModel": rec(unknown_bytes=U32),
    "PalMapObjectBaseCampPoint": rec(base_camp_id=GUID),
}
FARM = "PalMapObjectFarmBlockV2Model"


class Concrete(Blob):
    """kind is the map object id."""

    raw_ok = True
    HEAD = rec(instance_id=GUID, model_instance_id=GUID)

    def known(self, kind):
        c = CLASS_OF.get(kind.lower())
        return c if c in EMPTY_CLASSES or c in CONCRETE_FIELDS else None

    def type_for(self, kind, v=None):
        c = v["concrete_model_type"] if v else self.known(kind)
        if c in EMPTY_CLASSES:
            t = Rec()
        elif c in CONCRETE_FIELDS:
            t = CONCRETE_FIELDS[c]
        else:
            raise RefError("unknown concrete model")
        if c == FARM and v and "state_machine" in v:
            t = Rec(*t.f, *Farm.MORE.f)
        return Rec(*self.HEAD.f, ("concrete_model_type", Const(c)), *t.f)

    def dec(self, raw, kind):
        if not raw:
            return {"values": []}
        if not self.known(kind):
            return values(raw)
        i = In(raw)
        v = self.type_for(kind).dec(i)
        if self.known(kind) == FARM and i.left():
            v.update(Farm.MORE.dec(i))
        i.done()
        return v

    def gen(self, g, kind):
        if kind is None or g.r.random() < 0.05:
            return {"values": []}
        if kind.lower() not in CLASS_OF:
            return values(g.junk())
        if not self.known(kind):
            # every model of a known object starts with its two identifiers
            return values(g.r.randbytes(32) + g.r.choice([b"", g.junk()]))
        v = self.type_for(kind).gen(g, "concrete/" + self.known(kind))
        if self.known(kind) == FARM and g.r.random() < 0.5:
            v.update(Farm.MORE.gen(g, "farm_state"))
        return v


CONCRETE = Concrete("concrete", None)
CONCRETE_KINDS = list(CLASS_OF) + ["NoSuchObject", "Workbench2", "日本語"]


class Module(Blob):
    raw_ok = True
    T = "EPalMapObjectConcreteModelModuleType::"
    KINDS = {
        T + "ItemContainer": rec(
            target_container_id=GUID, slot_attribute_indexes=Arr(rec(attribute=U8, indexes=Arr(I32))),
            all_slot_attribute=Arr(U8), drop_item_at_disposed=BOOL32, usage_type=U8,
        ),
        T + "CharacterContainer": rec(target_container_id=GUID),
        T + "Workee": rec(target_work_id=GUID),
        T + "Switch": rec(switch_state=U8),
        T + "PasswordLock": rec(
            lock_state=U8, password=STR,
            player_infos=Arr(rec(player_uid=GUID, try_failed_count=I32, try_success_cache=BOOL32)),
        ),
    }

    def type_for(self, kind, v=None):
        return self.KINDS.get(kind) or Rec()

    def dec(self, raw, kind):
        return super().dec(raw, kind) if raw else {"values": []}

    def enc(self, o, v, kind):
        if v and "values" not in v and kind not in self.KINDS:
            raise RefError("unknown module")
        super().enc(o, v, kind)

    def gen(self, g, kind):
        if kind not in self.KINDS or g.r.random() < 0.08:
            return {"values": []}
        return super().gen(g, kind)


MODULE = Module("module", None)
MODULE_KINDS = list(Module.KINDS) + [
    Module.T + x for x in ("None", "Energy", "StatusObserver", "ItemStack", "PlayerRecord", "BaseCampPassiveEffect", "New")
]


class WorkTransform(Ty):
    KINDS = {1: XFORM, 2: rec(map_object_instance_id=GUID), 3: rec(guid=GUID, instance_id=GUID)}
    RAW = rec(raw_data=Rest())

    def ty(self, t):
        return self.KINDS.get(t, self.RAW)

    def enc(self, o, v):
        U8.enc(o, v["type"])
        self.ty(v["type"]).enc(o, v)

    def dec(self, i):
        t = i.unpack("B")
        return {"type": t, "v2": 0, **self.ty(t).dec(i)}

    def gen(self, g, path):
        t = g.r.choice([1, 1, 2, 2, 3, 3, 0, 4, 255])
        return {"type": t, "v2": 0, **self.ty(t).gen(g, path)}

    def sites(self, cont, key, path):
        yield from self.ty(cont[key]["type"]).sites(cont, key, path)


class Work(Blob):
    raw_ok = True
    T = "EPalWorkableType::"
    BASE = rec(
        id=GUID,
        workable_bounds=rec(
            location=VEC, rotation=QUAT, box_sphere_bounds=rec(origin=VEC, box_extent=VEC, sphere_radius=F64)
        ),
        base_camp_id_belong_to=GUID, owner_map_object_model_id=GUID, owner_map_object_concrete_model_id=GUID,
        current_state=U8, assign_locations=Arr(rec(location=VEC, facing_direction=VEC)), behaviour_type=U8,
        assign_define_data_id=STR, override_work_type=U8, assignable_fixed_type=U8, assignable_otomo=BOOL32,
        can_trigger_worker_event=BOOL32, can_steal_assign=BOOL32,
    )
    EXTRA = {
        T + "Defense": rec(defense_combat_type=U8),
        T + "Progress": rec(
            required_work_amount=F32, work_exp=I32, current_work_amount=F32, auto_work_self_amount_by_sec=F32
        ),
        T + "ReviveCharacter": rec(target_individual_id=INDIVIDUAL),
    }
    ASSIGN = rec(
        handle_id=GUID, location_index=I32, assign_type=U8, assigned_individual_id=INDIVIDUAL, state=U8, fixed=U32
    )

    def known(self, kind):
        return kind in WORK_BASE_KINDS or kind == self.T + "Assign"

    def type_for(self, kind, v=None):
        if kind in WORK_BASE_KINDS:
            f = self.BASE.f + self.EXTRA.get(kind, Rec()).f
        elif kind == self.T + "Assign":
            f = self.ASSIGN.f
        else:
            raise RefError("unknown work type")
        return Rec(*f, ("transform", WorkTransform()))

    def dec(self, raw, kind):
        return super().dec(raw, kind) if self.known(kind) else values(raw)

    def gen(self, g, kind):
        return super().gen(g, kind) if self.known(kind) else values(g.junk())


WORK = Work("work", None)
WORK_KINDS = WORK_BASE_KINDS + [Work.T + x for x in ("Assign", "Illegal", "CollectItem", "BrandNewWork")]
