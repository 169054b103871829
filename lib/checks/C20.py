"""Map-object class extraction resolves every object correctly."""
import ast
import json
import os
import random

from checks.common import seed_of
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one generated game data export given to the extraction script, its printed table compared with an independent "
    "resolution of every object (and with the table for a rearranged copy of the same export); distinct by export"
)
ASSUMES = [
    "blueprint names are unique up to letter case, a blueprint file has one generated class, and parents form no cycle, as in a real export",
    "an object whose own concrete class leads nowhere may be shown as None or with the unknown marker",
]
UNKNOWN = "DEFAULT_UNKNOWN_PalMapObjectConcreteModelBase"
TABLE = "Pal/Content/Pal/DataTable/MapObject/DT_MapObjectMasterDataTable.json"
BLUEPRINTS = "Pal/Content/Pal/Blueprint"


def units(tier, seed):
    q = tier == "quick"
    return [{"kind": "exports", "n": n, "cases": 400 if q else 4000, "config": ["fast", "sys"][n % 2]} for n in range(8 if q else 32)]


def vary(r, s):
    k = r.randrange(4)
    return [s, s.lower(), s.upper(), "".join(r.choice([c.lower(), c.upper()]) for c in s)][k]


NATIVE = ["PalMapObjectItemChestModel", "PalMapObjectTorchModel", "PalBuildObject", "PalMapObject", "PalMapObjectPalEggModel", "Class", "X_C", "BP_NativeThing", "A"]


class Export:
    """A generated export: blueprints with parents and concrete classes, objects that refer to them."""

    def __init__(self, r):
        self.r = r
        names = []
        self.deep = r.random() < 0.1
        n = r.choice([12, 25, 50, 120, 250]) if self.deep else r.choice([0, 1, 3, 8, 20])
        while len(names) < n:
            x = r.choice(["BP_", "BP_BuildObject_", "BP_C_", "bp_", "Default__", "BP_.."]) + "".join(r.choice("ABCabc_019") for _ in range(r.randint(1, 5)))
            if r.random() < 0.1:
                x += r.choice(["_C", ".json", "_c", "None", "_C_C", "_none", " ", "'"])
            if x.lower() not in {y.lower() for y in names} and not x.lower().endswith(".json.json"):
                names.append(x)
        self.bp = {}
        for i, name in enumerate(names):
            b = {"name": name, "default": r.random() < 0.9, "gen": r.random() < (0.999 if self.deep else 0.92), "concrete": None, "super": None}
            b["super"] = self.ref(names[:i])
            if r.random() < 0.5:
                b["concrete"] = self.ref(names[:i])
            self.bp[name.lower()] = b
        self.rows = {}
        for i in range(r.choice([0, 1, 5, 15])):
            row = r.choice(["Obj", "Chest_", "Wall.", "ÄÖ", "obj-", "None", "{", "O'b\"", "\\n", "日 "]) + str(i)
            k = r.random()
            if k < 0.12 or not names:
                self.rows[row] = (None, r.choice(names) if names else "BP_X")
            elif k < 0.22:
                self.rows[row] = ("x", "BP_Missing%d" % i)
            else:
                self.rows[row] = ("x", r.choice(names))

    def ref(self, earlier):
        r = self.r
        k = r.random()
        if self.deep and earlier and k < 0.99:
            return "BlueprintGeneratedClass'%s_C'" % earlier[-1]
        if k < 0.4 or not earlier:
            return "Class'%s'" % r.choice(NATIVE)
        if k < 0.88:
            return "BlueprintGeneratedClass'%s_C'" % r.choice(earlier)
        if k < 0.94:
            return "BlueprintGeneratedClass'BP_Nowhere_C'"
        return r.choice(["WidgetBlueprintGeneratedClass'WBP_X_C'", "ScriptStruct'X'"])

    # ---- the right answer ------------------------------------------------------------------

    def native(self, ref):
        """Along the blueprint parents to a native class."""
        while ref.startswith("BlueprintGeneratedClass'"):
            b = self.bp.get(ref[len("BlueprintGeneratedClass'") : -len("_C'")].lower())
            if b is None or not b["gen"]:
                return None
            ref = b["super"]
        return ref[len("Class'") : -1] if ref.startswith("Class'") else None

    def parent(self, ref):
        if ref.startswith("Class'"):
            return ref[len("Class'") : -1]
        if ref.startswith("BlueprintGeneratedClass'"):
            b = self.bp.get(ref[len("BlueprintGeneratedClass'") : -len("_C'")].lower())
            if b and b["default"] and b["concrete"]:
                return self.native(b["concrete"])
        return None

    def table(self):
        """name -> set of acceptable classes"""
        out = {}
        for row, (soft, name) in self.rows.items():
            b = self.bp.get(name.lower())
            if soft is None or b is None or not b["default"]:
                continue
            if b["concrete"]:
                c = self.native(b["concrete"])
                out[row.lower()] = {c} if c else {None, UNKNOWN}
            elif b["gen"]:
                out[row.lower()] = {self.parent(b["super"]) or UNKNOWN}
        return out

    # ---- files ------------------------------------------------------------------------------

    def write(self, r, base, case):
        """The export as files, in an order and with letter case of its own."""
        cs = (lambda s: vary(r, s)) if case else (lambda s: s)

        def ref(x):
            for p, e in (("BlueprintGeneratedClass'", "_C'"),):
                if x.startswith(p):
                    return p + cs(x[len(p) : -len(e)]) + e
            return x

        dirs = [BLUEPRINTS] + [BLUEPRINTS + "/" + d for d in ("MapObject", "A/b", "MapObject/BuildObject", "Z.json")]
        for d in dirs:
            os.makedirs(os.path.join(base, d), exist_ok=True)
        bps = list(self.bp.values())
        r.shuffle(bps)
        for b in bps:
            objs = []
            if b["default"]:
                props = {"Other": {"ObjectName": "Class'Wrong'"}} if r.random() < 0.5 else {}
                if b["concrete"]:
                    props["ConcreteModelClass"] = {"ObjectName": ref(b["concrete"]), "ObjectPath": "/Game/X.0"}
                if r.random() < 0.5:
                    props["Z"] = 5
                objs.append({"Type": b["name"] + "_C", "Name": cs("Default__" + b["name"] + "_C"), "Properties": props})
            if b["gen"]:
                objs.append({"Type": "BlueprintGeneratedClass", "Name": cs(b["name"] + "_C"), "SuperStruct": {"ObjectName": ref(b["super"]), "ObjectPath": "x"}})
            for i in range(r.choice([0, 0, 1, 4])):
                objs.append({"Type": r.choice(["Function", "SimpleConstructionScript", "StaticMeshComponent"]), "Name": "Extra%d" % i, "Properties": {"ConcreteModelClass": {"ObjectName": "Class'Wrong'"}}})
            r.shuffle(objs)
            with open(os.path.join(base, r.choice(dirs), cs(b["name"]) + ".json"), "w") as f:
                json.dump(objs, f, indent=r.choice([None, 2]))
        for n in ("notes.txt", "BP_Missing0.uasset", "x.JSON", "BP_Nowhere.jsonx"):
            if r.random() < 0.3:
                with open(os.path.join(base, r.choice(dirs), n), "w") as f:
                    f.write("not an export")
        rows = list(self.rows.items())
        r.shuffle(rows)
        data = [{"Type": "DataTable", "Name": "DT_MapObjectMasterDataTable", "Rows": {
            cs(row): {"BlueprintClassName": cs(name), "BlueprintClassSoft": {"AssetPathName": "None" if soft is None else "%s/%s.%s_C" % (r.choice(["/Game/Pal/Blueprint", "/Game/None", "None", "x"]), name, name) if r.random() < 0.9 else name, "SubPathString": ""}}
            for row, (soft, name) in rows
        }}]
        p = os.path.join(base, TABLE)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf8") as f:
            json.dump(data, f, ensure_ascii=r.random() < 0.5)


def printed(out):
    """The table: what is printed last and reads as a dictionary."""
    lines = out.rstrip().split("\n")
    for n in range(len(lines) - 1, -1, -1):
        if lines[n].startswith("{"):
            return ast.literal_eval("\n".join(lines[n:]))
    raise ValueError("no table in the output: %r" % out[-500:])


def run(unit, m):
    r = random.Random(seed_of(m.seed, "c20", unit["n"]))
    for n in range(unit["cases"]):
        with pwt.Dir() as d, m.case(100):
            e = Export(r)
            want = e.table()
            for copy in range(2 if n % 3 == 0 else 1):
                base = d("export%d" % copy)
                e.write(r, base, copy or r.random() < 0.5)
                arg = [base, base + "/", os.path.relpath(base, d.path)][r.randrange(3)]
                res = (pwt.real_cli if n < 3 else pwt.cli)([arg], module=pwt.EXTRACT, cwd=d.path)
                m.seen(repr(e.bp), repr(e.rows), copy)
                m.count("exports")
                m.count("blueprints", len(e.bp))
                m.count("objects", len(e.rows))
                m.count("resolved", len(want))
                m.count("unknown", sum(UNKNOWN in x for x in want.values()))
                if res.rc:
                    m.fail("fails: %s" % res, {"blueprints": e.bp, "objects": e.rows})
                    break
                got = printed(res.out)
                bad = sorted(k for k in set(got) | set(want) if k not in got or k not in want or got[k] not in want[k])
                if bad:
                    k = bad[0]
                    m.fail(
                        "object %r: the script says %r, right is %s" % (k, got.get(k, "nothing"), want.get(k, "nothing")),
                        {"blueprints": e.bp, "objects": e.rows, "printed": got},
                    )
                    break
            m.sample({"objects": e.rows, "table": {k: str(v) for k, v in want.items()}})
