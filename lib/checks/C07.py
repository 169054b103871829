"""The .sav container round-trips and has the layout the game reads."""
import json
import random
import struct
import zlib

from checks import common
from checks.common import seed_of
from pwref import codec, gen
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one container: its bytes parsed by an independent strict reader, then read by the tool; or one document "
    "converted by the command, whose container's save type is compared with the one the game uses; distinct by content, type and form"
)


def units(tier, seed):
    q = tier == "quick"
    out = [{"kind": "sizes", "part": n} for n in range(4)]
    for n in range(4 if q else 24):
        out.append({"kind": "random", "n": n, "cases": 1500 if q else 20000, "config": ["fast", "sys"][n % 2]})
    out.append({"kind": "big", "n": 0, "cases": 8 if q else 40})
    out.append({"kind": "real"})
    for n in range(2 if q else 8):
        out.append({"kind": "classes", "n": n, "cases": 120 if q else 1000})
    return out


def content(r, n):
    k = r.randrange(7)
    if k == 0:
        return bytes(n)
    if k == 1:
        return r.randbytes(n)
    if k == 2:
        return bytes(r.choice(b"\0\1ab") for _ in range(n)) if n < 5000 else r.randbytes(4) * (n // 4)
    if k == 3:
        return (b"GVAS" + r.randbytes(8)) * (n // 12 + 1)
    if k == 4:
        return zlib.compress(r.randbytes(n))  # looks like a container's inside
    if k == 5:
        return pwt.pack(r.randbytes(n), r.choice([0x31, 0x32]))
    return b"PlZ1" + b"CNK" + bytes(n)


def judge(m, raw, t, note=""):
    m.seen(t, raw)
    sav = pwt.palsav.compress_gvas_to_sav(raw, t)
    m.count("written_%x" % t)
    if not isinstance(sav, bytes):
        m.fail("%s: not bytes but %s" % (note, type(sav)))
    try:
        got = pwt.unpack(sav)
    except Exception as e:
        m.fail("%d bytes, type %x%s: the container is not what the game reads: %s" % (len(raw), t, note, e), {"content": raw[:5000]})
        return
    if got != (raw, t):
        m.fail("%d bytes, type %x%s: the container holds something else" % (len(raw), t, note), {"content": raw[:5000]})
        return
    back(m, sav, raw, t, "own container" + note)


def back(m, sav, raw, t, what):
    m.count("read_" + what.split(",")[0].replace(" ", "_"))
    try:
        got = pwt.palsav.decompress_sav_to_gvas(sav)
    except Exception as e:
        m.fail("%s of %d bytes, type %x is refused: %r" % (what, len(raw), t, e), {"sav": sav[:5000]})
        return
    if (bytes(got[0]), got[1]) != (raw, t):
        m.fail("%s of %d bytes, type %x reads as %d bytes, type %x" % (what, len(raw), t, len(got[0]), got[1]), {"sav": sav[:5000]})


def forms(r, raw, t):
    """Containers of the same content as other writers make them."""
    level = r.randrange(10)
    yield "zlib level %d" % level, pwt.pack(raw, t, level)
    p = r.randbytes(8) + b"CNK" + r.choice([b"0", b"1", b"2", bytes([r.randrange(256)])])
    yield "chunk prefix", pwt.pack(raw, t, r.choice([6, level]), p)
    n = len(raw)
    z = zlib.compress(raw, level)
    c = len(zlib.compress(z, level)) if t == 0x32 else len(z)
    p = struct.pack("<II", n, c + 12) + b"CNK" + bytes([t])
    yield "chunk prefix, with lengths", pwt.pack(raw, t, level, p)
    p = bytes(8) + b"CNK" + b"0"
    yield "chunk prefix, zero", pwt.pack(raw, t, level, p)


def run(unit, m):
    k = unit["kind"]
    r = random.Random(seed_of(m.seed, "c07", k, unit.get("n"), unit.get("part")))
    if k == "sizes":
        for n in range(unit["part"], 1200, 4):
            for t in (0x31, 0x32):
                with m.case():
                    judge(m, r.randbytes(n) if n % 2 else content(r, n), t)
    elif k == "random":
        for _ in range(unit["cases"]):
            n = r.choice([0, 1, 2, 3, 11, 12, 13, 23, 24, 25, r.randrange(300), r.randrange(70000) if r.random() < 0.1 else 50])
            raw, t = content(r, n), r.choice([0x31, 0x32])
            with m.case():
                judge(m, raw, t)
                for what, sav in forms(r, raw, t):
                    m.seen(what, t, raw)
                    back(m, sav, raw, t, what)
    elif k == "big":
        for i in range(unit["cases"]):
            n = r.choice([65535, 65536, 65537, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 20_000_000, (1 << 25) + 1, (1 << 26) + 1])
            if n > 1 << 25:
                i -= i % 3
            raw = [bytes(n), r.randbytes(n), r.randbytes(997) * (n // 997 + 1)][i % 3]
            with m.case(200):
                judge(m, raw, [0x31, 0x32][i % 2])
                back(m, pwt.pack(raw, 0x31 + i % 2, 1, b"12345678CNK0"), raw, 0x31 + i % 2, "chunk prefix, big")
    elif k == "real":
        for p in pwt.saves():
            with open(p, "rb") as f:
                sav = f.read()
            raw, t = pwt.unpack(sav)
            with m.case():
                m.seen(p)
                back(m, sav, raw, t, "game file")
                back(m, b"\1\2\3\4\5\6\7\10CNK0" + sav, raw, t, "chunk prefix, game file")
                judge(m, raw, t)
    else:
        classes(unit, m)


NAMES = [
    "/Script/Pal.PalWorldSaveGame", "/Script/Pal.PalLocalWorldSaveGame", "/Script/Pal.PalWorldPlayerSaveGame",
    "/Script/Pal.PalWorldBaseInfoSaveGame", "/Script/Pal.PalWorldOptionSaveGame", "/Script/Pal.PalBanListSaveGame",
    "/Script/Pal.PalOptionSaveGame", "/Script/Pal.PalGlobalPalStorageSaveGame", "", "Pal", "/Script/Other.SaveGame",
]


def classes(unit, m):
    """The type is chosen by the class of save game in the document and by nothing else."""
    g = gen.Gen(seed_of(m.seed, "c07c", unit["n"]))
    for n in range(unit["cases"]):
        name = g.pick("class", NAMES)
        doc = g.generic(3) if g.r.random() < 0.6 else g.level([g.r.choice(gen.variants(g))])
        doc["header"]["save_game_class_name"] = name
        want = pwt.save_type_for(name)
        fn = g.r.choice(["Level.sav.json", "LevelMeta.sav.json", "LocalData.sav.json", "x.json", "0001.sav.json"])
        with pwt.Dir() as d, m.case(60):
            d.put(fn, json.dumps(doc))
            r = (pwt.real_cli if n < 3 else pwt.cli)([d(fn), "-o", d("out.sav")])
            m.seen(name, n)
            m.count("written_by_command")
            if r.rc:
                m.fail("%s: %s" % (name, r))
                continue
            sav = d.get("out.sav")
            try:
                raw, t = pwt.unpack(sav)
            except Exception as e:
                m.fail("%r: the command wrote a container the game cannot read: %s" % (name, e), {"sav": sav[:5000]})
                continue
            if t != want or raw != codec.encode(doc):
                m.fail("%r: written as type %x, the game uses %x; content %s" % (name, t, want, "same" if raw == codec.encode(doc) else "differs"))
            m.sample({"class": name, "type": hex(t), "bytes": len(raw)})
