"""The resave self-test tells the truth."""
import os
import struct

from checks import C06, C08, cmd, common
from checks.C12 import poison
from checks.common import seed_of
from pwref import codec, core, gen
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one run of the resave test, its verdict and status compared with what converting the save to JSON and back through "
    "the library really gives; distinct by save and files already there"
)


def units(tier, seed):
    q = tier == "quick"
    out = [{"kind": "real", "n": n} for n in range(4)]
    for n in range(8 if q else 32):
        out.append({"kind": "saves", "n": n, "cases": 150 if q else 1500, "config": ["fast", "std", "sys"][n % 3]})
    return out


def truth(sav):
    """(same, why) according to the library and an independent container reader."""
    try:
        raw, t = pwt.unpack(sav[12:] if sav[8:11] == b"CNK" else sav)
    except Exception:
        try:
            raw, t = pwt.palsav.decompress_sav_to_gvas(sav)
        except Exception as e:
            return False, "damaged"
    try:
        f = pwt.read(raw)
        text = pwt.text(f.dump())
        back = pwt.from_json(text)
    except Exception as e:
        return False, "refused"
    if back != raw:
        return False, "content differs"
    if pwt.save_type_for(f.header.save_game_class_name) != t:
        return False, "type differs"
    return True, "same"


def other_encoding(r, doc):
    """The save with something encoded as the game does not: it reads, but is written differently."""
    o = codec.Codec().encode(doc)
    flags = [at for k, at, n in o.marks if k == "flag" and n == 1 and o.b[at] == 1]
    b = bytearray(o.b)
    k = r.randrange(3)
    if k == 0 and flags:
        b[r.choice(flags)] = 2
        return bytes(b)
    if k == 1:
        ascii_ = [at for kind, at, n in o.marks if kind == "strlen" and 0 < struct.unpack_from("<i", o.b, at)[0] < 60]
        at = ascii_[-1]  # the name that ends the last property list, outside of any counted block
        n = struct.unpack_from("<i", b, at)[0]
        s = bytes(b[at + 4 : at + 3 + n]).decode("ascii")
        b[at : at + 4 + n] = struct.pack("<i", -n) + s.encode("utf-16-le") + b"\0\0"
        return bytes(b)
    sizes = [at for kind, at, n in o.marks if kind == "size"]
    if sizes:
        at = r.choice(sizes)
        b[at] ^= 1
    return bytes(b)


def case(m, r, sav, what, d, n, doc=None):
    name = r.choice(["Level.sav", "x", "a b.sav", "ü.sav", "in.json"])
    d.put(name, sav)
    old = {}
    for x in (".resave.json", ".resave.sav"):
        if r.random() < 0.2:
            old[name + x] = r.choice([b"old", sav, b"{}"])
            d.put(name + x, old[name + x])
    same, why = truth(sav)
    typed = b"y\ny\n"
    declined = False
    if old and r.random() < 0.4:
        typed = r.choice([b"n\n", b"", b"n\ny\n"])
        declined = True
    res = (pwt.real_cli if n < 3 else pwt.cli)([d(name)], typed, module=pwt.RESAVE)
    m.seen(sav, repr(old), typed)
    m.count("truth_" + why.replace(" ", "_"))
    m.count("verdict_%s" % ("same" if res.rc == 0 else "different"))
    said = "are the same" in res.out
    label = "%s (really: %s%s): %s" % (what, why, ", overwriting declined" if declined else "", res)
    if (res.rc == 0) != said:
        m.fail("status %s although it says %s: %s" % (res.rc, "the same" if said else "otherwise", label))
    if declined:
        m.count("declined")
        if res.rc == 0:
            m.fail("reports success without having been able to resave: %s" % label)
        ok = [k for k in old if d.get(k) != old[k]]
        if len(old) == 1 and ok or len(ok) == 2:
            m.fail("overwrote %s: %s" % (ok, label))
    elif (res.rc == 0) != same:
        m.fail("wrong verdict: %s" % label, {"sav": sav if len(sav) < 100000 else None})
    if doc is not None and not same:
        m.fail("a save as the game writes it is not the same after resaving: %s" % label)
    if d.get(name) != sav:
        m.fail("the tested file was changed: %s" % label)
    m.sample({"what": what, "really": why, "status": res.rc})


def run(unit, m):
    if unit["kind"] == "real":
        for n, p in enumerate(pwt.saves()[unit["n"] :: 4]):
            with open(p, "rb") as f:
                sav = f.read()
            g = gen.Gen(seed_of(m.seed, "c18real", unit["n"]))
            with pwt.Dir() as d, m.case(200):
                case(m, g.r, sav, os.path.basename(p), d, n)
        with pwt.Dir() as d, m.case(60):
            for args in ([], [d("none.sav")], [d("a"), d("b")], [d.path]):
                res = pwt.real_cli(args, b"", module=pwt.RESAVE)
                m.seen(len(args))
                if res.rc == 0 or "are the same" in res.out:
                    m.fail("%s: %s" % (args, res))
        return
    pool = cmd.Pool(seed_of(m.seed, "c18", unit["n"]))
    g, r = pool.g, pool.g.r
    for n in range(unit["cases"]):
        with pwt.Dir() as d, m.case(100):
            sav, raw, doc = pool.save()
            k = r.randrange(8)
            if k < 2:
                case(m, r, sav, "good save", d, n, doc)
            elif k == 2:
                t = 0x31 + 0x32 - pwt.save_type_for(doc["header"]["save_game_class_name"])
                case(m, r, pwt.pack(raw, t), "other save type", d, n)
            elif k == 3:
                t = pwt.save_type_for(doc["header"]["save_game_class_name"])
                case(m, r, pwt.pack(raw, t, r.choice([1, 9, 0]), r.choice([None, b"abcdefghCNK0"])), "other compression or prefix", d, n, doc)
            elif k == 4:
                what, bad = C08.damage(r, sav)
                case(m, r, bad, what, d, n)
            elif k == 5:
                what, raw = C06.odd(g)
                case(m, r, pwt.pack(raw, r.choice([0x31, 0x32, 0x32])), what, d, n)
            elif k == 6:
                t = pwt.save_type_for(doc["header"]["save_game_class_name"])
                case(m, r, pwt.pack(other_encoding(r, doc), t), "other encoding", d, n)
            else:
                what, raw = C06.damage(g, raw)
                case(m, r, pwt.pack(raw, pwt.save_type_for(doc["header"]["save_game_class_name"])), what, d, n)
