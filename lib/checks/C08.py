"""A damaged .sav file is rejected, never read as something else."""
import random
import struct
import zlib

from checks import common
from checks.common import seed_of
from vk import pwt

LEVEL = "fault_enumeration"
RULE = "one evaluation is one damaged container given to the reader; distinct by the damaged bytes"


def units(tier, seed):
    q = tier == "quick"
    out = []
    for n in range(10):
        out.append({"kind": "exhaustive", "n": n})
    for n in range(4 if q else 24):
        out.append({"kind": "random", "n": n, "cases": 25000 if q else 400000, "config": ["fast", "sys"][n % 2]})
    for n in range(13):
        out.append({"kind": "real", "n": n, "cases": 60 if q else 2000})
    out.append({"kind": "garbage", "n": 0, "cases": 8000 if q else 100000})
    out.append({"kind": "lengths", "n": 0})
    for n in range(len(LARGE) if q else 4 * len(LARGE)):
        out.append({"kind": "large", "n": n, "cases": 12 if q else 200})
    return out


LARGE = [(1 << 16, 1), (1 << 20, 1), (1 << 20, 0), (1 << 21, 1), (1 << 24, 0), (1 << 24, 1), (1 << 25, 0), (1 << 26, 0)]


def large(unit, m, r):
    size, rough = LARGE[unit["n"] % len(LARGE)]
    raw = (b"GVAS" + (r.randbytes(size + r.randrange(1, 999)) if rough else bytes(size) + r.randbytes(r.randrange(1, 999))))
    for t in (0x31, 0x32):
        prefix = r.choice([None, b"abcdefghCNK0"])
        sav = pwt.pack(raw, t, 1, prefix)
        o = 12 if prefix else 0
        lens = struct.unpack_from("<II", sav, o)
        with m.case(400):
            for i in range(2):
                v = lens[i]
                other = {v & 0xFFFF, v & 0xFFFFFF, v & 0xFFFFF, v & 0x7FFF0000, v ^ 1 << 31, v - 1, v + 1, v ^ 1 << 16, v ^ 1 << 24, v ^ 1 << 20,
                         0, 1, 0xFFFF, 0xFFFFFF, 0xFFFFFFFF, len(sav), len(sav) - 12, lens[1 - i], v // 2, v * 2 & 0xFFFFFFFF}
                for w in sorted(other - {v}):
                    b = bytearray(sav)
                    struct.pack_into("<I", b, o + 4 * i, w)
                    judge(m, "length of large content altered: %d to %d" % (v, w), bytes(b), raw, t)
            for n in (1, 2, 5, 4096):
                judge(m, "large content cut: by %d" % n, sav[:-n], raw, t)
                judge(m, "bytes behind large content: %d" % n, sav + bytes(n), raw, t)
            for n in range(unit["cases"]):
                what, bad = damage(r, sav)
                if bad != sav:
                    judge(m, what, bad, raw, t)
            if t == 0x32:
                z = zlib.compress(raw, 1)
                for n in range(4):
                    judge(m, "inner bytes of large content cut: %d" % n, rewrap(raw, z[: -n - 1]), raw, t)
                    judge(m, "inner bytes behind large content: %d" % n, rewrap(raw, z + bytes(n + 1)), raw, t)
                    what, bad = inner(r, z)
                    judge(m, "inner " + what, rewrap(raw, bad), raw, t)
    m.sample({"bytes": len(raw)})


def judge(m, what, bad, raw, t):
    m.seen(bad)
    m.count(what.split(":")[0])
    try:
        got = pwt.palsav.decompress_sav_to_gvas(bad)
    except Exception:
        m.count("rejected")
        return
    if raw is not None and bytes(got[0]) == raw:
        m.count("same_content")
        wrong = header(bad, got)
        if wrong:
            m.fail("%s: accepted although %s" % (what, wrong), {"sav": bad[:20000]})
        return
    if valid(bad, got):
        m.count("damage_gave_another_valid_container")
        return
    m.fail("%s: read as %d bytes of other content%s" % (what, len(got[0]), "" if raw is None else " (the original has %d)" % len(raw)),
           {"sav": bad[:20000], "read": bytes(got[0][:2000])})


def header(sav, got):
    """What is wrong with the header of a container that was read: its lengths, magic or type."""
    o = 12 if sav[8:11] == b"CNK" else 0
    n, c, magic, t = struct.unpack_from("<II3sB", sav, o)
    if magic != b"PlZ":
        return "the magic is %r" % magic
    if t not in (0x31, 0x32):
        return "the type is %#x" % t
    if n != len(got[0]):
        return "the length of the content is said to be %d and is %d" % (n, len(got[0]))
    body = sav[o + 12 :]
    size = len(body) if t == 0x31 else len(zlib.decompressobj().decompress(body))
    if c != size:
        return "the compressed length is said to be %d and is %d" % (c, size)
    if t != got[1]:
        return "the type was reported as %r" % (got[1],)


def valid(sav, got):
    """The damaged bytes happen to be a flawless container (32-bit checksums allow that) of what was read."""
    try:
        return pwt.unpack(sav[12:] if sav[8:11] == b"CNK" else sav) == (bytes(got[0]), got[1])
    except Exception:
        return False


def run(unit, m):
    k = unit["kind"]
    r = random.Random(seed_of(m.seed, "c08", k, unit["n"]))
    if k == "exhaustive":
        # every single-byte change, every cut, insertion and deletion of small containers
        raw = [b"", b"a", b"GVAS" + bytes(30), bytes(range(48)), r.randbytes(24)][unit["n"] // 2]
        t = 0x31 + unit["n"] % 2
        for prefix in (None, b"abcdefghCNK0"):
            sav = pwt.pack(raw, t, 6, prefix)
            with m.case(200):
                for i in range(len(sav)):
                    for v in range(256):
                        if v != sav[i]:
                            judge(m, "byte changed: %d to %d" % (i, v), sav[:i] + bytes([v]) + sav[i + 1 :], raw, t)
                    judge(m, "cut: at %d" % i, sav[:i], raw, t)
                    judge(m, "cut from the front: %d" % i, sav[i + 1 :], raw, t)
                    for j in range(i + 1, min(len(sav), i + 20) + 1):
                        judge(m, "bytes removed: %d to %d" % (i, j), sav[:i] + sav[j:], raw, t)
                    for v in range(0, 256, 5):
                        judge(m, "byte inserted: %d at %d" % (v, i), sav[:i] + bytes([v]) + sav[i:], raw, t)
                    for j in range(i):
                        b = bytearray(sav)
                        b[i], b[j] = b[j], b[i]
                        judge(m, "bytes swapped: %d and %d" % (j, i), bytes(b), raw, t)
                for n in range(1, 40):
                    judge(m, "bytes appended: %d" % n, sav + bytes(n), raw, t)
                    judge(m, "bytes appended: %d" % n, sav + r.randbytes(n), raw, t)
                judge(m, "container twice: ", sav + sav, raw, t)
            if t == 0x32 and not prefix:
                # the same to the inner stream, with the outer one and the length made to match
                z = zlib.compress(raw)
                with m.case(200):
                    for i in range(len(z)):
                        for v in range(256):
                            if v != z[i]:
                                judge(m, "inner byte changed: %d to %d" % (i, v), rewrap(raw, z[:i] + bytes([v]) + z[i + 1 :]), raw, t)
                        judge(m, "inner cut: at %d" % i, rewrap(raw, z[:i]), raw, t)
                        for j in range(i + 1, min(len(z), i + 12) + 1):
                            judge(m, "inner bytes removed: %d to %d" % (i, j), rewrap(raw, z[:i] + z[j:]), raw, t)
                    for n in range(1, 12):
                        judge(m, "inner bytes appended: %d" % n, rewrap(raw, z + r.randbytes(n)), raw, t)
    elif k == "random":
        for _ in range(unit["cases"] // 50):
            raw = content(r)
            t = r.choice([0x31, 0x32])
            sav = pwt.pack(raw, t, r.choice([1, 6, 6, 9, 0]), r.choice([None, None, b"abcdefghCNK1"]))
            with m.case(100):
                for n in range(50):
                    if t == 0x32 and n % 4 == 0:
                        z = zlib.compress(raw, r.choice([0, 1, 6, 9]))
                        what, bad = inner(r, z)
                        what, bad = "inner " + what, rewrap(raw, bad)
                    else:
                        what, bad = damage(r, sav)
                    if bad != sav:
                        judge(m, what, bad, raw, t)
    elif k == "real":
        for p in pwt.saves()[unit["n"] :: 13]:
            with open(p, "rb") as f:
                sav = f.read()
            raw, t = pwt.unpack(sav)
            with m.case(250):
                for i in range(24):
                    judge(m, "byte changed: %d" % i, sav[:i] + bytes([sav[i] ^ (1 << r.randrange(8))]) + sav[i + 1 :], raw, t)
                for _ in range(unit["cases"]):
                    what, bad = damage(r, sav)
                    if bad != sav:
                        judge(m, what, bad, raw, t)
                m.sample({"file": p, "bytes": len(sav)})
    elif k == "lengths":
        lengths(m, r)
    elif k == "large":
        large(unit, m, r)
    else:
        for _ in range(unit["cases"]):
            with m.case():
                judge(m, *garbage(r), None, None)


def rewrap(raw, z):
    return struct.pack("<II", len(raw), len(z)) + b"PlZ2" + zlib.compress(z, 1)


def inner(r, z):
    b = bytearray(z)
    for _ in range(r.choice([1, 1, 2, 4])):
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    k = r.randrange(4)
    if k == 0:
        return "cut and changed: ", bytes(b[: r.randrange(len(b))])
    if k == 1:
        return "checksum missing: ", bytes(b[:-4])
    return "bits flipped: ", bytes(b)


def content(r):
    n = r.choice([0, 1, 5, 30, 200, 1000, 5000])
    return r.choice([r.randbytes(n), bytes(n), bytes(r.choice(b"ab") for _ in range(n)), zlib.compress(r.randbytes(n))])


def damage(r, sav):
    k = r.randrange(12)
    b = bytearray(sav)
    at = r.randrange(len(b))
    if k == 0:
        b[at] ^= 1 << r.randrange(8)
        return "bit flipped: %d" % at, bytes(b)
    if k == 1:
        for _ in range(r.randint(2, 6)):
            b[r.randrange(len(b))] = r.randrange(256)
        return "several bytes changed: ", bytes(b)
    if k == 2:
        return "cut: at %d" % at, bytes(b[:at])
    if k == 3:
        n = r.choice([1, 2, 4, 8, 64, 512])
        return "bytes removed: %d at %d" % (n, at), bytes(b[:at] + b[at + n :])
    if k == 4:
        n = r.choice([1, 2, 4, 12, 64])
        return "bytes inserted: %d at %d" % (n, at), bytes(b[:at]) + r.choice([bytes(n), r.randbytes(n)]) + bytes(b[at:])
    if k == 5:
        n = r.choice([1, 2, 4, 12, 512])
        return "bytes appended: %d" % n, bytes(b) + r.choice([bytes(n), r.randbytes(n), bytes(b[:n])])
    if k == 6:
        o = r.choice([0, 4])
        if b[8:11] == b"CNK":
            o += 12
        v = struct.unpack_from("<I", b, o)[0]
        w = r.choice([0, 1, v + 1, v - 1, v * 2, v + 256, v + 65536, v + (1 << 24), 0xFFFFFFFF, r.getrandbits(32), len(b), len(b) - 12]) & 0xFFFFFFFF
        struct.pack_into("<I", b, o, w)
        return "length altered: %d to %d" % (v, w), bytes(b)
    if k == 7:
        o = 20 if b[8:11] == b"CNK" else 8
        b[o : o + 3] = r.choice([b"PLZ", b"Plz", b"PlM", b"CNK", b"\0\0\0", b"GVA", b"plZ", b"PlY"])
        return "magic altered: ", bytes(b)
    if k == 8:
        o = 23 if b[8:11] == b"CNK" else 11
        b[o] = r.choice([0x30, 0x31, 0x32, 0x33, 0, 1, 2, 0xFF, 0xB1, 0x11])
        return "type altered: %x" % b[o], bytes(b)
    if k == 9:
        n = r.choice([4, 16, 64])
        c = r.randrange(len(b))
        b[at : at + n] = b[c : c + n]
        return "bytes copied over others: ", bytes(b)
    if k == 10:
        n = r.choice([16, 64, 512, 4096])
        b[at : at + n] = bytes(len(b[at : at + n]))
        return "bytes zeroed: %d" % n, bytes(b)
    return "halves swapped: ", bytes(b[at:] + b[:at])


def garbage(r):
    k = r.randrange(9)
    n = r.choice([0, 1, 3, 11, 12, 13, 24, 100])
    if k == 0:
        return "random bytes: ", r.randbytes(n)
    if k == 1:
        return "zeros: ", bytes(n)
    if k == 2:
        return "text: ", b'{"header": {}, "properties": {}}' * (n // 12 + 1)
    if k == 3:
        return "not compressed: ", b"GVAS" + r.randbytes(n + 20)
    if k == 4:
        return "only zlib: ", zlib.compress(r.randbytes(n))
    if k == 5:
        return "other types: ", struct.pack("<II", n, 8) + b"PlZ" + bytes([r.choice([0x30, 0x33, 0x00, 0xFF])]) + zlib.compress(bytes(n))
    if k == 6:
        return "header with junk: ", struct.pack("<II", n, n) + b"PlZ" + r.choice([b"1", b"2"]) + r.randbytes(n)
    if k == 7:
        p = b"abcdefghCNK0"
        return "prefix with junk: ", p + r.choice([b"", p, r.randbytes(n)]) + pwt.pack(r.randbytes(9), 0x31)[:r.randrange(12)]
    return "other compression: ", struct.pack("<II", n, n) + b"PlM1" + bytes(n)


def lengths(m, r):
    """Containers whose parts are each fine but do not belong together."""
    for raw in (b"", b"abc", bytes(100), r.randbytes(100)):
        for t in (0x31, 0x32):
            z = zlib.compress(raw)
            zz = zlib.compress(z)
            body = z if t == 0x31 else zz
            other = zz if t == 0x31 else z
            with m.case():
                for n in {len(raw), len(raw) + 1, len(z), len(zz), 0}:
                    for c in {len(z), len(zz), len(raw), len(zz) + 12, 0}:
                        for b in (body, other, zlib.compress(raw + b"x"), zlib.compress(zlib.compress(raw + b"x")), z + z, zz + zz, z[:-1], z[:-4], zz[:-4]):
                            head = struct.pack("<II", n, c) + b"PlZ" + bytes([t])
                            # the original is the container of raw with the right lengths
                            judge(m, "parts that do not belong together: %d %d" % (n, c), head + b, raw, t)
