"""No file is overwritten or touched without permission."""
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

from checks import cmd
from checks.common import seed_of
from vk import pwt

LEVEL = "exploration"
RULE = (
    "one evaluation is one run of the convert command in a directory whose complete content (names, bytes, times, inodes) is compared "
    "before, while the command waits for an answer, and after; distinct by scenario"
)


def units(tier, seed):
    q = tier == "quick"
    out = []
    for n in range(8 if q else 32):
        out.append({"kind": "answers", "n": n, "cases": 150 if q else 2000})
    for n in range(6 if q else 24):
        out.append({"kind": "waiting", "n": n, "cases": 14 if q else 150, "config": ["fast", "sys"][n % 2]})
    return out


SUFFIXES = [
    ".tmp", ".part", ".bak", "~", ".new", ".old", ".temp", ".lock", ".swp", ".orig", ".1", "_", ".backup", ".json", ".sav", "_tmp", "-tmp",
    ".partial", ".gvas", "1", ".out", ".raw",
]

# what is typed, and whether it says yes
ANSWERS = [
    (b"y\n", True), (b"Y\n", True), (b"n\n", False), (b"N\n", False), (b"", False), (b"\n", False), (b"maybe\n", False),
    (b"no\n", False), (b"q\n", False), (b"\n\n\n", False), (b"maybe\nn\n", False), (b"x\ny\n", True), (b"x\nY\n", True),
    (b"n\ny\n", False), (b"N\ny\n", False), (b"?\n\nn\n", False), (b"n", False), (b"y", True), (b"0\n1\n", False), (b"nope\nn\n", False),
    (b"yikes\n", False), (b"yn\n", False), (b"y?\nn\n", False), (b"yikes\ny\n", True), (b"ny\n", False), (b"1\n", False), (b"true\n", False),
    (b"n y\n", False), ("ý\n".encode(), False), (b"-y\n", False),
]


def scenario(r, pool):
    """Files, arguments, and what the command may do."""
    to = r.random() < 0.5
    sub = r.choice(["", "", "in/", "in put/"])
    files = {}
    if to:
        sav, raw, doc = pool.save()
        name = r.choice(["Level.sav", "0001.sav", "x.y.sav", "ü.sav"])
        if r.random() < 0.15:
            sav = r.choice([sav[:-5], b"", b"junk", sav[:20] + b"x" + sav[21:]])
        files[sub + name] = sav
        default = sub + name + ".json"
        content = sav
    else:
        text, doc = pool.json()
        name = r.choice(["Level.sav.json", "a.json", "x.sav.json", "b.c.json"])
        if r.random() < 0.15:
            text = r.choice([text[:-3], b"", b"[]", b"{}"])
        files[sub + name] = text
        default = sub + name[: -len(".json")]
    args = [sub + name]
    out = default
    k = r.randrange(4)
    if k:
        out = r.choice(["out.bin", "in/out.json", "Level.sav.json", "other.sav", "out", sub + name + ".json", sub + name + ".bak"])
        if out == sub + name:
            out = default
        if r.random() < 0.08:
            out = sub + name
        args += [r.choice(["-o", "--output"]), out]
    exists = r.random() < 0.75
    if out == sub + name:
        exists = True
    elif exists:
        files[out] = r.choice([b"precious", b"", b"x" * 5000, r.randbytes(50)])
    force = r.random() < 0.3
    if force:
        args.append(r.choice(["-f", "--force"]))
    if to and r.random() < 0.3:
        args.append(r.choice(["--minify-json", "--convert-nan-to-null", "--to-json"]))
    if not to and r.random() < 0.2:
        args.append("--from-json")
    # bystanders
    base, leaf = os.path.split(out)
    stem = os.path.splitext(out)[0]
    near = [out + x for x in SUFFIXES] + [stem + x for x in (".tmp", ".bak", ".sav", ".json", ".old")]
    near += [os.path.join(base, x) for x in ("." + leaf, "." + leaf + ".tmp", "." + leaf + ".swp", "~" + leaf, "#" + leaf + "#", "tmp", ".tmp", "temp")]
    near += [sub + name + x for x in r.sample(SUFFIXES, 3)]
    for b in near:
        if b not in files and b != out and r.random() < 0.5:
            files[b] = b"neighbour " + b.encode()
    for b in ("Level.sav", "Level.sav.json", "a", "a.json", "x.sav", "in/y.sav", "other.sav.json", name + ".bak", name + ".tmp", "out.bin.tmp"):
        if b not in files and b != out and r.random() < 0.4:
            files[b] = b"bystander " + b.encode()
    return args, files, sub + name, out, exists, force


def disguise(r, d, args, inp, out, exists, outs):
    """Other ways in which the output or input can be where it is."""
    how = "plain"
    k = r.randrange(8)
    if exists and out != inp and k < 3:
        # the file itself is elsewhere
        os.makedirs(d("elsewhere"), exist_ok=True)
        if k < 2:
            os.rename(d("w/" + out), d("elsewhere/target"))
            os.symlink(d("elsewhere/target") if k else os.path.relpath(d("elsewhere/target"), os.path.dirname(d("w/" + out))), d("w/" + out))
            how = "a_link"
        else:
            os.link(d("w/" + out), d("elsewhere/target"))
            how = "a_hard_link"
        outs.add("elsewhere/target")
    elif out != inp and k == 3:
        # the input is a link
        os.makedirs(d("elsewhere"), exist_ok=True)
        os.rename(d("w/" + inp), d("elsewhere/input"))
        os.symlink(d("elsewhere/input"), d("w/" + inp))
        how = "next_to_linked_input"
    elif out == inp:
        how = "the_input"
    for i, a in enumerate(args):
        if i and args[i - 1] in ("-o", "--output") and r.random() < 0.3:
            args[i] = r.choice(["./" + out, "in/../" + out, d("w/" + out), ".//" + out])
    return how


def check(m, what, before, after, inp, out, allowed):
    ch = pwt.changes(before, after)
    if inp in ch and inp not in out:
        m.fail("%s: the input file was changed" % what)
    bad = [c for c in ch if c != inp and c not in out]
    if bad:
        m.fail("%s: other files were created or changed: %s" % (what, bad))
    if not allowed and any(o in ch for o in out):
        m.fail("%s: the existing output was touched without permission" % what)


def run(unit, m):
    pool = cmd.Pool(seed_of(m.seed, "c09", unit["kind"], unit["n"]))
    r = pool.g.r
    for n in range(unit["cases"]):
        args, files, inp, out, exists, force = scenario(r, pool)
        with pwt.Dir() as d, m.case(100, {"args": args}):
            for f, b in files.items():
                d.put("w/" + f, b)
            os.makedirs(d("w/in"), exist_ok=True)
            for x in files:
                os.utime(d("w/" + x), (1, 1))
            outs = {"w/" + out}
            how = disguise(r, d, args, inp, out, exists, outs)
            m.count("output_is_" + how)
            if unit["kind"] == "answers":
                answers(m, r, d, args, inp, out, outs, exists, force, n)
            else:
                waiting(m, r, d, args, inp, outs, exists, force)


def answers(m, r, d, args, inp, target, outs, exists, force, n):
    typed, yes = ANSWERS[n % len(ANSWERS)] if n < 2 * len(ANSWERS) else r.choice(ANSWERS)
    os.makedirs(d("tmp"))
    os.makedirs(d("home"))
    homes = {"TMPDIR": d("tmp"), "HOME": d("home")}
    before = d.snap()
    if n < 4:
        res, touched = pwt.real_cli(args, typed, cwd=d("w"), env=homes), []
    else:
        with tempfile.TemporaryFile(dir=pwt.SCRATCH) as log:

            def prepare():
                os.environ.update(homes)
                tempfile.tempdir = None
                watch(log.fileno(), d.path)

            if n % 6 == 5:
                # as a function of a program, where the permission is an argument
                to = "--from-json" not in args and inp.endswith(".sav")
                opts = {"force": True} if force else r.choice([{}, {"force": False}])
                args = ["to" if to else "from", inp, target, json.dumps(opts)]
                m.count("called_directly")
                res = pwt.cli(args, typed, cwd=d("w"), prepare=prepare, module=pwt.DIRECT)
            else:
                res = pwt.cli(args, typed, cwd=d("w"), prepare=prepare)
            log.seek(0)
            touched = [json.loads(x) for x in log.read().decode().splitlines()]
    after = d.snap()
    m.count("watched_file_accesses", len(touched))
    m.seen(repr(args), repr(typed), exists)
    m.count("exists_%s_force_%s_yes_%s" % (exists, force, yes))
    what = "%s, output %s, answer %r: %s" % (args, "exists" if exists else "is new", typed, res)
    asked = exists and not force
    check(m, what, before, after, "w/" + inp, outs, (not asked) or yes)
    outside = sorted({path for event, path, there in touched if there or os.path.lexists(path)})
    if outside:
        m.fail("%s: files elsewhere were written or changed: %s" % (what, outside))
    if asked and not yes and res.rc == 0:
        m.fail("%s: status zero although nothing was allowed" % what)
    m.sample({"args": args, "typed": typed.decode(), "exists": exists, "status": res.rc})


def watch(fd, inside):
    """Log what this process writes, removes or changes outside of a directory."""
    inside = os.path.realpath(inside) + os.sep
    writes = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
    busy = []

    def hook(event, args):
        if busy:
            return
        if event == "open":
            path, mode, flags = args
            if not (set(mode or "") & set("wax+")) and not (isinstance(flags, int) and flags & writes):
                return
            paths = [path]
        elif event in ("os.rename", "os.link", "os.symlink"):
            paths = args[:2]
        elif event in ("os.remove", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.chown", "os.utime", "shutil.rmtree"):
            paths = args[:1]
        else:
            return
        busy.append(1)
        try:
            for p in paths:
                if isinstance(p, (str, bytes, os.PathLike)):
                    p = os.path.join(os.path.realpath(os.path.dirname(os.fsdecode(p)) or "."), os.path.basename(os.fsdecode(p)))
                    if not p.startswith((inside, "/dev/", "/proc/")):
                        os.write(fd, (json.dumps([event, p, os.path.lexists(p)]) + "\n").encode())
        finally:
            busy.pop()

    sys.addaudithook(hook)


def settle(p):
    """Wait until the process waits for input (it uses no time any more) or ends."""
    last, since = None, time.time()
    t0 = time.time()
    while time.time() - t0 < 30:
        if p.poll() is not None:
            return False
        try:
            with open("/proc/%d/stat" % p.pid) as f:
                s = f.read().rpartition(")")[2].split()
        except OSError:
            return False
        now = (s[0], s[11], s[12])
        if now != last or s[0] != "S":
            last, since = now, time.time()
        elif time.time() - since > 0.25:
            return True
        time.sleep(0.02)
    return True


def waiting(m, r, d, args, inp, outs, exists, force):
    """Look at the directory while the command waits, then interrupt it, answer, or go away."""
    before = d.snap()
    p = subprocess.Popen(
        pwt.argv(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d("w"), env=pwt.environ()
    )
    end = r.choice(["interrupt", "terminate", "hang up", "kill", "no", "silence", "yes", "interrupt after nonsense"])
    try:
        alive = settle(p)
        during = d.snap()
        asked = exists and not force
        what = "%s, output %s" % (args, "exists" if exists else "is new")
        if asked:
            check(m, what + ", while waiting", before, during, "w/" + inp, outs, False)
            m.count("looked_while_waiting" if alive else "ended_without_waiting")
        typed = b""
        if alive:
            if end == "interrupt":
                p.send_signal(signal.SIGINT)
            elif end == "terminate":
                p.send_signal(signal.SIGTERM)
            elif end == "hang up":
                p.send_signal(signal.SIGHUP)
            elif end == "kill":
                p.kill()
            elif end == "no":
                typed = b"n\n"
            elif end == "yes":
                typed = b"y\n"
            elif end == "interrupt after nonsense":
                p.stdin.write(b"what\n")
                p.stdin.flush()
                settle(p)
                p.send_signal(signal.SIGINT)
        try:
            text = p.communicate(typed, timeout=60)[0]
        except BrokenPipeError:
            text = p.stdout.read()
        rc = p.wait()
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
    after = d.snap()
    m.seen(repr(args), end, exists)
    m.count("then_" + end.replace(" ", "_"))
    what += ", then %s: status %s, %r" % (end, rc, text[-300:])
    check(m, what, before, after, "w/" + inp, outs, (not asked) or end == "yes")
    if asked and end != "yes" and rc == 0:
        m.fail("%s: status zero although nothing was allowed" % what)
