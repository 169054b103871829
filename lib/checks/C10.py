"""Success is reported only for a complete, correct output."""
import copy
import json
import os
import random
import re
import resource
import signal
import subprocess
import time

from checks import C06, C08, cmd, edits
from checks.common import seed_of
from pwref import codec, core, gen
from vk import pwt

LEVEL = "fault_enumeration"
RULE = (
    "one evaluation is one run of the convert command on good, damaged or contradictory input or with a failing output, its status "
    "judged against what is then on disk; distinct by scenario and input"
)


def units(tier, seed):
    q = tier == "quick"
    out = []
    for n in range(6 if q else 24):
        out.append({"kind": "badsav", "n": n, "cases": 260 if q else 2500, "config": ["fast", "std", "sys"][n % 3]})
        out.append({"kind": "badjson", "n": n, "cases": 260 if q else 2500, "config": ["fast", "std", "sys"][n % 3]})
    for n in range(2 if q else 8):
        out.append({"kind": "requests", "n": n, "cases": 200 if q else 1500})
    for n in range(2 if q else 8):
        out.append({"kind": "declined", "n": n, "cases": 60 if q else 600, "config": ["fast", "std"][n % 2]})
    for n in range(6 if q else 24):
        out.append({"kind": "full", "n": n, "cases": 24 if q else 200, "config": ["fast", "sys"][n % 2]})
    for n in range(2 if q else 8):
        out.append({"kind": "signals", "n": n, "cases": 16 if q else 120})
    return out


OLD = b"the old output\n"


def start(r, d, name, out, data):
    """Puts the files there; returns arguments and whether the output existed."""
    d.put(name, data)
    exists = r.random() < 0.6
    if exists:
        d.put(out, OLD)
    return exists


def consent(r, exists):
    """Extra arguments and what is typed so that the command may go on."""
    if not exists:
        return ([], b"") if r.random() < 0.7 else (["--force"], b"")
    return (["--force"], b"") if r.random() < 0.6 else ([], r.choice([b"y\n", b"Y\n", b"huh\ny\n"]))


def failed(m, what, res, d, out, exists):
    """Status must not be zero, the output must be as before."""
    if res.rc == 0:
        m.fail("%s: reported success (%s)" % (what, res))
    there = os.path.lexists(d(out))
    if exists and (not there or d.get(out) != OLD):
        m.fail("%s: failed (status %s), but the existing output was %s" % (what, res.rc, "changed" if there else "removed"))
    if not exists and there:
        m.fail("%s: failed (status %s), but an output file was created" % (what, res.rc))


def run(unit, m):
    pool = cmd.Pool(seed_of(m.seed, "c10", unit["kind"], unit["n"]))
    globals()[unit["kind"]](unit, m, pool, pool.g.r)


# ---- input that is not a save ---------------------------------------------------------------


def badsav(unit, m, pool, r):
    g = pool.g
    for n in range(unit["cases"]):
        with pwt.Dir() as d, m.case(100):
            sav, raw, doc = pool.save()
            k = r.randrange(6)
            known_bad = True
            if k == 0:
                what, bad = C08.damage(r, sav)
                known_bad = False  # fails, or gives the original content all the same
                try:
                    if C08_read(bad) != raw:
                        continue  # another valid container
                except Exception:
                    pass
            elif k == 1:
                what, bad = C08.garbage(r)
            elif k == 2:  # a good container of something else
                what, inner = r.choice([
                    ("empty content", b""), ("other content", r.randbytes(r.choice([1, 4, 100]))), ("cut save", raw[: r.randrange(len(raw) - 4)]),
                    ("other magic", b"GVAT" + raw[4:]), ("other version", raw[:4] + b"\x02" + raw[5:]), ("JSON inside", json.dumps(doc).encode()),
                    ("two saves", raw[4:]), ("save with leading byte", b"\0" + raw),
                ])
                bad = pwt.pack(inner, r.choice([0x31, 0x32]))
            elif k == 3:
                what, inner = C06.odd(g)
                bad = pwt.pack(inner, r.choice([0x31, 0x32]))
                known_bad, raw = None, inner
            elif k == 4:
                what, inner = C06.damage(g, raw)
                bad = pwt.pack(inner, r.choice([0x31, 0x32]))
                known_bad, raw = None, inner
            else:
                what, bad, known_bad = "good save", sav, False
            name, args = "in.sav", []
            if r.random() < 0.2:
                name, args = r.choice(["in.json", "in", "in.bin"]), ["--to-json"]
            out = r.choice([name + ".json", "o.json", "sub/o"])
            os.makedirs(d("sub"))
            exists = start(r, d, name, out, bad)
            more, typed = consent(r, exists)
            if out != name + ".json":
                more = more + ["-o", d(out)]
            if r.random() < 0.2:
                more.append("--minify-json")
            run = pwt.real_cli if n < 3 else pwt.cli
            res = run([d(name)] + args + more, typed)
            m.seen(bad, repr(more))
            m.count("save_" + what.split(":")[0].replace(",", "").replace(" ", "_"))
            what = "input with %s, %s" % (what, args + more)
            if known_bad:
                failed(m, what, res, d, out, exists)
            elif known_bad is False:
                if res.rc == 0:
                    why = cmd.json_ok(d.get(out), doc)
                    if why:
                        m.fail("%s: reported success, but the output is %s" % (what, why))
                    m.count("succeeded")
                elif k == 5:
                    m.fail("%s: fails on a good save: %s" % (what, res))
                else:
                    failed(m, what, res, d, out, exists)
            elif res.rc:
                failed(m, what, res, d, out, exists)
                m.count("refused")
            else:
                m.count("accepted")
                keeps(m, what, d.get(out) if os.path.exists(d(out)) else b"", raw)


def C08_read(sav):
    return pwt.unpack(sav[12:] if sav[8:11] == b"CNK" else sav)[0]


def keeps(m, what, text, raw):
    """Something was understood somehow: its JSON is whole and gives the same save."""
    try:
        doc = json.loads(text.decode("utf8"))
    except Exception as e:
        m.fail("%s: reported success, but the output is not JSON: %r" % (what, e))
        return
    C06.Judge(m, (lambda raw: doc, pwt.from_doc))(what, raw)


# ---- input that is not a document -----------------------------------------------------------


def badjson(unit, m, pool, r):
    g = pool.g
    for n in range(unit["cases"]):
        with pwt.Dir() as d, m.case(100):
            text, doc = pool.json()
            k = r.randrange(5)
            bad = True
            if k == 0:
                i = r.randrange(len(text) - 1)
                # cut inside: strip so that only whitespace is not the only thing lost
                what, data = r.choice([
                    ("cut", text.rstrip()[: i or 1]), ("trailing text", text + b"x"), ("two documents", text + text),
                    ("byte lost", text.rstrip()[:-1]), ("single quotes", text.replace(b'"', b"'")),
                    ("comment", b"// x\n" + text), ("trailing comma", text.rstrip()[:-1] + b",}"),
                    ("not UTF-8", text[:-1] + b"\xff\xfe" + text[-1:]), ("byte order mark", b"\xef\xbb\xbf" + text),
                    ("UTF-16", text.decode().encode("utf-16")), ("zeros", bytes(len(text))),
                    ("not UTF-8 in a string", unreadable(r, text)), ("not UTF-8 in a string", unreadable(r, text)),
                ])
            elif k == 1:
                what, data = r.choice([
                    ("empty file", b""), ("blank", b" \n"), ("null", b"null"), ("list", b"[]"), ("object", b"{}"), ("number", b"5"),
                    ("text", b'"GVAS"'), ("save as JSON", pool.save()[0]), ("list of documents", b"[" + text + b"]"),
                ])
            elif k == 2:
                part = r.choice(["header", "properties", "trailer"])
                what = "document with wrong " + part
                x = copy.deepcopy(doc)
                if r.random() < 0.5:
                    del x[part]
                else:
                    x[part] = r.choice([None, 5, True])
                data = json.dumps(x).encode()
            elif k == 3:
                what, x = misfit(doc, g)
                if what is None:
                    continue
                data = json.dumps(x).encode()
            else:
                what, data, bad = "good document", text, False
            name, args = "in.json", []
            if r.random() < 0.2:
                name, args = r.choice(["in.sav", "in", "in.txt"]), ["--from-json"]
            default = name[:-5] if name.endswith(".json") else name + ".sav"
            out = r.choice([default, "o.sav", "sub/o"])
            os.makedirs(d("sub"))
            exists = start(r, d, name, out, data)
            more, typed = consent(r, exists)
            if out != default:
                more = more + ["-o", d(out)]
            run = pwt.real_cli if n < 3 else pwt.cli
            res = run([d(name)] + args + more, typed)
            m.seen(data, repr(more))
            m.count("document_" + what.split(":")[0].replace(" ", "_"))
            m.sample({"what": what, "args": args + more, "status": res.rc})
            what = "document: %s, %s" % (what, args + more)
            if bad:
                failed(m, what, res, d, out, exists)
            elif res.rc:
                m.fail("%s: fails on a good document: %s" % (what, res))
            else:
                why = cmd.sav_ok(d.get(out), doc)
                if why:
                    m.fail("%s: reported success, but the output is %s" % (what, why))


def unreadable(r, text):
    """The text of a document, bytes inside one of its strings being no UTF-8."""
    i = r.choice([x.start() for x in re.finditer(rb'(?<=")[A-Za-z0-9 /_.+]+"', text)])
    bad = r.choice([b"\xff", b"\x80", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xc0\x80", b"\xf5\x80\x80\x80"])
    return text[:i] + bad + text[i + r.randrange(2) :]


def misfit(doc, g):
    doc = copy.deepcopy(doc)
    s = [x for x in edits.sites(doc, g, 30) if x.role in ("scalar", "list", "props")]
    g.r.shuffle(s)
    for site in s:
        bad = list(edits.misfits(site))
        if bad:
            what, v = g.r.choice(bad)
            site.set(v)
            return "misfit: %s %r at %s" % (what, v, site.path), doc
    return None, None


# ---- an output that may not be replaced ------------------------------------------------------


def declined(unit, m, pool, r):
    for n in range(unit["cases"]):
        with pwt.Dir() as d, m.case(100):
            if r.random() < 0.5:
                data, name, flag = pool.save()[0], "in.sav", "--to-json"
                default = "in.sav.json"
            else:
                data, name, flag = pool.json()[0], "in.json", "--from-json"
                default = "in"
            args = [flag] if r.random() < 0.3 else []
            out = r.choice([default, default, "o", "sub/o"])
            if out != default or r.random() < 0.2:
                args += ["-o", d(out)]
            if r.random() < 0.3:
                args += r.choice([["--minify-json"], ["--convert-nan-to-null"], ["--custom-properties", ""]])
            os.makedirs(d("sub"))
            d.put(name, data)
            d.put(out, OLD)
            typed = r.choice([b"n\n", b"N\n", b"", b"\n", b"no\nn\n", b"yes\nn\n", b"what\n", b"n", b"\n\nN\n", b"n\ny\n"])
            res = (pwt.real_cli if n < 8 else pwt.cli)([d(name)] + args, typed)
            m.seen(name, repr(args), typed)
            m.count("declined_" + ("by_answer" if typed.strip().lower().endswith((b"n", b"n\ny")) else "by_end_of_input"))
            failed(m, "declined with %r: %s %s" % (typed, name, args), res, d, out, True)


# ---- requests that cannot be met -----------------------------------------------------------


def requests(unit, m, pool, r):
    for n in range(unit["cases"]):
        with pwt.Dir() as d, m.case(100):
            sav, raw, doc = pool.save()
            text = json.dumps(doc).encode()
            k = n % 10
            exists = r.random() < 0.5
            out = "o"
            force = r.choice([["--force"], ["-f"], []])
            typed = b"y\ny\n"
            if k == 0:
                name, args, what = "in.sav", ["--to-json", "--from-json"], "both directions"
                d.put(name, sav)
            elif k == 1:
                name, args, what = "in.json", ["--from-json", "--to-json"], "both directions"
                d.put(name, text)
            elif k == 2:
                name, args, what = r.choice(["in", "in.txt", "in.sav.bak", "in.json5", "savjson", "in.sav.json.gz", "json.in", "sav"]), [], "unknown kind"
                d.put(name, r.choice([sav, text]))
            elif k == 3:
                name = r.choice(["no.sav", "no.json", "no", "no/x.sav"])
                args, what = r.choice([[], ["--to-json"], ["--from-json"]]), "missing input"
            elif k == 4:
                name = r.choice(["dir.sav", "dir.json", "dir"])
                os.makedirs(d(name))
                args, what = r.choice([[], ["--to-json"], ["--from-json"]]), "directory as input"
            elif k == 5:
                name, args, what = "in.sav", ["--no-such-option"], "unknown option"
                d.put(name, sav)
            elif k == 6:
                name, args, what = "in.json", [], "missing output directory"
                d.put(name, text)
                out, exists = "none/such/o", False
            elif k == 7:
                name, args, what = "in.sav", [], "missing output directory"
                d.put(name, sav)
                out, exists = "none/such/o.json", False
            elif k == 8:
                name, args, what = r.choice(["in.sav", "in.json"]), [], "directory as output"
                d.put(name, sav if name == "in.sav" else text)
                os.makedirs(d("o"))
                res = pwt.cli([d(name), "-o", d("o")] + force, typed)
                m.seen(name, what, repr(force))
                m.count(what.replace(" ", "_"))
                if res.rc == 0:
                    m.fail("%s %s: reported success" % (what, name))
                if os.listdir(d("o")) or not os.path.isdir(d("o")):
                    m.fail("%s %s: the directory was changed" % (what, name))
                continue
            else:
                name, args, what = "in.sav", [], "broken link as input"
                os.symlink(d("nowhere"), d(name))
            if exists:
                d.put(out, OLD)
            use_out = r.random() < 0.7 or out != "o"
            before = d.snap() if k not in (9,) else None
            res = (pwt.real_cli if n < 10 else pwt.cli)([d(name)] + args + force + (["-o", d(out)] if use_out else []), typed)
            m.seen(name, repr(args), repr(force), exists, use_out)
            m.count(what.replace(" ", "_"))
            m.sample({"what": what, "input": name, "args": args, "status": res.rc})
            what = "%s: %s %s" % (what, name, args + force)
            failed(m, what, res, d, out, exists)
            if before is not None and pwt.changes(before, d.snap()):
                m.fail("%s: files changed: %s" % (what, pwt.changes(before, d.snap())))


# ---- writing fails ------------------------------------------------------------------------


def full(unit, m, pool, r):
    for n in range(unit["cases"]):
        with pwt.Dir() as d, m.case(200):
            sav, raw, doc = pool.save()
            to = r.random() < 0.5
            name, out = ("in.sav", "o.json") if to else ("in.json", "o.sav")
            d.put(name, sav if to else json.dumps(doc))
            args = [d(name), "--force", "-o", d(out)] + (["--minify-json"] if to and n % 2 else [])

            def right():
                if os.path.islink(d(out)):
                    return "a device"
                return (cmd.json_ok if to else cmd.sav_ok)(d.get(out), doc)

            if n % 3 == 0:
                # a device that is always full, behind a link in the scratch directory
                os.symlink("/dev/full", d(out))
                res = pwt.real_cli(args)
                limit = "full"
            else:
                ok = pwt.real_cli(args)
                if ok.rc or right():
                    m.fail("%s: fails without any fault: %s, %s" % (args, ok, right()))
                    continue
                size = os.path.getsize(d(out))
                old = r.random() < 0.5
                os.remove(d(out))
                if old:
                    d.put(out, OLD)
                limit = r.choice([0, 1, size // 2, size - 1, size - 2, max(0, size - 4096), min(size - 1, 8192), min(size - 1, 4096), r.randrange(size), size])

                def pre():
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))

                res = pwt.real_cli(args, preexec=pre)
                m.count("limit_enough" if limit == size else "limit_too_small")
                if limit == size and res.rc:
                    m.fail("%s: fails although there is just enough space: %s" % (args, res))
            m.seen(raw, to, limit)
            m.count("write_faults_" + ("to_json" if to else "from_json"))
            m.sample({"args": args, "limit": limit, "status": res.rc})
            if res.rc == 0:
                why = right()
                if why:
                    m.fail("%s with output limited to %s bytes: reported success, but the output is %s" % (args, limit, why))


# ---- interruption -------------------------------------------------------------------------


def signals(unit, m, pool, r):
    big = codec.encode(big_doc(pool.g))
    doc = codec.decode(big)
    sav, text = pwt.pack(big, 0x32), json.dumps(doc)
    for n in range(unit["cases"]):
        with pwt.Dir() as d, m.case(200):
            to = n % 2 == 0
            name, out = ("in.sav", "o.json") if to else ("in.json", "o.sav")
            d.put(name, sav if to else text)
            p = subprocess.Popen(
                pwt.argv([d(name), "-f", "-o", d(out)]), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                env=pwt.environ(),
            )
            began = time.time()
            if r.random() < 0.5:
                # when the output appears
                while p.poll() is None and not os.path.exists(d(out)):
                    time.sleep(0.002)
            else:
                while p.poll() is None and time.time() - began < r.uniform(0, 1.5):
                    time.sleep(0.005)
            sig = r.choice([signal.SIGINT, signal.SIGTERM, signal.SIGKILL, signal.SIGHUP])
            if p.poll() is None:
                p.send_signal(sig)
                m.count("interrupted_with_output" if os.path.exists(d(out)) else "interrupted_before_output")
            o, e = p.communicate()
            m.seen(n, sig, to)
            if p.returncode == 0:
                m.count("finished_anyway")
                why = (cmd.json_ok if to else cmd.sav_ok)(d.get(out), doc) if os.path.exists(d(out)) else "missing"
                if why:
                    m.fail("interrupted by %s: reported success, but the output is %s" % (sig, why))


def big_doc(g):
    doc = g.level([x for x in gen.variants(g)])
    p = doc["properties"]["worldSaveData"]["value"]
    for n in range(150):
        p["Filler%d" % n] = g.any_prop(3)
    return doc
