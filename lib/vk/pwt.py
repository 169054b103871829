"""Drives the real code through its public boundary: the library entry points and the commands."""
import glob
import io
import json
import os
import runpy
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import traceback
import zlib

REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()


class Sink(io.TextIOBase):
    """Takes what the code prints."""

    def write(self, s):
        return len(s)


if "vk.monitor" in sys.modules:  # in a worker; check.py itself never loads the code under test
    sys.stdout = Sink()
    from palworld_save_tools import archive, gvas, palsav
    from palworld_save_tools.gvas import GvasFile
    from palworld_save_tools.json_tools import CustomEncoder
    from palworld_save_tools.paltypes import PALWORLD_CUSTOM_PROPERTIES, PALWORLD_TYPE_HINTS

DIRECT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "direct.py")
CONVERT = "palworld_save_tools.commands.convert"
RESAVE = "palworld_save_tools.commands.resave_test"
EXTRACT = os.path.join(REPO, "scripts", "extract_map_object_concrete_classes.py")


def saves():
    """Sample saves that come with the repository."""
    return sorted(glob.glob(os.path.join(REPO, "tests/testdata/**/*.sav"), recursive=True))


# ---- library ------------------------------------------------------------------------------


def read(raw, custom=None, allow_nan=True):
    if custom is None:
        custom = PALWORLD_CUSTOM_PROPERTIES
    else:
        custom = {k: PALWORLD_CUSTOM_PROPERTIES[k] for k in custom}
    return GvasFile.read(raw, PALWORLD_TYPE_HINTS, custom, allow_nan=allow_nan)


def text(doc, minify=True, allow_nan=True):
    return json.dumps(doc, cls=CustomEncoder, indent=None if minify else "\t", allow_nan=allow_nan)


def to_json(raw, custom=None, allow_nan=True, minify=True):
    return text(read(raw, custom, allow_nan).dump(), minify, allow_nan)


def from_doc(doc):
    return GvasFile.load(doc).write(PALWORLD_CUSTOM_PROPERTIES)


def from_json(t):
    return from_doc(json.loads(t))


# ---- container (independent of the code under test) -------------------------------------------


def pack(raw, save_type=0x32, level=6, prefix=None):
    z = zlib.compress(raw, level)
    n = len(z)
    if save_type == 0x32:
        z = zlib.compress(z, level)
    head = struct.pack("<II", len(raw), n) + b"PlZ" + bytes([save_type])
    if prefix is not None:
        head = prefix + head
    return head + z


def unpack(sav):
    """Strict reading of a container without prefix."""
    n, c = struct.unpack("<II", sav[:8])
    if sav[8:11] != b"PlZ" or sav[11] not in (0x31, 0x32):
        raise ValueError("bad container header")
    t = sav[11]
    inner = _inflate(sav[12:]) if t == 0x32 else sav[12:]
    if len(inner) != c:
        raise ValueError("compressed length is %d, header says %d" % (len(inner), c))
    raw = _inflate(inner)
    if len(raw) != n:
        raise ValueError("length is %d, header says %d" % (len(raw), n))
    return raw, t


def _inflate(z):
    d = zlib.decompressobj()
    r = d.decompress(z) + d.flush()
    if not d.eof or d.unused_data:
        raise ValueError("not exactly one zlib stream")
    return r


def save_type_for(class_name):
    double = "Pal.PalWorldSaveGame" in class_name or "Pal.PalLocalWorldSaveGame" in class_name
    return 0x32 if double else 0x31


# ---- commands -----------------------------------------------------------------------------


class Result:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    def __repr__(self):
        return "exit status %s, stdout %r, stderr %r" % (self.rc, self.out[-400:], self.err[-600:])


def environ(extra=None):
    env = dict(os.environ)
    env["PYTHONIOENCODING"] = "utf-8:backslashreplace"
    env.update(extra or {})
    return {k: v for k, v in env.items() if v is not None}


def argv(args, module=CONVERT, flags=()):
    return [sys.executable, *flags, *([module] if module.endswith(".py") else ["-m", module]), *args]


def real_cli(args, stdin=b"", cwd=None, module=CONVERT, env=None, flags=(), timeout=120, preexec=None, stdin_fd=None):
    """The command as a separate process, as a user starts it."""
    kw = {"stdin": stdin_fd} if stdin_fd is not None else {"input": stdin}
    p = subprocess.run(
        argv(args, module, flags), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=environ(env),
        timeout=timeout, preexec_fn=preexec, **kw
    )
    return Result(p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"))


def cli(args, stdin=b"", cwd=None, module=CONVERT, prepare=None):
    """The command in a forked copy of this process (same code, less start-up)."""
    files = [tempfile.TemporaryFile(dir=SCRATCH) for _ in range(3)]
    files[0].write(stdin)
    files[0].seek(0)
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            for n, f in enumerate(files):
                os.dup2(f.fileno(), n)
            sys.stdin = open(0, "r", encoding="utf8", closefd=False)
            sys.stdout = open(1, "w", encoding="utf8", errors="backslashreplace", closefd=False)
            sys.stderr = open(2, "w", encoding="utf8", errors="backslashreplace", closefd=False)
            if cwd:
                os.chdir(cwd)
            if prepare:
                prepare()
            sys.argv = ["palworld-save-tools", *args]
            code = 0
            try:
                if module.endswith(".py"):
                    runpy.run_path(module, run_name="__main__")
                else:
                    runpy.run_module(module, run_name="__main__", alter_sys=True)
            except SystemExit as e:
                if e.code is None:
                    code = 0
                elif isinstance(e.code, int):
                    code = e.code & 255
                else:
                    print(e.code, file=sys.stderr)
                    code = 1
            except BaseException:
                traceback.print_exc()
                code = 1
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            except Exception:
                code = code or 120
        finally:
            os._exit(code)
    try:
        _, st = os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, 9)
        os.waitpid(pid, 0)
        raise
    out = []
    for f in files:
        f.seek(0)
        out.append(f.read().decode("utf8", "replace"))
        f.close()
    return Result(os.waitstatus_to_exitcode(st), out[1], out[2])


class Dir:
    """A scratch directory."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(dir=SCRATCH)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)

    def __call__(self, *name):
        return os.path.join(self.path, *name)

    def put(self, name, data):
        p = self(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("utf8"))
        return p

    def get(self, name):
        with open(self(name), "rb") as f:
            return f.read()

    def snap(self):
        """Every file below, with its content and times of change."""
        r = {}
        for base, dirs, files in os.walk(self.path):
            for d in dirs:
                r[os.path.relpath(os.path.join(base, d), self.path) + "/"] = None
            for n in files:
                p = os.path.join(base, n)
                with open(p, "rb") as f:
                    r[os.path.relpath(p, self.path)] = (f.read(), os.stat(p).st_mtime_ns, os.stat(p).st_ino)
        return r


def changes(before, after):
    return sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))
