"""What a worker observes while it drives the real code."""
import base64
import contextlib
import hashlib
import json
import signal
import traceback


class Timeout(BaseException):
    pass


class Stop(Exception):
    """Enough violations seen in this unit."""


def jsonable(x):
    if isinstance(x, (bytes, bytearray)):
        return {"base64": base64.b64encode(bytes(x)).decode()}
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Monitor:
    def __init__(self, unit):
        self.unit = unit
        self.counts = {}
        self.keys = set()
        self.evaluations = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.digests = []
        self.case_no = -1

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, *key):
        """One judged case; key identifies it (None: trivial case)."""
        self.evaluations += 1
        if key != (None,):
            h = hashlib.blake2b(digest_size=7)
            for k in key:
                h.update(k if isinstance(k, (bytes, bytearray)) else repr(k).encode("utf8", "backslashreplace"))
                h.update(b"|")
            self.keys.add(int.from_bytes(h.digest(), "little"))

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(jsonable(x))

    def fail(self, msg, data=None):
        self.violations.append({"message": str(msg)[:2000], "case": self.case_no, "data": jsonable(data)})
        if len(self.violations) >= 3:
            raise Stop()

    def digest(self, label, *data):
        """A result to be compared between units."""
        h = hashlib.blake2b(digest_size=10)
        for d in data:
            h.update(d if isinstance(d, (bytes, bytearray)) else d.encode("utf8", "backslashreplace"))
            h.update(b"|")
        self.digests.append([label, h.hexdigest()])

    def finding(self, key, msg):
        self.known.append([key, msg])

    @contextlib.contextmanager
    def case(self, seconds=90, data=None, retry=None):
        """Judge one case; an unexpected exception or no answer in time is a violation."""
        self.case_no += 1

        def alarm(*_):
            raise Timeout()

        old = signal.signal(signal.SIGALRM, alarm)
        signal.alarm(seconds)
        try:
            yield
        except Timeout:
            signal.alarm(0)
            self.count("timeouts")
            self.fail("no result within %d s" % seconds, data)
        except Stop:
            raise
        except Exception:
            signal.alarm(0)
            self.fail("unexpected error: " + traceback.format_exc(limit=-6), data)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    def result(self):
        return {
            "counts": self.counts,
            "keys": sorted(self.keys),
            "evaluations": self.evaluations,
            "samples": self.samples,
            "violations": self.violations,
            "known": self.known,
            "digests": self.digests,
        }


def dumps(x):
    return json.dumps(x)
