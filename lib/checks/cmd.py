"""Inputs for the convert command and what should come out."""
import json
import os

from pwref import codec, core, gen
from vk import pwt


class Pool:
    """Saves and documents to convert."""

    def __init__(self, seed):
        self.g = gen.Gen(seed)
        self.level = gen.rounds(str(seed) + "L", 10**6, 2)

    def doc(self):
        k = self.g.r.random()
        if k < 0.5:
            return next(self.level)
        return self.g.generic(self.g.r.choice([0, 1, 3, 6]))

    def save(self):
        """(sav bytes, gvas bytes, document)"""
        d = self.doc()
        raw = codec.encode(d)
        return pwt.pack(raw, pwt.save_type_for(d["header"]["save_game_class_name"])), raw, d

    def json(self):
        """(text, document)"""
        d = self.doc()
        return json.dumps(d, indent=self.g.r.choice([None, "\t", 2])).encode(), d


def json_ok(data, doc):
    """None, or why the bytes are not the JSON of the document."""
    try:
        got = json.loads(data.decode("utf8"))
    except Exception as e:
        return "not JSON: %r" % e
    d = core.first_diff(got, doc)
    return d and "wrong document: " + d


def sav_ok(data, doc):
    try:
        raw, t = pwt.unpack(data)
    except Exception as e:
        return "not a valid container: %r" % e
    if t != pwt.save_type_for(doc["header"]["save_game_class_name"]):
        return "wrong save type %x" % t
    if raw != codec.encode(doc):
        return "wrong content"
    return None
