"""End-to-end scenarios (bounded stand-ins): SCEN[name](lib, rng) -> number of comparisons; raise Fail on a violation."""
import random


class Fail(Exception):
    def __init__(self, label, detail, inputs=()):
        Exception.__init__(self, label); self.label = label; self.detail = detail; self.inputs = list(inputs)


class Skip(Exception):
    pass


SCEN = {}


def scenario(name):
    def deco(f): SCEN[name] = f; return f
    return deco


def run(name, lib, seed):
    try:
        n = SCEN[name](lib, random.Random(seed))
        return ('ok', n or 1)
    except Fail as e: return ('fail', e.label, e.detail, e.inputs)
    except Skip as e: return ('reject', str(e))




