"""What the Python workers observe: violations, events and distinct cases, printed as the C++ harnesses print theirs."""
import argparse
import json
import os
import random
import sys

_p = argparse.ArgumentParser()
_p.add_argument('--seed', type=int, default=1)
_p.add_argument('--scale', type=float, default=1)
_p.add_argument('--prop', default='')
_p.add_argument('--dir', default='.')
_p.add_argument('--thorough', action='store_true')
_p.add_argument('--part', default='')
opt = _p.parse_args()
opt.scale = int(opt.scale * (20 if opt.thorough else 1)) or 1


class Stats:
    evaluations = 0
    distinct = set()
    events = {}
    samples = []
    found = 0
    current = ''


_current = None


def case(text):
    """What is being done now, kept where it survives a crash"""
    global _current
    Stats.current = text
    if _current is None:
        _current = os.open(os.path.join(opt.dir, 'current'), os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o600)
    raw = text[-1500:].encode('utf-8', 'replace')
    os.pwrite(_current, raw.ljust(1600), 0)


def ev(name, n=1):
    Stats.events[name] = Stats.events.get(name, 0) + n


def distinct(*what):
    Stats.distinct.add(hash(what))


def sample(text):
    if len(Stats.samples) < 6:
        Stats.samples.append(text[:300])


class Abandon(Exception):
    pass


def violation(kind, detail):
    Stats.found += 1
    if Stats.found <= 20:
        print('FOUND ' + json.dumps({'kind': kind, 'detail': str(detail)[:800], 'case': Stats.current[-1500:]}), flush=True)
    if Stats.found >= 200:
        finish()


def must(ok, kind, detail):
    if not ok:
        violation(kind, detail() if callable(detail) else detail)
        raise Abandon()


def finish():
    print('STATS ' + json.dumps({'evaluations': Stats.evaluations, 'distinct': len(Stats.distinct), 'violations': Stats.found, 'events': Stats.events,
                                 'samples': Stats.samples}), flush=True)
    sys.stdout.flush()
    os._exit(3 if Stats.found else 0)


def rng(salt=0):
    return random.Random(opt.seed * 1000003 + salt)
