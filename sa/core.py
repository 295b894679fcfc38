"""Obligations, findings, evidence and the command line of the checks."""
import json
import os
import sys
import time
import traceback

from .model import AnalysisError, Repo
from .engine import Analyzer, load_baseline, show

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')

RULES = {}     # property -> [(rule id, text, function)]


def rule(prop, rid, text):
    def deco(f):
        RULES.setdefault(prop, []).append((rid, text, f))
        return f
    return deco


class Finding:
    def __init__(self, prop, rid, construct, where, message):
        self.prop, self.rid, self.construct, self.where, self.message = prop, rid, construct, where, message

    @property
    def key(self):
        return '%s|%s' % (self.rid, self.construct)


class Ctx:
    def __init__(self, repo, tier='quick'):
        self.repo, self.tier = repo, tier
        self.baseline = load_baseline()
        self.prop = self.rid = None
        self.findings, self.obligations, self.npaths, self.functions = [], {}, 0, set()
        self.samples = {}
        self._paths = {}

    def func(self, name, optional=False):
        return self.repo.func(name, optional=optional)

    def paths(self, func, cls=None, inline=(), types=None, implicit=False, may_raise=None, max_paths=20000, loop2=None):
        f = self.repo.func(func) if isinstance(func, str) else func
        # two iterations of every loop, but for the rules which tell the first item from the others
        if loop2 is None:
            loop2 = self.tier == 'thorough' and self.prop not in ('P04', 'P12')
        key = (f.key, f.node.lineno, str(cls), tuple(sorted(inline)), str(types), implicit, str(may_raise), loop2)
        if key not in self._paths:
            a = Analyzer(self.repo, self.baseline, inline=inline, types=types, implicit=implicit,
                         max_paths=max_paths, may_raise=may_raise, loop2=loop2)
            self._paths[key] = a.paths(f, cls=cls)
        ps = self._paths[key]
        self.npaths += len(ps)
        self.functions.add(f.key)
        return ps

    def ob(self, ok, construct, where, message, what=None):
        """One obligation: a construct the rule was decided on."""
        d = self.obligations.setdefault(self.rid, [0, 0])
        d[0] += 1
        if ok:
            d[1] += 1
        else:
            f = Finding(self.prop, self.rid, construct, where, message)
            if f.key + message not in {x.key + x.message for x in self.findings}:
                self.findings.append(f)
        s = self.samples.setdefault(self.rid, [])
        if len(s) < 6 and construct not in s:
            s.append(construct)
        return ok

    def need(self, n, got, what):
        """Instance count of an enumeration: what a rule is about is done somewhere."""
        if got < n:
            self.ob(False, what, '', '%d instance(s) of %s, at least %d expected' % (got, what, n))


def load_known():
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding='utf-8') as f:
            for l in f:
                l = l.strip()
                if l.startswith('finding: '):
                    # finding: property=P01 key=<rule|construct> <what fails>
                    rest = l[len('finding: '):]
                    p, k, what = rest.split(' ', 2)
                    out.append((p.split('=', 1)[1], k.split('=', 1)[1], what))
    return out


def run(prop, tier='quick', root='/repo', evidence=True, quiet=False):
    """Decide one property. Returns (exit code, new findings)."""
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    repo = Repo(root)
    ctx = Ctx(repo, tier)
    rules = RULES.get(prop)
    if not rules:
        print('no rule for %s' % prop)
        return 2, []
    errors = []
    for rid, text, f in rules:
        ctx.prop, ctx.rid = prop, prop + '.' + rid
        ctx.obligations.setdefault(ctx.rid, [0, 0])
        try:
            f(ctx)
        except AnalysisError as er:
            errors.append('%s: %s' % (ctx.rid, er))
        except RecursionError as er:
            errors.append('%s: recursion' % ctx.rid)
        except Exception:
            errors.append('%s: %s' % (ctx.rid, traceback.format_exc()))
    known = {(p, k): w for p, k, w in load_known()}
    new, old = [], []
    for x in ctx.findings:
        (old if (prop, x.key) in known else new).append(x)
    code = 1 if new else (2 if errors else 0)
    printed = set()
    for x in old:
        if x.key not in printed:
            printed.add(x.key)
            print('KNOWN-FINDING: property=%s %s' % (prop, known[(prop, x.key)]))
    replay = os.path.join(VERIF, 'evidence', 'violations', '%s.json' % prop)
    if evidence:
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        if new:
            with open(replay, 'w') as f:
                json.dump([{'rule': x.rid, 'construct': x.construct, 'where': x.where, 'message': x.message,
                            'command': 'python3 /verif/check.py %s' % prop} for x in new], f, indent=1)
        elif os.path.exists(replay):
            os.remove(replay)
    for x in new:
        if not quiet:
            print('  %s: %s: %s' % (x.rid, x.where, x.message))
    if new:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    for e in errors:
        print('ERROR %s' % e)
    tot = sum(a for a, _ in ctx.obligations.values())
    ok = sum(b for _, b in ctx.obligations.values())
    if evidence and not errors:
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the sources under %s as they are at this run: the functions below are '
                               'unfolded into their control-flow paths (or scanned, for the package-wide rules) and each '
                               'rule is decided on every construct it enumerates; nothing is executed.' % repo.root,
                'obligations': tot, 'discharged': ok,
                'modules_parsed': len(repo.modules),
                'functions_unfolded': len(ctx.functions), 'paths': ctx.npaths,
                'functions': sorted(ctx.functions)[:60],
                'rules': [{'rule': prop + '.' + rid, 'text': text,
                           'obligations': ctx.obligations[prop + '.' + rid][0],
                           'discharged': ctx.obligations[prop + '.' + rid][1],
                           'examples': ctx.samples.get(prop + '.' + rid, [])} for rid, text, _ in rules],
                'known_findings': [x.key for x in old],
            },
            'wall_s': round(time.time() - t0, 3),
            'violations': len(new),
        }
        with open(os.path.join(VERIF, 'evidence', '%s.json' % prop), 'w') as f:
            json.dump(ev, f, indent=1)
    if not quiet:
        print('%s %s: %d rules, %d obligations (%d discharged), %d functions, %d paths, %.1fs' % (
            prop, {0: 'holds', 1: 'VIOLATED', 2: 'NO ANSWER'}[code], len(rules), tot, ok, len(ctx.functions), ctx.npaths,
            time.time() - t0))
    return code, new
