"""Command line: decide one property and write its evidence.

  python3 -m tl.check C01 [--tier quick|thorough] [--repo /repo]

exit 0: no violation of the property on anything that was analysed (listed known findings excepted)
exit 1: a violation; a line VIOLATION property=<id> replay=<file> is printed
exit 2: the analysis could not be carried out (an anchor is gone, the source does not compile)
"""
import argparse
import json
import os
import pickle
import sys
import time
import traceback
from collections import Counter

from .terms import *
from .prog import Program
from .machine import AnalysisError, DEADLINE
from .view import describe

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Chk:
    def __init__(self, prop, tier, root):
        self.prop = prop
        self.tier = tier
        self.root = root
        self.t0 = time.time()
        self.prog = Program(root).load_all()
        self.n = Counter()
        self.rules = Counter()
        self.findings = {}
        self.undecided = {}
        self.errors = {}
        self.covered = set()
        self.stats = Counter()
        self.notes = {}
        self.machines = []
        self.names = []
        self.shard = (0, 1)
        self.turn = -1
        self.broken = None      # why a part of the work could not be done

    # ------------------------------------------------------------ bookkeeping
    def machine(self, m):
        if m not in self.machines:
            self.machines.append(m)

    def mine(self):
        """does the next piece of work belong to this process"""
        self.turn += 1
        return self.turn % self.shard[1] == self.shard[0]

    def run(self, r, always=False):
        """carry out a run; False when it could not be analysed or is done by another process"""
        if not always and not self.mine():
            return False
        if time.monotonic() > DEADLINE[0]:
            self.errors[r.name] = 'not reached within the time limit'
            return False
        r.execute()
        self.machine(r.S.m)
        self.n['runs'] += 1
        self.names.append(r.name)
        if r.error:
            self.errors[r.name] = r.error
            if always or not r.outs:
                return False        # what compares runs needs all of their paths
        self.n['paths'] += len(r.outs)
        for o in r.outs:
            if o.tainted:
                self.n['undecided_paths'] += 1
                self.undecided.setdefault(r.name, set()).update(str(x) for x in o.tainted)
        return True

    def ob(self, rule, k=1):
        """an obligation of a rule was decided"""
        self.rules[rule] += k

    def fail(self, rule, where, detail, site='', path=(), run=''):
        key = '|'.join((rule, where, detail))
        if key not in self.findings:
            self.findings[key] = {'rule': rule, 'where': where, 'detail': detail, 'site': site, 'run': run,
                                  'path': list(path)[:12], 'count': 0}
        self.findings[key]['count'] += 1

    # ------------------------------------------------------------ coverage
    def functions(self):
        """which repository functions the runs went through, and how much of each"""
        cov = {}
        for k, i in self.covered:
            cov.setdefault(k, set()).add(i)
        rows = []
        for k, ci in enumerate(self.prog.codes):
            if not ci.name.endswith('<module>'):
                rows.append((ci.module, ci.name, len(cov.get(k, ())), ci.n))
        return rows

    # ------------------------------------------------------------ several processes
    def summary(self):
        idx = {ci: k for k, ci in enumerate(self.prog.codes)}
        for m in self.machines:
            for ci, i in m.covered:
                if ci in idx:
                    self.covered.add((idx[ci], i))
            self.stats.update(m.stats)
            for k, v in m.notes.items():
                self.notes[str(k)] = str(v)
        return (self.n, self.rules, self.findings, self.undecided, self.errors, self.covered, self.names, self.stats, self.notes)

    def merge(self, s):
        n, rules, findings, undecided, errors, covered, names, stats, notes = s
        self.n.update(n)
        self.rules.update(rules)
        for k, f in findings.items():
            if k in self.findings:
                self.findings[k]['count'] += f['count']
            else:
                self.findings[k] = f
        for k, v in undecided.items():
            self.undecided.setdefault(k, set()).update(v)
        self.errors.update(errors)
        self.covered |= covered
        self.names += names
        self.stats.update(stats)
        self.notes.update(notes)

    def work(self, f):
        """carry out rule f, its runs spread over the processors"""
        jobs = min(8, os.cpu_count() or 1)
        if os.environ.get('TL_JOBS'):
            jobs = int(os.environ['TL_JOBS'])
        if jobs == 1:
            try:
                f(self)
            except AnalysisError as e:
                self.broken = str(e)
            self.summary()
            return
        kids = []
        for k in range(jobs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    self.shard = (k, jobs)
                    try:
                        why = None
                        try:
                            f(self)
                        except AnalysisError as e:
                            why = str(e)
                            if 'time limit' in why or 'step limit' in why:
                                self.errors['rest of the work'], why = why, None
                        res = ('ok', self.summary(), why)
                    except BaseException:
                        res = ('crash', traceback.format_exc())
                    with os.fdopen(w, 'wb') as p:
                        pickle.dump(res, p)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                os._exit(code)
            os.close(w)
            kids.append((pid, r))
        bad = []
        for pid, r in kids:
            with os.fdopen(r, 'rb') as p:
                blob = p.read()
            os.waitpid(pid, 0)
            if not blob:
                bad.append(('crash', 'a worker died'))
                continue
            res = pickle.loads(blob)
            if res[0] == 'ok':
                self.merge(res[1])
                if res[2]:
                    bad.append(('failed', res[2]))
            else:
                bad.append(res)
        if bad:
            bad.sort()
            self.broken = bad[0][1]


def known(prop):
    """(signature, text) of the findings listed for the property"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property=%s ' % prop):
                    key, _, text = line.split(' ', 2)[2].partition(' :: ')
                    out.append((key.strip(), text.strip()))
    return out


def evidence(c, tier, seed, listed, new):
    from .rules import ABOUT, ASSUME
    rows = c.functions()
    seen = [r for r in rows if r[2]]
    cov = {
        'explanation': ABOUT[c.prop],
        'abstract_runs': c.n['runs'],
        'paths': c.n['paths'],
        'undecided_paths': c.n['undecided_paths'],
        'undecided': {k: sorted(v)[:5] for k, v in sorted(c.undecided.items())[:40]},
        'runs_given_up': dict(list(c.errors.items())[:40]),
        'obligations_by_rule': dict(c.rules),
        'obligations_decided': sum(c.rules.values()),
        'functions_analysed': len(seen),
        'functions_in_repository': len(rows),
        'instructions_covered': sum(r[2] for r in seen),
        'functions': ['%s.%s %d/%d' % r for r in seen],
        'samples': c.names[:8],
        'known_findings': listed,
        'machine': dict(c.stats),
        'notes': dict(list(c.notes.items())[:20]),
    }
    ev = {'property': c.prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': ASSUME, 'wall_s': round(time.time() - c.t0, 3), 'violations': new}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, c.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    DEADLINE[0] = time.monotonic() + (float(os.environ.get("TL_TIME") or 720) if a.tier == 'quick' else 10800)
    seed = int(os.environ.get('VERIF_SEED') or 1)
    from . import rules, effects, purity, options, names
    try:
        c = Chk(a.property, a.tier, a.repo)
        c.work(rules.RULES[a.property])
    except (AnalysisError, SyntaxError) as e:
        print('ANALYSIS-FAILED property=%s %s' % (a.property, e))
        return 2
    if not sum(c.rules.values()) and not c.findings:
        print('ANALYSIS-FAILED property=%s %s' % (a.property, c.broken or 'nothing could be decided'))
        return 2
    kn = known(a.property)
    new, listed = [], []
    for key, f in c.findings.items():
        hit = next((t for k, t in kn if k == key), None)
        (listed if hit is not None else new).append((key, f, hit))
    for key, f, t in listed:
        print('KNOWN-FINDING: property=%s %s' % (a.property, t))
    msgs = []
    for key, f, _ in new:
        msgs.append('%s: %s' % (f['site'] or f['where'], key))
    evidence(c, a.tier, seed, [t for _, _, t in listed], msgs)
    if a.verbose:
        print('runs %d paths %d undecided %d given up %d rules %s' % (c.n['runs'], c.n['paths'], c.n['undecided_paths'], len(c.errors), dict(c.rules)))
        for k, v in c.errors.items():
            print('  GIVEN UP', k, v[:200])
        for k, v in c.undecided.items():
            print('  UNDECIDED', k, sorted(v)[:4])
    if new:
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, a.property + '.json')
        with open(p, 'w') as f:
            json.dump([dict(x[1], key=x[0]) for x in new], f, indent=1, default=str)
        for x in msgs[:12]:
            print('  ' + x[:400])
        print('VIOLATION property=%s replay=%s' % (a.property, p))
        return 1
    if c.broken:
        print('ANALYSIS-FAILED property=%s %s' % (a.property, c.broken))
        return 2
    print('OK property=%s: %d abstract runs, %d paths, %d obligations, %.1fs' % (
        a.property, c.n['runs'], c.n['paths'], sum(c.rules.values()), time.time() - c.t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
