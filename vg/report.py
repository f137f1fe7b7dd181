"""Obligation bookkeeping, known findings, evidence files, exit codes."""
import json
import os
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report(object):
    def __init__(self, pid, tier, rule):
        self.pid, self.tier, self.rule = pid, tier, rule
        self.obls = []
        self.bads = []
        self.analysed = set()
        self.t0 = time.time()
        self.notes = []
        self.counts = {}

    # -- outcomes
    def ok(self, name, detail=''):
        self.obls.append(('holds', name, detail))

    def bad(self, key, where, msg):
        """A definite contradiction.  key names rule and construct."""
        if any(b[0] == key for b in self.bads):
            return
        self.obls.append(('violated', key, msg))
        self.bads.append((key, where, msg))

    def und(self, name, why):
        self.obls.append(('undecided', name, why))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def saw(self, interp):
        for f in interp.inlined:
            self.analysed.add('%s:%s' % (f.mod.rel, f.qual))

    def guard(self, name):
        return _Guard(self, name)

    # -- end of run
    def known(self):
        out = {}
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == self.pid:
                    out[m.group(2)] = m.group(3).strip()
        return out

    def finish(self):
        known = self.known()
        new = [b for b in self.bads if b[0].replace(' ', '_') not in known]
        decided = [o for o in self.obls if o[0] != 'undecided']
        evd = os.environ.get('VG_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(evd, exist_ok=True)
        st = {s: sum(1 for o in self.obls if o[0] == s)
              for s in ('holds', 'violated', 'undecided')}
        cov = {
            'explanation': 'Static analysis of the current source (nothing '
            'of the package is executed). Rule: %s' % self.rule,
            'obligations_enumerated': len(self.obls),
            'holds': st['holds'], 'violated': st['violated'],
            'undecided': st['undecided'],
            'functions_analysed': len(self.analysed),
            'functions': sorted(self.analysed)[:400],
            'obligation_list': [
                {'status': s, 'name': n, 'detail': d[:300]}
                for s, n, d in self.obls][:1500],
        }
        cov.update(self.counts)
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.pid, 'tier': self.tier,
              'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': 'other', 'coverage': cov,
              'assumptions': ASSUME,
              'wall_s': round(time.time() - self.t0, 3),
              'violations': len(new)}
        with open(os.path.join(evd, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d hold, %d violated, %d undecided; '
              '%d functions analysed in %.1fs' % (
                  self.pid, len(self.obls), st['holds'], st['violated'],
                  st['undecided'], len(self.analysed),
                  time.time() - self.t0))
        if os.environ.get('VG_VERBOSE'):
            for o in self.obls:
                print('   %-9s %s  %s' % (o[0], o[1], o[2][:200]))
        for key, where, msg in self.bads:
            if key.replace(' ', '_') in known:
                print('KNOWN-FINDING: property=%s %s: %s' % (
                    self.pid, key, known[key.replace(' ', '_')]))
        if new:
            rd = os.path.join(evd, 'replay')
            os.makedirs(rd, exist_ok=True)
            for i, (key, where, msg) in enumerate(new):
                p = os.path.join(rd, '%s-%d.txt' % (self.pid, i))
                with open(p, 'w') as f:
                    f.write('property: %s\nrule/construct: %s\nwhere: %s\n\n'
                            '%s\n' % (self.pid, key, where, msg))
                print('  %s\n    at %s\n    %s' % (key, where, msg[:600]))
                print('VIOLATION property=%s replay=%s' % (
                    self.pid, os.path.relpath(p, VERIF)))
            return 1
        if not decided:
            print('ANALYSIS-BROKEN property=%s: no obligation could be '
                  'decided' % self.pid)
            return 2
        return 0


class _Guard(object):
    """An internal failure of the analysis leaves the obligation undecided."""

    def __init__(self, rep, name):
        self.rep, self.name = rep, name

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        from .loader import AnalysisError
        if t is None or issubclass(t, (AnalysisError, KeyboardInterrupt)):
            return False
        if os.environ.get('VG_DEBUG'):
            return False
        last = traceback.extract_tb(tb)[-1]
        self.rep.und(self.name, 'analysis failed: %s: %s (%s:%s)' % (
            t.__name__, str(v)[:100], os.path.basename(last.filename),
            last.lineno))
        return True


ASSUME = [
    'Python/torch/numpy/h5py semantics are those of the transfer functions '
    'in /verif/vg/ops.py and /verif/vg/h5model.py',
    'an obligation the analysis cannot evaluate is counted as undecided, '
    'never as a violation',
]
