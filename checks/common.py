"""Shared by all checks: evidence files, known findings, reporting."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
FINDINGS = os.path.join(ROOT, 'known_findings.txt')


def tier():
    t = os.environ.get('VERIF_TIER', '')
    if '--tier' in sys.argv:
        t = sys.argv[sys.argv.index('--tier') + 1]
    return t if t in ('quick', 'thorough') else 'quick'


def known(prop):
    """{key: description} of the known findings of a property. Lines: 'finding: property=<id> key=<key> :: <what>'."""
    out = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            if l.startswith('finding: property=%s ' % prop):
                k, _, what = l.split(' ', 2)[2].partition(' :: ')
                out[k.strip()[len('key='):]] = what.strip()
    return out


class Report:
    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.violations = []
        self.known = known(prop)
        self.seen = set()

    def elapsed(self):
        return time.time() - self.t0

    def violation(self, key, msg, replay):
        """key identifies the failing input / call site / history"""
        if key in self.known:
            self.seen.add(key)
            print('KNOWN-FINDING: property=%s %s' % (self.prop, self.known[key]), flush=True)
            return False
        os.makedirs(ROOT + '/replays', exist_ok=True)
        path = '%s/replays/%s-%d.json' % (ROOT, self.prop, len(self.violations))
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, key=key, message=msg, **replay), f, indent=1, default=str)
        self.violations.append(key)
        print('%s: %s' % (key, msg[:2000]))
        print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
        return True

    def finish(self, coverage, assumptions):
        os.makedirs(ROOT + '/evidence', exist_ok=True)
        ev = dict(property=self.prop, tier=tier(), seed=SEED, level=self.level, coverage=coverage, assumptions=assumptions,
                  wall_s=round(self.elapsed(), 2), violations=len(self.violations))
        with open('%s/evidence/%s.json' % (ROOT, self.prop), 'w') as f:
            json.dump(ev, f, indent=1)
        return 1 if self.violations else 0
