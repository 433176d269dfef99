"""Findings, evidence and the known-findings list."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding(object):
    def __init__(self, key, text, where=None):
        self.key = key
        self.text = text
        self.where = where or ''


class Report(object):
    """what one check run analysed and found"""

    def __init__(self, prop):
        self.prop = prop
        self.findings = []
        self.undecided = []
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.t0 = time.time()

    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        self.assumptions.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def finding(self, key, text, where=None):
        key = ' '.join(str(key).split())
        for f in self.findings:
            if f.key == key:
                return
        self.findings.append(Finding(key, ' '.join(text.split()), where))

    def unclear(self, unit, reason):
        self.undecided.append((str(unit), str(reason)))

    def sample(self, text, limit=12):
        if len(self.samples) < limit:
            self.samples.append(text)

    def need(self, name, minimum):
        from .load import AnalysisBroken
        n = self.counts.get(name, 0)
        if n < minimum:
            if self.undecided:
                return                   # what was not understood is listed, that is the reason
            kn = known()
            if any((self.prop, f.key) not in kn for f in self.findings):
                return                   # a violation is an answer
            raise AnalysisBroken("%s: only %d %s found, at least %d expected: the analysis no longer sees the code"
                                 % (self.prop, n, name, minimum))


def known(path=None):
    """{(property, key): text} of the committed list; fixed entries suppress nothing"""
    out = {}
    path = path or os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith('finding: '):
            continue
        head, _, text = line[len('finding: '):].partition(' :: ')
        p, _, key = head.partition(' ')
        assert p.startswith('property=') and key.startswith('key='), line
        out[(p[len('property='):], key[len('key='):].strip())] = text
    return out


def finish(rep, tier, seed, technique=''):
    kn = known()
    new, old = [], []
    for f in rep.findings:
        (old if (rep.prop, f.key) in kn else new).append(f)
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, '%s.replay.txt' % rep.prop)
    cov = {'explanation': ' '.join(rep.rules), 'counts': rep.counts,
           'undecided_units': len(rep.undecided),
           'undecided': ["%s: %s" % u for u in rep.undecided[:40]],
           'known_findings_seen': [f.key for f in old],
           'samples': rep.samples or ['(none)']}
    doc = {'property': rep.prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
           'assumptions': rep.assumptions, 'wall_s': round(time.time() - rep.t0, 3), 'violations': len(new)}
    with open(os.path.join(ev, '%s.json' % rep.prop), 'w') as fh:
        json.dump(doc, fh, indent=1, sort_keys=True)
        fh.write('\n')
    for f in old:
        print("KNOWN-FINDING: property=%s %s [%s] %s" % (rep.prop, f.text, f.key, f.where))
    print("%s: %s; %d undecided" % (rep.prop, ", ".join("%d %s" % (v, k) for k, v in sorted(rep.counts.items())), len(rep.undecided)))
    for u in rep.undecided:
        print("  undecided %s: %s" % u)
    if new:
        with open(replay, 'w') as fh:
            for f in new:
                fh.write("%s\n  at %s\n  key %s\n" % (f.text, f.where, f.key))
        for f in new:
            print("  %s: %s [key %s]" % (f.where, f.text, f.key))
        print("VIOLATION property=%s replay=%s" % (rep.prop, replay))
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    return 0
