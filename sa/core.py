"""Reports, known findings, evidence."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


CURRENT = None


class OutOfTime(BaseException):
    pass


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.ob = {}          # (rule, construct) -> (status, message, where)
        self.notes = []
        self.functions = set()
        self.extra = {}
        self.assumptions = []
        global CURRENT
        CURRENT = self

    RANK = {'ok': 0, 'undecided': 1, 'bad': 2}

    def put(self, status, rule, construct, msg='', where=''):
        k = (rule, construct)
        old = self.ob.get(k)
        if old is None or self.RANK[status] > self.RANK[old[0]]:
            self.ob[k] = (status, msg, where)

    def ok(self, rule, construct, msg='', where=''):
        self.put('ok', rule, construct, msg, where)

    def bad(self, rule, construct, msg, where=''):
        self.put('bad', rule, construct, msg, where)

    def und(self, rule, construct, msg='', where=''):
        self.put('undecided', rule, construct, msg, where)

    def count(self, st):
        return sum(1 for s, _, _ in self.ob.values() if s == st)


def known():
    """lines: known: property=C01 rule=R construct=X :: text   (fixed: lines suppress nothing)"""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln.startswith('known:'):
                continue
            head, _, text = ln[6:].partition('::')
            d = dict(t.split('=', 1) for t in head.split())
            out.append((d['property'], d['rule'], d['construct'], text.strip()))
    return out


def finish(rep, tier, explanation, min_ok=1):
    prop = rep.prop
    kf = {(r, c): t for p, r, c, t in known() if p == prop}
    bad, found = [], []
    for (rule, cons), (st, msg, where) in sorted(rep.ob.items()):
        if st != 'bad':
            continue
        if (rule, cons) in kf:
            found.append((rule, cons, kf[(rule, cons)], where))
        else:
            bad.append((rule, cons, msg, where))
    ev = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rules = {}
    for (rule, cons), (st, msg, where) in rep.ob.items():
        d = rules.setdefault(rule, {'ok': 0, 'undecided': 0, 'bad': 0})
        d[st] += 1
    sample = [{'rule': r, 'construct': c, 'status': s[0], 'derived': s[1], 'where': s[2]}
              for (r, c), s in sorted(rep.ob.items())][:400]
    cov = {
        'explanation': explanation,
        'obligations': len(rep.ob),
        'discharged': rep.count('ok'),
        'undecided': rep.count('undecided'),
        'known_findings_matched': len(found),
        'functions_analysed': sorted(rep.functions),
        'n_functions': len(rep.functions),
        'per_rule': rules,
        'samples': sample,
    }
    cov.update(rep.extra)
    doc = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
           'level': 'other', 'coverage': cov,
           'assumptions': rep.assumptions + ['the code is pure Python analysed from source; numpy/scipy primitives '
                                             'obey the transfer functions of sa/nplib.py'],
           'wall_s': round(time.time() - rep.t0, 3), 'violations': len(bad)}
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
        json.dump(doc, f, indent=1, default=str)
    print('%s: %d obligations, %d hold, %d undecided, %d violated (%d known); %d functions' % (
        prop, len(rep.ob), rep.count('ok'), rep.count('undecided'), rep.count('bad'), len(found),
        len(rep.functions)))
    for r, d in sorted(rules.items()):
        print('  rule %-28s hold=%d undecided=%d violated=%d' % (r, d['ok'], d['undecided'], d['bad']))
    for rule, cons, text, where in found:
        print('KNOWN-FINDING: property=%s %s %s: %s' % (prop, rule, cons, text))
    if bad:
        path = os.path.join(ev, prop + '.violations.json')
        with open(path, 'w') as f:
            json.dump([{'rule': r, 'construct': c, 'message': m, 'where': w} for r, c, m, w in bad], f, indent=1,
                      default=str)
        for r, c, m, w in bad:
            print('  violated %s at %s [%s]: %s' % (r, c, w, m))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if rep.count('ok') < min_ok:
        print('NO ANSWER: only %d obligations could be decided (at least %d expected): the analysed entry '
              'points have moved' % (rep.count('ok'), min_ok))
        return 2
    return 0
