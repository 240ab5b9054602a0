"""Check runner: obligations, violations, known findings, evidence."""
import json, os, sys, time, traceback, importlib
from . import facts as F
from .prog import Program, AnalysisError

VERIF = F.VERIF
KNOWN = os.path.join(VERIF, 'known-findings.txt')


def known_findings(pid):
    """lines: KNOWN-FINDING: property=<id> key=<key> :: <what fails>"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                rest = l.split('key=', 1)[1]
                key, what = rest.split(' :: ', 1)
                out[key.strip()] = what
    return out


class Report:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.rules = {}          # name -> {'text', 'instances': [], 'bad': []}
        self.notes = []; self.assumptions = []
        self.functions = set(); self.paths = 0

    def rule(self, name, text):
        self.rules.setdefault(name, {'text': text, 'n': 0, 'bad': [], 'samples': []})
        return name

    def ok(self, rule, what, loc=None):
        r = self.rules[rule]; r['n'] += 1
        if len(r['samples']) < 6:
            r['samples'].append('%s%s' % (what, ' @ %s' % loc if loc else ''))

    def bad(self, rule, key, what, loc=None, trace=()):
        r = self.rules[rule]; r['n'] += 1
        for b in r['bad']:
            if b['key'] == key:
                b['also'] = b.get('also', 0) + 1
                return
        r['bad'].append({'rule': rule, 'key': key, 'what': what, 'loc': loc, 'trace': list(trace)})

    def inst(self, rule, good, key, what, loc=None, trace=()):
        if good:
            self.ok(rule, what, loc)
        else:
            self.bad(rule, key, what, loc, trace)
        return good

    def need(self, rule, n=1):
        if self.rules[rule]['n'] < n:
            raise AnalysisError('rule %s: %d instances found, at least %d expected: the anchors no longer match the code' % (rule, self.rules[rule]['n'], n))

    def saw(self, *fns):
        for f in fns:
            self.functions.add(f if isinstance(f, str) else f.id)


def run_check(pid, tier='quick'):
    t0 = time.time()
    evdir = os.environ.get('FMQ_EVIDENCE') or os.path.join(VERIF, 'evidence')
    ev = os.path.join(evdir, pid + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        P = Program()
        mod = importlib.import_module('checks.' + pid.lower())
        R = Report(pid, tier)
        mod.check(P, R)
        for n in R.rules:
            R.need(n)
    except AnalysisError as e:
        print('ERROR property=%s analysis could not be carried out: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s analysis crashed' % pid)
        return 2
    known = known_findings(pid)
    viol = []; kf = []
    for n, r in R.rules.items():
        for b in r['bad']:
            (kf if b['key'] in known else viol).append(b)
    st = P.stats()
    n_ob = sum(r['n'] for r in R.rules.values())
    for n, r in R.rules.items():
        print('rule %-28s %4d instance(s), %d violated  -- %s' % (n, r['n'], len(r['bad']), r['text']))
    print('analysed %(units)d units, %(functions)d functions, %(call_sites)d call sites' % st, 'in %.1f s; %d obligations' % (time.time() - t0, n_ob))
    for b in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[b['key']]))
    replay = os.path.join('evidence', '%s.replay.txt' % pid)
    if viol:
        with open(os.path.join(evdir, '%s.replay.txt' % pid), 'w') as f:
            for b in viol:
                f.write('rule: %s\n  %s\nkey: %s\nwhere: %s\nwhat: %s\n' % (b['rule'], R.rules[b['rule']]['text'], b['key'], b['loc'], b['what']))
                for s in b['trace']:
                    f.write('  via %s\n' % s)
                f.write('\n')
    for b in viol:
        print('  %s: [%s] %s' % (b['loc'], b['rule'], b['what']))
        for s in b['trace'][-8:]:
            print('      via %s' % s)
    doc = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
           'coverage': {
               'explanation': (mod.__doc__ or '').strip() or 'static rules over the resolved program',
               'obligations_checked': n_ob,
               'units': st['units'], 'functions_in_program': st['functions'], 'call_sites_in_program': st['call_sites'],
               'functions_visited_by_rules': len(R.functions),
               'rules': {n: {'text': r['text'], 'instances': r['n'], 'violated': len(r['bad']), 'samples': r['samples']} for n, r in R.rules.items()},
               'known_findings': [known[b['key']] for b in kf],
               'violations': [{k: b[k] for k in ('rule', 'key', 'what', 'loc', 'trace')} for b in viol],
               'notes': R.notes,
           },
           'assumptions': R.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(ev, 'w') as f:
        json.dump(doc, f, indent=1)
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    return 0
