"""Which locks are held where: a set of possible lock states per point (path sensitive in plain boolean locals)."""
from .rules import *
from .query import edge_facts

GUARDS = ('std::unique_lock', 'std::lock_guard', 'std::shared_lock', 'std::scoped_lock', 'RWLockGuard', 'UnscopedLock', 'MutexLocked')
SHARED, EXCL = 1, 2


def guard_type(t):
    t = (t or '').replace('const ', '')
    return next((g for g in GUARDS if t.startswith(g) or t.startswith('class ' + g)), None)


def lock_of(fn, x):
    """(name of the lock field, text of the object it is in) of a mutex expression"""
    x = strip(fn, x)
    while x is not None and x['k'] == 'un' and x['op'] in ('&', '*'):
        x = strip(fn, x['e'])
    if x is None:
        return None
    if x['k'] == 'var':
        ds = [d for d in fn.defs().get(x['id'], []) if d[2] == 'init' and d[3] is not None]
        if len(ds) == 1 and (var_type(fn, x['id']) or '').rstrip().endswith(('&', '*')):
            return lock_of(fn, ds[0][3])
        return None
    if x['k'] == 'mem':
        return (x['n'], objtext(fn, x.get('b')))
    if x['k'] == 'gvar':
        return (x['n'], '')
    if x['k'] == 'call' and x.get('a') and base_name(x.get('n') or '') in ('addressof',):
        return lock_of(fn, x['a'][0])
    return None


def owned(e):
    return e is not None and e['k'] == 'call' and (e.get('n') or '').startswith('MutexOwned') and base_name(e['n']) == 'lock'


def objtext(fn, b):
    b = strip_ptr(fn, b) if b is not None else None
    while b is not None and b['k'] == 'un' and b['op'] in ('&', '*'):
        b = strip_ptr(fn, b['e'])
    if b is None or b['k'] == 'this':
        return 'this'
    if b['k'] == 'var':
        ds = [d for d in fn.defs().get(b['id'], []) if d[2] in ('init', 'asg')]
        if len(ds) == 1 and ds[0][2] == 'init' and ds[0][3] is not None and not any(d[2] == 'upd' for d in fn.defs().get(b['id'], [])):
            s = strip_ptr(fn, ds[0][3])
            if s is not None and s['k'] in ('mem', 'var', 'un', 'this'):
                return objtext(fn, s)
        return b['id']
    return show(fn, b)


class Held:
    """states[(block, idx)] = set of possible states just before the element; a state is
    (frozenset of (guard variable, (lock, object), mode), frozenset of (boolean local, value))"""

    def __init__(self, P, fn):
        self.P, self.fn = P, fn
        self.bind = {}      # guard var -> (lock, obj)
        self.kind = {}
        self.states = {}
        self.at = {}
        self.run()

    def prims(self, y, s):
        fn = self.fn
        locks, facts = s
        if y['k'] == 'decl':
            for v in y['d']:
                g = guard_type(v['t'])
                if g:
                    e = strip_all(fn, v.get('e'))
                    locks = frozenset(z for z in locks if z[0] != v['id'])
                    if g == 'MutexLocked' and owned(e):
                        l = lock_of(fn, e.get('o'))
                        self.bind[v['id']] = [l] if l else []; self.kind[v['id']] = g
                        locks = frozenset(z for z in locks if z[0] != 'temp' or z[1] != l)
                        if l and not any('defer' in str((strip(fn, a) or {}).get('n') or (strip(fn, a) or {}).get('t')) or 'try' in str((strip(fn, a) or {}).get('n') or (strip(fn, a) or {}).get('t')) for a in e.get('a', [])):
                            locks = locks | {(v['id'], l, EXCL)}
                    elif e is not None and e.get('a'):
                        names = [(strip(fn, a) or {}).get('n') or '' for a in e['a'][1:]]
                        args = [e['a'][0]] if g != 'std::scoped_lock' else e['a']
                        if g in ('RWLockGuard', 'UnscopedLock', 'MutexLocked'):
                            self.bind[v['id']] = [lock_of(fn, args[0])]; self.kind[v['id']] = g
                        else:
                            ls = [l for l in (lock_of(fn, a) for a in args) if l is not None]
                            self.bind[v['id']] = ls; self.kind[v['id']] = g
                            if not any('defer_lock' in n or 'try_to_lock' in n for n in names):
                                m = SHARED if g == 'std::shared_lock' else EXCL
                                locks = locks | {(v['id'], l, m) for l in ls}
                b = v['t'].replace('const ', '')
                if b == 'bool':
                    facts = frozenset(f for f in facts if f[0] != v['id'])
                    c = const_val(strip(fn, v.get('e'))) if v.get('e') is not None else None
                    if c is not None:
                        facts = facts | {(v['id'], bool(c))}
            return (locks, facts)
        if y['k'] == 'tdtor' and 'MutexLocked' in (y.get('t') or ''):
            return (frozenset(z for z in locks if z[0] != 'temp'), facts)
        if y['k'] == 'call' and owned(y):
            l = lock_of(fn, y.get('o'))
            return (locks | {('temp', l, EXCL)} if l else locks, facts)
        if y['k'] == 'call' and y.get('o') is not None:
            o = strip(fn, y['o'])
            if o is not None and o['k'] == 'var' and o['id'] in self.bind:
                n = base_name(y.get('n') or '')
                g = self.kind[o['id']]
                m = SHARED if g == 'std::shared_lock' or 'rdlock' in n else EXCL
                if n in ('lock', 'rdlock', 'wrlock', 'tryfirstrdlock'):
                    locks = locks | {(o['id'], l, m) for l in self.bind[o['id']] if l}
                elif n in ('unlock', 'release', 'operator=', 'swap') or n == 'reset' and g == 'MutexLocked':
                    locks = frozenset(z for z in locks if z[0] != o['id'])
                return (locks, facts)
        if y['k'] == 'dtor' and y.get('id') in self.bind:
            return (frozenset(z for z in locks if z[0] != y['id']), facts)
        a = asg_parts(fn, y)
        if a is not None:
            t = strip(fn, a[0])
            if t is not None and t['k'] == 'var':
                facts = frozenset(f for f in facts if f[0] != t['id'])
                c = const_val(strip(fn, a[1])) if a[1] is not None else None
                if c is not None and (var_type(fn, t['id']) or '').replace('const ', '') == 'bool' and y.get('op') == '=':
                    facts = facts | {(t['id'], bool(c))}
            return (locks, facts)
        if y['k'] == 'call':
            for m in mutated(self.P, fn, y):
                if m['k'] == 'var':
                    facts = frozenset(f for f in facts if f[0] != m['id'])
        return (locks, facts)

    def edge(self, b, si, s):
        fn = self.fn
        locks, facts = s
        for x, pol in edge_facts(fn, b, si):
            x = strip(fn, x)
            while x is not None and x['k'] == 'un' and x['op'] == '!':
                x = strip(fn, x['e']); pol = not pol
            if x is None:
                continue
            if x['k'] == 'var' and (var_type(fn, x['id']) or '').replace('const ', '') == 'bool':
                if (x['id'], not pol) in facts:
                    return None
                facts = facts | {(x['id'], pol)}
                ds = [d for d in fn.defs().get(x['id'], []) if d[2] in ('init', 'asg', 'upd')]
                if len(ds) == 1 and ds[0][3] is not None:
                    x = strip(fn, ds[0][3])     # const bool locked = guard.try_lock()
                    if x is None:
                        continue
            if x['k'] == 'call' and x.get('o') is not None:
                o = strip(fn, x['o'])
                if o is not None and o['k'] == 'var' and o['id'] in self.bind:
                    n = base_name(x.get('n') or '')
                    if n in ('owns_lock', 'operator bool', 'try_lock', 'tryrdlock', 'trywrlock', 'try_lock_for', 'try_lock_until'):
                        m = SHARED if self.kind[o['id']] == 'std::shared_lock' or 'rdlock' in n else EXCL
                        if pol:
                            locks = locks | {(o['id'], l, m) for l in self.bind[o['id']] if l}
                        else:
                            locks = frozenset(z for z in locks if z[0] != o['id'])
            elif x['k'] == 'var' and x['id'] in self.bind and not pol:
                locks = frozenset(z for z in locks if z[0] != x['id'])
        return (locks, facts)

    def run(self):
        fn = self.fn
        ids = {}
        for b, i, y in fn.nodes():
            if y['k'] == 'decl':
                for v in y['d']:
                    if guard_type(v['t']):
                        e = strip_all(fn, v.get('e'))
                        self.bind.setdefault(v['id'], []); self.kind.setdefault(v['id'], guard_type(v['t']))
        interesting = bool(self.bind) or any(y['k'] == 'call' and owned(y) for _, _, y in fn.nodes())
        nd = {}
        for b, i, y in fn.nodes():
            if i < len(b.elems):
                nd.setdefault(b.id, {}).setdefault(i, y)     # the element itself comes first
        start = (frozenset(), frozenset())
        seen = {fn.entry: {start}}
        wl = [(fn.entry, start)]
        while wl:
            bid, s = wl.pop()
            b = fn.blocks[bid]
            pre = s
            for i in range(len(b.elems)):
                self.states.setdefault((bid, i), set()).add(s[0])
                pre = s
                y = nd.get(bid, {}).get(i)
                if y is not None and interesting:
                    s = self.prims(y, s)
            self.states.setdefault((bid, len(b.elems)), set()).add(s[0])
            for si, (t, k) in enumerate(b.succ):
                if t is None or k in ('dead', 'abort'):
                    continue
                # exceptional edges: the call did not complete
                n = pre if k == 'eh' else self.edge(b, si, s) if interesting else s
                if n is None:
                    continue
                if len(n[1]) > 6:
                    n = (n[0], frozenset(sorted(n[1])[:6]))
                if n not in seen.setdefault(t, set()):
                    if len(seen[t]) > 64:
                        n = (n[0], frozenset())
                        if n in seen[t]:
                            continue
                    seen[t].add(n); wl.append((t, n))

    def mode(self, pt, lock, obj=None):
        """the least mode in which the lock is held at the point"""
        ss = self.states.get(pt)
        if not ss:
            return EXCL       # never reached
        return min(max([m for v, l, m in s if l[0] == lock and (obj is None or l[1] == obj)] or [0]) for s in ss)

    def any_held(self, pt):
        ss = self.states.get(pt) or {frozenset()}
        return {(l, m) for s in ss for v, l, m in s}


def strip_all(fn, x):
    x = strip(fn, x)
    n = 0
    while x is not None and x['k'] in ('ctor',) and len(x.get('a', [])) == 1 and guard_type(x.get('n')) and guard_type((strip(fn, x['a'][0]) or {}).get('n')) and n < 4:
        x = strip(fn, x['a'][0]); n += 1
    return x
