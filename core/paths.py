"""Enumeration of the paths of a small function, with what is known, counted and written on each.

Values are texts in terms of the function's parameters (`p0`, `p1.qos`, `this.pos`), sums are kept as counts of terms.
Loops over containers are taken not at all or once, for one element that stands for all."""
from collections import Counter
from .rules import *
from .query import edge_facts, norm
from .loops import natural

LIMIT = 60000


def clean(c):
    return Counter({k: v for k, v in c.items() if v})


def cut_op(t):
    """(op, a, b) of a text '(a op b)'"""
    if not t.startswith('(') or not t.endswith(')'):
        return None
    d, i, n, hit = 0, 1, len(t) - 1, None
    q = False
    while i < n:
        c = t[i]
        if c == '"':
            q = not q
        elif q:
            pass
        elif c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
            if d < 0:
                return None
        elif d == 0:
            for o in ('&&', '||', '==', '!=', '<=', '>=', '<<', '>>', '->', '<', '>'):
                if t.startswith(o, i):
                    if o not in ('<<', '>>', '->') and hit is None:
                        hit = (o, t[1:i], t[i + len(o):n])
                    i += len(o) - 1
                    break
        i += 1
    return hit


class State:
    __slots__ = ('env', 'mem', 'facts', 'ev', 'val', 'ones', 'visits', 'ret', 'line')

    def __init__(self):
        self.env, self.mem, self.facts, self.ev, self.val, self.ones, self.visits, self.ret, self.line = {}, {}, {}, (), {}, {}, {}, None, None

    def copy(self):
        s = State()
        s.env, s.mem, s.facts, s.ev, s.val, s.ones, s.visits, s.ret, s.line = dict(self.env), dict(self.mem), dict(self.facts), self.ev, dict(self.val), dict(self.ones), dict(self.visits), self.ret, self.line
        return s

    def same(self):
        t = lambda d: frozenset((k, v[0]) for k, v in d.items() if isinstance(v, tuple))
        return t(self.env), t(self.mem), t(self.val), frozenset(self.facts.items()), frozenset(self.ones.items()), frozenset(self.visits.items()), tuple((e[0], str(e[1]), str(e[2])) for e in self.ev)


class Paths:
    """event(walker, st, f, y) -> tuple or None: what is recorded; enter(g): calls that are followed for their value"""

    def __init__(self, P, event, enter=lambda g: False, drop=lambda k: False):
        self.P, self.event, self.enter, self.drop = P, event, enter, drop
        self.n = 0

    # ---- values
    def key(self, f, x, st):
        x = strip(f, x)
        if x is None:
            return '?'
        k = x['k']
        if id(x) in st.val:
            v = st.val[id(x)]
            return v[0]
        if is_const(x):
            v = const_val(x)
            return str(int(v)) if isinstance(v, bool) else str(v)
        if k == 'enum':
            return x.get('n') or str(x.get('v'))
        if k == 'str':
            return '"%s"' % (x.get('v') if 'v' in x else x.get('s'))
        if k == 'this':
            return st.env.get('this', 'this')
        if k == 'var':
            e = st.env.get(x['id'])
            return e[0] if e is not None else 'v:%s' % x.get('n', x['id'])
        if k == 'mem':
            b = self.key(f, x['b'], st)
            p = b + '.' + x['n'].rsplit('::', 1)[-1]
            e = st.mem.get(p)
            return e[0] if e is not None else p
        if k in ('cast', 'narrow', 'conv') and x.get('e') is not None:
            return self.key(f, x['e'], st)
        if k == 'un':
            if x['op'] in ('*', '&', '+'):
                return self.key(f, x['e'], st)
            if x['op'] in ('post++', 'post--', '++', '--', 'pre++'):
                return self.key(f, x['e'], st)
            return x['op'] + self.key(f, x['e'], st)
        if k == 'bin':
            if x['op'] in ('+', '-'):
                return self.text(self.lin(f, x, st))
            return '(%s%s%s)' % (self.key(f, x['a'], st), x['op'], self.key(f, x['b'], st))
        if k == 'cond':
            c = self.truth(f, x['c'], st)
            if c is not None:
                return self.key(f, x['a'] if c else x['b'], st)
            return '(%s?%s:%s)' % (self.key(f, x['c'], st), self.key(f, x['a'], st), self.key(f, x['b'], st))
        if k in ('ctor', 'tmp'):
            a = [z for z in x.get('a', []) if z is not None and not (z['k'] == 'other' and not z.get('s'))]
            if len(a) == 1:
                return self.key(f, a[0], st)
            if not a:
                return '{}'
            return '{%s}' % ','.join(self.key(f, z, st) for z in a)
        if k == 'init' or k == 'list':
            a = x.get('a') or x.get('s') or []
            return '{%s}' % ','.join(self.key(f, z, st) for z in a)
        if k == 'call':
            n = base_name(x.get('n') or '')
            a = [z for z in x.get('a', []) if z is not None]
            if x.get('o') is not None:
                o = self.key(f, x['o'], st)
                if n in ('operator*', 'operator->', 'operator bool', 'value', 'get', 'has_value', 'c_str', 'data', 'begin', 'cbegin') and not a:
                    return o
                if n in ('size', 'length') and not a:
                    return 'len(%s)' % o
                if n in ('at', 'operator[]') and a:
                    return '%s[%s]' % (o, self.key(f, a[0], st))
                return '%s(%s)' % (n, ','.join([o] + [self.key(f, z, st) for z in a]))
            if n in ('move', 'forward', 'non_optional', 'bit_cast', 'as_const') and len(a) >= 1:
                return self.key(f, a[0], st)
            return '%s(%s)' % (n, ','.join(self.key(f, z, st) for z in a))
        if k == 'idx':
            return '%s[%s]' % (self.key(f, x['b'], st), self.key(f, x['i'], st))
        return '?' + k

    def text(self, c):
        c = clean(c)
        t = sorted('%s*%d' % (k, v) if v != 1 else k for k, v in c.items() if k != 1)
        if c.get(1) or not t:
            t.append(str(c.get(1, 0)))
        return t[0] if len(t) == 1 else '(' + '+'.join(t) + ')'

    def lin(self, f, x, st):
        x = strip(f, x)
        if x is None:
            return Counter({'?': 1})
        k = x['k']
        if id(x) in st.val:
            return Counter(st.val[id(x)][1])
        if is_const(x):
            return Counter({1: int(const_val(x))})
        if k in ('cast', 'narrow', 'conv') and x.get('e') is not None:
            return self.lin(f, x['e'], st)
        if k == 'var' and st.env.get(x['id']) is not None:
            return Counter(st.env[x['id']][1])
        if k == 'mem':
            b = self.key(f, x['b'], st)
            e = st.mem.get(b + '.' + x['n'].rsplit('::', 1)[-1])
            if e is not None:
                return Counter(e[1])
        if k == 'bin' and x['op'] in ('+', '-'):
            c = self.lin(f, x['a'], st)
            s = 1 if x['op'] == '+' else -1
            for t, v in self.lin(f, x['b'], st).items():
                c[t] += s * v
            return clean(c)
        if k == 'cond':
            c = self.truth(f, x['c'], st)
            if c is not None:
                return self.lin(f, x['a'] if c else x['b'], st)
        if k in ('ctor', 'tmp') and len([z for z in x.get('a', []) if z is not None]) == 1:
            return self.lin(f, x['a'][0], st)
        if k == 'un' and x['op'] in ('post++', '++', 'pre++', 'post--', '--') and id(x) not in st.val:
            return self.lin(f, x['e'], st)
        t = self.key(f, x, st)
        if t.startswith('len("') and t.endswith('")'):
            return Counter({1: len(t) - 7})
        return Counter({t: 1})

    def fact(self, f, n, st):
        """(text, value) of a normalised condition"""
        op, l, r = n
        lk = self.key(f, l, st) if isinstance(l, dict) else str(l)
        ev = None
        if isinstance(r, dict):
            r_ = strip(f, r)
            ev = r_.get('v') if r_ is not None and r_['k'] == 'enum' else const_val(r_) if is_const(r_) else None
            rk = str(ev) if ev is not None else self.key(f, r, st)
        else:
            ev = r; rk = str(r)
        return self.canon(op, lk, rk)

    def canon(self, op, lk, rk):
        try:
            c = int(lk); e = int(rk)
            return None, {'!=': c != e, '==': c == e, '<': c < e, '>': c > e, '<=': c <= e, '>=': c >= e}[op]
        except ValueError:
            pass
        if rk == '0' and op == '>' or rk == '1' and op == '>=':
            op, rk = '!=', '0'
        if rk == '1' and op == '<' or rk == '0' and op == '<=':
            op, rk = '==', '0'
        num = rk.lstrip('-').isdigit()
        if op in ('<=', '>=') and num:
            op, rk = ('<', str(int(rk) + 1)) if op == '<=' else ('>', str(int(rk) - 1))
        if op == '>' and num:
            return '%s<%d' % (lk, int(rk) + 1), False
        if rk == '0' and op in ('==', '!='):
            v = op == '!='
            while True:
                o = cut_op(lk)
                if lk.startswith('!'):
                    lk, v = lk[1:], not v
                elif o is not None and o[0] in ('==', '!=', '<', '>', '<=', '>='):
                    k, w = self.canon(*o)
                    return k, (w == v)
                else:
                    return lk, v
        if op in ('>', '<=') and not num:
            op, lk, rk = ('<' if op == '>' else '>='), rk, lk
        if op in ('!=', '>=', '<='):
            o = {'!=': '==', '>=': '<', '<=': '>'}[op]
            return '%s%s%s' % (lk, o, rk), False
        return '%s%s%s' % (lk, op, rk), True

    def learn(self, k, v, facts):
        """adds what k == v says; False when it cannot be"""
        if k is None:
            return v
        o = cut_op(k)
        if o is not None and o[0] in ('&&', '||'):
            parts = [self.canon('!=', t, '0') for t in o[1:]]
            if v == (o[0] == '&&'):
                return all(self.learn(t, w == v, facts) for t, w in parts)
            open_ = []
            for t, w in parts:
                e = self.known(t, facts)
                if e is None:
                    open_.append((t, w))
                elif (e == w) == v:
                    return True
            if not open_:
                return False
            if len(open_) == 1:
                return self.learn(open_[0][0], open_[0][1] == v, facts)
        e = self.known(k, facts)
        if e is not None and e != v:
            return False
        if not self.drop(k):
            facts[k] = v
        return True

    def known(self, k, facts):
        if k is None:
            return None
        e = facts.get(k)
        if e is None and k == '{}':
            return False
        if e is None:
            o = cut_op(k)
            if o is not None and o[0] in ('&&', '||'):
                z = []
                for t in o[1:]:
                    t, w = self.canon('!=', t, '0')
                    x = w if t is None else self.known(t, facts)
                    z.append(x if t is None or x is None else x == w)
                d = o[0] == '||'
                if d in z:
                    return d
                if None not in z:
                    return not d
        return e

    def truth(self, f, x, st):
        op = norm(f, x, True)
        if op is None:
            return None
        k, v = self.fact(f, op, st)
        if k is None:
            return v
        e = self.known(k, st.facts)
        return None if e is None else (e == v)

    # ---- walking
    def run(self, f, st=None, args=None):
        st = st or State()
        st.val = {}
        for i, p in enumerate(f.params):
            t = args[i] if args and i < len(args) else 'p%d' % i
            st.env[p['id']] = (t, Counter({t: 1}))
        ranges = {}
        nat = natural(f)
        heads = {L[0]: L for L in nat}
        out = []
        stack = [(f.entry, 0, st)]
        seen = set()
        while stack:
            bid, i0, st = stack.pop()
            s = (bid, i0, st.same())
            if s in seen:
                continue
            seen.add(s)
            self.n += 1
            if self.n > LIMIT:
                raise AnalysisError('%s: too many paths' % f.loc)
            b = f.blocks[bid]
            if bid == f.exit:
                out.append(st); continue
            if i0 == 0 and bid in heads:
                v = st.visits.get(bid, 0)
                if v > 1:
                    continue
                st.visits[bid] = v + 1
            i = i0
            forked = False
            while i < len(b.elems):
                el, top = b.elems[i]
                x = strip(f, top) if top.get('k') in ('cast', 'narrow', 'conv') else top
                r = self.step(f, st, x)
                if r is not None:
                    for s2 in r:
                        stack.append((bid, i + 1, s2))
                    forked = True
                    break
                i += 1
            if forked:
                continue
            succ = [(si, t, k) for si, (t, k) in enumerate(b.succ) if t is not None and k == 'n']
            for si, t, k in succ:
                s2 = st if len(succ) == 1 else st.copy()
                ok = True
                if len(succ) > 1:
                    L = heads.get(bid) if bid in heads else None
                    if L is None:
                        L = next((z for z in nat if bid in z[1]), None) if any(t2 not in z[1] for z in nat if bid in z[1] for _, t2, _ in succ) else None
                    c = self.container(f, b, L, s2) if L is not None else None
                    if c is not None:
                        if t in L[1]:
                            if s2.ones.get(c) == 0 and st.visits.get(L[0]) == 1:
                                ok = False
                            elif st.visits.get(L[0]) > 1:
                                ok = False
                            else:
                                s2.ones[c] = 1
                        else:
                            if st.visits.get(L[0]) == 1:
                                if s2.ones.get(c) == 1:
                                    ok = False
                                s2.ones[c] = 0
                    else:
                        for e, pol in edge_facts(f, b, si):
                            n = norm(f, e, pol)
                            if n is None:
                                continue
                            k2, v = self.fact(f, n, s2)
                            ok = ok and self.learn(k2, v, s2.facts)
                if ok:
                    stack.append((t, 0, s2))
        return out

    def container(self, f, b, L, st):
        """what a loop goes over, when the block decides whether it goes on"""
        if b.term is None:
            return None
        for e, pol in edge_facts(f, b, 0):
            n = norm(f, e, pol)
            for z in (n[1], n[2]) if n else ():
                if isinstance(z, dict):
                    for y in f.walk(z, True):
                        if y['k'] == 'var' and y['id'] in st.env:
                            t = st.env[y['id']][0]
                            if t.startswith('elem@') or t.startswith('end@'):
                                return t.split('@', 1)[1]
                    t = self.key(f, z, st)
                    if t.startswith('len('):
                        return t[4:-1]
                    if t.startswith('end('):
                        return t[4:-1]
        return None

    def assign(self, f, st, l, v):
        l = strip_lv(f, l)
        if l is None:
            return
        if l['k'] == 'var':
            st.env[l['id']] = v
        elif l['k'] == 'mem':
            p = self.key_lv(f, l, st)
            for k in list(st.mem):
                if k.startswith(p + '.'):
                    del st.mem[k]
            st.mem[p] = v

    def key_lv(self, f, l, st):
        b = self.key(f, l['b'], st)
        return b + '.' + l['n'].rsplit('::', 1)[-1]

    def step(self, f, st, x):
        k = x['k']
        ev = self.event(self, st, f, x)
        if ev is not None:
            st.ev = st.ev + (ev + (line_of(f, x),),)
        if k == 'decl':
            for d in x['d']:
                e = d.get('e')
                if e is None:
                    t = 'v:%s' % d['n']; st.env[d['id']] = (t, Counter({t: 1}))
                else:
                    ee = strip(f, e)
                    t = self.key(f, e, st)
                    if ee is not None and ee['k'] == 'ctor' and not [z for z in ee.get('a', []) if z is not None]:
                        t = 'v:%s' % d['n']
                        st.env[d['id']] = (t, Counter({t: 1}))
                        continue
                    iter_ = (d.get('t') or '')
                    if ee is not None and ee['k'] == 'call' and base_name(ee.get('n') or '') in ('begin', 'cbegin'):
                        t = 'elem@' + t
                    elif ee is not None and ee['k'] == 'call' and base_name(ee.get('n') or '') in ('end', 'cend'):
                        t = 'end@' + self.key(f, ee.get('o') or ee['a'][0], st)
                    st.env[d['id']] = (t, self.lin(f, e, st) if not t.startswith(('elem@', 'end@')) else Counter({t: 1}))
            return None
        if k == 'minit':
            if x.get('n') and x.get('e') is not None and self.key(f, x['e'], st) != '{}':
                p = st.env.get('this', 'this') + '.' + x['n'].rsplit('::', 1)[-1]
                st.mem[p] = (self.key(f, x['e'], st), self.lin(f, x['e'], st))
            return None
        a = asg_parts(f, x)
        if a is not None:
            l, op, r = self.parts(f, x)
            if op == '=':
                self.assign(f, st, l, (self.key(f, r, st), self.lin(f, r, st)))
            elif op in ('+=', '-='):
                c = self.lin(f, l, st)
                for t, v in self.lin(f, r, st).items():
                    c[t] += v if op == '+=' else -v
                c = clean(c)
                self.assign(f, st, l, (self.text(c), c))
            else:
                t = '(%s%s%s)' % (self.key(f, l, st), op[:-1], self.key(f, r, st))
                self.assign(f, st, l, (t, Counter({t: 1})))
            return None
        for u in f.walk(x, False):
            if u['k'] == 'un' and u['op'] in ('post++', 'post--', '++', '--', 'pre++'):
                self.bump(f, st, u)
        if k == 'ret':
            if x.get('e') is not None:
                st.ret = (self.key(f, x['e'], st), self.lin(f, x['e'], st))
            return None
        if k == 'call':
            gs = [g for g in self.P.targets(x) if not g.nocfg and g.blocks and self.enter(g)]
            if len(gs) == 1:
                g = gs[0]
                o = self.key(f, x['o'], st) if x.get('o') is not None else 'this'
                args = [self.key(f, z, st) for z in x.get('a', [])]
                res = []
                s0 = st.copy()
                s0.env = {'this': o}
                s0.visits = {}; s0.val = {}; s0.ret = None
                for s1 in self.run(g, s0, args):
                    s2 = st.copy()
                    s2.facts = s1.facts; s2.ones = s1.ones
                    if s1.ret is not None:
                        s2.val[id(x)] = s1.ret
                    res.append(s2)
                return res
        return None

    def bump(self, f, st, u):
        if id(u) in st.val:
            return
        v = (self.key(f, u['e'], st), self.lin(f, u['e'], st))
        c = Counter(v[1]); c[1] += 1 if '++' in u['op'] else -1
        c = clean(c)
        w = (self.text(c), c)
        if v[0].startswith('elem@'):
            w = v
        st.val[id(u)] = v if u['op'].startswith('post') else w
        self.assign(f, st, u['e'], w)

    def parts(self, f, x):
        l, r, op = asg_parts(f, x)
        return l, op, r
