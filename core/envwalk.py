"""Disjunctive finite-domain path analysis.

Walks a function (inlining relevant program callees) and tracks, per path class, the values of boolean and
enum locals: a constant, the result of a watched call (a symbol refined by the branches taken) or a boolean
formula over such results. No solver and no loop unrolling: states are finite and joined by set union."""
from .rules import *

UNK = ('?',)


class State:
    __slots__ = ('env', 'syms', 'st')

    def __init__(self, env=(), syms=(), st=None):
        self.env = env; self.syms = syms; self.st = st

    def key(self):
        return (self.env, self.syms, self.st)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()

    def get(self, v):
        for k, x in self.env:
            if k == v:
                return x
        return UNK

    def set(self, v, val):
        e = tuple(sorted([(k, x) for k, x in self.env if k != v] + ([(v, val)] if val != UNK else []), key=repr))
        return State(e, self.syms, self.st)

    def sym(self, tag):
        for k, x in self.syms:
            if k == tag:
                return x
        return None

    def setsym(self, tag, x):
        s = tuple(sorted([(k, v) for k, v in self.syms if k != tag] + [(tag, x)], key=repr))
        return State(self.env, s, self.st)

    def with_st(self, st):
        return State(self.env, self.syms, st)


ANY = ('not', frozenset())


def possible(dom, values):
    """can a symbol with domain dom be in `values`?"""
    if dom[0] == 'in':
        return bool(dom[1] & values)
    return bool(values - dom[1])


def within(dom, values):
    return dom[0] == 'in' and dom[1] <= values


class EnvWalk:
    """watch(fn, node) -> tag of a watched call or None; event(fn, b, node, state) -> new st, or None to keep;
    target hooks are events too. roots are walked with st0."""
    MAXDEPTH = 7
    MAXSTATES = 4000

    def __init__(self, prog, watch=None, event=None, st0=None, inline=None, eh=True, on_exit=None, assume_hook=None, relevant=None):
        self.P = prog; self.watch = watch or (lambda fn, y: None); self.event = event or (lambda fn, b, y, s, tr: None)
        self.st0 = st0; self.inline = inline; self.eh = eh; self.on_exit = on_exit
        self.assume_hook = assume_hook
        self.explored = set(); self.nstates = 0
        self._rel = relevant

    # ---- which callees to inline: those reaching a watched call or an event node, and small predicates
    def relevant(self):
        if self._rel is None:
            P = self.P; direct = set()
            probe = State(st='probe')
            for f in P.fns.values():
                for b, i, y in f.nodes():
                    if self.watch(f, y) is not None or self.event(f, None, y, None, ()) is not None:
                        direct.add(f.id); break
            rel = set(direct); dq = deque(direct)
            while dq:
                g = dq.popleft()
                for f, y, how in P.callers(P.fns[g]):
                    if how == 'call' and f.id not in rel:
                        rel.add(f.id); dq.append(f.id)
            self._rel = rel
        return self._rel

    def inlinable(self, t, y):
        if t.nocfg:
            return False
        if self.inline is not None and not self.inline(t):
            return False
        return t.id in self.relevant()

    def predicate(self, fn, t, y, s, fr):
        """small helper whose answer depends on tracked values"""
        if t.nocfg or len(t.blocks) > 30 or not (t.ret == 'bool' or t.ret in self.P.enums):
            return False
        return any(self.ev(fn, a, s, fr)[0] in ('s', 'f') for a in y.get('a', []))

    # ---- expression values
    def ev(self, fn, x, s, fr):
        x = strip(fn, x)
        if x is None:
            return UNK
        k = x['k']
        if k in ('bool', 'int', 'enum'):
            return ('c', x['n'] if k == 'enum' else (bool(x['v']) if k == 'bool' else x['v']))
        if k == 'null':
            return ('c', 0)
        if k == 'var':
            v = s.get(fr + x['id'])
            if v == UNK and 'v' in x and x['v'] is not None:
                return ('c', x['v'])
            return v
        if k in ('call', 'ctor'):
            v = s.get(fr + '#%s' % id(x))
            if v != UNK:
                return v
            if k == 'call' and x.get('n') == '__builtin_expect' and x.get('a'):
                return self.ev(fn, x['a'][0], s, fr)
        if k == 'call' and x.get('op') in ('==', '!='):
            pass
        if k == 'un' and x['op'] == '!':
            return fnot(self.ev(fn, x['e'], s, fr))
        if k == 'bin' and x['op'] in ('&&', '||'):
            a, b = self.ev(fn, x['a'], s, fr), self.ev(fn, x['b'], s, fr)
            return fbin(x['op'], a, b)
        if k == 'bin' and x['op'] in ('==', '!='):
            a, b = self.ev(fn, x['a'], s, fr), self.ev(fn, x['b'], s, fr)
            r = feq(a, b)
            return r if x['op'] == '==' else fnot(r)
        if k == 'asg' and x['op'] == '=':
            return self.ev(fn, x['b'], s, fr)
        if k == 'cond':
            c = self.truthv(self.ev(fn, x['c'], s, fr), s)
            if c is True:
                return self.ev(fn, x['a'], s, fr)
            if c is False:
                return self.ev(fn, x['b'], s, fr)
            a, b = self.ev(fn, x['a'], s, fr), self.ev(fn, x['b'], s, fr)
            if a == b:
                return a
            return UNK
        return UNK

    def truthv(self, v, s):
        """three-valued truth of a value in state s"""
        if v[0] == 'c':
            return bool(v[1])
        if v[0] == 's':
            d = s.sym(v[1])
            if d is None:
                return None
            if within(d, frozenset([False])):
                return False
            if within(d, frozenset([True])):
                return True
            return None
        if v[0] == 'f':
            return self.feval(v[1], s)
        return None

    def feval(self, f, s):
        op = f[0]
        if op == 'in':
            d = s.sym(f[1])
            if d is None:
                return None
            if within(d, f[2]):
                return True
            if not possible(d, f[2]):
                return False
            return None
        if op == 'not':
            r = self.feval(f[1], s)
            return None if r is None else not r
        if op in ('and', 'or'):
            a, b = self.feval(f[1], s), self.feval(f[2], s)
            if op == 'and':
                if a is False or b is False:
                    return False
                return True if a and b else None
            if a is True or b is True:
                return True
            return False if a is False and b is False else None
        if op == 'const':
            return f[1]
        return None

    # ---- assuming a condition
    def assume_f(self, f, pol, s):
        op = f[0]
        if op == 'in':
            d = s.sym(f[1])
            if d is None:
                return [s]
            if pol:
                nd = ('in', (d[1] & f[2])) if d[0] == 'in' else ('in', f[2] - d[1])
            else:
                nd = ('in', d[1] - f[2]) if d[0] == 'in' else ('not', d[1] | f[2])
            if nd[0] == 'in' and not nd[1]:
                return []
            return [s.setsym(f[1], nd)]
        if op == 'not':
            return self.assume_f(f[1], not pol, s)
        if op in ('and', 'or'):
            if (op == 'and') == pol:
                return [u for t in self.assume_f(f[1], pol, s) for u in self.assume_f(f[2], pol, t)]
            return dedupe(self.assume_f(f[1], pol, s) + [u for t in self.assume_f(f[1], not pol, s) for u in self.assume_f(f[2], pol, t)])
        if op == 'const':
            return [s] if f[1] == pol else []
        return [s]

    def assume(self, fn, x, pol, s, fr):
        x0 = strip(fn, x)
        if x0 is None:
            return [s]
        if self.assume_hook:
            r = self.assume_hook(self, fn, x0, pol, s, fr)
            if r is not None:
                return r
        k = x0['k']
        if k == 'un' and x0['op'] == '!':
            return self.assume(fn, x0['e'], not pol, s, fr)
        if k == 'bin' and x0['op'] in ('&&', '||'):
            if (x0['op'] == '&&') == pol:
                return dedupe([u for t in self.assume(fn, x0['a'], pol, s, fr) for u in self.assume(fn, x0['b'], pol, t, fr)])
            return dedupe(self.assume(fn, x0['a'], pol, s, fr) + [u for t in self.assume(fn, x0['a'], not pol, s, fr) for u in self.assume(fn, x0['b'], pol, t, fr)])
        if k == 'call' and x0.get('n') == '__builtin_expect' and x0.get('a'):
            return self.assume(fn, x0['a'][0], pol, s, fr)
        v = self.ev(fn, x, s, fr)
        if v[0] == 'c':
            return [s] if bool(v[1]) == pol else []
        if v[0] == 's':
            return self.assume_f(('in', v[1], frozenset([False])), not pol, s)
        if v[0] == 'f':
            return self.assume_f(v[1], pol, s)
        if k == 'var' and x0.get('t') == 'bool':
            return [s.set(fr + x0['id'], ('c', pol))]
        return [s]

    # ---- walking
    def run(self, roots):
        for r in roots:
            ex = self.walk(r, State(st=self.st0), '', 0, [], {})
            if self.on_exit:
                for s, rv in ex:
                    self.on_exit(r, s, rv)

    def bind(self, fn, t, y, s, fr, nfr):
        args = y.get('a', [])
        for p, a in zip(t.params, args):
            s = s.set(nfr + p['id'], self.ev(fn, a, s, fr))
        return s

    def drop_frame(self, s, nfr):
        e = tuple((k, v) for k, v in s.env if not k.startswith(nfr))
        return State(e, s.syms, s.st)

    def elem(self, fn, b, x, states, fr, depth, trace):
        for y in reversed(list(fn.walk(x))):
            k = y['k']
            out = []
            for s in states:
                ne = self.event(fn, b, y, s, trace)
                if ne is not None:
                    if isinstance(ne, list):
                        cur = [s.with_st(n) for n in ne]
                    else:
                        cur = [s.with_st(ne)]
                else:
                    cur = [s]
                for s1 in cur:
                    out += self.node(fn, b, y, s1, fr, depth, trace, ne is not None)
            states = dedupe(out)
            if len(states) > self.MAXSTATES:
                raise AnalysisError('state explosion in %s' % fn.q)
        return states

    def node(self, fn, b, y, s, fr, depth, trace, consumed):
        k = y['k']
        if k in ('call', 'ctor'):
            tag = self.watch(fn, y)
            if tag is not None:
                # an earlier result of the same call site (a loop) is forgotten
                s = State(tuple((k2, v2) for k2, v2 in s.env if not mentions(v2, tag)), s.syms, s.st).setsym(tag, ANY)
                return [s.set(fr + '#%s' % id(y), ('s', tag))]
            if k == 'call' and y.get('op') == '=' and y.get('o') is not None:
                d = strip(fn, y['o'])
                if d is not None and d['k'] == 'var':
                    s = s.set(fr + d['id'], UNK)
            if not consumed and depth < self.MAXDEPTH:
                ts = [t for t in self.P.targets(y) if self.inlinable(t, y) or self.predicate(fn, t, y, s, fr)]
                if ts and len(ts) == len(self.P.targets(y)):
                    res = []
                    for t in ts:
                        nfr = fr + '%s@%s/' % (t.q, y.get('l'))
                        s2 = self.bind(fn, t, y, s, fr, nfr)
                        for s3, rv in self.walk(t, s2, nfr, depth + 1, trace + ['%s %s:%s' % (fn.q, fn.file, y.get('l'))], {}):
                            s4 = self.drop_frame(s3, nfr)
                            # values that refer to the callee frame are gone; formulas over symbols stay valid
                            res.append(s4.set(fr + '#%s' % id(y), rv))
                    return dedupe(res)
            # reference arguments may be changed
            for m in mutated(self.P, fn, y):
                if m['k'] == 'var':
                    s = s.set(fr + m['id'], UNK)
            return [s]
        if k == 'decl':
            for v in y['d']:
                s = s.set(fr + v['id'], self.ev(fn, v['e'], s, fr) if v.get('e') is not None else UNK)
            return [s]
        if k == 'asg':
            d = strip(fn, y['a'])
            if d is not None and d['k'] == 'var':
                s = s.set(fr + d['id'], self.ev(fn, y['b'], s, fr) if y['op'] == '=' else UNK)
            return [s]
        if k == 'un' and y['op'] in ('++', '--', 'post++', 'post--'):
            d = strip(fn, y['e'])
            if d is not None and d['k'] == 'var':
                s = s.set(fr + d['id'], UNK)
            return [s]
        return [s]

    def walk(self, fn, s0, fr, depth, trace, memo):
        self.explored.add(fn.id)
        seen = {}; dq = deque()
        exits = []

        live = liveness(fn)

        def push(bid, ss):
            lv = live.get(bid, frozenset())
            ss = dedupe([self.prune(s, fr, lv) for s in ss])
            old = seen.setdefault(bid, set())
            new = [s for s in ss if s not in old]
            if new:
                old.update(new); self.nstates += len(new)
                if len(old) > self.MAXSTATES:
                    raise AnalysisError('state explosion in %s' % fn.q)
                dq.append((bid, new))
        push(fn.entry, [s0])
        rets = {}
        while dq:
            bid, ss = dq.popleft()
            if bid == fn.exit:
                for s in ss:
                    exits.append((self.clean(s, fr), s.get(fr + '#ret')))
                continue
            b = fn.blocks[bid]
            pre = ss
            for idx, (i, x) in enumerate(b.elems):
                pre = ss
                ss = self.elem(fn, b, x, ss, fr, depth, trace)
                if x['k'] == 'ret' and x.get('e') is not None:
                    ss = [s.set(fr + '#ret', self.ev(fn, x['e'], s, fr)) for s in ss]
            for si, (t, k) in enumerate(b.succ):
                if t is None or k in ('dead', 'abort'):
                    continue
                if k in ('eh', 'catch'):
                    if not self.eh or t == fn.exit:
                        continue
                    push(t, dedupe(pre + ss)); continue
                out = ss
                for x, pol in edge_facts(fn, b, si):
                    out = dedupe([u for s in out for u in self.assume(fn, x, pol, s, fr)])
                # values of evaluated sub-expressions die at the end of the block, except the condition operands
                push(t, out)
        return dedupe_pairs(exits)

    def prune(self, s, fr, lv):
        n = len(fr)
        e = tuple((k, v) for k, v in s.env if not k.startswith(fr) or '/' in k[n:] or k[n:] in lv or k[n:] == '#ret')
        return s if len(e) == len(s.env) else State(e, s.syms, s.st)

    def clean(self, s, fr):
        return s


def fnot(v):
    if v[0] == 'c':
        return ('c', not v[1])
    if v[0] == 'f':
        return ('f', ('not', v[1]))
    if v[0] == 's':
        return ('f', ('in', v[1], frozenset([False])))
    return UNK


def tof(v):
    if v[0] == 'c':
        return ('const', bool(v[1]))
    if v[0] == 'f':
        return v[1]
    if v[0] == 's':
        return ('not', ('in', v[1], frozenset([False])))
    return None


def fbin(op, a, b):
    x, y = tof(a), tof(b)
    if x is None and y is None:
        return UNK
    if x is None or y is None:
        z = y if x is None else x
        if z == ('const', False) and op == '&&':
            return ('c', False)
        if z == ('const', True) and op == '||':
            return ('c', True)
        # one operand unknown
        z = ('unknown',)
        x = x if x is not None else z; y = y if y is not None else z
    return ('f', ('and' if op == '&&' else 'or', x, y))


def feq(a, b):
    if a[0] == 'c' and b[0] == 'c':
        return ('c', a[1] == b[1])
    if a[0] == 'c':
        a, b = b, a
    if a[0] == 's' and b[0] == 'c':
        return ('f', ('in', a[1], frozenset([b[1]])))
    if a[0] == 'f' and b[0] == 'c' and isinstance(b[1], bool):
        return a if b[1] else fnot(a)
    return UNK


def dedupe(l):
    seen = set(); out = []
    for s in l:
        if s not in seen:
            seen.add(s); out.append(s)
    return out


def dedupe_pairs(l):
    seen = set(); out = []
    for s, r in l:
        k = (s, r)
        if k not in seen:
            seen.add(k); out.append((s, r))
    return out


def mentions(v, tag):
    if isinstance(v, tuple):
        return (len(v) > 1 and v[0] in ('s', 'in') and v[1] == tag) or any(mentions(e, tag) for e in v)
    return False


def liveness(fn):
    """per block: local variables ('name@..') and evaluated elements ('#id') that may still be read"""
    r = getattr(fn, '_live', None)
    if r is not None:
        return r
    root = {id(x): i for i, x in fn.el.items()}
    use = {}; kill = {}
    for b in fn.blocks.values():
        u = set(); k = set()

        def rd(x, skip=None):
            st = [x]
            while st:
                y = st.pop()
                if y is None:
                    continue
                if y.get('k') == 'ref':
                    t = fn.el.get(y['i'])
                    key = '#%s' % id(strip(fn, t)) if t is not None else None
                    if key and key not in k:
                        u.add(key)
                    if t is not None and fn.where.get(y['i'], (None,))[0] != b.id:
                        st.append(t)
                    continue
                if y['k'] == 'var' and y['id'] not in k:
                    u.add(y['id'])
                st.extend(children(y))
                if y['k'] == 'lambda':
                    for c in y.get('caps', []):
                        if c.get('id') and c['id'] not in k:
                            u.add(c['id'])
        for i, x in b.elems:
            if x['k'] == 'asg' and x['op'] == '=' and (strip(fn, x['a']) or {}).get('k') == 'var':
                rd(x['b']); k.add(strip(fn, x['a'])['id'])
            elif x['k'] == 'decl':
                for v in x['d']:
                    if v.get('e') is not None:
                        rd(v['e'])
                    k.add(v['id'])
            else:
                rd(x)
            k.add('#%s' % id(strip(fn, x)))
        if b.term and b.term.get('c') is not None:
            rd(b.term['c'])
        use[b.id] = u; kill[b.id] = k
    live = {b: set(use[b]) for b in fn.blocks}
    ch = True
    while ch:
        ch = False
        for b in fn.blocks.values():
            n = set(use[b.id])
            for t, kk in b.succ:
                if t is not None and kk != 'dead':
                    n |= live[t] - kill[b.id]
            if n != live[b.id]:
                live[b.id] = n; ch = True
    fn._live = live
    return live
