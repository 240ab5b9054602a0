"""Character scanners as finite automata. A function that walks over the characters of one string and keeps its
state in boolean / small integer locals is evaluated abstractly, once per (state, character class); the resulting
automaton (states = valuations of the locals at the loop head) can be compared with a specification automaton for
all strings. Characters fall into classes separated by the constants the function mentions."""
from .query import *


class Unanalysable(Exception):
    pass


MAXV = 64


def char_type(t):
    t = (t or '').replace('const ', '').replace('&', '').strip()
    return t in ('char', 'unsigned char', 'signed char', 'uint8_t', 'int8_t', 'value_type', 'std::basic_string<char>::value_type')


class Scanner:
    def __init__(self, P, fn, extra=()):
        self.P = P; self.fn = fn
        consts = set(extra)
        for b, i, y in fn.nodes():
            v = const_val(y) if y['k'] in ('int',) else None
            if v is not None and 0 < v < 127:
                consts.add(v)
            if y['k'] == 'char':
                consts.add(y['v'])
        consts = sorted(consts)
        reps = set(consts)
        prev = 1
        for c in consts + [128]:
            if prev < c:
                # representative of the gap; letters preferred
                reps.add(next((k for k in (ord('m'), ord('5')) if prev <= k < c), prev))
            prev = c + 1
        self.alphabet = sorted(reps)

    # ---- evaluation: int, bool, ('it',) for iterators/unknown = None
    def ev(self, x, env, ch):
        fn = self.fn
        x = fn.deref(x) if x is not None and x['k'] == 'ref' else x
        if x is None:
            return None
        k = x['k']
        if k in ('cast', 'narrow'):
            return self.ev(x['e'], env, ch)
        cv = const_val(x)
        if cv is not None and k != 'var':
            return int(cv)
        if k == 'var':
            return env.get(x['id'])
        if k == 'char':
            return x['v']
        if k == 'un':
            v = self.ev(x['e'], env, ch)
            if x['op'] == '!':
                return None if v is None else int(not v)
            if x['op'] == '~':
                return None if v is None else ~v
            if x['op'] == '-':
                return None if v is None else -v
            if x['op'] == '*':
                return self.char(x, ch)
            return None
        if k == 'bin':
            a = self.ev(x['a'], env, ch); b = self.ev(x['b'], env, ch); op = x['op']
            if op == '&&':
                if a == 0 or b == 0:
                    return 0
                return None if a is None or b is None else int(bool(a and b))
            if op == '||':
                if (a is not None and a) or (b is not None and b):
                    return 1
                return None if a is None or b is None else 0
            if a is None or b is None:
                return None
            try:
                return {'==': lambda: int(a == b), '!=': lambda: int(a != b), '<': lambda: int(a < b), '>': lambda: int(a > b), '<=': lambda: int(a <= b),
                        '>=': lambda: int(a >= b), '|': lambda: a | b, '&': lambda: a & b, '^': lambda: a ^ b, '+': lambda: a + b, '-': lambda: a - b}[op]()
            except KeyError:
                return None
        if k == 'cond':
            c = self.ev(x['c'], env, ch)
            if c is None:
                a, b = self.ev(x['a'], env, ch), self.ev(x['b'], env, ch)
                return a if a == b else None
            return self.ev(x['a'] if c else x['b'], env, ch)
        if k in ('idx',) or (k == 'call' and x.get('o') is not None and base_name(x.get('n', '')) in ('operator[]', 'at', 'operator*')):
            return self.char(x, ch)
        if k == 'asg' or (k == 'un' and x['op'] in ('++', 'post++')):
            return None
        return None

    def char(self, x, ch):
        ix = x.get('i') if x['k'] == 'idx' else (x['a'][0] if x['k'] == 'call' and x.get('a') else None)
        if ix is not None:
            s = strip(self.fn, ix)
            if s is None or s['k'] not in ('var',):
                raise Unanalysable('character access with a computed index')
        return ch

    def run(self):
        """returns (initial states, delta: state x char -> set of states, accept: state -> set of return values)"""
        fn = self.fn
        # loop header: block on a cycle whose terminator leaves the cycle and whose condition is unknown
        heads = [b for b in fn.blocks.values() if b.term and b.term['k'] in ('CXXForRangeStmt', 'ForStmt', 'WhileStmt')]
        if len(heads) > 1:
            raise Unanalysable('%d loops' % len(heads))
        self.head = heads[0].id if heads else None
        init, rets0 = self.flow(fn.entry, {}, None)
        if self.head is None:
            raise Unanalysable('no loop')
        delta = {}; acc = {}; todo = list(init); seen = set(todo)
        while todo:
            s = todo.pop()
            env = dict(s)
            h = fn.blocks[self.head]
            body, out = h.succ[0][0], h.succ[1][0]
            for c in self.alphabet:
                st, rets = self.flow(body, env, c)
                delta[(s, c)] = (st, rets)
                for t in st:
                    if t not in seen:
                        if len(seen) > 500:
                            raise Unanalysable('too many states')
                        seen.add(t); todo.append(t)
            st, rets = self.flow(out, env, None)
            if st:
                raise Unanalysable('loop re-entered')
            acc[s] = rets
        return init, rets0, delta, acc

    def flow(self, start, env, ch):
        """from block start to the loop head / returns. -> (states at head, return values)"""
        fn = self.fn; heads = set(); rets = set()
        loopvars = self.loopvars()
        st = [(start, tuple(sorted(env.items())))]; seen = set(st)
        while st:
            bid, e = st.pop()
            if bid == self.head:
                heads.add(tuple(kv for kv in e if kv[0] not in loopvars)); continue
            if bid == fn.exit:
                continue
            env = dict(e); b = fn.blocks[bid]; done = False
            for i, x in b.elems:
                if x['k'] == 'throw':
                    done = True; rets.add('throw'); break
                if x['k'] == 'ret':
                    v = self.ev(x.get('e'), env, ch) if x.get('e') is not None else 'void'
                    rets.add(v if v is None or v == 'void' else bool(v)); done = True; break
                self.assign(x, env, ch)
            if done:
                continue
            nxt = [t for t, k in b.succ if t is not None and k in ('n',)]
            if b.term and b.term.get('c') is not None and len(b.succ) == 2:
                v = self.ev(b.term['c'], env, ch)
                if v is not None:
                    t, k = b.succ[0 if v else 1]
                    nxt = [t] if t is not None else []
            elif b.term and b.term['k'] == 'SwitchStmt':
                v = self.ev(b.term['c'], env, ch)
                if v is not None:
                    pick = None; dflt = None
                    for t, k in b.succ:
                        if t is None:
                            continue
                        l = fn.blocks[t].label
                        if l and l['k'] == 'case':
                            if (l.get('v') if l.get('v') is not None else const_val(strip(fn, l['e']))) == v:
                                pick = t
                        else:
                            dflt = t
                    nxt = [pick if pick is not None else dflt]
            key = tuple(sorted(env.items()))
            for t in nxt:
                if (t, key) not in seen:
                    seen.add((t, key)); st.append((t, key))
        return heads, rets

    def loopvars(self):
        """locals that are not state: iterators, indexes, the character itself (redefined before use each iteration)"""
        if hasattr(self, '_lv'):
            return self._lv
        lv = set()
        incyc = set()
        if self.head is not None:
            from .rules import cycle_blocks
            incyc = cycle_blocks(self.fn, self.head)
        for b, i, y in self.fn.nodes():
            ix = y.get('i') if y['k'] == 'idx' else (y['a'][0] if y['k'] == 'call' and base_name(y.get('n', '')) in ('operator[]', 'at') and y.get('a') else None)
            if ix is not None and (strip(self.fn, ix) or {}).get('k') == 'var':
                lv.add(strip(self.fn, ix)['id'])
            if y['k'] == 'decl':
                for v in y['d']:
                    t = v['t'].replace('const ', '').replace('&', '').strip()
                    if (char_type(v['t']) and b.id in incyc) or v['n'].startswith('__') or not (char_type(t) or t in ('bool', 'int', 'unsigned int', 'long', 'unsigned long', 'size_t', 'uint8_t', 'unsigned char', 'short')):
                        lv.add(v['id'])
        self._lv = lv
        return lv

    def assign(self, x, env, ch):
        fn = self.fn
        for y in [x] + list(fn.walk(x))[1:]:
            if y['k'] == 'decl':
                for v in y['d']:
                    val = self.ev(v['e'], env, ch) if v.get('e') is not None else None
                    if val is None:
                        env.pop(v['id'], None)
                    elif -MAXV <= val <= MAXV or char_type(v['t']):
                        env[v['id']] = val
            elif y['k'] == 'asg':
                d = strip(fn, y['a'])
                if d is not None and d['k'] == 'var':
                    val = self.ev(y['b'], env, ch)
                    if y['op'] != '=':
                        o = env.get(d['id']); val = None if o is None or val is None else {'|=': o | val, '&=': o & val, '+=': o + val, '-=': o - val, '^=': o ^ val}.get(y['op'])
                    if val is None:
                        env.pop(d['id'], None)
                    else:
                        env[d['id']] = max(-MAXV, min(255, val))
            elif y['k'] == 'un' and y['op'] in ('++', 'post++', '--', 'post--'):
                d = strip(fn, y['e'])
                if d is not None and d['k'] == 'var' and d['id'] in env:
                    env[d['id']] = max(-MAXV, min(MAXV, env[d['id']] + (1 if '+' in y['op'] else -1)))


def compare(P, fn, spec_init, spec_step, spec_accept, extra=(), negate=False):
    """None if fn accepts exactly the strings of the specification automaton, otherwise a shortest distinguishing string.
    spec_step(state, char) -> state or 'reject'"""
    S = Scanner(P, fn, extra)
    init, rets0, delta, acc = S.run()
    if negate:
        inv = lambda rs: {(not r) if isinstance(r, bool) else r for r in rs}
        rets0 = inv(rets0); acc = {k: inv(v) for k, v in acc.items()}; delta = {k: (a, inv(b)) for k, (a, b) in delta.items()}
    dq = deque(); seen = set()
    # answers given before the loop (an empty-string test, for instance) concern the empty string only
    want0 = spec_accept(spec_init)
    for s in init:
        dq.append((s, spec_init, '')); seen.add((s, spec_init))
    for r in rets0:
        if r is not want0:
            return '', r, want0, len(delta)
    early = bool(rets0)
    while dq:
        s, p, w = dq.popleft()
        want = p != 'reject' and spec_accept(p)
        if not (early and w == ''):
            for r in acc[s]:
                if r is not want and not (r == 'throw' and not want):
                    return w, r, want, len(delta)
        for c in S.alphabet:
            q = 'reject' if p == 'reject' else spec_step(p, chr(c))
            st, rets = delta[(s, c)]
            w2 = w + chr(c)
            for r in rets:
                # the function answers in the middle: must be the final verdict for all continuations
                if r in (False, 'throw') and q != 'reject':
                    return w2, r, True, len(delta)
                if r is True and q != 'accept':
                    return w2, r, 'undecided', len(delta)
                if r is None:
                    return w2, r, q, len(delta)
            for t in st:
                if (t, q) not in seen:
                    seen.add((t, q)); dq.append((t, q, w2))
    return None, None, None, len(delta)
