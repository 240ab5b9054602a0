"""Resolved program model on top of the extracted facts: functions, blocks, expression trees,
call graph (with overrides, lambdas, std::bind/thread targets) and small dataflow helpers."""
import sys, re
from collections import defaultdict, deque
from . import facts as F

sys.setrecursionlimit(20000)
AnalysisError = F.AnalysisError


class Block:
    __slots__ = ('id', 'elems', 'succ', 'term', 'label', 'preds', 'fn', 'eh_hint')

    def __init__(self):
        self.eh_hint = None

    def __repr__(self):
        return 'B%d' % self.id


class Fn:
    def __init__(self, d):
        self.d = d
        self.id = d['id']; self.q = d['q']; self.file = d['file']; self.line = d['line']; self.end = d.get('end', d['line'])
        self.params = d.get('params', []); self.cls = d.get('cls'); self.ret = d.get('ret')
        self.is_lambda = bool(d.get('lambda')); self.parent = d.get('parent')
        self.is_ctor = bool(d.get('ctor')); self.is_dtor = bool(d.get('dtor'))
        self.noexcept = bool(d.get('noexcept'))
        self.blocks = {}; self.el = {}; self.where = {}
        self.nocfg = bool(d.get('nocfg'))
        self.entry = d.get('entry'); self.exit = d.get('exit')
        for bd in d.get('blocks', []):
            b = Block(); b.id = bd['id']; b.fn = self; b.elems = []; b.preds = []
            b.term = bd.get('t'); b.label = bd.get('lab')
            for e in bd['e']:
                if e.get('dup'):
                    self.el[e['i']] = e['x']
                    continue
                b.elems.append((e['i'], e['x'])); self.el[e['i']] = e['x']; self.where[e['i']] = (b.id, len(b.elems) - 1)
            b.succ = []
            for s in bd['s']:
                if s is None:
                    b.succ.append((None, 'dead'))
                elif isinstance(s, dict):
                    b.succ.append((s['u'], 'dead'))
                else:
                    b.succ.append((s, 'n'))
            self.blocks[b.id] = b
        for b in self.blocks.values():
            # exceptional edges: second successor of a block without terminator, or the edge out of a throw
            if not b.term and len(b.succ) == 2:
                b.succ[1] = (b.succ[1][0], 'eh' if b.succ[1][1] == 'n' else b.succ[1][1])
            elif b.elems and b.elems[-1][1] and b.elems[-1][1].get('k') == 'throw':
                b.succ = [(t, 'eh' if k == 'n' else k) for t, k in b.succ]
            elif b.term and b.term['k'] == 'CXXTryStmt' and b.succ:
                lab = [self.blocks[t].label for t, k in b.succ if t is not None]
                # the fall-out of a try without a catch-all
                b.succ = [(t, 'catch' if (t is not None and self.blocks[t].label and self.blocks[t].label['k'] == 'catch') else 'eh') for t, k in b.succ]
            else:
                if b.term is None and len(b.succ) == 1 and b.succ[0][0] == self.exit and self._noreturn(b):
                    b.succ = [(b.succ[0][0], 'abort')]
        for b in self.blocks.values():
            for t, k in b.succ:
                if t is not None and k != 'dead':
                    self.blocks[t].preds.append((b.id, k))
        self._defs = None

    NORETURN = {'exit', 'abort', '_exit', 'std::terminate', 'std::abort', 'std::exit', '__assert_fail', 'std::rethrow_exception'}

    def _noreturn(self, b):
        return bool(b.elems) and b.elems[-1][1].get('k') == 'call' and b.elems[-1][1].get('n') in self.NORETURN

    @property
    def loc(self):
        return '%s:%d' % (self.file, self.line)

    def __repr__(self):
        return '<%s %s>' % (self.q, self.loc)

    # ---- expression access
    def deref(self, x):
        """follow references to elements"""
        n = 0
        while x is not None and x.get('k') == 'ref':
            x = self.el.get(x['i'])
            n += 1
            if n > 50:
                return None
        return x

    def kids(self, x):
        return children(x)

    def walk(self, x, into_refs=False):
        """all expression nodes of one element tree (not entering other elements unless asked)"""
        st = [x]
        while st:
            y = st.pop()
            if y is None:
                continue
            if y.get('k') == 'ref':
                if into_refs:
                    st.append(self.deref(y))
                continue
            yield y
            st.extend(reversed(children(y)))

    def nodes(self):
        """(block, index, node) for every expression node of the function, each once"""
        for b in self.blocks.values():
            for idx, (i, x) in enumerate(b.elems):
                for y in self.walk(x):
                    yield b, idx, y
            if b.term and b.term.get('c'):
                for y in self.walk(b.term['c']):
                    yield b, len(b.elems), y

    def calls(self):
        for b, i, y in self.nodes():
            if y['k'] in ('call', 'ctor'):
                yield b, i, y

    # ---- definitions of local variables
    def defs(self):
        """var id -> list of (block, idx, kind, expr)"""
        if self._defs is None:
            r = defaultdict(list)
            for p in self.params:
                r[p['id']].append((self.entry, -1, 'param', None))
            for b, i, y in self.nodes():
                k = y['k']
                if k == 'decl':
                    for v in y['d']:
                        r[v['id']].append((b.id, i, 'init', v.get('e')))
                        for bn in v.get('bind', []):
                            r[bn].append((b.id, i, 'bind', v.get('e')))
                elif k == 'asg':
                    t = strip_lv(self, y['a'])
                    if t is not None and t['k'] == 'var':
                        r[t['id']].append((b.id, i, 'asg' if y['op'] == '=' else 'upd', y['b']))
                elif k == 'un' and y['op'] in ('++', '--', 'post++', 'post--'):
                    t = strip_lv(self, y['e'])
                    if t is not None and t['k'] == 'var':
                        r[t['id']].append((b.id, i, 'upd', None))
                elif k == 'un' and y['op'] == '&':
                    t = strip_lv(self, y['e'])
                    if t is not None and t['k'] == 'var':
                        r[t['id']].append((b.id, i, 'addr', None))
                elif k == 'call' and y.get('op') == '=' and y.get('o') is not None:
                    t = strip_lv(self, y['o'])
                    if t is not None and t['k'] == 'var':
                        r[t['id']].append((b.id, i, 'asg', y['a'][0] if y['a'] else None))
                if k in ('call', 'ctor') and y.get('w'):
                    for w in y['w']:
                        t = strip_lv(self, y['a'][w]) if w < len(y.get('a', [])) else None
                        if t is not None and t['k'] == 'var':
                            r[t['id']].append((b.id, i, 'upd', None))
                if k in ('call', 'ctor'):
                    for a in y.get('a', []):       # &variable: what it points to may be changed by the callee
                        a = strip(self, a)
                        if a is not None and a['k'] == 'un' and a['op'] == '&':
                            t = strip_lv(self, a['e'])
                            if t is not None and t['k'] == 'var':
                                r[t['id']].append((b.id, i, 'upd', None))
            for b in self.blocks.values():
                if b.label and b.label.get('k') == 'catch' and b.label.get('id'):
                    r[b.label['id']].append((b.id, -1, 'param', None))
            self._defs = r
        return self._defs


CHILD1 = ('e', 'b', 'o', 'f', 'c', 'i')


def children(x):
    k = x.get('k')
    out = []
    if k == 'call':
        if x.get('o') is not None:
            out.append(x['o'])
        if x.get('f') is not None:
            out.append(x['f'])
        out += x.get('a', [])
    elif k in ('ctor', 'init'):
        out += x.get('a', [])
    elif k == 'bin' or k == 'asg':
        out += [x['a'], x['b']]
    elif k in ('un', 'cast', 'narrow', 'throw', 'ret', 'new', 'del', 'minit', 'tdtor', 'deldtor'):
        if x.get('e') is not None:
            out.append(x['e'])
    elif k == 'cond':
        out += [x['c'], x['a'], x['b']]
    elif k == 'idx':
        out += [x['b'], x['i']]
    elif k in ('mem', 'fn'):
        if x.get('b') is not None:
            out.append(x['b'])
    elif k == 'decl':
        out += [v['e'] for v in x['d'] if v.get('e') is not None]
    elif k == 'lambda':
        out += [c['init'] for c in x.get('caps', []) if c.get('init')]
    elif k == 'other':
        out += [s for s in x.get('s', []) if s is not None]
    return [o for o in out if isinstance(o, dict)]


WRAP_CTORS = {'std::optional::optional'}
TRANSPARENT_CALLS = {'std::move', 'std::forward', 'std::ref', 'std::cref', 'std::addressof', 'std::as_const'}


def strip(fn, x):
    """strip references, casts, copies and moves"""
    n = 0
    while x is not None and n < 100:
        n += 1
        k = x.get('k')
        if k == 'ref':
            x = fn.deref(x)
        elif k in ('cast', 'narrow'):
            x = x['e']
        elif k == 'ctor' and len(x.get('a', [])) == 1 and (x.get('cm') or x.get('n') in WRAP_CTORS):
            x = x['a'][0]
        elif k == 'call' and x.get('n') in TRANSPARENT_CALLS and x.get('a'):
            x = x['a'][0]
        elif k == 'init' and len(x.get('a', [])) == 1:
            x = x['a'][0]
        else:
            return x
    return x


def strip_lv(fn, x):
    return strip(fn, x)


DEREF = {'operator->', 'operator*', 'get', 'value', 'lock_noop'}


def base_name(q):
    return q.rsplit('::', 1)[-1]


def strip_ptr(fn, x):
    """strip also smart-pointer / optional dereferences"""
    n = 0
    while x is not None and n < 100:
        n += 1
        x = strip(fn, x)
        if x is None:
            return None
        k = x['k']
        if k == 'call' and x.get('o') is not None and base_name(x.get('n', '')) in ('operator->', 'operator*', 'get', 'value', 'operator bool', 'has_value') and not x.get('a'):
            x = x['o']
        elif k == 'un' and x['op'] in ('*', '&'):
            x = x['e']
        else:
            return x
    return x


def show(fn, x, depth=0):
    """readable rendering of an expression"""
    if x is None:
        return ''
    if depth > 12:
        return '...'
    k = x['k']
    s = lambda y: show(fn, y, depth + 1)
    if k == 'ref':
        return s(fn.deref(x))
    if k in ('int', 'float'):
        return str(x['v'])
    if k == 'bool':
        return 'true' if x['v'] else 'false'
    if k == 'str':
        return '"%s"' % x['v'][:40]
    if k == 'null':
        return 'nullptr'
    if k == 'this':
        return 'this'
    if k == 'enum' or k == 'gvar':
        return x['n']
    if k == 'fn':
        return '&' + x['n']
    if k == 'var':
        return x['n']
    if k == 'mem':
        b = s(x['b'])
        return ('%s.%s' % (b, base_name(x['n']))) if b != 'this' else base_name(x['n'])
    if k == 'call':
        a = ', '.join(s(y) for y in x.get('a', []))
        if x.get('o') is not None:
            return '%s.%s(%s)' % (s(x['o']), base_name(x['n']), a)
        return '%s(%s)' % (x['n'], a)
    if k == 'ctor':
        return '%s(%s)' % (x['n'].rsplit('::', 1)[0], ', '.join(s(y) for y in x.get('a', [])))
    if k in ('bin', 'asg'):
        return '%s %s %s' % (s(x['a']), x['op'], s(x['b']))
    if k == 'un':
        return x['op'] + s(x['e'])
    if k == 'cond':
        return '%s ? %s : %s' % (s(x['c']), s(x['a']), s(x['b']))
    if k == 'idx':
        return '%s[%s]' % (s(x['b']), s(x['i']))
    if k in ('cast', 'narrow'):
        return '(%s)%s' % (x['t'], s(x['e']))
    if k == 'decl':
        return '; '.join('%s %s = %s' % (v['t'], v['n'], s(v.get('e'))) for v in x['d'])
    if k == 'ret':
        return 'return ' + s(x.get('e'))
    if k == 'throw':
        return 'throw ' + (x.get('t') or '')
    if k == 'lambda':
        return '<lambda>'
    if k == 'init':
        return '{%s}' % ', '.join(s(y) for y in x['a'])
    if k == 'minit':
        return '%s(%s)' % (x.get('n') or x.get('base'), s(x.get('e')))
    if k == 'dtor':
        return '~%s' % x['id']
    if k == 'tdtor':
        return '~temp %s' % x['t']
    if k == 'new':
        return 'new ' + x['t']
    return '<%s>' % x.get('c', k)


def dump(fn):
    print(fn, 'entry', fn.entry, 'exit', fn.exit)
    for bid in sorted(fn.blocks, reverse=True):
        b = fn.blocks[bid]
        print(' B%d' % bid, '' if not b.label else 'LABEL %s %s' % (b.label['k'], show(fn, b.label.get('e')) or b.label.get('t', '')))
        for i, x in b.elems:
            print('   %d: [%s] %s' % (i, x.get('l'), show(fn, x)))
        if b.term:
            print('   T %s: %s' % (b.term['k'], show(fn, b.term.get('c'))))
        print('   ->', b.succ)


class Program:
    def __init__(self, data=None, raw=False):
        d = data or F.load()
        self.units = d['tu']
        self.records = d['record']; self.enums = d['enum']; self.gvars = d['gvar']
        self.fns = {i: Fn(f) for i, f in d['func'].items()}
        # test/fuzz helpers that are part of the unit list are not production code
        self.over = defaultdict(list)   # base method id -> overriding ids
        for f in self.fns.values():
            for o in f.d.get('over', []):
                self.over[o].append(f.id)
        if raw:
            self.inlined = 0
        else:
            from . import inline
            self.inlined = inline.run(self)
            from . import fold
            self.folded = fold.run(self)
        self.byq = defaultdict(list)
        for f in self.fns.values():
            self.byq[f.q].append(f)
        self.rec_by_q = defaultdict(list)
        for r in self.records.values():
            self.rec_by_q[r['q']].append(r)
        self._callers = None

    def stats(self):
        return {'units': len(self.units), 'functions': len(self.fns), 'records': len(self.records),
                'call_sites': sum(1 for f in self.fns.values() for _ in f.calls())}

    def fn(self, q, optional=False):
        l = self.byq.get(q, [])
        if not l and not optional:
            raise AnalysisError('anchor function %s not found in the current tree' % q)
        return l

    def one(self, q):
        l = self.fn(q)
        if len(l) != 1:
            raise AnalysisError('anchor %s: %d definitions' % (q, len(l)))
        return l[0]

    def record(self, q):
        l = self.rec_by_q.get(q)
        if not l:
            raise AnalysisError('record %s not found' % q)
        return l[0]

    # -------- call resolution: list of (Fn, how) for one call node
    def targets(self, call):
        out = []
        i = call.get('id')
        if i is None:
            return out
        if i in self.fns:
            out.append(self.fns[i])
        if call.get('virt') and not call.get('nonvirt'):
            seen = {i}; st = [i]
            while st:
                c = st.pop()
                for o in self.over.get(c, []):
                    if o not in seen:
                        seen.add(o); st.append(o)
                        if o in self.fns:
                            out.append(self.fns[o])
        return out

    def lambda_fns(self, x):
        ids = [x['id']] if x.get('id') else x.get('ids', [])
        return [self.fns[i] for i in ids if i in self.fns]

    def lambdas_of(self, fn):
        for f in self.fns.values():
            if f.parent == fn.id:
                yield f

    def fnref_targets(self, x):
        i = x.get('id')
        return [self.fns[i]] if i in self.fns else []

    def callees(self, fn):
        """all functions that fn may transfer control to, incl. created lambdas and taken function addresses"""
        c = getattr(fn, '_callees', None)
        if c is None:
            c = []
            for b, i, y in fn.nodes():
                if y['k'] in ('call', 'ctor'):
                    for t in self.targets(y):
                        c.append((t, y, 'call'))
                elif y['k'] == 'lambda':
                    for t in self.lambda_fns(y):
                        c.append((t, y, 'lambda'))
                elif y['k'] == 'fn':
                    for t in self.fnref_targets(y):
                        c.append((t, y, 'ref'))
                elif y['k'] in ('dtor', 'tdtor') and y.get('f') in self.fns:
                    c.append((self.fns[y['f']], y, 'dtor'))
            fn._callees = c
        return c

    def callers(self, fn):
        if self._callers is None:
            self._callers = defaultdict(list)
            for f in self.fns.values():
                for t, y, how in self.callees(f):
                    self._callers[t.id].append((f, y, how))
        return self._callers[fn.id]

    def call_sites(self, fn):
        """(caller, (block, idx), call node) of every direct call of fn"""
        if not hasattr(self, '_sites'):
            self._sites = defaultdict(list)
            for f in self.fns.values():
                for b, i, y in f.calls():
                    for t in self.targets(y):
                        self._sites[t.id].append((f, (b.id, i), y))
        return self._sites[fn.id]

    def reachable_fns(self, roots, how=('call', 'lambda', 'ref', 'dtor')):
        seen = {}; dq = deque()
        for r in roots:
            seen[r.id] = None; dq.append(r)
        while dq:
            f = dq.popleft()
            for t, y, h in self.callees(f):
                if h in how and t.id not in seen:
                    seen[t.id] = (f, y); dq.append(t)
        return seen

    def chain(self, seen, fid):
        out = [self.fns[fid].q]
        while seen[fid]:
            f, y = seen[fid]
            out.append('%s@%s:%s' % (f.q, f.file, y.get('l')))
            fid = f.id
        return list(reversed(out))
