"""Interprocedural path queries.

Query(prog, targets, cut_node, cut_cond) decides whether a target node can be reached from a root
without first passing a cut: a node satisfying cut_node, or a branch edge whose condition implies a
fact satisfying cut_cond. Branch conditions are understood through negation, && / ||, ?:, boolean and
enum locals (reaching definitions, def-clear paths), parameters (call context) and helper functions
(what a return value of a helper implies; helpers that only return normally when the cut was passed),
so that the verdict depends on what the code does, not on how it is spelled."""
from collections import deque
from .prog import *

NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}
OPS = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '>': lambda a, b: a > b,
       '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}
SWAP = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}
TRUTHY = ('operator bool', 'has_value')


def is_const(x):
    return x is not None and (x['k'] in ('bool', 'int', 'enum', 'null') or ('v' in x and x['k'] in ('bin', 'un', 'cast', 'sizeof', 'var', 'gvar')))


def const_val(x):
    if x is None:
        return None
    if x['k'] == 'null':
        return 0
    v = x.get('v')
    if x['k'] in ('bool', 'int', 'enum') or (x['k'] in ('bin', 'un', 'cast', 'sizeof', 'var', 'gvar') and v is not None):
        if v is True:
            return 1
        if v is False:
            return 0
        return v
    return None


class Ctx:
    """call context: the call node in the caller (or None at a root)"""
    __slots__ = ('caller', 'call', 'pt', 'parent', 'depth')

    def __init__(self, caller=None, call=None, pt=None, parent=None):
        self.caller = caller; self.call = call; self.pt = pt; self.parent = parent
        self.depth = parent.depth + 1 if parent else 0

    def key(self, n=3):
        k = []; c = self
        while c is not None and c.caller is not None and n:
            k.append((c.caller.id, c.call.get('l'), c.pt)); c = c.parent; n -= 1
        return tuple(k)


ROOT = Ctx()


def edge_facts(fn, b, si):
    """conditions known to hold on the si-th outgoing edge of block b: list of (expr, polarity)"""
    t = b.term
    if not t or t.get('c') is None or t['k'] in ('tmpdtor', 'vbase', 'CXXTryStmt', 'GotoStmt', 'IndirectGotoStmt'):
        return []
    if t['k'] == 'SwitchStmt':
        tgt = b.succ[si][0]
        if tgt is None:
            return []
        lab = fn.blocks[tgt].label
        mk = lambda l: {'k': 'bin', 'op': '==', 'a': t['c'], 'b': (dict(l['e'], v=l['v']) if l.get('v') is not None and l['e'].get('k') not in ('enum', 'int') else l['e']), 'l': l.get('l')}
        if lab and lab['k'] == 'case':
            # several cases may share the block through fallthrough labels: each label is its own block in the CFG
            return [(mk(lab), True)]
        out = []
        for s, k in b.succ:
            if s is None or s == tgt:
                continue
            l = fn.blocks[s].label
            if l and l['k'] == 'case':
                out.append((mk(l), False))
        return out
    if len(b.succ) != 2:
        return []
    return [(t['c'], si == 0)]


def norm(fn, x, pol):
    """normalise a leaf condition to (op, lhs, rhs); truthiness is ('!=', e, 0)"""
    x = strip(fn, x)
    if x is None:
        return None
    if x['k'] == 'call' and x.get('n') == '__builtin_expect' and x.get('a'):
        return norm(fn, x['a'][0], pol)
    if x['k'] == 'un' and x['op'] == '!':
        return norm(fn, x['e'], not pol)
    if x['k'] == 'bin' and x['op'] in NEG:
        op = x['op'] if pol else NEG[x['op']]
        a, b = strip(fn, x['a']), strip(fn, x['b'])
        if is_const(a) and not is_const(b):
            return (SWAP[op], b, a)
        return (op, a, b)
    if x['k'] == 'call' and x.get('op') in NEG:
        args = ([x['o']] if x.get('o') is not None else []) + x.get('a', [])
        if len(args) == 2:
            op = x['op'] if pol else NEG[x['op']]
            a, b = strip(fn, args[0]), strip(fn, args[1])
            if is_const(a) and not is_const(b):
                return (SWAP[op], b, a)
            return (op, a, b)
    if x['k'] == 'call' and x.get('o') is not None and base_name(x.get('n', '')) in TRUTHY:
        return ('!=' if pol else '==', strip(fn, x['o']), {'k': 'int', 'v': 0})
    return ('!=' if pol else '==', x, {'k': 'int', 'v': 0})


class Query:
    MAXDEPTH = 14

    def __init__(self, prog, target=None, cut_node=None, cut_cond=None, follow_lambdas=True, eh=True, name='', enter=None, abstract_state=None):
        self.P = prog
        self._cond_only = target is None and cut_node is None
        self.target = target or (lambda fn, y: False)
        self.cut_node = cut_node or (lambda fn, y, q: False)
        self.cut_cond = cut_cond           # f(q, fn, norm, pt, ctx) -> bool
        self.follow_lambdas = follow_lambdas
        self.eh = eh
        self.enter = enter                 # optional filter on callees to step into
        self.hits = []                     # (fn, block, node, trace)
        self._may = {}
        self._memo = {}
        self._stack = []
        self._impl_stack = set()
        self._ret_memo = {}
        self.explored = set()
        self.edges_cut = set()
        self.nodes_cut = set()
        self._relevant = None
        self.resets = None                 # f(fn, node): the fact no longer holds after this node (history is not looked at beyond it)
        self._origin = None                # (fn id, point): facts are to be established after this point
        self.up = False                    # resolve parameters at a root through all callers

    # ---------------------------------------------------------------- relevance (which callees matter)
    def relevant(self):
        """functions from which a target or cut node may be reached (by calls / lambdas)"""
        if self._relevant is None and self._cond_only:
            self._relevant = set()
        if self._relevant is None:
            P = self.P
            direct = set()
            for f in P.fns.values():
                for b, i, y in f.nodes():
                    if self.target(f, y) or self.cut_node(f, y, self):
                        direct.add(f.id); break
            rel = set(direct); dq = deque(direct)
            while dq:
                g = dq.popleft()
                for (f, y, how) in P.callers(P.fns[g]):
                    if f.id not in rel:
                        rel.add(f.id); dq.append(f.id)
            self._relevant = rel
        return self._relevant

    def asserts(self, fn):
        """fn is a helper that may leave only by an exception depending on a condition"""
        if self.cut_cond is None or fn.nocfg:
            return False
        a = getattr(fn, '_asserts', None)
        if a is None:
            a = len(fn.blocks) <= 60 and any(y['k'] == 'throw' for _, _, y in fn.nodes()) and any(b.term and len(b.succ) == 2 for b in fn.blocks.values())
            if not a and len(fn.blocks) <= 8:
                # thin wrapper of such a helper
                fn._asserts = False
                a = any(self.asserts(t) for t, y, how in self.P.callees(fn) if how == 'call')
            fn._asserts = a
        return a

    # ---------------------------------------------------------------- value resolution
    def reaching_defs(self, fn, vid, pt):
        """definitions of local variable vid that reach point pt=(block, idx)"""
        defs = fn.defs().get(vid)
        if not defs:
            return None
        bydef = {}
        for d in defs:
            if d[2] == 'addr':
                continue
            bydef.setdefault(d[0], []).append(d)
        for l in bydef.values():
            l.sort(key=lambda d: d[1])
        out = []; seen = set()
        st = [(pt[0], pt[1])]
        while st:
            bid, idx = st.pop()
            found = None
            for d in reversed(bydef.get(bid, [])):
                if d[1] < idx:
                    found = d; break
            if found:
                if found not in out:
                    out.append(found)
                if found[2] == 'upd':      # partial update: earlier value matters as well
                    st2 = (bid, found[1])
                    if st2 not in seen:
                        seen.add(st2); st.append(st2)
                continue
            for p, k in fn.blocks[bid].preds:
                if (p, 1 << 30) not in seen:
                    seen.add((p, 1 << 30)); st.append((p, 1 << 30))
        return out

    def sources(self, fn, x, pt, ctx, depth=0, seen=None):
        """leaf expressions the value of x may come from: list of (fn, expr, pt, ctx)"""
        seen = seen if seen is not None else set()
        x = strip(fn, x)
        if x is None or depth > 12:
            return [(fn, x, pt, ctx)]
        if x['k'] == 'cond':
            return self.sources(fn, x['a'], pt, ctx, depth + 1, seen) + self.sources(fn, x['b'], pt, ctx, depth + 1, seen)
        if x['k'] == 'var':
            key = (fn.id, x['id'], pt)
            if key in seen:
                return []
            seen.add(key)
            rd = self.reaching_defs(fn, x['id'], pt)
            if rd is None and fn.parent and fn.parent in self.P.fns:
                pf = self.P.fns[fn.parent]
                out = []
                for d in pf.defs().get(x['id'], []):
                    if d[2] in ('init', 'asg') and d[3] is not None:
                        out += self.sources(pf, d[3], (d[0], d[1]), None, depth + 1, seen)
                    elif d[2] == 'param':
                        out.append((fn, x, pt, ctx))
                return out or [(fn, x, pt, ctx)]
            if not rd:
                return [(fn, x, pt, ctx)]
            out = []
            for d in rd:
                if d[2] == 'param':
                    if ctx is not None and ctx.caller is not None:
                        idx = [p['id'] for p in fn.params].index(x['id']) if x['id'] in [p['id'] for p in fn.params] else -1
                        args = ctx.call.get('a', [])
                        if 0 <= idx < len(args):
                            out += self.sources(ctx.caller, args[idx], ctx.pt, ctx.parent, depth + 1, seen)
                            continue
                    elif self.up and depth < 8 and x['id'] in [p['id'] for p in fn.params]:
                        idx = [p['id'] for p in fn.params].index(x['id'])
                        sites = [s for s in self.P.call_sites(fn) if idx < len(s[2].get('a', []))]
                        if sites:
                            for cf, cpt, call in sites:
                                out += self.sources(cf, call['a'][idx], cpt, ROOT, depth + 1, seen)
                            continue
                    out.append((fn, x, pt, ctx))
                elif d[2] in ('init', 'asg') and d[3] is not None:
                    out += self.sources(fn, d[3], (d[0], d[1]), ctx, depth + 1, seen)
                elif d[2] == 'init' and d[3] is None:
                    out.append((fn, {'k': 'uninit'}, pt, ctx))
                else:
                    out.append((fn, x, pt, ctx))
            return out
        return [(fn, x, pt, ctx)]

    def from_call(self, fn, x, pt, ctx, pred, allow_const=None, depth=0):
        """every source of x is a call satisfying pred (possibly through helper functions that return
        only such values), or a constant accepted by allow_const"""
        srcs = self.sources(fn, x, pt, ctx)
        if not srcs:
            return False
        any_call = False
        for (f, s, p, c) in srcs:
            if s is None:
                return False
            cv = const_val(s)
            if s['k'] == 'enum' or cv is not None:
                if allow_const and allow_const(s):
                    continue
                return False
            if s['k'] in ('call', 'ctor'):
                if pred(f, s):
                    any_call = True; continue
                ts = self.P.targets(s)
                if ts and depth < 4:
                    ok = True
                    for t in ts:
                        rets = [(b.id, i, y) for b, i, y in t.nodes() if y['k'] == 'ret' and y.get('e') is not None]
                        if not rets:
                            ok = False; break
                        for bid, i, y in rets:
                            if not self.from_call(t, y['e'], (bid, i), Ctx(f, s, p, c), pred, allow_const, depth + 1):
                                # constants that are fine on their own
                                ok = False; break
                        if not ok:
                            break
                    if ok:
                        any_call = True; continue
            return False
        return any_call

    # ---------------------------------------------------------------- implication
    def implies(self, fn, x, pol, pt, ctx):
        """does (x evaluates to pol at pt) imply the cut condition?"""
        if self.cut_cond is None:
            return False
        x = strip(fn, x)
        if x is None:
            return False
        k = x['k']
        if k == 'call' and x.get('n') == '__builtin_expect' and x.get('a'):
            return self.implies(fn, x['a'][0], pol, pt, ctx)
        if k == 'un' and x['op'] == '!':
            return self.implies(fn, x['e'], not pol, pt, ctx)
        if k == 'bin' and x['op'] in ('&&', '&') and (x['op'] == '&&' or self._boolish(fn, x)):
            r = [self.implies(fn, y, pol, pt, ctx) for y in (x['a'], x['b'])]
            return any(r) if pol else all(r)
        if k == 'bin' and x['op'] in ('||', '|') and (x['op'] == '||' or self._boolish(fn, x)):
            r = [self.implies(fn, y, pol, pt, ctx) for y in (x['a'], x['b'])]
            return all(r) if pol else any(r)
        if k == 'cond':
            a = self.implies(fn, x['c'], True, pt, ctx) or self._const_contra(fn, x['a'], pol) or self.implies(fn, x['a'], pol, pt, ctx)
            b = self.implies(fn, x['c'], False, pt, ctx) or self._const_contra(fn, x['b'], pol) or self.implies(fn, x['b'], pol, pt, ctx)
            return a and b
        cv = const_val(x)
        if cv is not None and k in ('bool', 'int', 'enum'):
            return bool(cv) != pol      # vacuous
        n = norm(fn, x, pol)
        if n is not None and self.cut_cond(self, fn, n, pt, ctx):
            return True
        if n is not None and n[0] in SWAP and not is_const(n[2]) and self.cut_cond(self, fn, (SWAP[n[0]], n[2], n[1]), pt, ctx):
            return True         # a < b is b > a
        # comparisons with boolean constants
        if n is not None and n[0] in ('==', '!=') and k == 'bin':
            c = strip(fn, n[2])
            if c is not None and c['k'] == 'bool':
                want = bool(c['v']) == (n[0] == '==')
                return self.implies(fn, n[1], want, pt, ctx)
        if k == 'call' and x.get('o') is not None and base_name(x.get('n', '')) in TRUTHY and not x.get('r'):
            return self.implies_truth_of(fn, x['o'], pol, pt, ctx)
        if k == 'var':
            return self.implies_var(fn, x, pol, pt, ctx)
        if n is not None and n[0] in OPS and const_val(n[2]) is not None and (k == 'bin' or (k == 'call' and x.get('op') in NEG)):
            lhs = strip(fn, n[1])
            if lhs is not None and lhs['k'] == 'var':
                return self.implies_var_cmp(fn, lhs, n, pt, ctx)
            if lhs is not None and lhs['k'] == 'call':
                return self.implies_call_cmp(fn, lhs, n, pt, ctx)
            if lhs is not None and lhs['k'] == 'cond':
                def side(e, pol2):
                    if self.implies(fn, lhs['c'], pol2, pt, ctx):
                        return True
                    cv2 = const_val(strip(fn, e))
                    if cv2 is not None:
                        return not OPS[n[0]](cv2, const_val(n[2]))
                    return self.implies(fn, {'k': 'bin', 'op': n[0], 'a': e, 'b': n[2]}, True, pt, ctx)
                return side(lhs['a'], True) and side(lhs['b'], False)
        if k == 'call':
            return self.implies_call(fn, x, pol, pt, ctx)
        return False

    def implies_truth_of(self, fn, o, pol, pt, ctx):
        return False

    def _boolish(self, fn, x):
        def b(y):
            y = strip(fn, y)
            return y is not None and (y['k'] == 'bool' or (y['k'] == 'bin' and y['op'] in NEG) or (y['k'] == 'un' and y['op'] == '!') or y.get('t') == 'bool')
        return b(x['a']) and b(x['b'])

    def _const_contra(self, fn, x, pol):
        cv = const_val(strip(fn, x))
        return cv is not None and bool(cv) != pol

    def _contradicts(self, fn, x, pol, assume):
        """can the branch not be taken while the variable satisfies the assumed comparison?"""
        x = strip(fn, x)
        if x is None:
            return False
        if x['k'] == 'un' and x['op'] == '!':
            return self._contradicts(fn, x['e'], not pol, assume)
        if x['k'] == 'bin' and x['op'] in ('&&', '||'):
            r = [self._contradicts(fn, y, pol, assume) for y in (x['a'], x['b'])]
            return any(r) if pol == (x['op'] == '&&') else all(r)
        n = norm(fn, x, pol)
        if n is None or n[1] is None or n[1]['k'] != 'var' or n[1]['id'] != assume[0] or n[0] not in OPS:
            return False
        c = const_val(n[2])
        if c is None:
            return False
        if assume[1] == '==':
            return not OPS[n[0]](assume[2], c)
        return assume[1] == '!=' and n[0] == '==' and c == assume[2]

    def _def_ok(self, fn, x, d, pt, ctx, value_test, assume=None):
        """definition d of variable x reaching pt: value_test(expr, defpt) says whether the value alone
        implies the fact (True), contradicts the polarity (None) or is compatible (False)"""
        r = value_test(d)
        if r is None:
            return True
        rs = self.reset_points(fn)
        between = []
        if rs:
            other0 = set((e[0], e[1]) for e in fn.defs().get(x['id'], []) if e[2] in ('init', 'asg', 'upd') and (e[0], e[1]) != (d[0], d[1]))
            between = [p for p in rs if self._plain_reach(fn, (d[0], d[1]), p, other0) and self._plain_reach(fn, p, pt, other0 | {(d[0], d[1])})]
            if any(self.reach_point(fn, p, pt, ctx, other0 | {(d[0], d[1])}) for p in between):
                return False
        if r is True:
            return True
        # the value is compatible with the branch: is there an uncut path entry -> d -> pt?
        if self._origin is not None and self._origin[0] == fn.id:
            return self._def_since(fn, x, d, pt, ctx, self._origin[1], assume)
        key = ('def', fn.id, x['id'], d[0], d[1], pt, ctx.key() if ctx else ())
        if key in self._impl_stack:
            return False
        self._impl_stack.add(key)
        try:
            if d[2] != 'param':
                if not self.reach_point(fn, (fn.entry, -1), (d[0], d[1]), ctx, None) and not any(self.reach_point(fn, p, (d[0], d[1]), ctx, None) for p in rs):
                    return True
            other = [(e[0], e[1]) for e in fn.defs().get(x['id'], []) if e[2] in ('init', 'asg', 'upd') and (e[0], e[1]) != (d[0], d[1])]
            if not self.reach_point(fn, (fn.entry, -1) if d[2] == 'param' else (d[0], d[1]), pt, ctx, set(other), assume):
                return True
        finally:
            self._impl_stack.discard(key)
        return False

    def _def_since(self, fn, x, d, pt, ctx, s, assume=None):
        """as _def_ok, for what happens after point s only"""
        key = ('since', fn.id, x['id'], d[0], d[1], pt, ctx.key() if ctx else (), s, assume)
        if key in self._impl_stack:
            return False
        self._impl_stack.add(key)
        try:
            other = set((e[0], e[1]) for e in fn.defs().get(x['id'], []) if e[2] in ('init', 'asg', 'upd') and (e[0], e[1]) != (d[0], d[1]))
            dp = (fn.entry, -1) if d[2] == 'param' else (d[0], d[1])
            before = self._plain_reach(fn, dp, s, other) and self._plain_reach(fn, s, pt, other | {dp})
            if before and self.reach_point(fn, s, pt, ctx, other | {dp}, assume):
                return False
            if d[2] != 'param' and self.reach_point(fn, s, dp, ctx, None) and self.reach_point(fn, dp, pt, ctx, other, assume):
                return False
            return True
        finally:
            self._impl_stack.discard(key)

    def reset_points(self, fn):
        if self.resets is None:
            return ()
        m = getattr(self, '_rp', None)
        if m is None:
            m = self._rp = {}
        if fn.id not in m:
            m[fn.id] = sorted({(b.id, i) for b, i, y in fn.nodes() if self.resets(fn, y)})
        return m[fn.id]

    def _plain_reach(self, fn, start, goal, avoid):
        seen = set(); st = [(start[0], start[1] + 1)]
        while st:
            bid, i0 = st.pop()
            b = fn.blocks[bid]; stop = False
            for idx in range(i0, len(b.elems) + 1):
                if (bid, idx) == goal or (goal[0] == bid and goal[1] >= len(b.elems) and idx == len(b.elems)):
                    return True
                if (bid, idx) in avoid:
                    stop = True; break
            if stop:
                continue
            for t, k in b.succ:
                if t is not None and k == 'n' and t not in seen:
                    seen.add(t); st.append((t, 0))
        return False

    def implies_var(self, fn, x, pol, pt, ctx):
        rd = self.reaching_defs(fn, x['id'], pt)
        if rd is None:
            if fn.parent and fn.parent in self.P.fns:
                pf = self.P.fns[fn.parent]
                ds = [d for d in pf.defs().get(x['id'], []) if d[2] in ('init', 'asg', 'upd')]
                if ds and all(d[3] is not None and d[2] != 'upd' and (self._const_contra(pf, d[3], pol) or self.implies(pf, d[3], pol, (d[0], d[1]), None)) for d in ds):
                    return True
            return False
        if not rd:
            return False

        def test(d):
            if d[2] == 'param':
                if ctx is not None and ctx.caller is not None:
                    ids = [p['id'] for p in fn.params]
                    if x['id'] in ids:
                        i = ids.index(x['id']); args = ctx.call.get('a', [])
                        if i < len(args):
                            if self._const_contra(ctx.caller, args[i], pol):
                                return None
                            return self.implies(ctx.caller, args[i], pol, ctx.pt, ctx.parent)
                return False
            if d[2] in ('init', 'asg') and d[3] is not None:
                e = strip(fn, d[3])
                cv = const_val(e)
                if cv is not None:
                    return None if bool(cv) != pol else False
                return self.implies(fn, d[3], pol, (d[0], d[1]), ctx)
            return False
        asm = (x['id'], '!=' if pol else '==', 0)
        return all(self._def_ok(fn, x, d, pt, ctx, test, asm) for d in rd)

    def implies_var_cmp(self, fn, x, n, pt, ctx):
        """x op const, x a local: via its definitions"""
        rd = self.reaching_defs(fn, x['id'], pt)
        if not rd:
            return False
        c = const_val(n[2])

        def test(d):
            if d[2] == 'param':
                if ctx is not None and ctx.caller is not None:
                    ids = [p['id'] for p in fn.params]
                    if x['id'] in ids:
                        i = ids.index(x['id']); args = ctx.call.get('a', [])
                        if i < len(args):
                            return self.implies(ctx.caller, {'k': 'bin', 'op': n[0], 'a': args[i], 'b': n[2]}, True, ctx.pt, ctx.parent)
                return False
            if d[2] in ('init', 'asg') and d[3] is not None:
                e = strip(fn, d[3]); cv = const_val(e)
                if cv is not None:
                    return False if OPS[n[0]](cv, c) else None
                return self.implies(fn, {'k': 'bin', 'op': n[0], 'a': d[3], 'b': n[2]}, True, (d[0], d[1]), ctx)
            return False
        asm = (x['id'], n[0], c) if n[0] in ('==', '!=') and c is not None else None
        return all(self._def_ok(fn, x, d, pt, ctx, test, asm) for d in rd)

    def implies_call(self, fn, x, pol, pt, ctx):
        return self._implies_ret(fn, x, pt, ctx, lambda e, t, p, c: (self._const_contra(t, e, pol), lambda: self.implies(t, e, pol, p, c)), ('b', pol))

    def implies_call_cmp(self, fn, x, n, pt, ctx):
        cst = const_val(n[2])

        def f(e, t, p, c):
            cv = const_val(strip(t, e))
            contra = cv is not None and not OPS[n[0]](cv, cst)
            return (contra, (lambda: False) if cv is not None else (lambda: self.implies(t, {'k': 'bin', 'op': n[0], 'a': e, 'b': n[2]}, True, p, c)))
        return self._implies_ret(fn, x, pt, ctx, f, ('c', n[0], cst))

    def _implies_ret(self, fn, x, pt, ctx, test, keyx):
        ts = self.P.targets(x)
        if not ts or (ctx is not None and ctx.depth > self.MAXDEPTH):
            return False
        for t in ts:
            nctx = Ctx(fn, x, pt, ctx if ctx is not None else ROOT)
            key = ('ret', t.id, nctx.key(), keyx, self._origin)
            if key in self._ret_memo:
                r = self._ret_memo[key]
            else:
                if key in self._impl_stack:
                    return False
                self._impl_stack.add(key)
                r = True
                try:
                    rets = [(b.id, i, y) for b, i, y in t.nodes() if y['k'] == 'ret']
                    if not rets:
                        r = False
                    for bid, i, y in rets:
                        if y.get('e') is None:
                            r = False; break
                        contra, imp = test(y['e'], t, (bid, i), nctx)
                        if contra:
                            continue
                        if imp():
                            continue
                        if not self.reach_point(t, (t.entry, -1), (bid, i), nctx, None):
                            continue
                        r = False; break
                finally:
                    self._impl_stack.discard(key)
                self._ret_memo[key] = r
            if not r:
                return False
        return True

    # ---------------------------------------------------------------- path exploration
    def edge_cut(self, fn, b, si, ctx):
        for x, pol in edge_facts(fn, b, si):
            if self.implies(fn, x, pol, (b.id, len(b.elems)), ctx):
                self.edges_cut.add((fn.id, b.id, si))
                return True
        return False

    def elem_effect(self, fn, b, idx, x, ctx, record, trace):
        """returns True if execution is cut at this element"""
        cut = False
        for y in fn.walk(x):
            if record and self.target(fn, y):
                self.hits.append((fn, b.id, y, trace + ['%s %s:%s' % (fn.q, fn.file, y.get('l'))]))
            if self.cut_node(fn, y, self):
                self.nodes_cut.add((fn.id, y.get('l')))
                cut = True
                continue
            if y['k'] in ('call', 'ctor'):
                ts = [t for t in self.P.targets(y) if t.id in self.relevant()]
                if self.enter:
                    ts = [t for t in ts if self.enter(t)]
                if ts and (ctx is None or ctx.depth < self.MAXDEPTH):
                    allts = self.P.targets(y)
                    anyexit = len(allts) > len(ts)
                    for t in ts:
                        if t.id == fn.id and not record:
                            anyexit = True      # what another activation does says nothing about this one
                            continue
                        if self.explore(t, Ctx(fn, y, (b.id, idx), ctx or ROOT), record, trace + ['%s %s:%s' % (fn.q, fn.file, y.get('l'))]):
                            anyexit = True
                    if not anyexit:
                        cut = True
                elif self.cut_cond is not None and (ctx is None or ctx.depth < self.MAXDEPTH):
                    hs = self.P.targets(y)
                    if hs and all(self.asserts(t) for t in hs) and not any(self.explore(t, Ctx(fn, y, (b.id, idx), ctx or ROOT), False, []) for t in hs):
                        self.nodes_cut.add((fn.id, y.get('l')))
                        cut = True
            elif y['k'] == 'lambda' and self.follow_lambdas:
                for t in self.P.lambda_fns(y):
                    if t.id in self.relevant():
                        self.explore(t, Ctx(fn, {'k': 'call', 'a': [], 'l': y.get('l')}, (b.id, idx), ctx or ROOT), record, trace + ['%s %s:%s' % (fn.q, fn.file, y.get('l'))])
            elif y['k'] == 'fn' and self.follow_lambdas:
                for t in self.P.fnref_targets(y):
                    if t.id in self.relevant():
                        self.explore(t, Ctx(fn, {'k': 'call', 'a': [], 'l': y.get('l')}, (b.id, idx), ctx or ROOT), record, trace + ['%s %s:%s' % (fn.q, fn.file, y.get('l'))])
        return cut

    def explore(self, fn, ctx=ROOT, record=True, trace=()):
        """walk fn from its entry; returns whether a normal exit is reachable uncut"""
        key = (fn.id, ctx.key(), record, self._origin)
        if key in self._memo:
            return self._memo[key]
        self._memo[key] = False          # least fixpoint for recursion
        self.explored.add(fn.id)
        if fn.nocfg:
            raise AnalysisError('no CFG for %s' % fn.q)
        r = self._walk(fn, (fn.entry, -1), ctx, record, list(trace))[0]
        self._memo[key] = r
        return r

    def _walk(self, fn, start, ctx, record, trace, goal=None, avoid=None, assume=None):
        """forward walk from just after point start. Returns (normal exit reached, goal reached)."""
        seen = set(); dq = deque([(start[0], start[1] + 1)])
        exit_reached = False
        while dq:
            bid, i0 = dq.popleft()
            if bid == fn.exit:
                exit_reached = True
                continue
            b = fn.blocks[bid]
            cut = False; last_cut = False; blocked = False
            for idx in range(i0, len(b.elems)):
                if goal is not None and goal == (bid, idx):
                    return exit_reached, True
                if avoid and (bid, idx) in avoid:
                    cut = True; blocked = True; break
                if self.elem_effect(fn, b, idx, b.elems[idx][1], ctx, record, trace):
                    cut = True; last_cut = idx == len(b.elems) - 1; break
            if goal is not None and not cut and goal[0] == bid and goal[1] >= len(b.elems):
                return exit_reached, True
            if not cut and b.term and b.term.get('c') is not None:
                # target nodes inside a pure condition (not an element)
                if self.elem_effect(fn, b, len(b.elems), b.term['c'], ctx, record, trace):
                    cut = True
            for si, (t, k) in enumerate(b.succ):
                if t is None or k in ('dead', 'abort'):
                    continue
                if k in ('eh', 'catch'):
                    if not self.eh or (cut and not (last_cut and k == 'eh' and len(b.succ) == 2)):
                        continue
                    if t == fn.exit:
                        continue
                elif cut:
                    continue
                elif assume and any(self._contradicts(fn, x, p, assume) for x, p in edge_facts(fn, b, si)):
                    continue
                elif self.edge_cut(fn, b, si, ctx):
                    continue
                if t not in seen:
                    seen.add(t); dq.append((t, 0))
        return exit_reached, False

    def reach_point(self, fn, start, goal, ctx, avoid, assume=None):
        if self._origin is None and not self._impl_stack and start != (fn.entry, -1):
            self._origin = (fn.id, start)
            try:
                return self.reach_point(fn, start, goal, ctx, avoid, assume)
            finally:
                self._origin = None
        key = ('rp', fn.id, start, goal, ctx.key() if ctx else (), tuple(sorted(avoid)) if avoid else (), self._origin, assume)
        if key in self._ret_memo:
            return self._ret_memo[key]
        if key in self._impl_stack:
            return True
        self._impl_stack.add(key)
        try:
            r = self._walk(fn, start, ctx, False, [], goal=goal, avoid=avoid, assume=assume)[1]
        finally:
            self._impl_stack.discard(key)
        self._ret_memo[key] = r
        return r

    # ---------------------------------------------------------------- entry points
    def run(self, roots):
        for r in roots:
            self.explore(r, ROOT, True, [])
        return self.hits

    def after(self, fn, pt, ctx=ROOT):
        """is a normal exit of fn reachable from just after pt without a cut?"""
        if self._origin is None and not self._impl_stack and pt != (fn.entry, -1):
            self._origin = (fn.id, pt)
            try:
                return self._walk(fn, pt, ctx, False, [])[0]
            finally:
                self._origin = None
        return self._walk(fn, pt, ctx, False, [])[0]
