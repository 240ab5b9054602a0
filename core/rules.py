"""Reusable rule shapes on top of the program model and the query engine."""
from .prog import *
from .query import *


def calls_to(*names):
    s = set(names)
    return lambda fn, y: y['k'] in ('call', 'ctor') and y.get('n') in s


def is_call(y, *names):
    return y is not None and y.get('k') in ('call', 'ctor') and y.get('n') in names


def is_mem(y, *names):
    return y is not None and y.get('k') == 'mem' and y.get('n') in names


def writes_to(*names):
    """assignment (or non-const operator/mutator) whose destination is one of the fields"""
    s = set(names)

    def f(fn, y):
        if y['k'] == 'asg' or (y['k'] == 'call' and y.get('op') in ('=', '+=', '-=', '|=', '&=') and y.get('o') is not None):
            d = strip(fn, y['a'] if y['k'] == 'asg' else y['o'])
            return is_mem(d, *s)
        if y['k'] == 'un' and y['op'] in ('++', '--', 'post++', 'post--'):
            return is_mem(strip(fn, y['e']), *s)
        return False
    return f


def asg_parts(fn, y):
    """(dest, value) of an assignment node"""
    if y['k'] == 'asg':
        return strip(fn, y['a']), y['b'], y['op']
    if y['k'] == 'call' and y.get('op') in ('=', '+=', '-=', '|=', '&=') and y.get('o') is not None:
        return strip(fn, y['o']), (y['a'][0] if y.get('a') else None), y['op']
    return None


def enum_name(x):
    if x is None:
        return None
    return x['n'] if x['k'] == 'enum' else None


def arg(y, i):
    a = y.get('a', [])
    return a[i] if i < len(a) else None


def result_in(src, ok):
    """fact: a value obtained from a call matching src equals one of the enumerators ok"""
    ok = set(ok)

    def cond(q, fn, n, pt, ctx):
        if n[0] != '==':
            return False
        if enum_name(n[2]) not in ok:
            return False
        return q.from_call(fn, n[1], pt, ctx, src)
    return cond


def truth(match, pol=True):
    """fact: expression matching `match(q, fn, x)` is true (or false)"""
    def cond(q, fn, n, pt, ctx):
        if n[0] not in ('==', '!='):
            return False
        c = const_val(n[2])
        if c is None:
            return False
        lhs = strip(fn, n[1])
        if lhs is None or not match(q, fn, lhs):
            return False
        if c in (0, 1):
            val = (n[0] == '==') == (c == 1)
            if n[0] == '!=' and c == 0:
                val = True
            return val == pol
        return False
    return cond


def any_of(*conds):
    return lambda q, fn, n, pt, ctx: any(c(q, fn, n, pt, ctx) for c in conds)


def fns_with(P, pred):
    """functions that directly contain a node satisfying pred"""
    out = []
    for f in P.fns.values():
        for b, i, y in f.nodes():
            if pred(f, y):
                out.append(f); break
    return out


def tops(P, start, stop=lambda f: False, skip=lambda f: False):
    """climb callers from the functions `start`; stops at functions satisfying stop or without callers;
    functions satisfying skip are not climbed into (exempt contexts)"""
    roots = []; seen = set(); st = list(start)
    while st:
        f = st.pop()
        if f.id in seen or skip(f):
            continue
        seen.add(f.id)
        if stop(f):
            roots.append(f); continue
        cs = {c.id: c for c, y, how in P.callers(f)}
        if f.is_lambda and f.parent in P.fns and not cs:
            cs = {f.parent: P.fns[f.parent]}
        if not cs:
            roots.append(f); continue
        st.extend(cs.values())
    return roots


def guarded(P, R, rule, roots, target, cut_cond=None, cut_node=None, what='', key=None, follow_lambdas=True, enter=None, label=None, minimum=1, eh=True):
    """every path from the roots to a target passes a cut. One obligation per target site reached."""
    base = Query(P, target=target, follow_lambdas=follow_lambdas, enter=enter, eh=eh)
    base.run(roots)
    q = Query(P, target=target, cut_cond=cut_cond, cut_node=cut_node, follow_lambdas=follow_lambdas, enter=enter, eh=eh)
    q.run(roots)
    R.saw(*q.explored); R.saw(*base.explored)
    site = lambda h: (h[0].q, h[2].get('l'))
    bad = {}
    for h in q.hits:
        bad.setdefault(site(h), h)
    sites = {}
    for h in base.hits:
        sites.setdefault(site(h), h)
    if len(sites) < minimum:
        raise AnalysisError('rule %s: no target site is reachable from %s' % (rule, [r.q for r in roots]))
    for s, h in sorted(sites.items(), key=lambda e: (e[0][0], str(e[0][1]))):
        nm = label(h[0], h[2]) if label else show(h[0], h[2])[:90]
        k = '%s|%s|%s' % (rule, h[0].q, key or '')
        if s in bad:
            hb = bad[s]
            R.bad(rule, k, '%s: %s reached without the required check' % (what, nm), '%s:%s' % (hb[0].file, hb[2].get('l')), hb[3])
        else:
            R.ok(rule, '%s: %s' % (what, nm), '%s:%s' % (h[0].file, h[2].get('l')))
    return q


def leaf_text(fn, x):
    return show(fn, x)


# ------------------------------------------------------------------------------------------------ typestate
class Automaton:
    """Interprocedural typestate over an implicit per-activation resource: event(fn, node) -> symbol or None,
    step(state, symbol) -> state | None (path abandoned). cond(q, fn, norm, pt, ctx) -> symbol or None lets an
    implied branch fact act as an event. Summaries: entry state -> set of normal exit states."""

    def __init__(self, prog, event, step, cond_events=(), eh=True, follow_lambdas=False, on_state=None):
        self.P = prog; self.event = event; self.stepf = step; self.eh = eh
        self.conds = cond_events       # list of (Query-with-cut_cond, symbol)
        self.follow_lambdas = follow_lambdas
        self.on_state = on_state       # f(fn, b, node, state, trace) called before each event
        self.memo = {}; self.rel = None
        self.explored = set()

    def relevant(self):
        if self.rel is None:
            P = self.P; direct = set()
            for f in P.fns.values():
                for b, i, y in f.nodes():
                    if self.event(f, y) is not None:
                        direct.add(f.id); break
            dq = deque(direct); self.rel = set(direct)
            while dq:
                g = dq.popleft()
                for f, y, how in P.callers(P.fns[g]):
                    if how in ('call', 'dtor') or self.follow_lambdas:
                        if f.id not in self.rel:
                            self.rel.add(f.id); dq.append(f.id)
        return self.rel

    def elem(self, fn, b, idx, x, states, ctx, trace):
        order = list(fn.walk(x))
        # arguments are evaluated before the call itself
        for y in reversed(order):
            sym = self.event(fn, y)
            if sym is not None:
                new = set()
                for s in states:
                    if self.on_state:
                        self.on_state(fn, b, y, s, trace)
                    t = self.stepf(s, sym)
                    if t is not None:
                        new.add(t)
                states = new
                continue
            ts = []
            if y['k'] in ('call', 'ctor'):
                ts = self.P.targets(y)
            elif y['k'] in ('dtor', 'tdtor') and y.get('f') in self.P.fns:
                ts = [self.P.fns[y['f']]]
            elif y['k'] == 'lambda' and self.follow_lambdas:
                ts = self.P.lambda_fns(y)
            rel = [t for t in ts if t.id in self.relevant()]
            if ts and not rel and y['k'] == 'call' and self.conds:
                # a helper that only returns normally when the fact holds
                for q, sym in self.conds:
                    if all(q.asserts(t) for t in ts) and not any(q.explore(t, Ctx(fn, y, (b.id, idx), ctx), False, []) for t in ts):
                        new = set()
                        for s in states:
                            u = self.stepf(s, sym)
                            if u is not None:
                                new.add(u)
                        states = new
            if rel:
                new = set()
                if len(rel) < len(ts) or y['k'] == 'lambda':
                    new |= states
                for t in rel:
                    for s in states:
                        new |= self.summary(t, s, Ctx(fn, y if y['k'] in ('call', 'ctor') else {'k': 'call', 'a': [], 'l': y.get('l')}, (b.id, idx), ctx), trace + ['%s %s:%s' % (fn.q, fn.file, y.get('l'))])
                states = new
        return states

    def summary(self, fn, s, ctx=ROOT, trace=()):
        key = (fn.id, s, ctx.key(2))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = set()
        self.explored.add(fn.id)
        r = self.walk(fn, (fn.entry, 0), {s}, ctx, list(trace))
        self.memo[key] = r
        return r

    def walk(self, fn, start, states, ctx=ROOT, trace=()):
        trace = list(trace)
        inst = {}; dq = deque()
        exits = set()

        def push(bid, i0, ss):
            k = (bid, i0)
            old = inst.setdefault(k, set())
            new = ss - old
            if new:
                old |= new; dq.append((k, new))
        push(start[0], start[1], set(states))
        while dq:
            (bid, i0), ss = dq.popleft()
            if bid == fn.exit:
                exits |= ss; continue
            b = fn.blocks[bid]
            pre_last = ss
            for idx in range(i0, len(b.elems)):
                pre_last = ss
                ss = self.elem(fn, b, idx, b.elems[idx][1], ss, ctx, trace)
            for si, (t, k) in enumerate(b.succ):
                if t is None or k in ('dead', 'abort'):
                    continue
                if k in ('eh', 'catch'):
                    if not self.eh or t == fn.exit:
                        continue
                    push(t, 0, pre_last | ss)
                    continue
                out = ss
                for q, sym in self.conds:
                    for x, pol in edge_facts(fn, b, si):
                        if q.implies(fn, x, pol, (b.id, len(b.elems)), ctx):
                            new = set()
                            for s in out:
                                u = self.stepf(s, sym)
                                if u is not None:
                                    new.add(u)
                            out = new
                push(t, 0, out)
        return exits


def line_of(fn, y):
    return '%s:%s' % (fn.file, y.get('l'))


MUTATORS = {'erase', 'assign', 'append', 'clear', 'insert', 'push_back', 'emplace_back', 'swap', 'resize', 'pop_back', 'replace',
            'emplace', 'reset', 'push_front', 'emplace_front', 'pop_front', 'operator=', 'operator+='}


def mutated(P, fn, y):
    """lvalue expressions node y may change: assignment targets, receivers of mutating methods and
    non-const reference arguments of program functions"""
    out = []
    ap = asg_parts(fn, y)
    if ap:
        out.append(ap[0])
    elif y['k'] == 'un' and y['op'] in ('++', '--', 'post++', 'post--'):
        out.append(strip(fn, y['e']))
    elif y['k'] == 'call':
        if y.get('o') is not None and base_name(y.get('n', '')) in MUTATORS:
            out.append(strip(fn, y['o']))
        for t in P.targets(y):
            for p, a in zip(t.params, y.get('a', [])):
                ty = p['t']
                if ty.endswith('&') and not ty.endswith('&&') and not ty.startswith('const '):
                    out.append(strip(fn, a))
        if y.get('n') in ('std::swap', 'std::exchange', 'std::move') and y['n'] != 'std::move':
            out += [strip(fn, a) for a in y.get('a', [])]
    return [o for o in out if o is not None]


def has_mem(fn, x, name):
    """x is the field `name` (of anything) or something inside it"""
    n = 0
    while x is not None and n < 20:
        n += 1
        x = strip_ptr(fn, x)
        if x is None:
            return False
        if x['k'] == 'mem':
            if x['n'] == name:
                return True
            x = x['b']
        elif x['k'] == 'idx':
            x = x['b']
        elif x['k'] == 'call' and x.get('o') is not None and base_name(x.get('n', '')) in ('operator[]', 'at', 'front', 'back'):
            x = x['o']
        else:
            return False
    return False


def state_guard(P, R, rule, roots, targets, facts, resets=None, init=0, what='', follow_lambdas=False, minimum=1):
    """targets: [(pred, allowed states, label)]; facts: [(cut_cond, state reached)]; resets(fn,node)->bool
    puts the state back to init. Every target site reached from the roots must be in an allowed state."""
    sites = {}

    def event(fn, y):
        for i, (pred, ok, lab) in enumerate(targets):
            if pred(fn, y):
                return ('t', i)
        if resets and resets(fn, y):
            return ('r',)
        return None

    def step(s, sym):
        if sym[0] == 'r':
            return init
        if sym[0] == 'f':
            return sym[1] if sym[1] > s or s == init else s
        return s

    def on_state(fn, b, y, s, trace):
        e = event(fn, y)
        if e and e[0] == 't':
            pred, ok, lab = targets[e[1]]
            d = sites.setdefault((fn.id, y.get('l'), e[1]), {'fn': fn, 'y': y, 'lab': lab, 'bad': None})
            if s not in ok:
                d['bad'] = list(trace)
    conds = [(Query(P, cut_cond=c), ('f', st)) for c, st in facts]
    for c, _ in conds:
        c.resets = resets
    A = Automaton(P, event, step, cond_events=conds, on_state=on_state, follow_lambdas=follow_lambdas)
    for r in roots:
        A.summary(r, init, ROOT, ())
    R.saw(*A.explored)
    if len(sites) < minimum:
        raise AnalysisError('rule %s: %d target sites reachable, %d expected' % (rule, len(sites), minimum))
    for (fid, l, i), d in sorted(sites.items(), key=lambda e: (e[1]['fn'].file, str(e[0][1]))):
        key = '%s|%s|%s' % (rule, d['fn'].q, d['lab'])
        if d['bad'] is None:
            R.ok(rule, '%s: %s' % (what, d['lab']), '%s:%s' % (d['fn'].file, l))
        else:
            R.bad(rule, key, '%s: %s reached without the required decision' % (what, d['lab']), '%s:%s' % (d['fn'].file, l), d['bad'])
    return sites


def up_sources(P, fn, x, pt):
    """leaf expressions of x, parameters resolved through every caller: [(fn, expr)]"""
    q = Query(P); q.up = True
    return [(f, s) for f, s, _, _ in q.sources(fn, x, pt, ROOT)]


# ------------------------------------------------------------------------------------------------ condition builders
def tcall(name, pol=True):
    """fact: the result of a call to `name` is true / false"""
    names = {name} if isinstance(name, str) else set(name)
    return truth(lambda q, fn, x: x['k'] == 'call' and x.get('n') in names, pol)


def tmem(name, pol=True):
    return truth(lambda q, fn, x: is_mem(x, name), pol)


def deep_strip(q, fn, x, pt, ctx, depth=0):
    """x, or what a local x was initialised from"""
    return [s for _, s, _, _ in q.sources(fn, x, pt, ctx)]


def subject(x, names):
    """x is a call to / a field / global among names"""
    return x is not None and ((x['k'] in ('call', 'mem', 'gvar') and x.get('n') in names))


def compares(names, *allowed):
    """fact: <subject> <op> <constant>, allowed = (op, enumerator or number) pairs that imply the wanted fact"""
    names = {names} if isinstance(names, str) else set(names)
    al = set(allowed)

    def cond(q, fn, n, pt, ctx):
        c = enum_name(n[2])
        if c is None:
            c = const_val(n[2])
        if (n[0], c) not in al:
            return False
        x = strip(fn, n[1])
        if subject(x, names):
            return True
        if x is not None and x['k'] == 'var':
            srcs = q.sources(fn, x, pt, ctx)
            return bool(srcs) and all(subject(s, names) for _, s, _, _ in srcs)
        return False
    return cond


def in_set(P, names, enum, values):
    """fact: subject is one of the enumerators in `values` (complement tests included); enum: full enum name"""
    vals = {e['n'] for e in P.enums.values() for e in ()} if False else None
    full = enum_values(P, enum)
    good = set(values)
    al = set()
    order = sorted(full.items(), key=lambda e: e[1])
    for nm, v in full.items():
        if nm in good:
            al.add(('==', nm))
        if set(full) - {nm} <= good:
            al.add(('!=', nm))
        if {m for m, w in full.items() if w < v} <= good:
            al.add(('<', nm))
        if {m for m, w in full.items() if w <= v} <= good:
            al.add(('<=', nm))
        if {m for m, w in full.items() if w > v} <= good:
            al.add(('>', nm))
        if {m for m, w in full.items() if w >= v} <= good:
            al.add(('>=', nm))
    return compares(names, *al)


def enum_values(P, enum):
    for e in P.enums.values():
        if e['q'] == enum:
            return {(v['n'] if '::' in v['n'] else enum + '::' + v['n']): v['v'] for v in e['vals']}
    raise AnalysisError('enum %s not found' % enum)


def anyof_memo(*c):
    return any_of(*c)


def sites_of(P, pred):
    return [(f, b, i, y) for f in P.fns.values() for b, i, y in f.nodes() if pred(f, y)]


def always_after(P, R, rule, roots, event, reaction, what, key, ok_if=None, follow_lambdas=False, minimum=1, eh=False, reset=None):
    """typestate: once `event` happened, every normal exit of the root has passed `reaction`
    (branch facts in ok_if also discharge the obligation)"""
    sites = {}

    def ev(fn, y):
        if event(fn, y):
            return ('e', fn.id, y.get('l'))
        if reaction(fn, y):
            return ('r',)
        return None

    def step(s, sym):
        if sym[0] == 'r':
            return 0
        return sym
    conds = [(Query(P, cut_cond=c), ('r',)) for c in (ok_if or [])]

    def on_state(fn, b, y, s, trace):
        if event(fn, y):
            sites[(fn.id, y.get('l'))] = (fn, y, list(trace))
    A = Automaton(P, ev, step, cond_events=conds, follow_lambdas=follow_lambdas, eh=eh, on_state=on_state)
    bad = set()
    for r in roots:
        for s in A.summary(r, 0, ROOT, ()):
            if s:
                bad.add((s[1], s[2]))
    R.saw(*A.explored)
    if len(sites) < minimum:
        raise AnalysisError('rule %s: no triggering site found' % rule)
    for k, (fn, y, tr) in sorted(sites.items(), key=lambda e: (e[1][0].file, str(e[0][1]))):
        R.inst(rule, k not in bad, '%s|%s|%s' % (rule, fn.q, key), what, '%s:%s' % (fn.file, y.get('l')), tr)


# ------------------------------------------------------------------------------------------------ lvalues, points
def lval(q, fn, x, ctx=ROOT):
    """the object an lvalue expression denotes, through reference parameters (call context) and reference locals:
    (fn, expr, ctx)"""
    for _ in range(20):
        x = strip_ptr(fn, x)
        if x is None or x['k'] != 'var':
            return fn, x, ctx
        ids = [p['id'] for p in fn.params]
        if x['id'] in ids:
            p = fn.params[ids.index(x['id'])]
            if ctx is None or ctx.caller is None or not (p['t'].endswith('&') or p['t'].endswith('*')):
                return fn, x, ctx
            a = ctx.call.get('a', [])
            i = ids.index(x['id'])
            if i >= len(a):
                return fn, x, ctx
            fn, x, ctx = ctx.caller, a[i], ctx.parent
            continue
        ds = [d for d in fn.defs().get(x['id'], []) if d[2] == 'init']
        if len(ds) == 1 and ds[0][3] is not None and var_type(fn, x['id']).endswith('&'):
            x = ds[0][3]
            continue
        return fn, x, ctx
    return fn, x, ctx


def var_type(fn, vid):
    t = getattr(fn, '_vtypes', None)
    if t is None:
        t = {p['id']: p['t'] for p in fn.params}
        for b, i, y in fn.nodes():
            if y['k'] == 'decl':
                for v in y['d']:
                    t[v['id']] = v['t']
        fn._vtypes = t
    return t.get(vid, '')


def points(fn):
    """node identity -> (block, index)"""
    m = getattr(fn, '_pts', None)
    if m is None:
        m = {id(y): (b.id, i) for b, i, y in fn.nodes()}
        fn._pts = m
    return m


def normal_exit(P, fn, cut_cond=None, cut_node=None, eh=True, enter=None, start=None, ctx=ROOT):
    """can fn return normally without passing the cut? (start: from just after this point)"""
    q = Query(P, cut_cond=cut_cond, cut_node=cut_node, eh=eh, enter=enter)
    if start is None:
        return q.explore(fn, ctx, False, [])
    return q.after(fn, start, ctx)


def returns_only_if(P, R, rule, fn, cond, key, what, cut_node=None, enter=None):
    """obligation: fn does not return normally unless the fact holds"""
    bad = normal_exit(P, fn, cond, cut_node, enter=enter)
    R.saw(fn.id)
    R.inst(rule, not bad, '%s|%s|%s' % (rule, fn.q, key), what, fn.loc)
    return not bad


def masked(q, fn, x, pt, ctx, mask, src):
    """x is (src & M) with M covering mask: all bits of mask are tested; returns M or None"""
    x = strip(fn, x)
    if x is not None and x['k'] == 'var':
        ss = q.sources(fn, x, pt, ctx)
        if len(ss) != 1 or ss[0][1] is None or ss[0][1]['k'] == 'var':
            return None
        f, s, p, c = ss[0]
        return masked(q, f, s, p, c, mask, src)
    if x is None or x['k'] != 'bin' or x['op'] != '&':
        return None
    for a, b in ((x['a'], x['b']), (x['b'], x['a'])):
        m = const_val(strip(fn, b))
        if m is not None and (m & mask) == mask and all(s is not None and src(f, s) for f, s, _, _ in q.sources(fn, a, pt, ctx)):
            return m
    return None


def stay(fn, h, cyc):
    """the fact under which the loop of blocks cyc goes on from its exit block h"""
    for si, (t, k) in enumerate(h.succ):
        if k == 'n' and t in cyc:
            for x, pol in edge_facts(fn, h, si):
                return norm(fn, x, pol)
    return None


def cycle_blocks(fn, bid):
    """blocks that lie on a cycle through block bid"""
    def reach(start, nxt):
        seen = set(); st = [start]
        while st:
            b = st.pop()
            for t in nxt(b):
                if t not in seen:
                    seen.add(t); st.append(t)
        return seen
    fwd = reach(bid, lambda b: [t for t, k in fn.blocks[b].succ if t is not None and k in ('n',)])
    if bid not in fwd:
        return set()
    bwd = reach(bid, lambda b: [p for p, k in fn.blocks[b].preds if k == 'n'])
    return fwd & bwd


def valued(P, fn, x, pt, const, cond, op='=='):
    """whenever expression x has the value `const` (enumerator node / number) at pt, the fact holds"""
    q = Query(P, cut_cond=cond)
    c = const if isinstance(const, dict) else {'k': 'int', 'v': const}
    v = const_val(strip(fn, x))
    if v is not None:
        if not OPS[op](v, const_val(c)):
            return True
    elif q.implies(fn, {'k': 'bin', 'op': op, 'a': x, 'b': c}, True, pt, ROOT):
        return True
    return not q.reach_point(fn, (fn.entry, -1), pt, ROOT, None)


def enumc(P, name):
    """enumerator as an expression node"""
    en, v = name.rsplit('::', 1)
    return {'k': 'enum', 'n': name, 'v': enum_values(P, en)[name]}


def arg_is(P, fn, x, pt, pred):
    """every source of x satisfies pred(fn, leaf)"""
    ss = Query(P).sources(fn, x, pt, ROOT)
    return bool(ss) and all(s is not None and pred(f, s) for f, s, _, _ in ss)


def bvalued(P, fn, x, pt, pol, cond):
    """whenever the boolean expression x is `pol` at pt, the fact holds"""
    v = const_val(strip(fn, x))
    q = Query(P, cut_cond=cond)
    if v is not None:
        if bool(v) != pol:
            return True
    elif q.implies(fn, x, pol, pt, ROOT):
        return True
    return not q.reach_point(fn, (fn.entry, -1), pt, ROOT, None)
