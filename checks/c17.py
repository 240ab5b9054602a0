"""Live delivery: a publish goes to exactly the matching subscriptions, each with its own options."""
from core.rules import *
from checks.c11 import must, reaches, param0, on_mem, each
from checks.c15 import isnull, gather, timer
from checks.c16 import gather_defs, isv

ST = 'SubscriptionStore::'
N = 'SubscriptionNode::'
PR, NR, QP = ST + 'publishRecursively', ST + 'publishNonRecursively', ST + 'queuePacketAtSubscribers'
SH = 'SharedSubscribers::'
SUB = 'Subscription::'


def check(P, R):
    R.rule('start', 'the walk starts at the root for the topic and covers the whole topic')
    R.rule('walk', 'at every level exact, + and # subscriptions are followed, and nothing else')
    R.rule('target', 'every subscription found becomes a target unless its session is gone, it is no-local or it is of the same group')
    R.rule('options', 'a target has the session, QoS, retain-as-published and identifier of its own subscription')
    R.rule('shared', 'of a shared subscription exactly one member with a living session is chosen')
    R.rule('members', 'the member list of a shared subscription answers for exactly the client asked for')
    R.rule('deliver', 'every target gets the packet')
    start(P, R)
    walk(P, R)
    target(P, R)
    shared(P, R)


def node_kind(P, f, x, pt, me):
    """which child of the current node an expression denotes"""
    zs = gather(P, f, x, pt) + [z for z in gather_defs(f, x)]
    ms = {base_name(z['n']) for z in zs if z['k'] == 'mem' and z['n'].startswith(N)}
    if not any(z['k'] == 'var' and z['id'] == me for z in zs):
        return None
    ms &= {'childrenPound', 'childrenPlus', 'children'}
    if len(ms) > 1:
        return None
    return (list(ms) or ['this'])[0]


class Offsets:
    """position of iterator expressions relative to the parameter's value on entry"""

    def __init__(self, P, f, vid):
        self.P, self.f, self.v = P, f, vid
        self.steps = {}
        for b, i, y in f.nodes():
            d = self.step(y)
            if d is not None:
                self.steps.setdefault((b.id, i), []).append(d)
        self.at = {}
        st = [(f.entry, 0)]
        seen = set()
        while st:
            bid, n = st.pop()
            if (bid, n) in seen or (n is not None and abs(n) > 6):
                continue
            seen.add((bid, n))
            b = f.blocks[bid]
            for i in range(len(b.elems) + 1):
                self.at.setdefault((bid, i), set()).add(n)
                for d in self.steps.get((bid, i), []):
                    n = None if (n is None or d == 'set') else n + d
            for t, k in b.succ:
                if t is not None and k == 'n':
                    st.append((t, n))

    def isv(self, x):
        x = strip(self.f, x)
        return x is not None and x['k'] == 'var' and x['id'] == self.v

    def step(self, y):
        if y['k'] == 'un' and '++' in y['op'] and self.isv(y['e']):
            return 1
        if y['k'] == 'un' and '--' in y['op'] and self.isv(y['e']):
            return -1
        if y['k'] == 'call' and y.get('op') in ('++', '--') and y.get('o') is not None and self.isv(y['o']):
            return 1 if y['op'] == '++' else -1
        if y['k'] == 'call' and y.get('n') == 'std::advance' and self.isv(y['a'][0]):
            c = const_val(strip(self.f, y['a'][1])); return c if c is not None else 'set'
        ap = asg_parts(self.f, y)
        if ap is not None and self.isv(ap[0]):
            if ap[2] == '+=' and const_val(strip(self.f, ap[1])) is not None:
                return const_val(strip(self.f, ap[1]))
            return 'set'
        return None

    def off(self, x, pt, d=0):
        """set of possible offsets of the iterator expression x evaluated at pt; None for anything else"""
        f = self.f; raw = x
        x = strip(f, x)
        if x is None or d > 8:
            return {None}
        p = self.pt(raw, pt)
        if x['k'] == 'var':
            if x['id'] == self.v:
                return self.at.get(p, {None})
            ds = [e for e in f.defs().get(x['id'], []) if e[2] in ('init', 'asg')]
            oth = [e for e in f.defs().get(x['id'], []) if e[2] not in ('init', 'asg')]
            if len(ds) == 1 and not oth and ds[0][3] is not None:
                return self.off(ds[0][3], (ds[0][0], ds[0][1]), d + 1)
            return {None}
        if x['k'] in ('un', 'call') and self.step(x) is not None:
            pre = not (x['k'] == 'un' and x['op'].startswith('post')) and not (x['k'] == 'call' and x.get('a'))
            s = self.step(x)
            return {None if n is None or s == 'set' else (n + s if pre else n) for n in self.at.get(p, {None})}
        if x['k'] == 'call' and x.get('n') == 'std::next' and x.get('a'):
            c = const_val(strip(f, x['a'][1])) if len(x['a']) > 1 and strip(f, x['a'][1]) is not None else 1
            c = 1 if c in (None, 0) and len(x['a']) < 2 else c
            if len(x['a']) > 1 and strip(f, x['a'][1])['k'] not in ('int',):
                c = 1
            return {None if n is None or c is None else n + c for n in self.off(x['a'][0], p, d + 1)}
        if (x['k'] == 'bin' and x['op'] == '+') or (x['k'] == 'call' and x.get('op') == '+'):
            a, b = (x['a'], x['b']) if x['k'] == 'bin' else (x.get('o') or x['a'][0], x['a'][-1])
            c = const_val(strip(f, b))
            return {None if n is None or c is None else n + c for n in self.off(a, p, d + 1)}
        return {None}

    def pt(self, raw, pt):
        """where an expression that is an own element was evaluated"""
        n = 0
        while raw is not None and raw.get('k') in ('cast', 'narrow', 'ref', 'ctor', 'init') and n < 20:
            n += 1
            if raw['k'] == 'ref':
                if raw['i'] in self.f.where:
                    pt = self.f.where[raw['i']]
                raw = self.f.el.get(raw['i'])
            elif raw['k'] in ('ctor', 'init'):
                if len(raw.get('a', [])) != 1:
                    break
                raw = raw['a'][0]
            else:
                raw = raw['e']
        return pt

    def derefs(self, x, pt, d=0):
        """offsets of the elements an expression reads: *it, through reference locals"""
        f = self.f; raw = x
        x = strip(f, x)
        if x is None or d > 8:
            return {None}
        p = self.pt(raw, pt)
        if x['k'] == 'un' and x['op'] == '*':
            return self.off(x['e'], p, d + 1)
        if x['k'] == 'call' and x.get('op') == '*' and (x.get('o') is not None or x.get('a')):
            return self.off(x['o'] if x.get('o') is not None else x['a'][0], p, d + 1)
        if x['k'] == 'var':
            ds = [e for e in f.defs().get(x['id'], []) if e[2] in ('init', 'asg')]
            if len(ds) == 1 and ds[0][3] is not None:
                return self.derefs(ds[0][3], (ds[0][0], ds[0][1]), d + 1)
        return {None}


def start(P, R):
    f = P.one(QP); R.saw(f.id)
    dol = [k for k, p in enumerate(f.params) if 'bool' in p['t']]
    if len(dol) != 1:
        raise AnalysisError('queuePacketAtSubscribers parameters')
    dpol = lambda pol: truth(lambda q, fn, x: x['k'] == 'var' and fn.id == f.id and x['id'] == f.params[dol[0]]['id'], pol)
    isdol = lambda pol: lambda q, fn, n, pt, ctx: (n[0] == ('==' if pol else '!=')) and const_val(n[2]) == 36 and any(z['k'] == 'call' and base_name(z.get('n', '')) == 'getTopic' for z in gather_defs(fn, n[1])) or starts(fn, n, pol)
    def starts(fn, n, pol):
        x = strip(fn, n[1])
        return x is not None and x['k'] == 'call' and base_name(x.get('n', '')) in ('starts_with', 'startsWith') and (n[0], const_val(n[2])) in ((('!=', 0), ('==', 1)) if pol else (('==', 0), ('!=', 1))) and any(z['k'] == 'call' and base_name(z.get('n', '')) == 'getTopic' for z in gather_defs(fn, x))
    w = [(b, i, y) for b, i, y in f.nodes() if is_call(y, PR)]
    R.inst('start', len(w) >= 1, 'start|walk', 'the tree is walked', f.loc)
    fromtd = lambda fn, x, m: any(z['k'] == 'call' and base_name(z.get('n', '')) in m and z.get('o') is not None and any(u['k'] == 'call' and base_name(u.get('n', '')) == 'getSubtopics' for u in gather_defs(fn, z['o'])) for z in gather_defs(fn, x))
    for b, i, y in w:
        pt = (b.id, i)
        R.inst('start', fromtd(f, y['a'][0], ('begin', 'cbegin')) and fromtd(f, y['a'][1], ('end', 'cend')) and not any(z.get('op') in ('++', '+') or z.get('n') in ('std::next', 'std::advance') for z in gather_defs(f, y['a'][0])), 'start|all', 'over the whole topic', line_of(f, y))
        # root by kind of topic
        q = Query(P)
        for root, pol in (('root', False), ('rootDollar', True)):
            for f2, s, p, c in roots(q, f, y['a'][2], pt, root):
                pass
            R.inst('start', root_ok(P, f, y['a'][2], pt, root, dpol(pol)), 'start|' + root, '%s is used only for %s topics' % (root, 'system' if pol else 'ordinary'), line_of(f, y))
        R.inst('start', not reaches(P, f, (f.entry, -1), [pt], cond=any_of(dpol(True), isdol(False))), 'start|dollar', 'ordinary publishers do not reach $ topics', line_of(f, y))
        snd = [k for k, p in enumerate(f.params) if 'string' in p['t'] and 'optional' not in p['t']]
        R.inst('start', len(y['a']) >= 6 and param0(f, y['a'][4], pt, snd[0]) and any(z['k'] == 'var' and 'optional' in (var_type(f, z['id']) or '') for z in f.walk(y['a'][5], True)), 'start|sender', 'with sender and group of the publisher', line_of(f, y))
    # the walk is not skipped for anything but $ topics
    q = Query(P, cut_cond=isdol(True), cut_node=lambda fn, z, qq: is_call(z, PR), eh=False)
    R.inst('start', not q.explore(f, ROOT, False, []), 'start|always', 'every other publish walks the tree', f.loc)
    q = Query(P, cut_cond=dpol(False), cut_node=lambda fn, z, qq: is_call(z, PR), eh=False)
    R.inst('start', not q.explore(f, ROOT, False, []), 'start|internal', 'internal publishes on $ topics walk the tree', f.loc)
    # every target gets the packet
    tv = None
    for b, i, y in w:
        s = strip(f, y['a'][3]); tv = s['id'] if s is not None and s['k'] == 'var' else None
    wr = [(b, i, y) for b, i, y in f.nodes() if y['k'] == 'call' and y.get('n') == 'Session::writePacket']
    R.inst('deliver', len(wr) == 1 and tv is not None, 'deliver|write', 'targets are written to', f.loc)
    for b, i, y in wr:
        pt = (b.id, i)
        R.inst('deliver', tv is not None and each(P, f, pt, lambda s: s['k'] == 'var' and s['id'] == tv), 'deliver|each', 'every target gets the packet', line_of(f, y))
        el = []
        for a in [y['o']] + y['a'][1:4]:
            ms = [z for z in gather_defs(f, a) if z['k'] == 'mem' and z['n'].startswith('ReceivingSubscriber::')]
            el.append(base_name(ms[0]['n']) if ms else None)
        R.inst('deliver', el == ['session', 'qos', 'retainAsPublished', 'subscriptionIdentifier'] and param0(f, y['a'][0], pt, 0), 'deliver|options', 'with the options of that target', line_of(f, y))
        bases = {show(f, strip(f, z['b'])) for a in [y['o']] + y['a'][1:4] for z in gather_defs(f, a) if z['k'] == 'mem' and z['n'].startswith('ReceivingSubscriber::')}
        R.inst('deliver', len(bases) == 1, 'deliver|same', 'all of one target', line_of(f, y))
        R.inst('deliver', not reaches(P, f, (f.entry, -1), [pt], node=lambda fn, z, qq=None: is_call(z, PR)), 'deliver|found', 'after the walk', line_of(f, y))
    if tv is not None:
        for b, i, y in f.nodes():
            if y['k'] == 'call' and y.get('o') is not None and isv(f, y['o'], tv):
                R.inst('deliver', base_name(y['n']) in ('reserve', 'size', 'begin', 'end', 'cbegin', 'cend', 'empty', 'operator[]', 'at', 'capacity', 'data'), 'deliver|kept', 'targets are not changed after the walk', line_of(f, y))
    # the record keeps what it was given
    for c in P.byq.get('ReceivingSubscriber::ReceivingSubscriber', []):
        if len(c.params) != 4:
            continue
        R.saw(c.id)
        for fld, k in (('session', 0), ('qos', 1), ('retainAsPublished', 2), ('subscriptionIdentifier', 3)):
            ok = any(y['k'] == 'minit' and base_name(y.get('n') or '') == fld and y.get('e') is not None and any(z['k'] == 'var' and z['id'] == c.params[k]['id'] for z in c.walk(y['e'], True)) and not any(z['k'] in ('bin', 'cond', 'un') for z in c.walk(y['e'], True)) for _, _, y in c.nodes())
            R.inst('options', ok, 'options|record|' + fld, '%s of a target is the one given' % fld, c.loc)


def roots(q, f, x, pt, root):
    return [r for r in q.sources(f, x, pt, ROOT)]


def root_ok(P, f, x, pt, root, cond):
    """x denotes the given root only when the fact holds; and denotes it whenever the fact holds"""
    def rec(x, pt, d=0):
        """(found, ok)"""
        s = strip_ptr(f, x)
        if s is None or d > 8:
            return False, False
        if s['k'] == 'mem':
            if base_name(s['n']) == root:
                return True, not reaches(P, f, (f.entry, -1), [pt], cond=cond)
            return False, True
        if s['k'] == 'cond':
            q = Query(P, cut_cond=cond)
            fa, oa = rec(s['a'], pt, d + 1); fb, ob = rec(s['b'], pt, d + 1)
            if fa:
                oa = q.implies(f, s['c'], True, pt, ROOT) or oa
            if fb:
                ob = q.implies(f, s['c'], False, pt, ROOT) or ob
            return fa or fb, oa and ob
        if s['k'] == 'var':
            fs, oks = False, True
            for e in f.defs().get(s['id'], []):
                if e[3] is None:
                    return False, False
                a, b = rec(e[3], (e[0], e[1]), d + 1)
                if a and not b:
                    # overwritten on the other side?
                    b = not Query(P, cut_cond=cond, eh=False).reach_point(f, (e[0], e[1]), pt, ROOT, {(z[0], z[1]) for z in f.defs()[s['id']] if (z[0], z[1]) != (e[0], e[1])})
                fs |= a; oks &= b
            return fs, oks
        return False, False
    a, b = rec(x, pt)
    return a and b


def walk(P, R):
    f = P.one(PR); R.saw(f.id)
    cur, end, me = (f.params[k]['id'] for k in range(3))
    O = Offsets(P, f, cur)

    def ends(op):
        def c(q, fn, n, pt, ctx):
            if fn.id != f.id or n[0] != op:
                return False
            for a, b in ((n[1], n[2]), (n[2], n[1])):
                if isv(f, b, end) and O.off(a, pt) == {0}:
                    return True
            return False
        return c
    atend, notend = ends('=='), ends('!=')
    nul = lambda kind, pol=True: (lambda z: any_of(isnull(z), truth(lambda q, fn, x: z(q, fn, x, None, ROOT), False)) if pol else any_of(lambda q, fn, n, pt, ctx: n[0] == '!=' and const_val(n[2]) == 0 and z(q, fn, n[1], pt, ctx)))(lambda q, fn, x, pt, ctx: fn.id == f.id and x is not None and strip(fn, x) is not None and strip(fn, x)['k'] in ('mem', 'var', 'call') and (node_kind(P, f, x, pt, me) if pt else kind0(f, x, me)) == kind)
    NRk = lambda kind: lambda fn, y, q=None: fn.id == f.id and is_call(y, NR) and node_kind(P, f, y['a'][0], points(f)[id(y)], me) == kind
    RECk = lambda kind: lambda fn, y, q=None: fn.id == f.id and is_call(y, PR) and node_kind(P, f, y['a'][2], points(f)[id(y)], me) == kind
    must(P, R, 'walk', f, NRk('this'), 'own', 'at the end of the topic the subscriptions of the node', cond=any_of(notend, nul('this')))
    must(P, R, 'walk', f, NRk('childrenPound'), 'pound', '# below a node, at every level and at the end', cond=any_of(nul('childrenPound'), nul('this')))
    must(P, R, 'walk', f, RECk('childrenPlus'), 'plus', '+ is followed', cond=any_of(atend, nul('childrenPlus')))
    isfind = lambda x: x is not None and x['k'] == 'call' and base_name(x.get('n', '')) in ('find', 'contains', 'count') and has_mem(f, x['o'], N + 'children')
    def nofind(q, fn, n, pt, ctx):
        if fn.id != f.id or n[0] != '==':
            return False
        a, b = ([s for _, s, _, _ in q.sources(fn, z, pt, ctx)] for z in n[1:])
        fi = lambda l: any(isfind(s) for s in l) or any(isfind(z) for s in l if s is not None for z in f.walk(s, True))
        en = lambda l: any(s is not None and s['k'] == 'call' and base_name(s.get('n', '')) in ('end', 'cend') for s in l) or const_val(n[2]) == 0
        return (fi(a) and en(b)) or (fi(b) and en(a))
    noch = truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and x.get('o') is not None and has_mem(fn, x['o'], N + 'children'), True)
    nocnt = truth(lambda q, fn, x: isfind(x), False)
    must(P, R, 'walk', f, RECk('children'), 'exact', 'the child of that name is followed', cond=any_of(atend, nofind, noch, nocnt))
    nr = rc = 0
    for b, i, y in f.nodes():
        pt = (b.id, i)
        if is_call(y, NR):
            nr += 1
            k = node_kind(P, f, y['a'][0], pt, me)
            R.inst('walk', k in ('this', 'childrenPound'), 'walk|nr', 'only the node at the end and # below it', line_of(f, y))
            if k == 'this':
                R.inst('walk', not reaches(P, f, (f.entry, -1), [pt], cond=atend), 'walk|end', 'a node without # only at the end of the topic', line_of(f, y))
            same = lambda z: is_call(z, NR) and node_kind(P, f, z['a'][0], points(f)[id(z)], me) == k
            R.inst('walk', not any(same(z) and reaches(P, f, pt, [(b2.id, i2)]) for b2, i2, z in f.nodes()), 'walk|once|' + str(k), 'each node once', line_of(f, y))
        if is_call(y, PR):
            rc += 1
            k = node_kind(P, f, y['a'][2], pt, me)
            R.inst('walk', k in ('childrenPlus', 'children'), 'walk|rec', 'only + and the child of that name', line_of(f, y))
            R.inst('walk', O.off(y['a'][0], pt) == {1} and isv(f, y['a'][1], end), 'walk|next', 'with the next part of the topic', line_of(f, y))
            R.inst('walk', not reaches(P, f, (f.entry, -1), [pt], cond=notend), 'walk|more', 'before the end of the topic', line_of(f, y))
            if k == 'children':
                R.inst('walk', not reaches(P, f, (f.entry, -1), [pt], cond=lambda q, fn, n, p, c: n[0] == '!=' and nofind(q, fn, ('==',) + tuple(n[1:]), p, c)), 'walk|found', 'only when there is one', line_of(f, y))
                at = [z for z in gather_defs(f, y['a'][2]) if z['k'] == 'call' and base_name(z.get('n', '')) in ('find', 'at', 'operator[]') and has_mem(f, z['o'], N + 'children')]
                R.inst('walk', bool(at) and all(O.derefs(z['a'][0], points(f)[id(z)]) == {0} for z in at), 'walk|name', 'of the name of this part of the topic', line_of(f, y))
            same = lambda z: is_call(z, PR) and node_kind(P, f, z['a'][2], points(f)[id(z)], me) == k
            R.inst('walk', not any(same(z) and reaches(P, f, pt, [(b2.id, i2)]) for b2, i2, z in f.nodes()), 'walk|once|' + str(k), 'each child once', line_of(f, y))
        if is_call(y, PR, NR):
            o = 2 if is_call(y, PR) else 0
            R.inst('walk', all(isv(f, a, f.params[k]['id']) for a, k in zip(y['a'][o + 1:], (3, 4, 5))), 'walk|same', 'the same targets, sender and group', line_of(f, y))
    if not nr or not rc:
        raise AnalysisError('publishRecursively')
    for g, b, i, y in sites_of(P, calls_to(PR, NR)):
        R.inst('walk', g.q in (PR, QP), 'walk|caller|' + g.q, 'walked by %s' % g.q, line_of(g, y))


def kind0(f, x, me):
    zs = gather_defs(f, x)
    ms = {base_name(z['n']) for z in zs if z['k'] == 'mem' and z['n'].startswith(N)} & {'childrenPound', 'childrenPlus', 'children'}
    if not any(z['k'] == 'var' and z['id'] == me for z in zs) or len(ms) > 1:
        return None
    return (list(ms) or ['this'])[0]


def head(f, bid):
    """entry block of the innermost loop around a block: where it is entered from outside"""
    best = None
    cyc = cycle_blocks(f, bid)
    if not cyc:
        return None, set()
    hs = [c for c in cyc if any(p not in cyc for p, k in f.blocks[c].preds if k == 'n')]
    return (hs[0] if len(hs) == 1 else None), cyc


def target(P, R):
    f = P.one(NR); R.saw(f.id)
    ts, snd, grp = (f.params[k]['id'] for k in (1, 2, 3))
    add = [(b, i, y) for b, i, y in f.nodes() if y['k'] == 'call' and y.get('o') is not None and isv(f, y['o'], ts) and base_name(y['n']) in ('emplace_back', 'push_back')]
    pop = lambda fn, y, q=None: fn.id == f.id and y['k'] == 'call' and y.get('o') is not None and isv(f, y['o'], ts) and base_name(y['n']) in ('pop_back', 'erase')
    kinds = {}
    for b, i, y in f.nodes():
        if y['k'] == 'call' and y.get('o') is not None and isv(f, y['o'], ts):
            R.inst('target', base_name(y['n']) in ('emplace_back', 'push_back', 'pop_back', 'back', 'size', 'empty', 'reserve'), 'target|op', 'targets are only added, and the last one taken back', line_of(f, y))
    sess = lambda fn, x: any(z['k'] == 'mem' and z['n'] in (SUB + 'session', 'ReceivingSubscriber::session') for z in gather_defs(fn, x))
    issess = lambda fn, x: (lambda w: w is not None and (w['k'] == 'mem' and base_name(w['n']) == 'session' or w['k'] == 'call' and base_name(w.get('n', '')) == 'lock' and sess(fn, w['o']) or w['k'] == 'var' and sess(fn, w) and 'Session' in (var_type(fn, w['id']) or '') and 'optional' not in (var_type(fn, w['id']) or '') and 'string' not in (var_type(fn, w['id']) or '')))(strip_ptr(fn, x))
    gone = any_of(isnull(lambda q, fn, x, pt, ctx: issess(fn, x)), truth(lambda q, fn, x: issess(fn, x), False), truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'expired' and sess(fn, x['o']), True))
    alive = any_of(lambda q, fn, n, pt, ctx: n[0] == '!=' and const_val(n[2]) == 0 and issess(fn, n[1]) and not (strip(fn, n[1])['k'] == 'call' and base_name(strip(fn, n[1]).get('n', '')) == 'expired'))
    nolocal = lambda pol: truth(lambda q, fn, x: is_mem(x, SUB + 'noLocal'), pol)
    def cmpx(call, who, op):
        def c(q, fn, n, pt, ctx):
            if fn.id != f.id or n[0] != op:
                return False
            for a, b in ((n[1], n[2]), (n[2], n[1])):
                if isv(fn, b, who) and any(z['k'] == 'call' and base_name(z.get('n', '')) == call for z in gather_defs(fn, a)) and sess(fn, a):
                    return True
            return False
        return c
    own, other = cmpx('getClientId', snd, '=='), cmpx('getClientId', snd, '!=')
    sameg, otherg = cmpx('getFmqClientGroupId', grp, '=='), cmpx('getFmqClientGroupId', grp, '!=')
    isg = lambda fn, x: (isv(fn, x, grp) or (any(z['k'] == 'call' and base_name(z.get('n', '')) == 'getFmqClientGroupId' for z in gather_defs(fn, x)) and strip(fn, x)['k'] in ('var', 'call')))
    nog = any_of(truth(lambda q, fn, x: isg(fn, x) or (x['k'] == 'call' and base_name(x.get('n', '')) in ('has_value', 'operator bool') and isg(fn, x['o'])), False), isnull(lambda q, fn, x, pt, ctx: isg(fn, x)))
    for b, i, y in add:
        pt = (b.id, i)
        zs = gather(P, f, y['a'][0], pt) + gather_defs(f, y['a'][0])
        ms = {z['n'] for z in zs if z['k'] == 'mem'}
        kind = 'shared' if (N + 'sharedSubscribers') in ms or any(z['k'] == 'call' and z.get('n', '').startswith(SH) for z in zs) else 'plain' if (N + 'subscribers') in ms else None
        R.inst('target', kind is not None, 'target|source', 'targets are subscriptions of the node', line_of(f, y))
        if kind is None:
            continue
        kinds.setdefault(kind, []).append((pt, y))
        names = [(lambda w: base_name(w['n']) if w is not None and w['k'] == 'mem' and w['n'].startswith(SUB) else None)(opt(P, f, a, pt)) for a in y['a'][:4]]
        R.inst('options', names == ['session', 'qos', 'retainAsPublished', 'subscriptionIdentifier'], 'options|' + kind, 'session and options of the subscription', line_of(f, y))
        bs = {show(f, strip(f, opt(P, f, a, pt)['b'])) for a in y['a'][:4] if opt(P, f, a, pt) is not None and opt(P, f, a, pt)['k'] == 'mem'}
        R.inst('options', len(bs) == 1, 'options|one|' + kind, 'of one and the same', line_of(f, y))
        h, cyc = head(f, pt[0])
        R.inst('target', h is not None, 'target|loop|' + kind, 'in a loop over the subscriptions', line_of(f, y))
        if h is None:
            continue
        hp = (h, -1); goals = [(h, 0)]
        src = N + ('subscribers' if kind == 'plain' else 'sharedSubscribers')
        pops = [(b2.id, i2) for b2, i2, z in f.nodes() if pop(f, z)]
        needs = [('alive', alive)]
        if kind == 'plain':
            needs.append(('nolocal', any_of(nolocal(False), other)))
        needs.append(('group', any_of(nog, otherg)))
        for k, c in needs:
            # from the head of a round through the adding to the next round, not taken back
            q1 = Query(P, cut_cond=c, eh=False); q2 = Query(P, cut_cond=c, cut_node=pop, eh=False)
            bad = q1.reach_point(f, hp, pt, ROOT, None) and (q2.after(f, pt) or q2.reach_point(f, pt, (h, len(f.blocks[h].elems)), ROOT, None))
            R.inst('target', not bad, 'target|%s|%s' % (kind, k), 'a target is kept only if ' + {'alive': 'its session exists', 'nolocal': 'it is not a no-local subscription of the sender', 'group': 'it is not of the group of the sender'}[k], line_of(f, y))
        # taken back only for a reason: each conjunction
        rs = [('self', [nolocal(True), own]), ('group', [sameg])] if kind == 'plain' else [('group', [sameg])]
        import itertools
        mine = [p for p in pops if Query(P)._plain_reach(f, pt, p, {x[0] for x in sum(kinds.values(), []) if x[0] != pt})]
        for p in mine:
            for combo in itertools.product(*[c for _, c in rs]):
                R.inst('target', not reaches(P, f, pt, [p], cond=any_of(gone, *combo)), 'target|%s|back' % kind, 'taken back only when gone, no-local for the sender, or of the same group', line_of(f, y))
            R.inst('target', not any(Query(P)._plain_reach(f, p, p2, {x[0] for x in sum(kinds.values(), [])}) for p2 in mine), 'target|%s|backonce' % kind, 'and only itself', line_of(f, y))
        # not added only for a reason
        nosub = isnull(lambda q, fn, x, pt2, ctx: strip(fn, x) is not None and strip(fn, x)['k'] == 'var' and 'Subscription' in (var_type(fn, strip(fn, x)['id']) or ''))
        body = [t for t, kk in f.blocks[h].succ if t in cyc and kk == 'n'] if len(f.blocks[h].succ) == 2 else []
        for combo in itertools.product(*[c for _, c in rs]):
            cond = any_of(gone, nosub, *combo)
            ok = each(P, f, pt, lambda s: has_mem(f, s, src), skip=cond)
            R.inst('target', ok, 'target|%s|each' % kind, 'every one is added', line_of(f, y))
    for k in ('plain', 'shared'):
        R.inst('target', len(kinds.get(k, [])) == 1, 'target|%s|is' % k, '%s subscriptions become targets' % k, f.loc)
    # both loops are reached
    for k, fld in (('plain', 'subscribers'), ('shared', 'sharedSubscribers')):
        for pt, y in kinds.get(k, []):
            h, cyc = head(f, pt[0])
            emp = truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and x.get('o') is not None and has_mem(fn, x['o'], N + fld), True)
            if h is not None:
                seen = set(); st = [f.entry]; q = Query(P, cut_cond=emp, eh=False)
                ok = True
                while st:
                    u = st.pop()
                    if u in seen or u == h:
                        continue
                    seen.add(u)
                    if u == f.exit:
                        ok = False; break
                    for si, (t, kk) in enumerate(f.blocks[u].succ):
                        if t is not None and kk == 'n' and not any(q.implies(f, x, p, (u, len(f.blocks[u].elems)), ROOT) for x, p in edge_facts(f, f.blocks[u], si)):
                            st.append(t)
                R.inst('target', ok, 'target|%s|reached' % k, 'they are looked at in every case', line_of(f, y))
    # who is chosen
    T = 'SharedSubscriptionTargeting'
    tg = lambda q, fn, x, pt, ctx: any(is_mem(s, 'Settings::sharedSubscriptionTargeting') or (s is not None and any(is_mem(z, 'Settings::sharedSubscriptionTargeting', SH + 'overrideSharedSubscriptionTarget') for z in fn.walk(s, True))) for _, s, _, _ in q.sources(fn, x, pt, ctx))
    getters = [(b, i, y) for b, i, y in f.nodes() if y['k'] == 'call' and y.get('n') in (SH + 'getNext', SH + 'getFirst')]
    R.inst('shared', len(getters) >= 3, 'shared|pick', 'a member is picked', f.loc)
    for b, i, y in getters:
        want = 'First' if y['n'].endswith('First') else 'SenderHash' if y['a'] else 'RoundRobin'
        c = lambda q, fn, n, pt, ctx: n[0] == '==' and enum_name(n[2]) == T + '::' + want and tg(q, fn, n[1], pt, ctx)
        R.inst('shared', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=c), 'shared|by|' + want, 'by the configured method', line_of(f, y))
        if want == 'SenderHash':
            zs = gather_defs(f, y['a'][0])
            R.inst('shared', any(isv(f, z, snd) for z in zs) and any(z['k'] == 'call' and 'hash' in z.get('n', '') for z in zs), 'shared|hash', 'the hash is that of the sender', line_of(f, y))
    for v in enum_values(P, T):
        c = lambda q, fn, n, pt, ctx: (n[0] == '!=' and enum_name(n[2]) == v or n[0] == '==' and (enum_name(n[2]) or '').startswith(T) and enum_name(n[2]) != v) and tg(q, fn, n[1], pt, ctx)
        for pt, y in kinds.get('shared', []):
            h, cyc = head(f, pt[0])
            q = Query(P, cut_cond=c, cut_node=lambda fn, z, qq: any(z is g[2] for g in getters), eh=False)
            if h is not None:
                bad = any(q.reach_point(f, (t, -1), (h, len(f.blocks[h].elems)), ROOT, None) for t, kk in f.blocks[h].succ if t in cyc and kk == 'n')
                R.inst('shared', not bad, 'shared|every|' + v, 'a member is picked with every method', line_of(f, y))


def opt(P, f, a, pt):
    """the field an argument denotes"""
    s = strip_ptr(f, a)
    n = 0
    while s is not None and s['k'] == 'var' and n < 6:
        n += 1
        ds = [e for e in f.defs().get(s['id'], []) if e[3] is not None]
        if len(ds) != 1:
            return s
        s = strip_ptr(f, ds[0][3])
        if s is not None and s['k'] == 'call' and base_name(s.get('n', '')) == 'lock':
            s = strip_ptr(f, s['o'])
    return s


def shared(P, R):
    ex = lambda pol: truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'expired' and any(z['k'] == 'mem' and z['n'] == SUB + 'session' for z in fn.walk(x['o'], True)), pol)
    for nm in ('getFirst', 'getNext'):
        for f in P.fn(SH + nm):
            R.saw(f.id)
            rets = [(b, i, y) for b, i, y in f.nodes() if y['k'] == 'ret' and y.get('e') is not None]
            key = nm + (str(len(f.params)) if nm == 'getNext' else '')
            for b, i, y in rets:
                pt = (b.id, i)
                nonnull(P, R, f, y['e'], pt, ex(False), 'shared|%s|alive' % key, 'a member is chosen only when its session lives')
            # giving up only after all were tried
            setn = [(b2.id, i2) for b2, i2, y in f.nodes() if member_taken(f, y)]
            emp = truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and has_mem(fn, x['o'], SH + 'members'), True)
            allseen = lambda q, fn, n, p, ctx: exhausted(f, n)
            for b, i, y in rets:
                # a null result only after the loop ended or when there is none
                q = Query(P, cut_cond=any_of(emp, allseen), cut_node=lambda fn, z, qq: member_taken(fn, z), eh=False)
                R.inst('shared', not q.reach_point(f, (f.entry, -1), (b.id, i), ROOT, None) or not mayb_null(f, y), 'shared|%s|all' % key, 'none is chosen only after all were tried', line_of(f, y))
            for b, i, y in f.nodes():
                if y['k'] == 'call' and y.get('op') == '[]' and has_mem(f, y['o'], SH + 'members') or (y['k'] == 'idx' and has_mem(f, y['b'], SH + 'members')):
                    ix = y['a'][0] if y['k'] == 'call' else y['i']
                    ok, why = round_index(P, f, ix, f.params)
                    R.inst('shared', ok, 'shared|%s|index' % key, 'each try looks at the next one (%s)' % why, line_of(f, y))
    # membership
    idx = SH + 'index'; mem = SH + 'members'
    op = P.one(SH + 'operator[]'); er = P.one(SH + 'erase'); pg = P.one(SH + 'purgeAndReIndex'); R.saw(op.id, er.id, pg.id)
    known = lambda fn, pol: lambda q, f2, n, pt, ctx: n[0] == ('!=' if pol else '==') and any(found(f2, z, q, pt, ctx) for z in n[1:])
    def found(fn, x, q, pt, ctx):
        return any(s is not None and s['k'] == 'call' and base_name(s.get('n', '')) in ('find', 'count', 'contains') and has_mem(fn, s['o'], idx) and param0(fn, s['a'][0], pt, 0) for _, s, _, _ in q.sources(fn, x, pt, ctx))
    grow = lambda fn, y, q=None: y['k'] == 'call' and y.get('o') is not None and base_name(y['n']) in ('emplace_back', 'push_back') and has_mem(fn, y['o'], mem)
    for b, i, y in op.nodes():
        if y['k'] == 'ret':
            zs = gather(P, op, y['e'], (b.id, i)) + gather_defs(op, y['e'])
            old = any(z['k'] == 'call' and base_name(z.get('n', '')) == 'find' for z in zs)
            new = any(z['k'] == 'call' and base_name(z.get('n', '')) in ('back', 'emplace_back') for z in zs)
            R.inst('members', old != new and any(has_mem(op, z, mem) for z in zs), 'members|ret', 'the member of that client, or a new one', line_of(op, y))
            if new:
                R.inst('members', not reaches(P, op, (op.entry, -1), [(b.id, i)], node=grow), 'members|grown', 'a new one is appended', line_of(op, y))
                R.inst('members', not reaches(P, op, (op.entry, -1), [(b.id, i)], cond=known(op, False)), 'members|new', 'only for a client that is not there', line_of(op, y))
                ins = lambda fn, z, q=None: (asg_parts(fn, z) is not None and any(w['k'] in ('call', 'idx') and (w.get('op') == '[]' or w['k'] == 'idx') and has_mem(fn, w.get('o') or w.get('b'), idx) for w in fn.walk(asg_parts(fn, z)[0], True))) or (z['k'] == 'call' and z.get('o') is not None and base_name(z['n']) in ('emplace', 'insert', 'try_emplace', 'insert_or_assign') and has_mem(fn, z['o'], idx))
                R.inst('members', not reaches(P, op, (op.entry, -1), [(b.id, i)], node=ins), 'members|indexed', 'and is found by its client from then on', line_of(op, y))
                for b2, i2, z in op.nodes():
                    if ins(op, z):
                        val = asg_parts(op, z)[1] if asg_parts(op, z) is not None else z['a'][-1]
                        sz = [w for w in gather_defs(op, val) if w['k'] == 'call' and base_name(w.get('n', '')) == 'size' and has_mem(op, w['o'], mem)]
                        minus = any(w['k'] == 'bin' and w['op'] == '-' and const_val(strip(op, w['b'])) == 1 for w in gather_defs(op, val))
                        before = all(not any(Query(P)._plain_reach(op, (b3.id, i3), points(op)[id(w)], set()) for b3, i3, g in op.nodes() if grow(op, g)) for w in sz)
                        after = all(not reaches(P, op, (op.entry, -1), [points(op)[id(w)]], node=grow) for w in sz)
                        R.inst('members', bool(sz) and ((before and not minus) or (after and minus)), 'members|place', 'at the place it was appended', line_of(op, z))
    rs = [(b, i, y) for b, i, y in er.nodes() if (y['k'] == 'call' and y.get('o') is not None and base_name(y['n']) == 'reset' and any(has_mem(er, z, mem) for z in gather_defs(er, y['o']))) or (asg_parts(er, y) is not None and has_mem(er, asg_parts(er, y)[0], mem))]
    R.inst('members', bool(rs), 'members|erase', 'a member can be removed', er.loc)
    for b, i, y in rs:
        tgt = y['o'] if y['k'] == 'call' and base_name(y['n']) == 'reset' else asg_parts(er, y)[0]
        R.inst('members', any(z['k'] == 'call' and base_name(z.get('n', '')) == 'find' and param0(er, z['a'][0], None, 0) for z in gather_defs(er, tgt)), 'members|erase-own', 'that of the client asked for', line_of(er, y))
    must(P, R, 'members', er, lambda fn, y, q: any(y is r[2] for r in rs), 'erase-all', 'an existing member is removed', cond=known(er, False))
    # SubscriptionReset
    for f in P.byq.get('Subscription::reset', []):
        must(P, R, 'members', f, lambda fn, y, q: y['k'] == 'call' and y.get('o') is not None and base_name(y['n']) in ('reset',) and has_mem(fn, y['o'], SUB + 'session') or (asg_parts(fn, y) is not None and is_mem(strip(fn, asg_parts(fn, y)[0]), SUB + 'session')), 'reset', 'a removed member has no session')
    # purge: those that live stay, under their client, at their new place
    keep = [(b, i, y) for b, i, y in pg.nodes() if y['k'] == 'call' and y.get('o') is not None and base_name(y['n']) in ('push_back', 'emplace_back')]
    R.inst('members', len(keep) == 1, 'members|purge', 'members are kept', pg.loc)
    for b, i, y in keep:
        R.inst('members', each(P, pg, (b.id, i), lambda s: has_mem(pg, s, idx) or has_mem(pg, s, mem), skip=ex(True)), 'members|purge-all', 'every one that lives', line_of(pg, y))
        R.inst('members', any(has_mem(pg, z, mem) for z in gather_defs(pg, y['a'][0])), 'members|purge-own', 'itself', line_of(pg, y))
    ix = [(b, i, y) for b, i, y in pg.nodes() if asg_parts(pg, y) is not None and any(w['k'] == 'call' and w.get('op') == '[]' and w.get('a') and any(base_name(z.get('n') or '') == 'first' for z in gather_defs(pg, w['a'][0])) for w in pg.walk(asg_parts(pg, y)[0], True))]
    R.inst('members', bool(ix), 'members|purge-index', 'and is indexed by its client', pg.loc)


def member_taken(fn, y):
    """result = &member, or return &member"""
    ap = asg_parts(fn, y)
    v = ap[1] if ap is not None else y.get('e') if y['k'] == 'ret' else None
    s = strip(fn, v) if v is not None else None
    return s is not None and s['k'] == 'un' and s['op'] == '&'


def mayb_null(f, y):
    s = strip(f, y['e'])
    return not (s is not None and s['k'] == 'un' and s['op'] == '&')


def exhausted(f, n):
    """the round counter reached the number of members, or the iterator the end"""
    x = strip(f, n[1]); e = strip(f, n[2])
    for a, b, op in ((x, e, n[0]), (e, x, SWAP.get(n[0], n[0]))):
        if a is None or b is None:
            continue
        if op in ('>=', '==') and a['k'] == 'var' and any(z['k'] == 'call' and base_name(z.get('n', '')) == 'size' and has_mem(f, z['o'], SH + 'members') for z in gather_defs(f, b)):
            ds = [d for d in f.defs().get(a['id'], []) if d[2] in ('init', 'asg')]
            ups = [z for _, _, z in f.nodes() if (z['k'] == 'un' and '++' in z['op'] and isv(f, z['e'], a['id']))]
            alls = [d for d in f.defs().get(a['id'], [])]
            if len(ds) == 1 and const_val(strip(f, ds[0][3])) == 0 and len(ups) == 1 and len(alls) == 2:
                return True
        if op == '==' and any(z['k'] == 'call' and base_name(z.get('n', '')) in ('end', 'cend') for z in gather_defs(f, b)) and any(z['k'] == 'call' and base_name(z.get('n', '')) in ('begin', 'cbegin') for z in gather_defs(f, a)):
            return True
    return False


def nonnull(P, R, f, x, pt, cond, key, what):
    """x is not null at pt only when the fact holds"""
    s = strip(f, x)
    if s is not None and s['k'] == 'var':
        for d in f.defs().get(s['id'], []):
            if d[3] is None or strip(f, d[3])['k'] == 'null':
                continue
            R.inst('shared', not loopsafe(P, f, (d[0], d[1]), cond), key, what, f.loc)
        return
    if s is not None and s['k'] == 'null':
        return
    R.inst('shared', not loopsafe(P, f, pt, cond), key, what, f.loc)


def loopsafe(P, f, pt, cond):
    """can pt be reached (again) without the fact?"""
    q = Query(P, cut_cond=cond, eh=False)
    return q.reach_point(f, (f.entry, -1), pt, ROOT, None) or q.reach_point(f, pt, pt, ROOT, None)


def round_index(P, f, ix, params):
    """index = <counter that moves by one per try> % number of members"""
    x = strip(f, ix)
    if x is not None and x['k'] == 'var':
        ds = f.defs().get(x['id'], [])
        if len(ds) == 1 and ds[0][3] is not None:
            x = strip(f, ds[0][3])
    if x is None or x['k'] != 'bin' or x['op'] != '%':
        # plain 0..size index
        return False, 'not a remainder'
    sz = any(z['k'] == 'call' and base_name(z.get('n', '')) == 'size' and has_mem(f, z['o'], SH + 'members') for z in gather_defs(f, x['b']))
    if not sz:
        return False, 'remainder of something else'
    a = strip(f, x['a'])
    isc = lambda z: (z['k'] == 'mem' and z['n'] == SH + 'roundRobinCounter') or (z['k'] == 'var' and (any(p['id'] == z['id'] for p in params) or any(e[3] is not None and any(w['k'] == 'var' and any(p['id'] == w['id'] for p in params) for w in gather_defs(f, e[3])) for e in f.defs().get(z['id'], []))))
    ups = [z for _, _, z in f.nodes() if z['k'] == 'un' and '++' in z['op'] and isc(strip(f, z['e']))]
    if a['k'] == 'un' and '++' in a['op'] and isc(strip(f, a['e'])) and len(ups) == 1:
        return True, 'counter'
    if isc(a) and len(ups) == 1 and cycle_blocks(f, points(f)[id(ups[0])][0]):
        return True, 'counter'
    if a['k'] == 'bin' and a['op'] == '+':
        vs = [strip(f, a['a']), strip(f, a['b'])]
        loop = [v for v in vs if v is not None and v['k'] == 'var' and any(z['k'] == 'un' and '++' in z['op'] and isv(f, z['e'], v['id']) for _, _, z in f.nodes())]
        return bool(loop), 'base and round'
    return False, 'counter does not move'
