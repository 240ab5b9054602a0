"""The subscription tree: subscribing and unsubscribing change exactly the addressed subscription, cleaning removes only dead ones."""
from core.rules import *
from checks.c11 import must, reaches, param0, on_mem, each
from checks.c15 import isnull, gather
from checks.c16 import gather_defs, isv

ST = 'SubscriptionStore::'
N = 'SubscriptionNode::'
SUB = 'Subscription::'
DEEP, ADD, REM = ST + 'getDeepestNode', ST + 'addSubscription', ST + 'removeSubscription'
NADD, NREM, CLEAN = N + 'addSubscriber', N + 'removeSubscriber', N + 'cleanSubscriptions'
KIDS = {'childrenPound': '#', 'childrenPlus': '+'}
TREE = {N + x for x in ('children', 'childrenPlus', 'childrenPound', 'subscribers', 'sharedSubscribers')}


def check(P, R):
    R.rule('node', 'the node of a filter is reached level by level, from the tree the filter belongs to')
    R.rule('create', 'nodes are made only for subscribing, with the tree locked, after walking again')
    R.rule('add', 'subscribing stores the options given under the client ID, per share name')
    R.rule('remove', 'unsubscribing removes the subscription of that client in that place, and no other')
    R.rule('pass', 'filter, share name, options and session are passed on unchanged')
    R.rule('clean', 'cleaning removes only subscriptions without session, and nodes that are empty and old')
    R.rule('writers', 'nothing else changes the tree')
    node(P, R)
    add(P, R)
    remove(P, R)
    passing(P, R)
    clean(P, R)
    writers(P, R)


def strconst(fn, x):
    for z in ([x] if x is None else list(fn.walk(x, True))):
        if z is not None and z['k'] == 'str':
            return z['s'] if 's' in z else z.get('v')
    return None


def streq(f, what, val, op):
    def c(q, fn, n, pt, ctx):
        if fn.id != f.id or n[0] != op:
            return False
        for a, b in ((n[1], n[2]), (n[2], n[1])):
            if strconst(fn, b) == val and what(fn, a):
                return True
        return False
    return c


def node(P, R):
    f = P.one(DEEP); R.saw(f.id)
    topics, abort = f.params[0]['id'], f.params[1]['id']
    # which root
    dollar = lambda op: lambda q, fn, n, pt, ctx: n[0] == op and const_val(n[2]) == 36
    frst = lambda fn, x: any(z['k'] == 'call' and base_name(z.get('n', '')) in ('front', 'at', 'begin') or z['k'] == 'call' and z.get('op') == '[]' for z in gather_defs(fn, x)) and any(z['k'] == 'var' and z['id'] == topics for z in gather_defs(fn, x))
    isd = lambda op: lambda q, fn, n, pt, ctx: n[0] == op and const_val(n[2]) == 36 and frst(fn, n[1])
    sw = lambda pol: lambda q, fn, n, pt, ctx: (lambda x: x is not None and x['k'] == 'call' and base_name(x.get('n', '')) in ('starts_with', 'startsWith') and frst(fn, x) and ((n[0] == '!=') == pol) and const_val(n[2]) == 0)(strip(fn, n[1]))
    empty = lambda q, fn, n, pt, ctx: n[0] in ('==', '<=') and const_val(n[2]) == 0 and n[1] is not None and (strip(fn, n[1]) or {}).get('k') == 'call' and base_name(strip(fn, n[1]).get('n', '')) in ('size', 'length') and frst2(fn, n[1])
    frst2 = lambda fn, x: any(z['k'] == 'var' and z['id'] == topics for z in gather_defs(fn, x))
    isD, notD = any_of(isd('=='), sw(True)), any_of(isd('!='), sw(False), empty, truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and frst2(fn, x['o']), True))
    rd = [(b.id, i) for b, i, y in f.nodes() if is_mem(y, ST + 'rootDollar')]
    R.inst('node', bool(rd), 'node|dollar', 'filters that start with $ have their own tree', f.loc)
    for pt in rd:
        R.inst('node', not reaches(P, f, (f.entry, -1), [pt], cond=isD), 'node|dollar|only', 'only those are looked up there', f.loc)
    walkuse = [(b.id, i) for b, i, y in f.nodes() if y['k'] == 'mem' and y['n'] in TREE]
    R.inst('node', not any(reaches(P, f, (f.entry, -1), [p], cond=notD, node=lambda fn, y, q=None: is_mem(y, ST + 'rootDollar')) for p in walkuse), 'node|dollar|all', 'all of those are looked up there', f.loc)
    # cursor: a local that is compared with / stepped through the levels
    cur = None
    for b, i, y in f.nodes():
        if y['k'] == 'decl':
            for v in y['d']:
                if v.get('e') is not None and any(z['k'] == 'call' and base_name(z.get('n', '')) in ('begin', 'cbegin') and isv(f, z.get('o'), topics) for z in f.walk(v['e'], True)) or (v.get('e') is not None and 'size_t' in v.get('t', '') and const_val(strip(f, v['e'])) == 0):
                    cur = v['id']
    if cur is None:
        raise AnalysisError('cursor of %s' % DEEP)
    elem = lambda fn, x: any(z['k'] == 'var' and z['id'] == cur for z in gather_defs(fn, x))
    lvl = lambda fn, x: elem(fn, x)
    # children selection
    for fld, txt in KIDS.items():
        uses = [(b, i, y) for b, i, y in f.nodes() if is_mem(y, N + fld)]
        R.inst('node', bool(uses), 'node|' + fld, '%s is a level of its own' % txt, f.loc)
        for b, i, y in uses:
            R.inst('node', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=streq(f, lvl, txt, '==')), 'node|%s|only' % fld, '%s is used only for %s' % (fld, txt), line_of(f, y))
    ch = [(b, i, y) for b, i, y in f.nodes() if is_mem(y, N + 'children')]
    R.inst('node', bool(ch), 'node|children', 'other levels by their text', f.loc)
    for b, i, y in ch:
        for fld, txt in KIDS.items():
            R.inst('node', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=streq(f, lvl, txt, '!=')), 'node|children|not' + fld, 'a level %s is not taken as text' % txt, line_of(f, y))
    kx = [(b, i, y) for b, i, y in f.nodes() if y['k'] == 'call' and y.get('o') is not None and (y.get('op') == '[]' or base_name(y.get('n', '')) in ('find', 'at', 'try_emplace', 'emplace', 'insert')) and has_kids(f, y['o'])]
    R.inst('node', bool(kx), 'node|key', 'children are looked up', f.loc)
    for b, i, y in kx:
        R.inst('node', bool(y.get('a')) and elem(f, y['a'][0]), 'node|key', 'by the text of the level', line_of(f, y))
    # the child looked at is that of the current node
    for b, i, y in f.nodes():
        if y['k'] == 'mem' and y['n'] in {N + 'children', N + 'childrenPlus', N + 'childrenPound'}:
            vs = [z['id'] for z in f.walk(y.get('b'), True) if z['k'] == 'var']
            R.inst('node', bool(vs) and all(any(k['k'] == 'mem' and k['n'].startswith(ST + 'root') for k in gather_defs(f, {'k': 'var', 'id': v})) for v in vs), 'node|of', 'children of the node reached', line_of(f, y))
    # stepping
    st = [(b, i, y) for b, i, y in f.nodes() if y['k'] in ('un', 'call') and (y.get('op') or '') in ('++', 'post++', '+=') and any(isv(f, a, cur) for a in [y.get('e'), y.get('o')] + list(y.get('a', [])) if a is not None)]
    mv = [(b, i, y) for b, i, y in f.nodes() if y['k'] == 'asg' and deep_var(f, y) is not None]
    R.inst('node', len(st) == 1, 'node|step', 'one level at a time', f.loc)
    dv = {deep_var(f, y) for b, i, y in mv}
    if len(dv) != 1:
        raise AnalysisError('node reached in %s' % DEEP)
    dv = dv.pop()
    isst = lambda fn, y, q=None: any(y is s[2] for s in st)
    ismv = lambda fn, y, q=None: any(y is s[2] for s in mv)
    isdecl = lambda v: lambda fn, y, q=None: y['k'] == 'decl' and any(w['id'] == v for w in y['d'])
    for b, i, y in st:
        h = cycle_blocks(f, b.id)
        R.inst('node', not reaches(P, f, (b.id, i), [(b.id, i)], node=lambda fn, z, q=None: ismv(fn, z) or isdecl(cur)(fn, z)), 'node|step|move', 'a level passed is a step down', line_of(f, y))
    for b, i, y in mv:
        R.inst('node', not reaches(P, f, (b.id, i), [(b.id, i)], node=lambda fn, z, q=None: isst(fn, z) or isdecl(cur)(fn, z)), 'node|move|step', 'a step down is a level passed', line_of(f, y))
    # a node is returned at the end of the filter only
    end = lambda op: lambda q, fn, n, pt, ctx: n[0] == op and any(isv(fn, a, cur) and any(z['k'] == 'call' and base_name(z.get('n', '')) in ('end', 'cend', 'size') and isv(fn, z.get('o'), topics) for z in gather_defs(fn, b)) for a, b in ((n[1], n[2]), (n[2], n[1])))
    rets = [(b, i, y) for b, i, y in f.nodes() if y['k'] == 'ret' and y.get('e') is not None]
    taken = []
    for b, i, y in f.nodes():
        ap = asg_parts(f, y)
        if ap is not None and is_sp(var_type(f, (strip(f, ap[0]) or {}).get('id'))) and any(z['k'] == 'var' and z['id'] == dv for z in f.walk(ap[1], True)):
            taken.append((b, i, y))
    for b, i, y in rets:
        if any(z['k'] == 'var' and z['id'] == dv for z in f.walk(y['e'], True)):
            taken.append((b, i, y))
    R.inst('node', bool(taken), 'node|result', 'the node reached is the result', f.loc)
    for b, i, y in taken:
        R.inst('node', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=end('==')), 'node|end', 'after all levels', line_of(f, y))
    ab = truth(lambda q, fn, x: isv(fn, x, abort), True)
    tk = lambda fn, y, q=None: any(y is t[2] for t in taken)
    again = lambda q, fn, n, pt, ctx: n[0] in ('>=', '==') and const_val(n[2]) == 2
    q = Query(P, cut_cond=any_of(ab, again), cut_node=tk, eh=False)
    R.inst('node', not q.explore(f, ROOT, False, []), 'node|found', 'subscribing always gets a node', f.loc)
    create(P, R, f, abort, cur, dv, end)


def is_sp(t):
    t = (t or '').replace('const ', '').strip()
    return t.startswith('std::shared_ptr<') and t.endswith('>')


def has_kids(f, x):
    return any(z['k'] == 'mem' and z['n'] == N + 'children' for z in gather_defs(f, x))


def deep_var(f, y):
    """variable that is moved down to a child: v = &node or v = child"""
    a, b = strip(f, y['a']), y['b']
    if a is None or a['k'] != 'var':
        return None
    t = var_type(f, a['id']) or ''
    if 'SubscriptionNode' not in t or 'iterator' in t:
        return None
    g = gather_defs(f, b)
    if not any(z['k'] == 'mem' and z['n'] in {N + 'children', N + 'childrenPlus', N + 'childrenPound'} for z in g):
        return None
    # not the selection of the child itself, but the one children are taken of
    for bb, ii, z in f.nodes():
        if z['k'] == 'mem' and z['n'] in {N + 'children', N + 'childrenPlus', N + 'childrenPound'} and any(w['k'] == 'var' and w['id'] == a['id'] for w in f.walk(z.get('b'), True)):
            return a['id']
    return None


def create(P, R, f, abort, cur, dv, end):
    mk = [(b, i, y) for b, i, y in f.nodes() if y['k'] in ('call', 'ctor', 'new') and 'SubscriptionNode' in (y.get('t', '') or '') + str(y.get('n', '')) and base_name(y.get('n', '') or '') in ('make_shared', 'allocate_shared', 'SubscriptionNode') or y['k'] == 'new' and 'SubscriptionNode' in str(y.get('t', ''))]
    mk += [(b, i, y) for b, i, y in f.nodes() if y['k'] == 'call' and y.get('o') is not None and (y.get('op') == '[]' or base_name(y.get('n', '')) in ('try_emplace', 'emplace', 'insert', 'insert_or_assign')) and has_kids(f, y['o'])]
    R.inst('create', len(mk) >= 2, 'create|there', 'missing nodes are made', f.loc)
    def locks(kind):
        def c(fn, y, q=None):
            if fn.id != f.id:
                return False
            if y['k'] == 'call' and base_name(y.get('n', '')) == 'lock' and y.get('o') is not None:
                s = strip(fn, y['o'])
                return s is not None and s['k'] == 'var' and kind in (var_type(fn, s['id']) or '') and lockof(fn, s['id'])
            if y['k'] == 'decl':
                return any(kind in v.get('t', '') and lockof(fn, v['id']) and not deferred(fn, v) for v in y['d'])
            return False
        return c
    def lockof(fn, v):
        return any(z['k'] == 'mem' and z['n'] == ST + 'subscriptions_lock' for d in fn.defs().get(v, []) if d[3] is not None for z in fn.walk(d[3], True)) or any(y['k'] == 'decl' and any(w['id'] == v and w.get('e') is not None and any(z['k'] == 'mem' and z['n'] == ST + 'subscriptions_lock' for z in fn.walk(w['e'], True)) for w in y['d']) for b, i, y in fn.nodes())
    def deferred(fn, v):
        return any('defer' in str(z.get('n', '')) or 'try_to' in str(z.get('n', '')) for z in fn.walk(v['e'], True))
    wl = locks('unique_lock'); rl = locks('shared_lock')
    al = lambda fn, y, q=None: wl(fn, y) or rl(fn, y)
    for b, i, y in mk:
        R.inst('create', not reaches(P, f, (f.entry, -1), [(b.id, i)], node=wl), 'create|locked', 'with the tree locked for writing', line_of(f, y))
        R.inst('create', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=truth(lambda q, fn, x: isv(fn, x, abort), False)), 'create|adding', 'not when only looking', line_of(f, y)) if False else None
    for b, i, y in f.nodes():
        if y['k'] == 'mem' and y['n'] in TREE:
            R.inst('create', not reaches(P, f, (f.entry, -1), [(b.id, i)], node=al), 'create|read', 'the tree is read under the lock', line_of(f, y))
    # after taking the write lock the walk starts over
    restart = lambda v: lambda fn, y, q=None: y['k'] == 'decl' and any(w['id'] == v for w in y['d']) or (asg_parts(fn, y) is not None and isv(fn, asg_parts(fn, y)[0], v) and not any(z['k'] == 'mem' and z['n'] in TREE for z in gather_defs(fn, asg_parts(fn, y)[1])))
    lk = [(b.id, i) for b, i, y in f.nodes() if al(f, y)]
    uses = [(b.id, i) for b, i, y in f.nodes() if y['k'] == 'mem' and y['n'] in TREE]
    for p in lk:
        for v in (cur, dv):
            R.inst('create', not reaches(P, f, p, uses, node=restart(v)), 'create|again', 'a walk under a lock starts at the top', f.loc)
    # a looked-up filter makes nothing: adding passes false, removing true
    for g in P.fns.values():
        for b, i, y in g.nodes():
            if is_call(y, DEEP):
                rem = any(is_call(z, NREM) for b2, i2, z in g.nodes())
                v = const_val(strip(g, y['a'][1])) if len(y['a']) > 1 and strip(g, y['a'][1]) is not None else 0
                if v is None and len(y['a']) > 1 and y['a'][1].get('k') == 'zero':
                    v = 0
                R.inst('create', (v == 1) == rem, 'create|abort|' + g.q, 'nodes are made for adding only', line_of(g, y))
    made = {id(y) for b, i, y in mk}
    ab = lambda q, fn, n, pt, ctx: truth(lambda q2, f2, x: isv(f2, x, abort), False)(q, fn, n, pt, ctx)
    flags = [d for d in f.defs() if any(x[2] == 'asg' and x[3] is not None and const_val(strip(f, x[3])) == 1 for x in f.defs()[d]) and 'bool' in (var_type(f, d) or '')]
    for d in flags:
        for bid, i, how, e in [x[:4] for x in f.defs()[d]]:
            if how == 'asg' and const_val(strip(f, e)) == 1:
                R.inst('create', not reaches(P, f, (f.entry, -1), [(bid, i)], cond=ab), 'create|retry', 'the second walk is for adding only', f.loc)


def field_of(fn, y, fld):
    ap = asg_parts(fn, y)
    return ap if ap is not None and is_mem(strip(fn, ap[0]), SUB + fld) else None


def add(P, R):
    f = P.one(NADD); R.saw(f.id)
    par = {p['n']: p['id'] for p in f.params}
    want = {'session': 0, 'qos': 1, 'noLocal': 2, 'retainAsPublished': 3, 'subscriptionIdentifier': 5}
    sharep = f.params[4]['id']
    # fields of the record
    recs = {}
    for fld, k in want.items():
        got = [(b, i, field_of(f, y, fld)) for b, i, y in f.nodes() if field_of(f, y, fld)]
        agg = False
        for b, i, ap in got:
            R.inst('add', isv(f, ap[1], f.params[k]['id']), 'add|' + fld, '%s is the one given' % fld, line_of(f, ap[0]) if isinstance(ap[0], dict) else f.loc)
            root = [z['id'] for z in f.walk(ap[0], True) if z['k'] == 'var']
            recs.setdefault(fld, set()).update(root)
        R.inst('add', bool(got), 'add|%s|set' % fld, '%s is stored' % fld, f.loc)
    st = []
    for b, i, y in f.nodes():
        ap = asg_parts(f, y)
        if ap is None or not {t.replace('const ', '').strip(' &') for t in ((strip(f, ap[0]) or {}).get('t', ''), var_type(f, (strip(f, ap[0]) or {}).get('id')) or '')} & {'Subscription'}:
            continue
        where = {base_name(z['n']) for z in gather_defs(f, ap[0]) if z['k'] == 'mem' and z['n'] in (N + 'subscribers', N + 'sharedSubscribers')}
        if where:
            st.append((b, i, y, ap, where))
    one = any_of(truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and isv(fn, x['o'], sharep), True))
    shr = any_of(truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and isv(fn, x['o'], sharep), False))
    R.inst('add', {tuple(sorted(s[4])) for s in st} >= {('subscribers',), ('sharedSubscribers',)}, 'add|both', 'ordinary and shared subscriptions are stored', f.loc)
    for b, i, y, ap, where in st:
        pt = (b.id, i)
        w = next(iter(where)) if len(where) == 1 else None
        R.inst('add', w is not None and not reaches(P, f, (f.entry, -1), [pt], cond=one if w == 'subscribers' else shr), 'add|place|%s' % w, 'in the place the share name says', line_of(f, y))
        src = strip(f, ap[1])
        ok = src is not None and src['k'] == 'var' and all(src['id'] in recs.get(fld, ()) for fld in want)
        R.inst('add', ok, 'add|whole', 'all options together', line_of(f, y))
        if ok:
            for fld in want:
                nd = lambda fn, z, q=None, fld=fld: field_of(fn, z, fld) is not None
                R.inst('add', not reaches(P, f, (f.entry, -1), [pt], node=nd), 'add|before|' + fld, '%s is set before' % fld, line_of(f, y))
        keys = [z for z in gather_defs(f, ap[0]) if z['k'] == 'call' and z.get('o') is not None and (z.get('op') == '[]' or base_name(z.get('n', '')) in ('try_emplace', 'emplace', 'at', 'find'))]
        cid = [z for z in keys if z.get('a') and any(c['k'] == 'call' and c.get('n') == 'Session::getClientId' and isv(f, strip_ptr(f, c['o']), f.params[0]['id']) for c in gather_defs(f, z['a'][0]))]
        R.inst('add', bool(cid), 'add|key', 'under the client ID of the session', line_of(f, y))
        if w == 'sharedSubscribers':
            sk = [z for z in keys if z.get('a') and isv(f, z['a'][0], sharep)]
            R.inst('add', bool(sk), 'add|share', 'under the share name', line_of(f, y))
    null = isnull(lambda q, fn, x, pt, ctx: isv(fn, x, f.params[0]['id']))
    null2 = truth(lambda q, fn, x: isv(fn, x, f.params[0]['id']), False)
    nd = lambda fn, y, q=None: any(y is s[2] for s in st)
    must(P, R, 'add', f, nd, 'always', 'it is stored in any case', cond=any_of(null, null2))
    # what is reported: new only when there was none that lives
    for val, pol in (('NewSubscription', True), ('ExistingSubscription', False)):
        ex = truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'expired' and any(z['k'] == 'mem' and z['n'] == SUB + 'session' for z in gather_defs(fn, x['o'])), pol)
        for b, i, y in f.nodes():
            if y['k'] == 'cond' and any(z['k'] == 'enum' and base_name(z['n']) == val for z in [strip(f, y['a']) or {}, strip(f, y['b']) or {}] if z.get('k') == 'enum'):
                side = (strip(f, y['a']) or {}).get('k') == 'enum' and base_name(strip(f, y['a'])['n']) == val
                q = Query(P, cut_cond=ex)
                R.inst('add', q.implies(f, y['c'], side, (b.id, i), ROOT), 'add|kind|' + val, 'reported as %s accordingly' % val, line_of(f, y))
            ap = asg_parts(f, y)
            v = strip(f, ap[1]) if ap else (strip(f, y['e']) if y['k'] == 'ret' and y.get('e') is not None else None)
            if v is not None and v['k'] == 'enum' and base_name(v['n']) == val:
                R.inst('add', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=ex), 'add|kind|' + val, 'reported as %s accordingly' % val, line_of(f, y))
    # read before it is overwritten
    exs = [(b.id, i) for b, i, y in f.nodes() if y['k'] == 'call' and base_name(y.get('n', '')) == 'expired']
    for b, i, y, ap, where in st:
        R.inst('add', not reaches(P, f, (b.id, i), exs), 'add|kind|before', 'looked at before it is replaced', line_of(f, y))
        R.inst('add', not reaches(P, f, (f.entry, -1), [(b.id, i)], node=lambda fn, z, q=None: z['k'] == 'call' and base_name(z.get('n', '')) == 'expired'), 'add|kind|looked', 'looked at before it is replaced', line_of(f, y))


def keyed(f, y, field, idx=0):
    return y['k'] == 'call' and y.get('o') is not None and any(z['k'] == 'mem' and z['n'] == field for z in gather_defs(f, y['o']))


def remove(P, R):
    f = P.one(NREM); R.saw(f.id)
    ses, sharep = f.params[0]['id'], f.params[1]['id']
    cid = lambda x: any(c['k'] == 'call' and c.get('n') == 'Session::getClientId' and isv(f, strip_ptr(f, c['o']), ses) for c in gather_defs(f, x))
    er = [(b, i, y) for b, i, y in f.nodes() if y['k'] == 'call' and base_name(y.get('n', '')) in ('erase', 'extract', 'clear') and y.get('o') is not None]
    emp = lambda pol: truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and isv(fn, x['o'], sharep), pol)
    done = {'subscribers': [], 'sharedSubscribers': []}
    for b, i, y in er:
        where = {base_name(z['n']) for z in gather_defs(f, y['o']) if z['k'] == 'mem' and z['n'] in (N + 'subscribers', N + 'sharedSubscribers')}
        w = next(iter(where)) if len(where) == 1 else None
        R.inst('remove', w is not None, 'remove|where', 'in one place', line_of(f, y))
        if w is None:
            continue
        done[w].append(y)
        R.inst('remove', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=emp(w == 'subscribers')), 'remove|place|' + w, 'in the place the share name says', line_of(f, y))
        R.inst('remove', len(y['a']) == 1 and cid(y['a'][0]), 'remove|key|' + w, 'the one of that client', line_of(f, y))
        if w == 'sharedSubscribers':
            R.inst('remove', any(z['k'] == 'call' and base_name(z.get('n', '')) in ('find', 'at') and z.get('a') and isv(f, z['a'][0], sharep) or z['k'] == 'call' and z.get('op') == '[]' and z.get('a') and isv(f, z['a'][0], sharep) for z in gather_defs(f, y['o'])) and not is_direct(f, y['o']), 'remove|share', 'of the share named', line_of(f, y))
    def miss(fld):
        def c(q, fn, n, pt, ctx):
            if n[0] != '==':
                return False
            for a, b in ((n[1], n[2]), (n[2], n[1])):
                ga, gb = gather_defs(fn, a), gather_defs(fn, b)
                fi = any(z['k'] == 'call' and base_name(z.get('n', '')) in ('find', 'count', 'contains') and keyed(fn, z, N + fld) and z.get('a') and (cid(z['a'][0]) if fld == 'subscribers' else isv(fn, z['a'][0], sharep)) for z in ga)
                en = any(z['k'] == 'call' and base_name(z.get('n', '')) in ('end', 'cend') for z in gb) or const_val(b) == 0
                if fi and en:
                    return True
            return False
        return c
    for w, pol in (('subscribers', False), ('sharedSubscribers', True)):
        R.inst('remove', bool(done[w]), 'remove|has|' + w, 'it is removed', f.loc)
        must(P, R, 'remove', f, lambda fn, y, q=None, w=w: any(y is z for z in done[w]), 'always|' + w, 'removed unless there is none', cond=any_of(emp(pol), miss(w)))


def is_direct(f, x):
    s = strip(f, x)
    return s is not None and s['k'] == 'mem' and s['n'] == N + 'sharedSubscribers'


def passing(P, R):
    for q, nq, shift in ((ADD, NADD, [0, 2, 3, 4, 5, 6]), (REM, NREM, [0, 2])):
        f = P.one(q); R.saw(f.id)
        cs = [(b, i, y) for b, i, y in f.nodes() if is_call(y, nq)]
        R.inst('pass', bool(cs), 'pass|call|' + q, 'handed on', f.loc)
        for b, i, y in cs:
            for k, p in enumerate(shift):
                R.inst('pass', len(y['a']) > k and isv(f, y['a'][k], f.params[p]['id']), 'pass|%s|%d' % (q, k), 'argument %d is the one given' % (k + 1), line_of(f, y))
            R.inst('pass', any(z['k'] == 'call' and z.get('n') == DEEP and isv(f, z['a'][0], f.params[1]['id']) for z in gather_defs(f, y['o'])), 'pass|node|' + q, 'at the node of the filter', line_of(f, y))
        ses = f.params[0]['id']
        nul = lambda q2, fn, n, pt, ctx: n[0] == '==' and const_val(n[2]) == 0 and (isv(fn, n[1], ses) or any(z['k'] == 'call' and z.get('n') == DEEP for z in gather_defs(fn, n[1])))
        must(P, R, 'pass', f, lambda fn, y, q2=None: is_call(y, nq), 'always|' + q, 'always', cond=nul)
        for b, i, y in f.nodes():
            if y['k'] == 'ret' and y.get('e') is not None and q == ADD and any(is_call(z, NADD) for z in gather_defs(f, y['e'])):
                R.inst('pass', True, 'pass|ret', 'its answer is returned', line_of(f, y))
    # every filter of an UNSUBSCRIBE
    h = P.one('MqttPacket::handleUnsubscribe'); R.saw(h.id)
    rm = [(b, i, y) for b, i, y in h.nodes() if is_call(y, REM)]
    R.inst('pass', bool(rm), 'pass|unsub', 'UNSUBSCRIBE removes', h.loc)
    rd = [(b, i, y) for b, i, y in h.nodes() if is_call(y, 'MqttPacket::readBytesToString') and cycle_blocks(h, b.id) and any(any(z is y for z in h.walk(v.get('e'), True)) and not any(is_call(w, 'PublishBase::addUserProperty', 'Publish::addUserProperty') for w in ()) for b2, i2, d in h.nodes() if d['k'] == 'decl' for v in d['d'] if v.get('e') is not None)]
    ack = lambda fn, y, q=None: is_call(y, 'Client::writeMqttPacket', 'Client::writeMqttPacketAndBlameThisClient')
    for b, i, y in rm:
        tops_ = [z for z in gather_defs(h, y['a'][1]) if is_call(z, 'splitTopic')]
        R.inst('pass', bool(tops_), 'pass|unsub|levels', 'with the levels of the filter', line_of(h, y))
        for z in tops_:
            src = [w for w in gather_defs(h, z['a'][0]) if is_call(w, 'MqttPacket::readBytesToString')]
            R.inst('pass', bool(src), 'pass|unsub|read', 'that was read', line_of(h, z))
            for s in src:
                pt = points(h)[id(s)]
                q = Query(P, cut_node=lambda fn, w, qq: is_call(w, REM), eh=False)
                goals = [pt] + [(b2.id, i2) for b2, i2, w in h.nodes() if ack(h, w)]
                R.inst('pass', not reaches(P, h, pt, goals, node=lambda fn, w, q=None: is_call(w, REM)), 'pass|unsub|each', 'each filter is removed before the next one and the UNSUBACK', line_of(h, s))
    for g in P.fns.values():
        for b, i, y in g.nodes():
            if not is_call(y, REM, ADD) or g.q in (REM, ADD) or len(y['a']) < 3:
                continue
            k = 2 if is_call(y, REM) else 5
            sv = strip(g, y['a'][1]); hv = strip(g, y['a'][k])
            if sv is None or sv['k'] != 'var' or hv is None or hv['k'] != 'var':
                continue        # constants and stored values
            if not any(is_call(z, 'splitTopic') for z in gather_defs(g, sv)):
                continue
            if not any(is_call(z, 'parseSubscriptionShare') for b2, i2, z in g.nodes()):
                continue
            ps = lambda fn, z, q=None: is_call(z, 'parseSubscriptionShare') and isv(fn, z['a'][0], sv['id']) and isv(fn, z['a'][1], hv['id'])
            R.inst('pass', not reaches(P, g, (g.entry, -1), [(b.id, i)], node=ps), 'pass|share|' + g.q, 'the share name is taken off the filter first', line_of(g, y))


def clean(P, R):
    f = P.one(CLEAN); R.saw(f.id)
    rets = [(b, i, y) for b, i, y in f.nodes() if y['k'] == 'ret' and y.get('e') is not None]
    it = lambda x: [z['id'] for z in f.walk(x, True) if z['k'] == 'var']
    same = lambda a, b: bool(set(it(a)) & set(it(b)))
    kidnode = lambda x: any(z['k'] == 'mem' and z['n'] in (N + 'children', N + 'childrenPlus', N + 'childrenPound') or z['k'] == 'var' and is_sp((var_type(f, z['id']) or '').strip(' &')) and 'SubscriptionNode' in (var_type(f, z['id']) or '') for z in gather_defs(f, x))
    def none_left(q, fn, n, pt, ctx):
        """result of cleaning the child is 0"""
        if fn.id != f.id:
            return False
        c = const_val(n[2])
        if not ((n[0] == '==' and c == 0) or (n[0] == '<=' and c == 0) or (n[0] == '<' and c == 1)):
            return False
        s = [x for _, x, _, _ in q.sources(fn, n[1], pt, ctx)]
        good = lambda x: is_call(x, CLEAN) and kidnode(x['o'])
        more = lambda x: x['k'] == 'var' and only_grows(fn, x['id']) or x['k'] == 'bin' and x['op'] == '+' and any(good(z) for z in gather_defs(fn, x)) and any(nonneg(fn, z) for z in (x['l'], x['r']))
        return any(x is not None and (good(x) or any(good(z) for z in gather_defs(fn, x))) for x in s) and all(x is not None and (good(x) or more(x)) for x in s)
    def alone(q, fn, n, pt, ctx):
        """nobody else holds the child"""
        if fn.id != f.id:
            return False
        c = const_val(n[2]); x = resolved(fn, n[1])
        if x is None or x['k'] != 'call':
            return False
        if base_name(x.get('n', '')) == 'use_count':
            return (n[0] in ('==', '<=') and c == 1 or n[0] == '<' and c == 2) and kidnode(x['o'])
        return base_name(x.get('n', '')) == 'unique' and n[0] == '!=' and c == 0 and kidnode(x['o'])
    def bumped(fn, z, q=None):
        """what is left is made more than 0, or more by whether it is held"""
        if fn.id != f.id:
            return False
        left = lambda x: any(is_call(w, CLEAN) for w in gather_defs(fn, x))
        if z['k'] == 'un' and '++' in z['op']:
            return left(z['e'])
        ap = asg_parts(fn, z)
        if ap is None or ap[2] not in ('+=', '=', '|=') or not left(ap[0]):
            return False
        return ap[2] == '+=' and (const_val(strip(fn, ap[1])) or 0) > 0 or any(w['k'] == 'call' and base_name(w.get('n', '')) == 'use_count' for w in gather_defs(fn, ap[1]))
    def held(y, pt, what):
        cyc = cycle_blocks(f, pt[0])
        bad = reaches(P, f, (f.entry, -1), [pt], cond=alone, node=bumped) or bool(cyc) and reaches(P, f, pt, [pt], cond=alone, node=bumped)
        R.inst('clean', not bad, 'clean|held|' + what, 'a place is dropped only when no subscription is about to be added to it', line_of(f, y))
    gone = truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'expired' and any(z['k'] == 'mem' and z['n'] == SUB + 'session' for z in fn.walk(x['o'], True)), True)
    semp = truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and any(z['k'] == 'mem' and z['n'] == N + 'sharedSubscribers' for z in gather_defs(fn, x['o'])) and not is_direct(fn, x['o']), True)
    n_er = 0
    for b, i, y in f.nodes():
        pt = (b.id, i)
        if y['k'] != 'call' or y.get('o') is None:
            ap = asg_parts(f, y)
            if ap is not None and (kidptr(f, ap[0]) or (var_type(f, (strip(f, ap[0]) or {}).get('id')) or '').strip() == 'std::shared_ptr<SubscriptionNode> &'):
                R.inst('clean', not round_reaches(P, f, pt, none_left), 'clean|reset', 'a wildcard child is dropped only when nothing is left in it', line_of(f, y)); n_er += 1
                held(y, pt, 'wild')
            continue
        bn = base_name(y.get('n', ''))
        mem = {base_name(z['n']) for z in gather_defs(f, y['o']) if z['k'] == 'mem' and z['n'] in TREE}
        dm = strip(f, y['o']); dm = base_name(dm['n']) if dm is not None and dm['k'] == 'mem' and dm['n'] in TREE else None
        if bn in ('erase', 'clear', 'extract', 'erase_if', 'swap') and dm:
            n_er += 1
            cond = {'children': none_left, 'subscribers': gone, 'sharedSubscribers': semp}.get(dm)
            ok = bn == 'erase' and len(y['a']) == 1 and cond is not None and not round_reaches(P, f, pt, cond)
            R.inst('clean', ok, 'clean|erase|' + dm, {'children': 'a child is dropped only when nothing is left in it', 'subscribers': 'a subscription is dropped only when its session is gone', 'sharedSubscribers': 'a share is dropped only when it has no members'}[dm], line_of(f, y))
            if dm == 'children':
                held(y, pt, dm)
            if ok:
                facts = judged(P, f, pt, cond)
                R.inst('clean', same_item(f, y['a'][0], facts), 'clean|same|' + dm, 'what is dropped is what was looked at', line_of(f, y))
        elif bn == 'reset' and (kidnode(y['o'])) and 'shared_ptr' in (y.get('n') or ''):
            n_er += 1
            R.inst('clean', not round_reaches(P, f, pt, none_left), 'clean|reset', 'a wildcard child is dropped only when nothing is left in it', line_of(f, y))
            held(y, pt, 'wild')
            R.inst('clean', same_item(f, y['o'], judged(P, f, pt, none_left)), 'clean|same|wild', 'what is dropped is what was looked at', line_of(f, y))
    R.inst('clean', n_er >= 4, 'clean|there', 'dead entries are dropped (%d places)' % n_er, f.loc)
    # result
    for b, i, y in rets:
        terms = summands(P, f, y['e'], (b.id, i))
        allz = [gather_defs(f, t) for t in terms]
        size = lambda m: any((lambda z: z['k'] == 'call' and base_name(z.get('n', '')) == 'size' and is_mem(strip(f, z['o']), N + m))(resolved(f, t) or {'k': ''}) for t in terms)
        kid = [v for v in f.defs() if any(d[3] is not None and any(is_call(z, CLEAN) for z in gather_defs(f, d[3])) for d in f.defs()[v]) or any(asg_parts(f, z) and asg_parts(f, z)[2] == '+=' and isv(f, asg_parts(f, z)[0], v) and any(is_call(w, CLEAN) for w in gather_defs(f, asg_parts(f, z)[1])) for b2, i2, z in f.nodes())]
        kids = [t for t in terms if (strip(f, t) or {}).get('k') == 'var' and strip(f, t)['id'] in kid and any(asg_parts(f, z) and asg_parts(f, z)[2] == '+=' and isv(f, asg_parts(f, z)[0], strip(f, t)['id']) for b2, i2, z in f.nodes())]
        R.inst('clean', terms is not None and size('subscribers') and size('sharedSubscribers'), 'clean|own', 'own subscriptions keep the node', line_of(f, y))
        R.inst('clean', bool(kids), 'clean|kids', 'children that stay keep the node', line_of(f, y))
        gr = any(any(z['k'] == 'mem' and z['n'] == N + 'lastUpdate' for z in g) for g in allz)
        R.inst('clean', gr and grace(P, f, terms, (b.id, i)), 'clean|grace', 'a recent change keeps the node', line_of(f, y))
        for t in kids:
            acc = strip(f, t)['id']
            kept(P, R, f, acc, none_left)


def resolved(f, x):
    s = strip(f, x)
    for _ in range(6):
        if s is not None and s['k'] == 'var' and len(f.defs().get(s['id'], [])) == 1 and f.defs()[s['id']][0][3] is not None:
            s = strip(f, f.defs()[s['id']][0][3])
    return s


def summands(P, f, x, pt, d=0):
    s = strip(f, x)
    if s is None or d > 8:
        return [x]
    if s['k'] == 'bin' and s['op'] == '+':
        return summands(P, f, s['a'], pt, d + 1) + summands(P, f, s['b'], pt, d + 1)
    if s['k'] == 'var':
        ds = [e for e in f.defs().get(s['id'], [])]
        if len(ds) == 1 and ds[0][2] == 'init' and ds[0][3] is not None:
            e = strip(f, ds[0][3])
            if e is not None and e['k'] == 'bin' and e['op'] == '+':
                return summands(P, f, e, pt, d + 1)
    return [x]


def grace(P, f, terms, pt):
    """one summand is 1 unless lastUpdate + lifetime < now"""
    for t in terms:
        s = strip(f, t)
        pol = True
        for _ in range(6):
            if s is None:
                break
            if s['k'] == 'var' and len(f.defs().get(s['id'], [])) == 1 and f.defs()[s['id']][0][3] is not None:
                s = strip(f, f.defs()[s['id']][0][3]); continue
            if s['k'] == 'un' and s['op'] == '!':
                pol = not pol; s = strip(f, s['e']); continue
            if s['k'] == 'cond' and const_val(strip(f, s['a'])) in (0, 1) and const_val(strip(f, s['b'])) in (0, 1) and const_val(strip(f, s['a'])) != const_val(strip(f, s['b'])):
                if const_val(strip(f, s['a'])) == 0:
                    pol = not pol
                s = strip(f, s['c']); continue
            break
        n = norm(f, s, pol) if s is not None else None
        if n is None:
            continue
        upd = lambda x: any(z['k'] == 'mem' and z['n'] == N + 'lastUpdate' for z in gather_defs(f, x)) and any(z['k'] == 'mem' and z['n'] == 'Settings::subscriptionNodeLifetime' for z in gather_defs(f, x))
        now = lambda x: any(z['k'] == 'call' and base_name(z.get('n', '')) == 'now' for z in gather_defs(f, x)) and not upd(x)
        if n[0] in ('>=', '>') and upd(n[1]) and now(n[2]) and plus(f, n[1]):
            return True
        if n[0] in ('<=', '<') and upd(n[2]) and now(n[1]) and plus(f, n[2]):
            return True
    return False


def plus(f, x):
    g = gather_defs(f, x)
    return any(z.get('op') == '+' for z in g if z['k'] in ('bin', 'call')) and not any(z.get('op') == '-' for z in g if z['k'] in ('bin', 'call'))


def only_grows(fn, v):
    """after its first value the variable is only increased"""
    for b, i, y in fn.nodes():
        if y['k'] == 'un' and ('++' in y['op'] or '--' in y['op']) and isv(fn, y['e'], v) and '--' in y['op']:
            return False
        ap = asg_parts(fn, y)
        if ap is not None and isv(fn, ap[0], v) and not (ap[2] == '+=' and nonneg(fn, ap[1])):
            return False
    return True


def nonneg(fn, x):
    x = strip(fn, x)
    if x is None:
        return False
    if x['k'] == 'cond':
        return nonneg(fn, x['a']) and nonneg(fn, x['b'])
    c = const_val(x)
    return c is not None and c >= 0 or x['k'] == 'bin' and x['op'] in ('<', '<=', '>', '>=', '==', '!=') or x['k'] == 'var' and (var_type(fn, x['id']) or '').replace('const', '').strip() == 'bool'


def kept(P, R, f, acc, none_left):
    """each child that stays is counted: after its cleaning (or its deferral) the round adds to the sum, or drops it"""
    adds = lambda fn, y, q=None: fn.id == f.id and asg_parts(fn, y) is not None and isv(fn, asg_parts(fn, y)[0], acc) and (asg_parts(fn, y)[2] == '+=' ) or (y['k'] == 'un' and '++' in y['op'] and isv(fn, y['e'], acc))
    for b, i, y in f.nodes():
        if is_call(y, CLEAN):
            pt = (b.id, i)
            goals = [pt] + [(b2.id, i2) for b2, i2, z in f.nodes() if z['k'] == 'ret']
            def right(fn, z, q=None):
                ap = asg_parts(fn, z)
                return adds(fn, z) and (ap is None or any(is_call(w, CLEAN) for w in gather_defs(fn, ap[1])))
            R.inst('clean', not reaches(P, f, pt, goals, cond=none_left, node=right), 'clean|count', 'what is left in a child is counted', line_of(f, y))
    for b, i, y in f.nodes():
        if y['k'] == 'call' and base_name(y.get('n', '')) in ('push_back', 'emplace_back', 'push_front') and y.get('o') is not None and isv(f, y['o'], f.params[0]['id']):
            pt = (b.id, i)
            goals = [pt] + [(b2.id, i2) for b2, i2, z in f.nodes() if z['k'] == 'ret' or is_call(z, CLEAN)]
            one = lambda fn, z, q=None: adds(fn, z) and (asg_parts(fn, z) is None or (const_val(strip(fn, asg_parts(fn, z)[1])) or 0) > 0)
            before = not reaches(P, f, (f.entry, -1), [pt], node=one)
            R.inst('clean', before or not reaches(P, f, pt, goals, node=one), 'clean|deferred', 'a child that is put off is counted', line_of(f, y))
    for b, i, y in f.nodes():
        ap = asg_parts(f, y)
        if ap is not None and isv(f, ap[0], acc) and ap[2] not in ('+=',):
            R.inst('clean', not reaches(P, f, (f.entry, -1), [(b.id, i)], node=lambda fn, z, q=None: is_call(z, CLEAN)) is False if False else ap[2] == '=' and not cycle_blocks(f, b.id), 'clean|sum', 'the sum only grows', line_of(f, y))


def kidptr(f, x):
    s = strip(f, x)
    return s is not None and s['k'] == 'mem' and s['n'] in (N + 'childrenPlus', N + 'childrenPound')


def round_reaches(P, f, pt, cond):
    """can pt be reached, from function entry or a previous pass of the loop head, without the condition in this round?"""
    if reaches(P, f, (f.entry, -1), [pt], cond=cond):
        return True
    cyc = cycle_blocks(f, pt[0])
    if not cyc:
        return False
    return reaches(P, f, pt, [pt], cond=cond)


def judged(P, f, pt, cond):
    """expressions of the conditions with which the fact was established"""
    out = []
    q = Query(P)
    seen = set()
    for b in f.blocks.values():
        for si, (t, k) in enumerate(b.succ):
            for e, pol in edge_facts(f, b, si):
                for z in gather_defs(f, e):
                    for p2 in (True, False):
                        n = norm(f, z, p2)
                        if n is not None:
                            qq = Query(P, cut_cond=cond)
                            try:
                                if cond(qq, f, n, (b.id, len(b.elems)), ROOT):
                                    out.append(z)
                            except (KeyError, TypeError):
                                pass
    return out


def same_item(f, x, facts):
    base = lambda e: {z['id'] for z in gather_defs(f, e) if z['k'] == 'var'}
    mem = lambda e: {z['n'] for z in gather_defs(f, e) if z['k'] == 'mem' and z['n'] in TREE}
    return any(base(x) & base(e) for e in facts)


def writers(P, R):
    ok = {'children': {DEEP, CLEAN}, 'childrenPlus': {DEEP, CLEAN}, 'childrenPound': {DEEP, CLEAN}, 'subscribers': {NADD, NREM, CLEAN}, 'sharedSubscribers': {NADD, NREM, CLEAN}}
    CH = ('erase', 'clear', 'extract', 'swap', 'merge', 'insert', 'emplace', 'try_emplace', 'insert_or_assign', 'reset', 'operator[]', 'purgeAndReIndex')
    n = 0
    for f in P.fns.values():
        for b, i, y in f.nodes():
            tgt = None
            ap = asg_parts(f, y)
            if ap is not None:
                s = strip(f, ap[0])
                if s is not None and s['k'] == 'mem' and s['n'] in TREE:
                    tgt = s['n']
            if y['k'] == 'call' and y.get('o') is not None and (y.get('op') in ('[]', '=') or base_name(y.get('n', '')) in CH):
                s = strip(f, y['o'])
                while s is not None and s['k'] == 'call' and base_name(s.get('n', '')) in ('getSubscribers', 'getSharedSubscribers'):
                    s = {'k': 'mem', 'n': N + ('subscribers' if base_name(s['n']) == 'getSubscribers' else 'sharedSubscribers')}
                if s is not None and s['k'] == 'mem' and s['n'] in TREE:
                    tgt = s['n']
                elif s is not None and s['k'] == 'var' and (var_type(f, s['id']) or '').strip().endswith('&'):
                    d = strip(f, (f.defs().get(s['id']) or [[None] * 4])[0][3])
                    if d is not None and d['k'] == 'mem' and d['n'] in TREE and not ('const' in (var_type(f, s['id']) or '') and y.get('op') == '[]'):
                        tgt = d['n']
            if tgt is not None:
                n += 1
                R.inst('writers', f.q in ok[base_name(tgt)], 'writers|%s|%s' % (base_name(tgt), f.q), '%s is changed by %s' % (base_name(tgt), f.q), line_of(f, y))
    R.inst('writers', n >= 6, 'writers|there', 'places that change the tree (%d)' % n, P.one(DEEP).loc)
    for f in P.fns.values():
        for b, i, y in f.nodes():
            ap = asg_parts(f, y)
            if ap is not None and is_mem(strip(f, ap[0]), ST + 'root', ST + 'rootDollar') or y['k'] == 'call' and base_name(y.get('n', '')) in ('reset', 'swap') and y.get('o') is not None and is_mem(strip(f, y['o']), ST + 'root', ST + 'rootDollar'):
                R.inst('writers', False, 'writers|root|' + f.q, 'the trees are not replaced', line_of(f, y))
