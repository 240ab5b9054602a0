"""Shared data is only touched while the lock that guards it is held."""
from core.rules import *
from core.locks import Held, SHARED, EXCL, lock_of, objtext, guard_type, owned

S = 'SubscriptionStore::'
N = 'SubscriptionNode::'
M = 'RetainedMessageNode::'

# field -> alternatives for reading, alternatives for changing; each (lock, mode, of the same object)
TREE = ([(S + 'subscriptions_lock', SHARED, False)], [(S + 'subscriptions_lock', EXCL, False)])
NODE = ([(N + 'lock', SHARED, True)], [(N + 'lock', EXCL, True)])
RTREE = ([(S + 'retainedMessagesRwlock', SHARED, False)], [(S + 'retainedMessagesRwlock', EXCL, False)])
RMSG = ([(M + 'messageSetMutex', EXCL, True), (S + 'retainedMessagesRwlock', EXCL, False)],) * 2
SES = ([(S + 'sessions_lock', SHARED, False)], [(S + 'sessions_lock', EXCL, False)])


def mutex(n):
    return ([(n, EXCL, False)],) * 2


FIELDS = {
    N + 'children': TREE, N + 'childrenPlus': TREE, N + 'childrenPound': TREE,
    N + 'subscribers': NODE, N + 'sharedSubscribers': NODE,
    M + 'children': RTREE, M + 'recursiveChildCount': RTREE, M + 'message': RMSG, M + 'messageSetAt': RMSG,
    S + 'sessionsById': SES, S + 'sessionsByIdConst': SES,
    S + 'deferredSubscriptionLeafsForPurging': TREE, S + 'deferredRetainedMessageNodeToPurge': RTREE,
    S + 'queuedSessionRemovals': mutex(S + 'queuedSessionRemovalsMutex'),
    S + 'pendingWillMessages': mutex(S + 'pendingWillsMutex'),
    'Logger::lines': mutex('Logger::logMutex'), 'DerivableCounter::timeOfPrevious': mutex('DerivableCounter::timeMutex'),
    'DerivableCounter::valPrevious': mutex('DerivableCounter::timeMutex'),
    'LockedWeakPtr::p': mutex('LockedWeakPtr::m'), 'LockedSharedPtr::v': mutex('LockedSharedPtr::m'),
    S + 'retainedMessagesNodesLimitsLogged': mutex(S + 'retainedMessagesNodesLimitsLoggedMutex'),
}
GETTERS = {}
CLASS = {N: 'SubscriptionNode', M: 'RetainedMessageNode', S: 'SubscriptionStore'}
MUT = {'insert', 'erase', 'emplace', 'emplace_back', 'emplace_hint', 'try_emplace', 'insert_or_assign', 'clear', 'operator[]', 'swap', 'push_back', 'push_front', 'pop_front', 'pop_back', 'reset', 'operator=', 'resize', 'reserve', 'rehash', 'merge', 'extract', 'assign', 'release', 'splice'}


def check(P, R):
    R.rule('guarded', 'shared data is read with its lock held, and changed with it held exclusively')
    R.rule('guards', 'what is locked stays locked to the end of the scope, and is released then')
    R.rule('owned', 'data owned by a mutex is not referred to after its lock is gone')
    held = {}

    def H(f):
        if f.id not in held:
            held[f.id] = Held(P, f)
        return held[f.id]
    getters(P)
    need = {}          # fn id -> {(field, write, obj, alts): (loc, trace)}
    n = 0
    for f in P.fns.values():
        acc = accesses(P, f)
        if not acc:
            continue
        R.saw(f.id)
        for field, pt, y, write, obj in acc:
            if own(f, field, obj):
                R.ok('guarded', '%s of an object that nobody else has yet, or any more' % field, line_of(f, y)); continue
            n += 1
            alts = FIELDS[field][1 if write else 0]
            if covered(H(f), pt, alts, obj):
                R.ok('guarded', '%s is %s under its lock' % (field, 'changed' if write else 'read'), line_of(f, y))
            else:
                need.setdefault(f.id, {}).setdefault((field, write, obj), (line_of(f, y), [line_of(f, y)]))
    if n < 40:
        raise AnalysisError('only %d accesses of guarded fields found' % n)
    # those that rely on their callers
    done = set()
    wl = [(fid, k, v) for fid, d in need.items() for k, v in d.items()]
    while wl:
        fid, k, (loc, trace) = wl.pop()
        field, write, obj = k
        if (fid, k) in done:
            continue
        done.add((fid, k))
        f = P.fns[fid]
        sites = callers(P, f)
        alts = FIELDS[field][1 if write else 0]
        if not sites:
            R.bad('guarded', 'guarded|%s|%s|%s' % (field, 'w' if write else 'r', f.q), '%s is %s without its lock' % (field, 'changed' if write else 'read'), loc, trace)
            continue
        for g, pt, y in sites:
            R.saw(g.id)
            o2 = None
            if obj == 'this':
                o2 = objtext(g, y['o']) if y.get('o') is not None else 'this' if y['k'] == 'call' else None
            else:
                k2 = next((j for j, p in enumerate(f.params) if p['id'] == obj), None)
                if k2 is not None and k2 < len(y.get('a', [])):
                    o2 = objtext(g, y['a'][k2])
            if pt is not None and covered(H(g), pt, alts, o2):
                R.ok('guarded', '%s is called with the lock of %s' % (f.q, field), line_of(g, y)); continue
            if g.is_ctor and any(g.q.startswith(l.rsplit('::', 1)[0] + '::') for l, m, sm in alts if not sm):
                R.ok('guarded', 'nobody else has the object yet', line_of(g, y)); continue
            if (g.id, (field, write, o2)) not in done and len(trace) < 12:
                wl.append((g.id, (field, write, o2), (loc, trace + [line_of(g, y)])))
    guards(P, R, H)
    owned_leaks(P, R)


def getters(P):
    GETTERS.clear()
    for f in P.fns.values():
        rets = [y for _, _, y in f.nodes() if y['k'] == 'ret' and y.get('e') is not None]
        if len(rets) == 1 and (f.ret or '').rstrip().endswith('&') if hasattr(f, 'ret') else len(rets) == 1:
            s = strip(f, rets[0]['e'])
            if s is not None and s['k'] == 'mem' and s['n'] in FIELDS and (strip(f, s['b']) or {}).get('k') in ('this', None) and refret(P, f):
                GETTERS[f.q] = s['n']


def refret(P, f):
    t = getattr(f, 'ret', None) or f.d.get('ret') if hasattr(f, 'd') else getattr(f, 'ret', None)
    return t is None or t.rstrip().endswith(('&', '*'))


def callers(P, f):
    out = list(P.call_sites(f))
    if f.is_ctor:
        cls = f.q.rsplit('::', 1)[0]
        for g in P.fns.values():
            for b, i, y in g.nodes():
                if y['k'] == 'call' and base_name(y.get('n') or '') in ('make_shared', 'make_unique') and cls in (y.get('ta') or []):
                    out.append((g, (b.id, i), y))
    for g, y, how in P.callers(f):
        if how in ('lambda',):
            # handed to an algorithm: called there; kept otherwise
            for b, i, z in g.nodes():
                if z['k'] in ('call', 'ctor') and any(w is y or w['k'] == 'lambda' and w.get('id') == y.get('id') for a in z.get('a', []) if a is not None for w in g.walk(a, True)):
                    n = z.get('n') or ''
                    if n.startswith('std::') and base_name(n) in ALGO:
                        out.append((g, (b.id, i), z))
    return out


ALGO = {'for_each', 'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'copy_if', 'remove_if', 'transform', 'sort', 'erase_if', 'accumulate', 'partition', 'stable_sort', 'max_element', 'min_element'}


def covered(H, pt, alts, obj):
    for lock, mode, same in alts:
        if H.mode(pt, lock, obj if same else None) >= mode:
            return True
    return False


def own(f, field, obj):
    """in the constructor or destructor of the object itself"""
    cls = field.rsplit('::', 1)[0]
    if field == M + 'recursiveChildCount' and f.q == M + '~RetainedMessageNode':
        return True         # a node is only destroyed by those who took it out of the tree
    return (f.is_ctor or f.is_dtor) and f.q.startswith(cls + '::') and obj == 'this'


def root_field(f, x, d=0):
    """the guarded field x is (part of), with the object it is in"""
    n = 0
    while x is not None and n < 20:
        n += 1
        x = strip(f, x)
        if x is None:
            return None
        if x['k'] == 'mem':
            if x['n'] in FIELDS:
                return (x['n'], objtext(f, x.get('b')))
            return None
        if x['k'] == 'call' and x.get('n') in GETTERS:
            return (GETTERS[x['n']], objtext(f, x.get('o')) if x.get('o') is not None else 'this')
        if x['k'] == 'un' and x['op'] in ('*', '&'):
            x = x['e']
        elif x['k'] == 'idx':
            x = x['b']
        elif x['k'] == 'call' and x.get('o') is not None and base_name(x.get('n') or '') in ('operator[]', 'at', 'front', 'back', 'begin', 'end', 'cbegin', 'cend', 'find'):
            x = x['o']
        elif x['k'] == 'call' and x.get('o') is not None and base_name(x.get('n') or '') in ('operator*', 'operator->', 'get') and 'unique_ptr' in (x.get('n') or ''):
            x = x['o']
        elif x['k'] == 'var' and d < 6:
            t = (var_type(f, x['id']) or '').rstrip()
            if not t.endswith(('&', '*')):
                return None
            rs = {root_field(f, e[3], d + 1) for e in f.defs().get(x['id'], []) if e[2] in ('init', 'asg', 'bind') and e[3] is not None} - {None}
            return sorted(rs, key=str)[0] if rs else None
        else:
            return None
    return None


def accesses(P, f):
    """[(field, point, node, changes it, object)]"""
    out = []
    for b, i, y in f.nodes():
        pt = (b.id, i)
        w = []
        a = asg_parts(f, y)
        if a is not None:
            w.append(a[0])
        if y['k'] == 'un' and y['op'] in ('++', '--', 'post++', 'post--'):
            w.append(y['e'])
        if y['k'] == 'call':
            if y.get('o') is not None and base_name(y.get('n') or '') in MUT:
                w.append(y['o'])
            for t in P.targets(y):
                for p, e in zip(t.params, y.get('a', [])):
                    ty = p['t']
                    if ty.endswith('&') and not ty.endswith('&&') and not ty.startswith('const '):
                        w.append(e)
            if y.get('n') in ('std::swap', 'std::exchange', 'std::move', 'std::erase_if', 'std::erase') and y.get('a'):
                if y['n'] != 'std::move':
                    w += y['a']
        for x in w:
            if x is None:
                continue
            s = strip(f, x)
            if s is not None and s['k'] == 'var' and not (var_type(f, s['id']) or '').rstrip().endswith('&'):
                continue            # the variable itself
            r = root_field(f, s)
            if r is not None:
                out.append((r[0], pt, y, True, r[1]))
        if y['k'] == 'mem' and y['n'] in FIELDS:
            out.append((y['n'], pt, y, False, objtext(f, y.get('b'))))
        elif y['k'] == 'call' and y.get('n') in GETTERS:
            out.append((GETTERS[y['n']], pt, y, False, objtext(f, y['o']) if y.get('o') is not None else 'this'))
        elif y['k'] == 'var' and (var_type(f, y['id']) or '').rstrip().endswith('&') and y['id'] not in [p['id'] for p in f.params]:
            r = root_field(f, y)
            if r is not None:
                out.append((r[0], pt, y, False, r[1]))
    # returning a reference to the field is not an access itself
    if f.q in GETTERS:
        out = [o for o in out if o[3]]
    # the declaration of a reference is not one either: it is used where the variable is
    return out


def owned_leaks(P, R):
    """a reference into data that a mutex owns does not outlive the lock on it"""
    n = 0
    for f in P.fns.values():
        for b, i, y in f.nodes():
            if y['k'] == 'call' and owned(y):
                n += 1
            if y['k'] not in ('decl', 'ret'):
                continue
            items = [(v.get('t') or '', v.get('e')) for v in y['d']] if y['k'] == 'decl' else [(getattr(f, 'ret', '') or '', y.get('e'))]
            for t, e in items:
                if e is None or guard_type(t):
                    continue
                if y['k'] == 'decl' and not t.rstrip().endswith(('&', '*')) and 'iterator' not in t:
                    continue
                if y['k'] == 'ret' and not t.rstrip().endswith(('&', '*')):
                    continue
                if through_owned(f, e):
                    R.bad('owned', 'owned|%s' % f.q, 'a reference into data owned by a mutex outlives the lock', line_of(f, y))
    R.inst('owned', n >= 40, 'owned|count', 'data owned by a mutex is reached through its lock (%d places)' % n, P.one('SubscriptionStore::getSessionCount').loc)


def through_owned(f, e, d=0):
    """e refers into what the temporary of an owned lock gives"""
    x = strip(f, e)
    while x is not None and d < 20:
        d += 1
        if owned(x):
            return True
        if x['k'] == 'un' and x['op'] in ('*', '&'):
            x = strip(f, x['e'])
        elif x['k'] == 'mem':
            x = strip(f, x['b'])
        elif x['k'] == 'idx':
            x = strip(f, x['b'])
        elif x['k'] == 'call' and x.get('o') is not None:
            x = strip(f, x['o'])
        elif x['k'] in ('ctor', 'cast', 'temp') and (x.get('a') or x.get('e')):
            x = strip(f, (x.get('a') or [x.get('e')])[0])
        else:
            return False
    return False


def guards(P, R, H):
    """guards are scoped objects: nobody locks the mutexes by hand"""
    locks = {l for r, w in FIELDS.values() for l, m, s in r + w}
    for f in P.fns.values():
        for b, i, y in f.nodes():
            if y['k'] != 'call':
                continue
            n = base_name(y.get('n') or '')
            if y.get('o') is not None and n in ('lock', 'unlock', 'lock_shared', 'unlock_shared', 'try_lock', 'try_lock_shared') and (strip(f, y['o']) or {}).get('n') in locks:
                R.bad('guards', 'guards|hand|%s' % f.q, 'a lock is only taken by a scoped guard', line_of(f, y))
            if (y.get('n') or '').startswith('pthread_rwlock_') and not f.q.startswith('RWLockGuard::') and 'init' not in n and 'destroy' not in n and 'attr' not in n:
                R.bad('guards', 'guards|raw|%s' % f.q, 'a lock is only taken by a scoped guard', line_of(f, y))
    # RWLockGuard itself
    g = P.one('RWLockGuard::~RWLockGuard'); u = P.one('RWLockGuard::unlock'); R.saw(g.id, u.id)
    unl = lambda fn, y, q=None: y['k'] == 'call' and y.get('n') == 'pthread_rwlock_unlock'
    rel = lambda fn, y, q=None: unl(fn, y) or is_call(y, u.q)
    none = lambda q, fn, n, pt, ctx: n[0] == '==' and is_mem(strip(fn, n[1]), 'RWLockGuard::rwlock') and (const_val(n[2]) == 0 if isinstance(n[2], dict) and const_val(n[2]) is not None else (strip(fn, n[2]) or {}).get('k') == 'null' if isinstance(n[2], dict) else n[2] == 0)
    R.inst('guards', not normal_exit(P, g, none, rel, eh=False), 'guards|dtor', 'the guard releases at the end of its scope', g.loc)
    R.inst('guards', not normal_exit(P, u, none, unl, eh=False), 'guards|unlock', 'and releases', u.loc)
    rc0 = lambda name, extra=(): (lambda q, fn, n, pt, ctx: n[0] == '==' and (const_val(n[2]) if isinstance(n[2], dict) else n[2]) in (0,) + tuple(extra) and src(q, fn, n[1], pt, ctx, name))

    def src(q, fn, x, pt, ctx, name):
        ss = q.sources(fn, x, pt, ctx)
        return bool(ss) and all(s is not None and s['k'] == 'call' and s.get('n') in name for _, s, _, _ in ss)
    for m, names, extra in (('wrlock', ('pthread_rwlock_wrlock',), ()), ('rdlock', ('pthread_rwlock_rdlock',), (35,))):
        f = P.one('RWLockGuard::' + m); R.saw(f.id)
        R.inst('guards', not normal_exit(P, f, rc0(names, extra), eh=False), 'guards|' + m, 'a lock that was not got is an error', f.loc)
    for m, name in (('trywrlock', ('pthread_rwlock_trywrlock',)), ('tryrdlock', ('pthread_rwlock_tryrdlock',))):
        f = P.one('RWLockGuard::' + m); R.saw(f.id)
        for b, i, y in f.nodes():
            if y['k'] == 'ret' and y.get('e') is not None and const_val(strip(f, y['e'])) == 1:
                q = Query(P, cut_cond=rc0(name), eh=False)
                R.inst('guards', not q.reach_point(f, (f.entry, -1), (b.id, i), ROOT, None), 'guards|' + m, 'success is told only when it was got', line_of(f, y))
            elif y['k'] == 'ret' and y.get('e') is not None and const_val(strip(f, y['e'])) is None:
                s = strip(f, y['e'])
                ok = s is not None and s['k'] == 'bin' and s['op'] == '==' and const_val(strip(f, s['b'])) == 0 and src(Query(P), f, s['a'], (b.id, i), ROOT, name)
                R.inst('guards', ok, 'guards|' + m, 'success is told only when it was got', line_of(f, y))
    # after a failed attempt the guard has nothing to release
    for m in ('trywrlock', 'tryrdlock'):
        f = P.one('RWLockGuard::' + m)
        clr = lambda fn, y, q=None: asg_parts(fn, y) is not None and is_mem(strip(fn, asg_parts(fn, y)[0]), 'RWLockGuard::rwlock')
        name = ('pthread_rwlock_' + m,)
        R.inst('guards', not normal_exit(P, f, rc0(name), clr, eh=False), 'guards|forget|' + m, 'a lock that was not got is not released', f.loc)
