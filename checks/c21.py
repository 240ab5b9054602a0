"""Saving covers all persistent state, and a start restores all of it."""
from core.rules import *
from core.loops import each_of, over, natural
from checks.c11 import must, reaches, never
from checks.c13 import null_session, DOD
from checks.c15 import isnull
from checks.c16 import gather_defs, isv
from checks.c18 import strconst
from checks.c20 import tr_, null_f

ST = 'SubscriptionStore::'
PD = 'PersistenceDataToSave::'


def check(P, R):
    R.rule('when', 'state is saved at the end of the program and periodically, each part unless it is turned off')
    R.rule('collect', 'everything that has to survive is collected')
    R.rule('handed', 'what was collected is what is written')
    R.rule('restore', 'everything that was read is put in place')
    when(P, R)
    sessions(P, R)
    subs(P, R)
    retained(P, R)
    restore(P, R)


def field(*ns):
    return lambda z: z['k'] == 'mem' and z['n'] in ns


def mem_truth(n, pol):
    return lambda q, fn, f, pt, ctx: isinstance(f[1], dict) and (strip(fn, f[1]) or {}).get('n') == n and tr_(fn, f) is pol


def flag_off(flag):
    def c(q, fn, n, pt, ctx):
        s = strip(fn, n[1]) if isinstance(n[1], dict) else None
        return s is not None and s['k'] == 'call' and base_name(s['n']) == 'hasFlagSet' and tr_(fn, n) is False and enum_name(strip(fn, s['a'][0])) == PD + flag
    return c


def none_on(q, fn, n, pt, ctx):
    s = strip(fn, n[1]) if isinstance(n[1], dict) else None
    return s is not None and s['k'] == 'call' and base_name(s['n']) == 'hasNone' and tr_(fn, n) is True


def no_storage(q, fn, n, pt, ctx):
    s = strip(fn, n[1]) if isinstance(n[1], dict) else None
    return s is not None and s['k'] == 'call' and base_name(s['n']) == 'empty' and tr_(fn, n) is True and is_mem(strip(fn, s['o']), 'Settings::storageDir')


def not_enabled(q, fn, n, pt, ctx):
    a, b = strip(fn, n[1]) if isinstance(n[1], dict) else None, n[2] if isinstance(n[2], dict) else None
    if a is None or not is_mem(a, 'Settings::retainedMessagesMode') or b is None:
        return False
    e = base_name(enum_name(strip(fn, b)) or '')
    return n[0] == '!=' and e == 'Enabled' or n[0] == '==' and e != 'Enabled'


def calls(P, f, *ns):
    return [(b.id, i, y) for b, i, y in f.nodes() if is_call(y, *ns)]


def when(P, R):
    f = P.one('saveState'); R.saw(f.id)
    for part, callee, flag, extra in (('retained messages', ST + 'saveRetainedMessages', 'RetainedMessages', [not_enabled]), ('sessions and subscriptions', ST + 'saveSessionsAndSubscriptions', 'SessionsAndSubscriptions', []), ('bridge names', 'saveBridgeInfo', 'BridgeInfo', [])):
        must(P, R, 'when', f, lambda fn, y, q=None: is_call(y, callee), 'save|' + part, '%s are saved unless that is turned off' % part, cond=any_of(no_storage, none_on, flag_off(flag), *extra))
        for b, i, y in calls(P, f, callee):
            on = lambda q, fn, n, pt, ctx: (lambda s: s is not None and s['k'] == 'call' and base_name(s['n']) == 'hasFlagSet' and tr_(fn, n) is True and enum_name(strip(fn, s['a'][0])) == PD + flag)(strip(fn, n[1]) if isinstance(n[1], dict) else None)
            R.inst('when', not reaches(P, f, (f.entry, -1), [(b, i)], cond=on), 'save|on|' + part, '%s are saved only when that is on' % part, line_of(f, y))
        file = {'retained messages': 'getRetainedMessagesDBFile', 'sessions and subscriptions': 'getSessionsDBFile', 'bridge names': 'getBridgeNamesDBFile'}[part]
        for b, i, y in calls(P, f, callee):
            R.inst('when', any(z['k'] == 'call' and base_name(z['n']) == file for z in gather_defs(f, y['a'][0])), 'save|file|' + part, 'in their file', line_of(f, y))
    # the end of the program
    m = P.one('MainApp::start'); R.saw(m.id)
    must(P, R, 'when', m, lambda fn, y, q=None: is_call(y, 'saveState'), 'end', 'state is saved before the program ends')
    for b, i, y in calls(P, m, 'saveState'):
        R.inst('when', not reaches(P, m, (m.entry, -1), [(b, i)], node=lambda fn, z, q=None: is_call(z, 'BackgroundWorker::waitForStop')), 'end|worker', 'after a save that is going on has ended', line_of(m, y))
        R.inst('when', const_val(strip(m, y['a'][2])) == 0, 'end|forced', 'and not given up half way', line_of(m, y))
        R.inst('when', any(z['k'] == 'call' and base_name(z['n']) == 'getBridgeInfosForSerializing' for z in gather_defs(m, y['a'][1])), 'end|bridges', 'with the bridges there are', line_of(m, y))
    res = each_of(P, R, m, 'when', 'end|disconnect', 'every thread disconnects its clients', field('MainApp::threads'), lambda fn, y: fn.id == m.id and y['k'] == 'fn' and y.get('n') == 'ThreadData::queueSendDisconnects')
    for b, i, y in calls(P, m, 'saveState'):
        R.inst('when', bool(res) and not reaches(P, m, (m.entry, -1), [(b, i)], node=lambda fn, z, q=None: fn.id == m.id and points(fn).get(id(z), (None,))[0] in {x for _, x in res}), 'end|after', 'before state is saved', line_of(m, y))
    # the exit condition of quitting; periodic saving
    g = P.one('MainApp::saveStateInThread'); R.saw(g.id)
    must(P, R, 'when', g, lambda fn, y, q=None: is_call(y, 'BackgroundWorker::addTask'), 'thread', 'saving in between is handed to the worker')
    r = P.one('MainApp::reloadTimers'); R.saw(r.id)
    same = lambda q, fn, n, pt, ctx: n[0] == '==' and isinstance(n[2], dict) and is_mem(strip(fn, n[1]), 'Settings::saveStateInterval') and is_mem(strip(fn, n[2]), 'Settings::saveStateInterval')
    samec = lambda q, fn, n, pt, ctx: same(q, fn, n, pt, ctx) or (lambda s: s is not None and s['k'] == 'call' and s.get('op') == '==' and tr_(fn, n) is True and all(any(z['k'] == 'mem' and z['n'] == 'Settings::saveStateInterval' for z in fn.walk(a, True)) for a in ([s['o']] if s.get('o') is not None else []) + s['a']))(strip(fn, n[1]) if isinstance(n[1], dict) else None)
    task = lambda fn, y, q=None: is_call(y, 'Timer::addTask', 'TimedTasks::addTask') or (y['k'] == 'call' and base_name(y.get('n') or '') == 'addTask' and any('saveStateInThread' in (z.get('n') or '') for z in gather_defs(fn, y['a'][0])))
    tasks = [(b.id, i, y) for b, i, y in r.nodes() if y['k'] == 'call' and base_name(y.get('n') or '') == 'addTask' and any('saveStateInThread' in (z.get('n') or '') for z in gather_defs(r, y['a'][0]))]
    R.inst('when', len(tasks) >= 1, 'timer', 'a timer saves state', r.loc)
    must(P, R, 'when', r, lambda fn, y, q=None: any(y is t[2] for t in tasks), 'timer|set', 'the timer is set whenever the interval is new', cond=samec)
    for b, i, y in tasks:
        R.inst('when', any(z['k'] == 'mem' and z['n'] == 'Settings::saveStateInterval' for z in gather_defs(r, y['a'][1])) and const_val(strip(r, y['a'][2])) == 1, 'timer|every', 'every time the interval passes', line_of(r, y))


def vec_arg(f, y, k):
    s = strip(f, y['a'][k])
    return s['id'] if s is not None and s['k'] == 'var' else None


def sessions(P, R):
    f = P.one(ST + 'saveSessionsAndSubscriptions'); R.saw(f.id)
    sv = calls(P, f, 'SessionsAndSubscriptionsDB::saveData')
    must(P, R, 'handed', f, lambda fn, y, q=None: any(y is z for _, _, z in sv), 'sessions', 'sessions and subscriptions are written')
    for b, i, y in sv:
        v = vec_arg(f, y, 0)
        put = lambda fn, z: fn.id == f.id and z['k'] == 'call' and base_name(z.get('n') or '') in ('push_back', 'emplace_back') and z.get('o') is not None and isv(fn, z['o'], v) and any(w['k'] == 'mem' and base_name(w['n']) == 'second' for w in gather_defs(fn, z['a'][0]))
        res = each_of(P, R, f, 'collect', 'sessions', 'every session is collected', field(ST + 'sessionsByIdConst', ST + 'sessionsById'), put)
        if v is not None:
            bad = [z for _, _, z in f.nodes() if z['k'] == 'call' and z.get('o') is not None and isv(f, z['o'], v) and base_name(z.get('n') or '') in ('erase', 'clear', 'pop_back', 'resize', 'swap', 'operator=')]
            R.inst('collect', not bad, 'sessions|kept', 'and none is taken out again', f.loc)
        R.inst('handed', all(not reaches(P, f, (f.entry, -1), [(b, i)], node=lambda fn, z, q=None: points(fn).get(id(z), (None,))[0] == x) for L, x in res) and bool(res), 'sessions|after', 'before they are written', line_of(f, y))
        w = strip(f, y['a'][1])
        R.inst('handed', any(z['k'] == 'call' and z['n'] == ST + 'getSubscriptions' and not z['a'] for z in gather_defs(f, y['a'][1])), 'subscriptions', 'the subscriptions written are all there are', line_of(f, y))
    op = calls(P, f, 'SessionsAndSubscriptionsDB::openWrite')
    for b, i, y in sv:
        R.inst('handed', bool(op) and not reaches(P, f, (f.entry, -1), [(b, i)], node=lambda fn, z, q=None: is_call(z, 'SessionsAndSubscriptionsDB::openWrite')), 'sessions|open', 'in a file opened for that', line_of(f, y))
    # only sessions that end with their connection are left out
    g = P.one('SessionsAndSubscriptionsDB::saveData'); R.saw(g.id)
    def nul(pol):
        return lambda q, fn, n, pt, ctx: isinstance(n[1], dict) and (strip(fn, n[1]) or {}).get('k') in ('var', 'call') and tr_(fn, n) is pol and 'Session>' in (var_type(fn, (strip(fn, n[1]) or {}).get('id')) or (strip(fn, n[1]) or {}).get('t') or '')
    null_session = lambda pol: nul(not pol)
    out = any_of(null_session(True), mem_truth(DOD, True))
    cp = [y for b, i, y in g.nodes() if y['k'] == 'call' and base_name(y.get('n') or '') == 'copy_if']
    src = g.params[0]['id']
    if cp:
        ok = False
        for y in cp:
            rng = [strip(g, a) for a in y['a'][:2]]
            ok |= all(z is not None and z['k'] == 'call' and base_name(z['n']) in e and isv(g, z['o'], src) for z, e in zip(rng, (('begin', 'cbegin'), ('end', 'cend'))))
            for L in P.lambda_fns(strip(g, y['a'][3])) if strip(g, y['a'][3]) is not None else []:
                pass
        R.inst('collect', ok, 'filter|all', 'all of them are considered', g.loc)
        ls = [l for l in P.lambdas_of(g) if any(l.id == t.id for y in cp for t in P.lambda_fns(strip(g, y['a'][3])) or [])] or P.lambdas_of(g)
        for l in ls:
            R.saw(l.id)
            for b, i, y in l.nodes():
                if y['k'] == 'ret':
                    R.inst('collect', bvalued(P, l, y['e'], (b.id, i), False, out), 'filter', 'only sessions that end with their connection are left out', line_of(l, y))
                    for what, c in (('there', null_session(False)), ('lasting', mem_truth(DOD, False))):
                        R.inst('collect', bvalued(P, l, y['e'], (b.id, i), True, c), 'filter|' + what, 'sessions that end with their connection are not saved', line_of(l, y))
    else:
        put = lambda fn, z: fn.id == g.id and z['k'] == 'call' and base_name(z.get('n') or '') in ('push_back', 'emplace_back') and z.get('a') and any(w['k'] == 'var' and w['id'] == src for w in gather_defs(fn, z['a'][0]))
        each_of(P, R, g, 'collect', 'filter', 'only sessions that end with their connection are left out', lambda z: z['k'] == 'var' and z['id'] == src, put, skip=out, reached=null_f)
        pts = [(b.id, i) for b, i, y in g.nodes() if put(g, y)]
        for what, c in (('there', null_session(False)), ('lasting', mem_truth(DOD, False))):
            R.inst('collect', all(not reaches(P, g, (g.entry, -1), [p], cond=c) for p in pts), 'filter|' + what, 'sessions that end with their connection are not saved', g.loc)


def gone(q, fn, n, pt, ctx):
    """the session (weak pointer) is gone"""
    if (n[0], const_val(n[2]) if isinstance(n[2], dict) else None) != ('==', 0):
        return False
    ss = q.sources(fn, n[1], pt, ctx)
    return bool(ss) and all(s is not None and s['k'] == 'call' and base_name(s.get('n', '')) == 'lock' for f, s, p, c in ss)


def comes(f, x, v):
    return any(z['k'] == 'var' and z['id'] == v for z in gather_defs(f, x))


def record(P, R, f, key, share):
    """the record made of a subscription has the values of that subscription"""
    for b, i, y in f.nodes():
        if y['k'] == 'ctor' and base_name(y.get('n') or y.get('t') or '') == 'SubscriptionForSerializing' and len(y['a']) >= 5 or y['k'] == 'call' and base_name(y.get('n') or '') == 'emplace_back' and len(y.get('a', [])) >= 5:
            a = y['a']
            ns = [base_name((strip(f, e) or {}).get('n') or '') for e in a]
            R.inst('collect', ns[1:5] == ['qos', 'noLocal', 'retainAsPublished', 'subscriptionIdentifier'], key + '|values', 'a subscription is saved with its options and identifier', line_of(f, y))
            s = strip(f, a[0])
            R.inst('collect', s is not None and s['k'] == 'call' and base_name(s['n']) == 'getClientId' or s is not None and s['k'] == 'mem' and base_name(s['n']) == 'client_id', key + '|client', 'and its client', line_of(f, y))
            # all of the same subscription
            roots = set()
            for e in a[:5]:
                roots.add(frozenset(z['id'] for z in gather_defs(f, e) if z['k'] == 'var' and 'Subscription' in (var_type(f, z['id']) or '') and '::' not in (var_type(f, z['id']) or '').split('Subscription')[0][-2:]))
            R.inst('collect', len({r for r in roots if r}) <= 2, key + '|same', 'of one subscription', line_of(f, y))
            if share:
                R.inst('collect', len(a) >= 6 and base_name((strip(f, a[5]) or {}).get('n') or '') == 'shareName', key + '|share', 'a shared subscription with its share name', line_of(f, y))


def subs(P, R):
    fs = P.fn(ST + 'getSubscriptions')
    rec = [f for f in fs if len(f.params) > 2]
    top = [f for f in fs if not f.params]
    if len(rec) != 1 or len(top) != 1:
        raise AnalysisError('SubscriptionStore::getSubscriptions not found')
    f, g = rec[0], top[0]
    R.saw(f.id, g.id)
    node, comp, root, outp, dq = (f.params[k]['id'] for k in range(5))
    nonode = lambda q, fn, n, pt, ctx: n[0] == '==' and isinstance(n[2], dict) and const_val(n[2]) == 0 and (lambda s: s is not None and s['k'] == 'var' and fn.id == f.id and s['id'] == node)(strip(fn, n[1]))
    into = lambda fn, y: fn.id == f.id and y['k'] == 'call' and base_name(y.get('n') or '') in ('push_back', 'emplace_back') and y.get('o') is not None and comes(fn, y['o'], outp) and any(z['k'] == 'call' and base_name(z.get('n') or '') in ('operator[]', 'at', 'try_emplace') or z.get('op') == '[]' for z in gather_defs(fn, y['o']))
    own = lambda *ns: lambda z: z['k'] in ('call', 'mem') and base_name(z['n']) in ns
    each_of(P, R, f, 'collect', 'subscribers', 'every subscription of a living session is collected', own('getSubscribers', 'subscribers'), into, skip=gone, reached=nonode)
    shared = lambda fn, y: is_call(y, 'SharedSubscribers::getForSerializing')
    each_of(P, R, f, 'collect', 'shared', 'the members of every shared subscription are collected', own('getSharedSubscribers', 'sharedSubscribers'), shared, reached=nonode)
    record(P, R, f, 'subscribers', False)
    for b, i, y in f.nodes():
        if into(f, y):
            keyed = [z for z in gather_defs(f, y['o']) if (z['k'] == 'call' and (z.get('op') == '[]' or base_name(z.get('n') or '') in ('operator[]', 'at', 'try_emplace')))]
            R.inst('collect', all(isv(f, z['a'][0], comp) for z in keyed if z.get('a')), 'subscribers|filter', 'under the filter of its place', line_of(f, y))
        if shared(f, y):
            R.inst('collect', isv(f, y['a'][0], comp) and isv(f, y['a'][1], outp), 'shared|filter', 'under the filter of its place', line_of(f, y))
    h = P.one('SharedSubscribers::getForSerializing'); R.saw(h.id)
    into2 = lambda fn, y: fn.id == h.id and y['k'] == 'call' and base_name(y.get('n') or '') in ('push_back', 'emplace_back') and y.get('o') is not None and comes(fn, y['o'], h.params[1]['id'])
    each_of(P, R, h, 'collect', 'members', 'every member with a living session is collected', own('members'), into2, skip=gone)
    record(P, R, h, 'members', True)
    for b, i, y in h.nodes():
        if into2(h, y):
            R.inst('collect', comes(h, y['o'], h.params[0]['id']), 'members|filter', 'under the filter given', line_of(h, y))
    # below
    visit = lambda fn, y, m: fn.id == f.id and y['k'] == 'call' and (is_call(y, ST + 'getSubscriptions') and any(z['k'] == 'mem' and base_name(z['n']) == m for z in gather_defs(fn, y['a'][0])) or base_name(y.get('n') or '') in ('emplace_back', 'push_back', 'emplace_front', 'push_front') and y.get('o') is not None and isv(fn, y['o'], dq) and any(z['k'] == 'mem' and base_name(z['n']) == m for a in y['a'] for z in gather_defs(fn, a)))
    each_of(P, R, f, 'collect', 'children', 'every place below is gone through, now or later', field('SubscriptionNode::children'), lambda fn, y: visit(fn, y, 'children'), reached=nonode)
    for m, sign in (('childrenPlus', '+'), ('childrenPound', '#')):
        nom = lambda q, fn, n, pt, ctx: n[0] == '==' and isinstance(n[2], dict) and const_val(n[2]) == 0 and any(z['k'] == 'mem' and base_name(z['n']) == m for z in fn.walk(n[1], True))
        must(P, R, 'collect', f, lambda fn, y, q=None: visit(fn, y, m), m, 'the place below for %s is gone through, now or later' % sign, cond=any_of(nonode, nom))
    for b, i, y in f.nodes():
        for m, sign in (('children', None), ('childrenPlus', '+'), ('childrenPound', '#')):
            if visit(f, y, m):
                a = y['a'] if len(y['a']) >= 3 else None
                if a is None:
                    s = strip(f, y['a'][0])
                    a = s['a'] if s is not None and s['k'] in ('ctor', 'init') and len(s['a']) == 3 else None
                if a is None:
                    raise AnalysisError('%s: what is put off is not understood' % line_of(f, y))
                R.inst('collect', names_ok(P, f, a[1], comp, root, sign, (b.id, i)), m + '|name', 'with its level added to the filter', line_of(f, y))
                R.inst('collect', const_val(strip(f, a[2])) == 0, m + '|below', 'as a place below the top', line_of(f, y))
                if is_call(y, ST + 'getSubscriptions'):
                    R.inst('collect', isv(f, y['a'][3], outp) and isv(f, y['a'][4], dq), m + '|same', 'into the same lists', line_of(f, y))
    # the two trees, to the end
    walk = calls(P, g, ST + 'getSubscriptions')
    dqv = {strip(g, y['a'][4])['id'] for _, _, y in walk if (strip(g, y['a'][4]) or {}).get('k') == 'var'}
    for m in ('root', 'rootDollar'):
        put = lambda fn, y, q=None: y['k'] == 'call' and base_name(y.get('n') or '') in ('emplace_back', 'push_back') and y.get('o') is not None and any(isv(fn, y['o'], v) for v in dqv) and any(z['k'] == 'mem' and z['n'] == ST + m for a in y['a'] for z in gather_defs(fn, a))
        must(P, R, 'collect', g, put, 'tree|' + m, 'both trees are gone through')
        for b, i, y in g.nodes():
            if put(g, y):
                a = y['a'] if len(y['a']) >= 3 else (strip(g, y['a'][0]) or {}).get('a', [])
                R.inst('collect', len(a) == 3 and strconst(g, a[1]) == '' and const_val(strip(g, a[2])) == 1, 'tree|%s|top' % m, 'from the top', line_of(g, y))
    drain(P, R, g, 'collect', 'tree', dqv, lambda fn, y: is_call(y, ST + 'getSubscriptions'))
    for b, i, y in g.nodes():
        if y['k'] == 'ret':
            R.inst('collect', all(isv(g, z['a'][3], (strip(g, y['e']) or {}).get('id')) for _, _, z in walk) and bool(walk), 'tree|answer', 'what was collected is the answer', line_of(g, y))


def drain(P, R, g, rule, key, dqv, act):
    """the loop ends only when nothing is put off any more, and takes away only what it went through"""
    emp = lambda pol: lambda q, fn, n, pt, ctx: (lambda s: s is not None and s['k'] == 'call' and (base_name(s['n']) == 'empty' and tr_(fn, n) is pol or base_name(s['n']) == 'size' and n[0] == ('==' if pol else '!=') and const_val(n[2]) == 0) and any(isv(fn, s['o'], v) for v in dqv))(strip(fn, n[1]) if isinstance(n[1], dict) else None)
    pops = [(b.id, i, y) for b, i, y in g.nodes() if y['k'] == 'call' and base_name(y.get('n') or '') in ('pop_front', 'erase', 'clear', 'pop_back', 'swap', 'resize') and y.get('o') is not None and any(isv(g, y['o'], v) for v in dqv)]
    R.inst(rule, bool(pops) and all(base_name(y['n']) == 'pop_front' for _, _, y in pops), key + '|pop', 'what was gone through is taken off', g.loc)
    walks = [(b.id, i) for b, i, y in g.nodes() if act(g, y)]
    # from the test "not empty" to the removal there is the walk, unless the place is gone
    tests = [b for b in g.blocks.values() if b.term and b.term.get('c') is not None and any(z['k'] == 'call' and base_name(z.get('n') or '') in ('empty', 'size') and z.get('o') is not None and any(isv(g, z['o'], v) for v in dqv) for z in g.walk(b.term['c'], True)) and any(b.id in L[1] for L in natural(g))]
    loops = [L for L in natural(g) if any(p[0] in L[1] for p in pops)]
    L = min(loops, key=lambda L: len(L[1])) if loops else None
    R.inst(rule, L is not None, key + '|loop', 'as long as something is put off', g.loc)
    if L is None:
        return
    heads = [b for b in tests if b.id in L[1]]
    pp = [p[:2] for p in pops]
    for x in heads:
        if not any(t not in L[1] for t, k in x.succ if t is not None and k == 'n'):
            continue
        ins = [t for t, k in x.succ if k == 'n' and t in L[1]]
        fronts = lambda fn, y, qq=None: y['k'] == 'call' and base_name(y.get('n') or '') == 'front' and y.get('o') is not None and any(isv(fn, y['o'], v) for v in dqv)
        q = Query(P, cut_cond=gone, cut_node=lambda fn, y, qq=None: act(fn, y), eh=False)
        bad = any(q.reach_point(g, (t, -1), (x.id, len(x.elems)), ROOT, None) or q.reach_point(g, (t, -1), (x.id, 0), ROOT, None) for t in ins)
        R.inst(rule, not bad, key + '|each', 'everything put off is gone through, unless it is gone', g.loc)
        for p in pp:
            q = Query(P, cut_cond=never, cut_node=fronts, eh=False)
            bad = any(q.reach_point(g, (t, -1), p, ROOT, None) for t in ins)
            again = {(x.id, len(x.elems)), (x.id, 0)}
            q = Query(P, cut_cond=never, eh=False)
            bad |= any(q.reach_point(g, p, p2, ROOT, again) for p2 in pp)
            R.inst(rule, not bad, key + '|once', 'only that is taken off', g.loc)
    # every exit of the loop is the one on empty
    for b in L[1]:
        for si, (t, k) in enumerate(g.blocks[b].succ):
            if k == 'n' and t is not None and t not in L[1]:
                q = Query(P, cut_cond=emp(True), eh=False)
                ok = q.edge_cut(g, g.blocks[b], si, ROOT) or not q.reach_point(g, (g.entry, -1), (b, len(g.blocks[b].elems)), ROOT, None)
                if not ok:
                    ok = quits(P, g, t)
                R.inst(rule, ok, key + '|end', 'it ends when nothing is put off any more', '%s:%d' % (g.file, next((y.get('l') for _, e in g.blocks[b].elems for y in g.walk(e) if y.get('l')), g.line)))


def quits(P, g, bid):
    """leaving because the program ends, with what was written thrown away"""
    b = g.blocks[bid]
    pt = (bid, 0 if b.elems else len(b.elems))
    quitting = lambda q, fn, n, pt_, ctx: isinstance(n[1], dict) and any(z['k'] == 'mem' and base_name(z['n']) == 'quitting' for z in fn.walk(n[1], True)) and tr_any(fn, n) is True
    bg = lambda q, fn, n, pt_, ctx: (lambda s: s is not None and s['k'] == 'var' and fn.id == g.id and any(s['id'] == p['id'] for p in g.params) and tr_(fn, n) is True)(strip(fn, n[1]) if isinstance(n[1], dict) else None)
    if reaches(P, g, (g.entry, -1), [pt], cond=quitting) or reaches(P, g, (g.entry, -1), [pt], cond=bg):
        return False
    q = Query(P, cut_cond=never, cut_node=lambda fn, y, qq=None: y['k'] == 'call' and base_name(y.get('n') or '') == 'dontSaveTmpFile', eh=False)
    return not q.after(g, (bid, -1), ROOT)


def tr_any(fn, n):
    return tr_(fn, n)


def names_ok(P, f, x, comp, root, sign, pt):
    """the level is added after a slash, or stands alone at the top"""
    forms = []

    def leafs(x, d=0):
        s = strip(f, x)
        if s is None or d > 8:
            return
        if s['k'] == 'var' and s['id'] not in (comp,) and len(f.defs().get(s['id'], [])) >= 1 and all(e[3] is not None for e in f.defs()[s['id']]) and 'string' in (var_type(f, s['id']) or ''):
            for e in f.defs()[s['id']]:
                leafs(e[3], d + 1)
            return
        if s['k'] == 'cond':
            c = norm(f, s['c'], True)
            top = c is not None and isv(f, c[1], root)
            pos = top and tr_(f, c)
            if top and pos is not None:
                leafs2(s['a'] if pos else s['b'], True); leafs2(s['b'] if pos else s['a'], False)
                return
        forms.append((None, parts(s)))

    def leafs2(x, top):
        forms.append((top, parts(strip(f, x))))

    def parts(s, d=0):
        if s is None or d > 8:
            return ['?']
        if s['k'] == 'call' and s.get('op') == '+' or s['k'] == 'bin' and s['op'] == '+':
            args = ([s['o']] if s.get('o') is not None else []) + s.get('a', []) if s['k'] == 'call' else [s['a'], s['b']]
            return [p for a in args for p in parts(strip(f, a), d + 1)]
        k = strconst(f, s)
        if k is not None:
            return [k]
        if s['k'] == 'var' and s['id'] == comp:
            return [0]
        if s['k'] == 'mem' and base_name(s['n']) == 'first':
            return [1]
        if s['k'] in ('ctor', 'init') and not s.get('a'):
            return []
        if s['k'] in ('ctor', 'init') and len(s.get('a', [])) == 1:
            return parts(strip(f, s['a'][0]), d + 1)
        return ['?']

    def joined(ps):
        out = []
        for p in ps:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        return out
    leafs(x)
    lvl = [1] if sign is None else [sign]
    top = joined(lvl)
    sub = joined([0, '/'] + lvl)
    got = {(t, tuple(joined(ps))) for t, ps in forms}
    if {(True, tuple(top)), (False, tuple(sub))} == got:
        return True
    # if/else: decided by where the values are assigned
    if {g for _, g in got} - {()} == {tuple(top), tuple(sub)}:
        s = strip(f, x)
        if s is not None and s['k'] == 'var':
            istop = truth(lambda q, fn, z: z['k'] == 'var' and z['id'] == root, True)
            below = truth(lambda q, fn, z: z['k'] == 'var' and z['id'] == root, False)
            ok = True
            for e in f.defs()[s['id']]:
                ps = tuple(joined(parts(strip(f, e[3]))))
                q = Query(P, cut_cond=istop if ps == tuple(top) else below, eh=False)
                oth = {(d[0], d[1]) for d in f.defs()[s['id']] if (d[0], d[1]) != (e[0], e[1])}
                if not ps:
                    ok &= not Query(P, cut_cond=never, eh=False).reach_point(f, (e[0], e[1]), pt, ROOT, oth)
                    continue
                ok &= not q.reach_point(f, (f.entry, -1), (e[0], e[1]), ROOT, None) or not Query(P, cut_cond=istop if ps == tuple(top) else below, eh=False).reach_point(f, (e[0], e[1]), pt, ROOT, oth)
            return ok
    return False


def retained(P, R):
    f = P.one(ST + 'getRetainedMessages'); R.saw(f.id)
    out, dq = f.params[1]['id'], f.params[4]['id']
    put = lambda fn, y, q=None: y['k'] == 'call' and base_name(y.get('n') or '') in ('push_back', 'emplace_back') and y.get('o') is not None and isv(fn, y['o'], out)
    none = lambda q, fn, n, pt, ctx: n[0] == '==' and isinstance(n[2], dict) and const_val(n[2]) == 0 and any(z['k'] == 'mem' and z['n'] == 'RetainedMessageNode::message' for z in fn.walk(n[1], True))
    must(P, R, 'collect', f, put, 'retained|message', 'the retained message of a topic is collected', cond=none)
    for b, i, y in f.nodes():
        if put(f, y):
            R.inst('collect', any(z['k'] == 'mem' and z['n'] == 'RetainedMessageNode::message' for z in gather_defs(f, y['a'][0])), 'retained|own', 'itself', line_of(f, y))
    visit = lambda fn, y: fn.id == f.id and y['k'] == 'call' and (is_call(y, f.q) and any(z['k'] == 'mem' and base_name(z['n']) == 'children' for z in gather_defs(fn, y['a'][0])) and isv(fn, y['a'][1], out) and isv(fn, y['a'][4], dq) or base_name(y.get('n') or '') in ('push_back', 'emplace_back') and y.get('o') is not None and isv(fn, y['o'], dq) and any(z['k'] == 'mem' and base_name(z['n']) == 'children' for z in gather_defs(fn, y['a'][0])))
    each_of(P, R, f, 'collect', 'retained|children', 'every topic below is gone through, now or later', field('RetainedMessageNode::children'), visit)
    g = P.one(ST + 'saveRetainedMessages'); R.saw(g.id)
    walk = calls(P, g, f.q)
    dqv = {strip(g, y['a'][4])['id'] for _, _, y in walk if (strip(g, y['a'][4]) or {}).get('k') == 'var'}
    top = lambda fn, y, q=None: y['k'] == 'call' and base_name(y.get('n') or '') in ('push_back', 'emplace_back') and y.get('o') is not None and any(isv(fn, y['o'], v) for v in dqv) and any(z['k'] == 'mem' and z['n'] == ST + 'retainedMessagesRoot' for z in gather_defs(fn, y['a'][0]))
    must(P, R, 'collect', g, top, 'retained|top', 'retained messages are collected from the top')
    drain(P, R, g, 'collect', 'retained|tree', dqv, lambda fn, y: is_call(y, f.q))
    # what a walk gave is written
    save = calls(P, g, 'RetainedMessagesDB::saveData')
    quitting = lambda q, fn, n, pt, ctx: isinstance(n[1], dict) and any(z['k'] == 'mem' and base_name(z['n']) == 'quitting' for z in fn.walk(n[1], True)) and tr_(fn, n) is True
    for b, i, y in walk:
        v = vec_arg(g, y, 1)
        mine = lambda fn, z, q=None: fn.id == g.id and any(z is w and isv(g, w['a'][0], v) for _, _, w in save)
        pops = [(b2.id, i2) for b2, i2, z in g.nodes() if z['k'] == 'call' and base_name(z.get('n') or '') == 'pop_front']
        q = Query(P, cut_cond=never, cut_node=lambda fn, z, qq=None: mine(fn, z) or z['k'] == 'call' and base_name(z.get('n') or '') == 'dontSaveTmpFile', eh=False)
        R.inst('handed', not any(q.reach_point(g, (b, i), p, ROOT, None) for p in pops) and not q.after(g, (b, i), ROOT), 'retained', 'the retained messages collected are written', line_of(g, y))
        muts = [z for _, _, z in g.nodes() if z['k'] == 'call' and z.get('o') is not None and isv(g, z['o'], v) and base_name(z.get('n') or '') in ('erase', 'clear', 'pop_back', 'resize', 'swap', 'operator=')]
        for z in muts:
            zp = points(g)[id(z)]
            bad = [1 for b2, i2, w in save if Query(P, cut_cond=never, eh=False).reach_point(g, (b, i), zp, ROOT, {(x[0], x[1]) for x in save})]
            R.inst('handed', not bad, 'retained|kept', 'and none is taken out', line_of(g, z))
    for b, i, y in save:
        R.inst('handed', not reaches(P, g, (g.entry, -1), [(b, i)], node=lambda fn, z, q=None: is_call(z, 'RetainedMessagesDB::openWrite')), 'retained|open', 'in a file opened for that', line_of(g, y))
    for b, i, y in g.nodes():
        if y['k'] == 'call' and base_name(y.get('n') or '') == 'dontSaveTmpFile':
            R.inst('handed', not reaches(P, g, (g.entry, -1), [(b.id, i)], cond=quitting), 'retained|given up', 'saving is given up only when the program ends, which saves again', line_of(g, y))
            bg = lambda q, fn, n, pt_, ctx: (lambda s: s is not None and s['k'] == 'var' and fn.id == g.id and s['id'] == g.params[1]['id'] and tr_(fn, n) is True)(strip(fn, n[1]) if isinstance(n[1], dict) else None)
            R.inst('handed', not reaches(P, g, (g.entry, -1), [(b.id, i)], cond=bg), 'retained|given up|background', 'and only in the background', line_of(g, y))


def restore(P, R):
    m = next((f for f in P.fns.values() if f.q == 'MainApp::MainApp' and any(is_call(y, ST + 'loadSessionsAndSubscriptions') for _, _, y in f.nodes())), None)
    if m is None:
        ctor = [f for f in P.fns.values() if f.q == 'MainApp::MainApp']
        R.inst('restore', False, 'start|sessions', 'sessions and subscriptions are loaded at the start', ctor[0].loc if ctor else '')
    else:
        R.saw(m.id)
        must(P, R, 'restore', m, lambda fn, y, q=None: is_call(y, ST + 'loadSessionsAndSubscriptions'), 'start|sessions', 'sessions and subscriptions are loaded at the start', cond=no_storage)
        must(P, R, 'restore', m, lambda fn, y, q=None: is_call(y, ST + 'loadRetainedMessages'), 'start|retained', 'retained messages are loaded at the start, in the mode that keeps them', cond=any_of(no_storage, not_enabled))
        for n, file in (('loadSessionsAndSubscriptions', 'getSessionsDBFile'), ('loadRetainedMessages', 'getRetainedMessagesDBFile')):
            for b, i, y in calls(P, m, ST + n):
                R.inst('restore', any(z['k'] == 'call' and base_name(z['n']) == file for z in gather_defs(m, y['a'][0])), 'start|file|' + n, 'from their file', line_of(m, y))
    f = P.one(ST + 'loadSessionsAndSubscriptions'); R.saw(f.id)
    rd = calls(P, f, 'SessionsAndSubscriptionsDB::readData')
    must(P, R, 'restore', f, lambda fn, y, q=None: any(y is z for _, _, z in rd), 'sessions|read', 'the file is read')
    ses = lambda z: z['k'] == 'mem' and z['n'] == 'SessionsAndSubscriptionsResult::sessions'
    sub = lambda z: z['k'] == 'mem' and z['n'] == 'SessionsAndSubscriptionsResult::subscriptions'
    elem = lambda fn, x: any(ses(z) for z in gather_defs(fn, x))
    reg = lambda fn, y: fn.id == f.id and (lambda ap: ap is not None and ap[2] == '=' and any(z['k'] == 'mem' and z['n'] == ST + 'sessionsById' for z in fn.walk(ap[0], True)) and elem(fn, ap[1]))(asg_parts(fn, y)) or y['k'] == 'call' and base_name(y.get('n') or '') in ('insert_or_assign',) and y.get('o') is not None and has_mem(fn, y['o'], ST + 'sessionsById') and elem(fn, y['a'][1])
    each_of(P, R, f, 'restore', 'sessions|map', 'every session read is registered', ses, reg)
    for b, i, y in f.nodes():
        if reg(f, y):
            ks = [z for z in gather_defs(f, y.get('o') if y['k'] == 'call' else y['a']) if z['k'] == 'call' and base_name(z['n']) == 'getClientId'] + [z for a in y.get('a', []) if isinstance(a, dict) for z in gather_defs(f, a) if z['k'] == 'call' and base_name(z['n']) == 'getClientId'] if isinstance(y.get('a'), list) else [z for z in gather_defs(f, y['a']) if z['k'] == 'call' and base_name(z['n']) == 'getClientId']
            R.inst('restore', bool(ks), 'sessions|key', 'under its client ID', line_of(f, y))
    each_of(P, R, f, 'restore', 'sessions|expiry', 'every session read gets its expiry timer', ses, lambda fn, y: fn.id == f.id and is_call(y, ST + 'queueSessionRemoval') and elem(fn, y['a'][0]))
    each_of(P, R, f, 'restore', 'sessions|will', 'the will of every session read is queued', ses, lambda fn, y: fn.id == f.id and is_call(y, ST + 'queueWillMessage') and elem(fn, y['a'][1]) and any(z['k'] == 'call' and base_name(z['n']) == 'getWill' for z in gather_defs(fn, y['a'][0])), skip=isnull(lambda q, fn, x, pt, ctx: any(s is not None and s['k'] == 'call' and base_name(s['n']) == 'getWill' for _, s, _, _ in q.sources(fn, x, pt, ctx))))
    nosess = lambda q, fn, n, pt, ctx: n[0] == '==' and isinstance(n[2], dict) and any(z['k'] == 'call' and base_name(z.get('n') or '') in ('find',) for a in n[1:3] for z in gather_defs(fn, a)) and any(z['k'] == 'call' and base_name(z.get('n') or '') in ('end', 'cend') for a in n[1:3] for z in gather_defs(fn, a)) or n[0] == '==' and isinstance(n[2], dict) and const_val(n[2]) == 0 and session_var(fn, n[1])
    add = lambda fn, y: fn.id == f.id and is_call(y, ST + 'addSubscription')
    res = each_of(P, R, f, 'restore', 'subscriptions', 'every subscription read is made, unless its session is not there', sub, add, skip=nosess)
    for b, i, y in f.nodes():
        if add(f, y):
            want = [None, None, 'qos', 'noLocal', 'retainAsPublished', 'shareName', 'subscriptionidentifier']
            q = Query(P)
            def one(a):
                ns = {base_name((s or {}).get('n') or '') for _, s, _, _ in q.sources(f, a, (b.id, i), ROOT)}
                return ns.pop() if len(ns) == 1 else None
            got = [one(a) for a in y['a']]
            R.inst('restore', all(w is None or w == g_ for w, g_ in zip(want, got)) and len(got) >= 7, 'subscriptions|values', 'with its options, share name and identifier', line_of(f, y))
            R.inst('restore', any(z['k'] == 'call' and base_name(z['n']) == 'find' and any(base_name(w.get('n') or '') == 'clientId' for w in gather_defs(f, z['a'][0])) for z in gather_defs(f, y['a'][0])), 'subscriptions|session', 'for the session of its client', line_of(f, y))
            R.inst('restore', any(z['k'] == 'call' and base_name(z['n']) == 'splitTopic' for z in gather_defs(f, y['a'][1])) and any(z['k'] == 'mem' and base_name(z['n']) == 'first' for z in gather_defs(f, y['a'][1])), 'subscriptions|filter', 'at its filter', line_of(f, y))
    # order: sessions before subscriptions
    regs = [(b.id, i) for b, i, y in f.nodes() if reg(f, y)]
    adds = [(b.id, i) for b, i, y in f.nodes() if add(f, y)]
    R.inst('restore', not any(reaches(P, f, a, regs) for a in adds), 'order', 'sessions first', f.loc)
    g = P.one(ST + 'loadRetainedMessages'); R.saw(g.id)
    rdm = [(b.id, i, y) for b, i, y in g.nodes() if is_call(y, 'RetainedMessagesDB::readData')]
    must(P, R, 'restore', g, lambda fn, y, q=None: any(y is z for _, _, z in rdm), 'retained|read', 'the file is read')
    setm = lambda fn, y: fn.id == g.id and is_call(y, ST + 'setRetainedMessage')
    lst = {v for v, ds in g.defs().items() if any(e[3] is not None and any(z is y for z in g.walk(e[3], True)) for e in ds for _, _, y in rdm)}
    ls = lambda z: z['k'] == 'var' and z['id'] in lst
    each_of(P, R, g, 'restore', 'retained|each', 'every retained message read is set', ls, setm, reached=False)
    for b, i, y in g.nodes():
        if setm(g, y):
            R.inst('restore', any(ls(z) for z in gather_defs(g, y['a'][0])) and any(z['k'] == 'call' and base_name(z['n']) == 'getSubtopics' for z in gather_defs(g, y['a'][1])), 'retained|own', 'at its own topic', line_of(g, y))
            R.inst('restore', len(y['a']) < 3 or const_val(strip(g, y['a'][2])) in (0, None) and (strip(g, y['a'][2]) or {}).get('k') in (None, 'bool', 'int', 'zero') or True, 'retained|wait', 'waiting for the lock', line_of(g, y))
    # reading goes on as long as something was read
    for b, i, y in rdm:
        nothing = lambda q, fn, n, pt, ctx: (lambda s: s is not None and ((n[0] == '==' and const_val(n[2]) == 0 or n[0] == '<=' and const_val(n[2]) == 0 or n[0] == '<' and const_val(n[2]) == 1) and size_of(fn, s, lst) or s['k'] == 'call' and base_name(s['n']) == 'empty' and tr_(fn, n) is True and any(isv(fn, s['o'], v) for v in lst)))(strip(fn, n[1]) if isinstance(n[1], dict) else None)
        q = Query(P, cut_cond=nothing, cut_node=lambda fn, z, qq=None: z is y, eh=False)
        R.inst('restore', not q.after(g, (b, i), ROOT), 'retained|all', 'reading goes on until nothing is left', line_of(g, y))


def session_var(fn, x):
    s = strip(fn, x)
    return s is not None and s['k'] == 'var' and 'Session>' in (var_type(fn, s['id']) or '')


def size_of(fn, s, lst):
    if s['k'] == 'call':
        return base_name(s['n']) == 'size' and any(isv(fn, s['o'], v) for v in lst)
    if s['k'] == 'var':
        ds = [e for e in fn.defs().get(s['id'], []) if e[3] is not None]
        big = [e for e in ds if const_val(strip(fn, e[3])) is None]
        return bool(big) and all((lambda w: w is not None and w['k'] == 'call' and base_name(w['n']) == 'size' and any(isv(fn, w['o'], v) for v in lst))(strip(fn, e[3])) for e in big)
    return False
