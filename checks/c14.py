"""How long a session lives."""
from core.rules import *
from checks.c11 import must, reaches, param0, on_mem, each
from checks.c12 import member
from checks.c13 import base_is, same, MAPS, DOD, is_map

EXP, QA = 'Session::sessionExpiryInterval', 'Session::removalQueuedAt'
QR = 'SubscriptionStore::queuedSessionRemovals'
LIM = 'Settings::getExpireSessionAfterSeconds'
ST = 'SubscriptionStore::'


def capped(P, fn, x, pt, limit, val=lambda f, s: True, depth=0):
    """x is at most the limit: every source is 0, the limit, or a minimum with it"""
    x = strip(fn, x)
    ss = [(fn, x, pt, ROOT)] if x is not None and x['k'] == 'cond' else Query(P).sources(fn, x, pt, ROOT)
    if not ss:
        return False
    for f, s, p, c in ss:
        if s is None:
            return False
        if const_val(s) == 0 or limit(f, s):
            continue
        if s['k'] == 'call' and s.get('n') == 'std::min' and any(arg_is(P, f, a, p, limit) for a in s['a']):
            continue
        if s['k'] == 'cond' and depth < 3:
            le = lambda q, g, n, pp, cc: n[0] in ('<', '<=') and all(limit(h, z) for h, z, _, _ in q.sources(g, n[2], pp, cc)) or n[0] in ('>', '>=') and all(limit(h, z) for h, z, _, _ in q.sources(g, n[1], pp, cc))
            okk = True
            for br, pol in (('a', True), ('b', False)):
                if arg_is(P, f, s[br], p, limit):
                    continue
                if not Query(P, cut_cond=le).implies(f, s['c'], pol, p, ROOT):
                    okk = False
            if okk:
                continue
        # guarded by a comparison with the limit
        le2 = lambda q, g, n, pp, cc: (n[0] in ('<', '<=') and all(limit(h, z) for h, z, _, _ in q.sources(g, n[2], pp, cc)) and show(g, strip(g, n[1])) == show(f, s)) or (n[0] in ('>', '>=') and all(limit(h, z) for h, z, _, _ in q.sources(g, n[1], pp, cc)) and show(g, strip(g, n[2])) == show(f, s))
        if p is not None and s['k'] in ('var', 'mem') and not reaches(P, f, (f.entry, -1), [p], cond=le2):
            continue
        return False
    return True


def check(P, R):
    R.rule('interval', 'the expiry of a session is what the client asked for, 0 when it did not, and never more than configured')
    R.rule('kept', 'a session ends with its connection exactly when the client asked for that')
    R.rule('disconnect', 'when a connection is gone, its session is removed, queued for removal, or in use by another connection')
    R.rule('removal', 'a session is removed only then, by a plugin, or when it is due and has no connection')
    R.rule('due', 'a session is queued under the second in which its expiry has passed since the disconnect')
    R.rule('walk', 'all due entries are looked at, regularly')
    interval(P, R)
    kept(P, R)
    disconnect(P, R)
    removal(P, R)


def interval(P, R):
    pc = P.one('MqttPacket::parseConnectData'); R.saw(pc.id)
    F = 'ConnectData::session_expire'
    lim = lambda f, s: is_call(s, LIM)
    reads = lambda f, s: is_call(s, 'MqttPacket::readFourBytesToUint32')
    wr = [(f, b, i, y) for f, b, i, y in sites_of(P, writes_to(F))]
    R.inst('interval', any(f.id == pc.id for f, _, _, _ in wr), 'interval|site', 'the expiry is set', pc.loc)
    for f, b, i, y in wr:
        if f.q not in (pc.q, 'ConnectData::ConnectData'):
            R.bad('interval', 'interval|writer|' + f.q, 'expiry set by %s' % f.q, line_of(f, y)); continue
        R.inst('interval', capped(P, f, asg_parts(f, y)[1], (b.id, i), lim), 'interval|cap|%s' % f.q, 'the expiry is limited to the configured one', line_of(f, y))
    for c in [c for c in P.byq.get('ConnectData::ConnectData', []) if not c.params]:
        for b, i, y in c.nodes():
            if y['k'] == 'minit' and y.get('n') == F and y.get('e') is not None:
                R.inst('interval', capped(P, c, y['e'], (b.id, i), lim), 'interval|cap|init', 'the default is the configured one', line_of(c, y))
    pv = {'MqttPacket::protocolVersion'}
    old = in_set(P, pv, 'ProtocolVersion', set(enum_values(P, 'ProtocolVersion')) - {'ProtocolVersion::Mqtt5'})
    zero = lambda fn, y, q=None: fn.id == pc.id and writes_to(F)(fn, y) and const_val(strip(fn, asg_parts(fn, y)[1])) == 0
    new = in_set(P, pv, 'ProtocolVersion', {'ProtocolVersion::Mqtt5'})
    must(P, R, 'interval', pc, zero, 'zero', 'without the property an MQTT 5 session has expiry 0', cond=old)
    for f, b, i, y in wr:
        if f.id == pc.id and zero(f, y):
            R.inst('interval', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=new), 'interval|zero5', 'only for MQTT 5', line_of(f, y))
            # not after the property was read
            R.inst('interval', not any(g.id == f.id and not zero(g, z) and Query(P)._plain_reach(f, (b2.id, i2), (b.id, i), ()) for g, b2, i2, z in wr), 'interval|order', 'before the properties are read', line_of(f, y))
    props = [(f, b, i, y) for f, b, i, y in wr if f.id == pc.id and not zero(f, y)]
    R.inst('interval', any(any(reads(h, z) for h, s, p, c in Query(P).sources(f, asg_parts(f, y)[1], (b.id, i), ROOT) if s is not None for z in h.walk(s, True)) for f, b, i, y in props), 'interval|read', 'the property is used', pc.loc)
    g = P.one(LIM)
    conf = 'Settings::expireSessionsAfterSeconds'
    for b, i, y in g.nodes():
        if y['k'] != 'ret':
            continue
        pos = compares(conf, ('>', 0), ('!=', 0), ('>=', 1)); zer = compares(conf, ('<=', 0), ('==', 0), ('<', 1))
        x = strip(g, y['e'])
        mx = lambda z: const_val(strip(g, z)) == 0xffffffff or (strip(g, z) or {}).get('n') == 'std::numeric_limits<unsigned int>::max' or 'numeric_limits' in show(g, z)
        cf = lambda z: is_mem(strip(g, z), conf)
        if x is not None and x['k'] == 'cond':
            ok = (cf(x['a']) and mx(x['b']) and Query(P, cut_cond=pos).implies(g, x['c'], True, (b.id, i), ROOT) and Query(P, cut_cond=zer).implies(g, x['c'], False, (b.id, i), ROOT)) or (cf(x['b']) and mx(x['a']) and Query(P, cut_cond=zer).implies(g, x['c'], True, (b.id, i), ROOT) and Query(P, cut_cond=pos).implies(g, x['c'], False, (b.id, i), ROOT))
        else:
            ok = (cf(x) and not reaches(P, g, (g.entry, -1), [(b.id, i)], cond=pos)) or (mx(x) and not reaches(P, g, (g.entry, -1), [(b.id, i)], cond=zer))
        R.inst('interval', ok, 'interval|limit', 'the configured limit, none when 0', line_of(g, y))
    # DISCONNECT
    pd = P.one('MqttPacket::parseDisconnectData'); hd = P.one('MqttPacket::handleDisconnect'); R.saw(pd.id, hd.id)
    D = 'DisconnectData::session_expiry_interval'
    ds = [(f, b, i, y) for f, b, i, y in sites_of(P, writes_to(D))]
    R.inst('interval', bool(ds), 'interval|dsite', 'the expiry of DISCONNECT is read', pd.loc)
    flag = lambda fn, y, q=None: writes_to(D + '_set')(fn, y) and const_val(strip(fn, asg_parts(fn, y)[1])) == 1
    for f, b, i, y in ds:
        R.inst('interval', capped(P, f, asg_parts(f, y)[1], (b.id, i), lim), 'interval|dcap', 'the expiry of DISCONNECT is limited to the configured one', line_of(f, y))
        R.inst('interval', any(any(reads(h, z) for z in h.walk(s, True)) for h, s, p, c in Query(P).sources(f, asg_parts(f, y)[1], (b.id, i), ROOT) if s is not None), 'interval|dread', 'the property is used', line_of(f, y))
        q = Query(P, cut_node=flag, eh=False)
        R.inst('interval', not q.after(f, (b.id, i)) or not reaches(P, f, (f.entry, -1), [(b.id, i)], node=flag), 'interval|dset', 'and marked as set', line_of(f, y))
    for f, b, i, y in sites_of(P, writes_to(D + '_set')):
        R.inst('interval', const_val(strip(f, asg_parts(f, y)[1])) == 1 and f.id == pd.id, 'interval|dflag', 'marked only when read', line_of(f, y))
    setf = 'Session::setSessionExpiryInterval'
    unset = tmem(D + '_set', False)
    nos = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) == ('==', 0) and (base_is(q, fn, n[1], pt, ctx, {'Client::getSession'}) or param0(fn, n[1], None))
    must(P, R, 'interval', hd, lambda fn, y, q: is_call(y, setf), 'dused', 'the expiry of DISCONNECT is applied', cond=any_of(unset, nos))
    for f, b, i, y in sites_of(P, calls_to(setf)):
        R.inst('interval', f.id == hd.id and arg_is(P, f, y['a'][0], (b.id, i), lambda g, s: is_mem(s, D)), 'interval|dapply|' + f.q, 'with the value read', line_of(f, y))
        R.inst('interval', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=tmem(D + '_set', True)), 'interval|donly', 'only when set', line_of(f, y))
    s = P.one(setf); R.saw(s.id)
    p0 = lambda fn, x: param0(fn, x, None)
    curz = compares(EXP, ('==', 0), ('<=', 0), ('<', 1)); curnz = compares(EXP, ('!=', 0), ('>', 0), ('>=', 1))
    pz = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) in (('==', 0), ('<=', 0), ('<', 1)) and p0(fn, n[1])
    pnz = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) in (('!=', 0), ('>', 0), ('>=', 1)) and p0(fn, n[1])
    ws = [(b, i, y) for b, i, y in s.nodes() if writes_to(EXP)(s, y)]
    R.inst('interval', bool(ws), 'interval|store', 'the new expiry is kept', s.loc)
    for b, i, y in ws:
        R.inst('interval', not reaches(P, s, (s.entry, -1), [(b.id, i)], cond=any_of(curnz, pz)), 'interval|zerostays', 'an expiry of 0 is not raised', line_of(s, y))
        R.inst('interval', p0(s, asg_parts(s, y)[1]), 'interval|newvalue', 'the new expiry is kept', line_of(s, y))
    must(P, R, 'interval', s, lambda fn, y, q: writes_to(EXP)(fn, y), 'stored', 'the new expiry is kept')
    must(P, R, 'kept', s, lambda fn, y, q: writes_to(DOD)(fn, y) and const_val(strip(fn, asg_parts(fn, y)[1])) == 1, 'dzero', 'with 0 the session ends with its connection', cond=pnz)
    for b, i, y in s.nodes():
        if writes_to(DOD)(s, y):
            v = asg_parts(s, y)[1]; cv = const_val(strip(s, v))
            okd = (not reaches(P, s, (s.entry, -1), [(b.id, i)], cond=pz)) if cv == 1 else False
            R.inst('kept', okd, 'kept|dzero|only', 'only with 0', line_of(s, y))
    for f, b, i, y in sites_of(P, writes_to(EXP)):
        R.inst('interval', f.q in (setf, 'Session::setSessionProperties', 'Session::Session'), 'interval|fieldwriter|' + f.q, 'expiry changed by %s' % f.q, line_of(f, y))


def kept(P, R):
    f = P.one('Session::setSessionProperties'); R.saw(f.id)
    must(P, R, 'interval', f, lambda fn, y, q: writes_to(EXP)(fn, y) and param0(fn, asg_parts(fn, y)[1], None, 1), 'connect', 'the expiry of the connection is kept')
    pv = {'x'}
    isp = lambda fn, x: param0(fn, x, None, 3)
    full = enum_values(P, 'ProtocolVersion')

    def ver(allowed):
        al = set()
        for nm, v in full.items():
            for op, fnc in OPS_.items():
                if {m for m, w in full.items() if fnc(w, v)} <= allowed:
                    al.add((op, nm))
        return lambda q, fn, n, pt, ctx: isp(fn, n[1]) and (n[0], enum_name(n[2])) in al
    v5 = ver({'ProtocolVersion::Mqtt5'}); v3 = ver(set(full) - {'ProtocolVersion::Mqtt5'})
    cleanv = lambda fn, x: param0(fn, x, None, 2)
    expz = lambda pol: (lambda q, fn, n, pt, ctx: (param0(fn, n[1], None, 1) or is_mem(strip(fn, n[1]), EXP)) and (n[0], const_val(n[2])) in ((('==', 0), ('<=', 0), ('<', 1)) if pol else (('!=', 0), ('>', 0), ('>=', 1))))
    cl = lambda pol: truth(lambda q, fn, x: cleanv(fn, x), pol)
    must(P, R, 'kept', f, lambda fn, y, q: writes_to(DOD)(fn, y), 'set', 'whether the session ends with its connection is set')
    for b, i, y in f.nodes():
        if not writes_to(DOD)(f, y):
            continue
        v = asg_parts(f, y)[1]; pt = (b.id, i)
        for fn, s, p, c in Query(P).sources(f, v, pt, ROOT) or [(f, strip(f, v), pt, ROOT)]:
            pass
        # value true => (v3 and clean) or (v5 and expiry 0); false => the opposite
        lv = lambda pol: [any_of(v3, expz(pol)), any_of(v5, cl(pol))]
        ok = True
        for pol in (True, False):
            for c in lv(pol):
                ok = ok and bvalued(P, f, v, pt, pol, c)
        R.inst('kept', ok, 'kept|value', 'MQTT 3: clean session; MQTT 5: expiry 0', line_of(f, y))
    for g, b, i, y in sites_of(P, writes_to(DOD)):
        R.inst('kept', g.q in (f.q, 'Session::setSessionExpiryInterval'), 'kept|writer|' + g.q, 'changed by %s' % g.q, line_of(g, y))


OPS_ = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}


def disconnect(P, R):
    a = P.one('ThreadData::clientDisconnectActions'); R.saw(a.id)
    par = [k for k, p in enumerate(a.params) if 'shared_ptr<Session>' in p['t']]
    if len(par) != 1:
        raise AnalysisError('session argument of clientDisconnectActions not found')
    sess = lambda fn, x: param0(fn, x, None, par[0])
    act = any_of(tcall('Session::hasActiveClient', True)); noact = tcall('Session::hasActiveClient', False)
    dodT, dodF = any_of(tcall('Session::getDestroyOnDisconnect', True), tmem(DOD, True)), any_of(tcall('Session::getDestroyOnDisconnect', False), tmem(DOD, False))
    nul = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) == ('==', 0) and sess(fn, n[1])
    rm = lambda fn, y, q=None: is_call(y, ST + 'removeSession') and sess(fn, y['a'][0])
    qu = lambda fn, y, q=None: is_call(y, ST + 'queueSessionRemoval') and sess(fn, y['a'][0])
    must(P, R, 'disconnect', a, rm, 'remove', 'a session that ends with its connection is removed', cond=any_of(nul, act, dodF))
    must(P, R, 'disconnect', a, qu, 'queue', 'a session that does not is queued for removal', cond=any_of(nul, act, dodT))
    for b, i, y in a.nodes():
        if rm(a, y):
            R.inst('disconnect', not reaches(P, a, (a.entry, -1), [(b.id, i)], cond=dodT), 'disconnect|only', 'removed at once only when it ends with its connection', line_of(a, y))
        if rm(a, y):
            R.inst('disconnect', not reaches(P, a, (a.entry, -1), [(b.id, i)], cond=any_of(noact, nul)), 'disconnect|inuse', 'not when another connection uses it', line_of(a, y))
    ha = P.one('Session::hasActiveClient')
    exp = lambda pol: truth(lambda q, fn, x: x['k'] == 'call' and x.get('o') is not None and base_name(x.get('n', '')) == 'expired' and has_mem(fn, x['o'], 'Session::client'), not pol)
    lockd = lambda pol: (lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) == (('!=' if pol else '=='), 0) and (base_is(q, fn, n[1], pt, ctx, {'Session::makeSharedClient'}) or (lambda x: x is not None and x['k'] == 'call' and x.get('o') is not None and base_name(x.get('n', '')) == 'lock' and has_mem(fn, x['o'], 'Session::client'))(strip(fn, n[1]))))
    for b, i, y in ha.nodes():
        if y['k'] == 'ret':
            for pol in (True, False):
                R.inst('disconnect', bvalued(P, ha, y['e'], (b.id, i), pol, any_of(exp(pol), lockd(pol))), 'disconnect|active', 'active means that the connection exists', line_of(ha, y))
    # the actions are queued when the connection goes away
    d = P.one('Client::~Client')
    noep = compares('Client::epoll_fd', ('<', 0), ('<=', -1), ('==', -1))
    notd = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) == ('==', 0) and (lambda ss: bool(ss) and all(s is not None and s['k'] == 'call' and base_name(s.get('n', '')) in ('lock', 'lockThreadData') for _, s, _, _ in ss))(q.sources(fn, n[1], pt, ctx))
    qa = lambda fn, y, q=None: is_call(y, 'ThreadData::queueClientDisconnectActions')
    must(P, R, 'disconnect', d, qa, 'queued', 'the actions are queued when the connection is gone', cond=any_of(noep, notd))
    for b, i, y in d.nodes():
        if qa(d, y):
            R.inst('disconnect', any(any(is_mem(z, 'Client::session') for z in d.walk(x, True)) for x in y['a']) and any(any(is_mem(z, 'Client::willPublish') for z in d.walk(x, True)) for x in y['a']), 'disconnect|args', 'with its session and will', line_of(d, y))
    q = P.one('ThreadData::queueClientDisconnectActions')
    push = lambda fn, y, qq=None: pushes_task(P, fn, y)
    must(P, R, 'disconnect', q, push, 'task', 'the actions are put in the queue of the thread')
    must(P, R, 'disconnect', q, lambda fn, y, qq: (y['k'] == 'call' and y.get('n') == 'std::bind' and any('clientDisconnectActions' in show(fn, x) for x in y['a'])) or (y['k'] == 'lambda' and any(is_call(z, a.q) for g in P.lambda_fns(y) for b, i, z in g.nodes())), 'bound', 'the task is the actions')


def removal(P, R):
    r = P.one(ST + 'removeSession'); x = P.one(ST + 'removeExpiredSessionsClients'); qs = P.one(ST + 'queueSessionRemoval')
    R.saw(r.id, x.id, qs.id)
    ok = {'ThreadData::clientDisconnectActions', x.q, 'flashmq_plugin_remove_client_v4', 'flashmq_plugin_remove_client', 'flashmq_plugin_remove_client_v5'}
    for f, b, i, y in sites_of(P, calls_to(r.q)):
        t = tops(P, [f], stop=lambda h: h.q in ok)
        R.inst('removal', all(h.q in ok or 'flashmq_plugin_remove_client' in h.q for h in t), 'removal|site|' + f.q, 'removed by %s' % f.q, line_of(f, y))
    er = [(f, b, i, y) for f, b, i, y in sites_of(P, lambda fn, y: y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in ('erase', 'clear', 'extract') and is_map(fn, y['o']))]
    eqs = lambda q, fn, n, pt, ctx: n[0] == '==' and any((strip(fn, z) or {}).get('k') == 'mem' and base_name(strip(fn, z)['n']) == 'second' for z in n[1:]) and any(param0(fn, z, None) for z in n[1:])
    R.inst('removal', any(f.id == r.id for f, _, _, _ in er), 'removal|erase', 'a removed session is forgotten', r.loc)
    for f, b, i, y in er:
        if f.id != r.id:
            R.bad('removal', 'removal|erase|' + f.q, 'sessions are forgotten by %s' % f.q, line_of(f, y)); continue
        R.inst('removal', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=eqs), 'removal|identity', 'only the very session, not its successor', line_of(f, y))
    nul = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) == ('==', 0) and param0(fn, n[1], None)
    neq = lambda q, fn, n, pt, ctx: n[0] == '!=' and any((strip(fn, z) or {}).get('k') == 'mem' and base_name(strip(fn, z)['n']) == 'second' for z in n[1:]) and any(param0(fn, z, None) for z in n[1:])
    must(P, R, 'removal', r, lambda fn, y, q: any(y is e[3] for e in er), 'done', 'the session is forgotten', cond=any_of(nul, neq, member(P, MAPS[0], False)))
    # expiry walk
    noact = tcall('Session::hasActiveClient', False)
    due_ = lambda q, fn, z, pt, ctx: (lambda ss: bool(ss) and all(is_call(s, 'Session::getRemovalTime') for _, s, _, _ in ss))(q.sources(fn, z, pt, ctx))
    due = lambda q, fn, n, pt, ctx: (n[0] in ('<', '<=') and due_(q, fn, n[1], pt, ctx)) or (n[0] in ('>', '>=') and due_(q, fn, n[2], pt, ctx))
    notdue = lambda q, fn, n, pt, ctx: (n[0] in ('>',) and due_(q, fn, n[1], pt, ctx)) or (n[0] in ('<',) and due_(q, fn, n[2], pt, ctx))
    slot = lambda fn, z: any(w['k'] == 'mem' and base_name(w.get('n') or '') == 'first' for w in fn.walk(z, True))

    def slot_src(q, fn, z, pt, ctx):
        return any(s is not None and slot(f, s) for f, s, _, _ in q.sources(fn, z, pt, ctx)) or (z is not None and slot(fn, z))

    def now_src(q, fn, z, pt, ctx):
        return any(s is not None and any(w['k'] == 'call' and base_name(w.get('n', '')) == 'now' or w['k'] == 'var' and now_var(q, f, w, p, c) for w in f.walk(s, True)) for f, s, p, c in q.sources(fn, z, pt, ctx))
    come = lambda q, fn, n, pt, ctx: (n[0] in ('<', '<=') and slot_src(q, fn, n[1], pt, ctx) and now_src(q, fn, n[2], pt, ctx)) or (n[0] in ('>', '>=') and slot_src(q, fn, n[2], pt, ctx) and now_src(q, fn, n[1], pt, ctx))
    future = lambda q, fn, n, pt, ctx: (n[0] in ('>',) and slot_src(q, fn, n[1], pt, ctx) and now_src(q, fn, n[2], pt, ctx)) or (n[0] in ('<',) and slot_src(q, fn, n[2], pt, ctx) and now_src(q, fn, n[1], pt, ctx))
    # collecting or removing directly
    coll = [(b, i, y) for b, i, y in x.nodes() if y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in ('push_back', 'emplace_back', 'push_front', 'emplace_front')]
    rms = [(b, i, y) for b, i, y in x.nodes() if is_call(y, r.q)]
    R.inst('removal', bool(rms), 'removal|expired', 'due sessions are removed', x.loc)
    lists = {strip_ptr(x, y['o']).get('id') for b, i, y in coll if strip_ptr(x, y['o']) is not None}
    sites = coll if coll else rms
    for b, i, y in sites:
        pt = (b.id, i)
        for c, k, w in ((noact, 'inactive', 'it has no connection'), (due, 'due', 'its expiry since the last disconnect has passed'), (come, 'slot', 'its second has come')):
            q = Query(P, cut_cond=c, eh=False)
            R.inst('removal', not q.reach_point(x, (x.entry, -1), pt, ROOT, None) and (k == 'slot' or not q.reach_point(x, pt, pt, ROOT, None)), 'removal|if|' + k, 'removed only when ' + w, line_of(x, y))
    if coll:
        for b, i, y in rms:
            R.inst('removal', each(P, x, (b.id, i), lambda z: z is not None and z['k'] == 'var' and z['id'] in lists), 'removal|each', 'every collected session is removed', line_of(x, y))
    # every entry of a slot is looked at, and it is collected unless gone, active or not due
    gone = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) == ('==', 0) and (lambda ss: bool(ss) and all(s is not None and s['k'] == 'call' and base_name(s.get('n', '')) == 'lock' for _, s, _, _ in ss))(q.sources(fn, n[1], pt, ctx))
    locks = [(b, i, y) for b, i, y in x.nodes() if y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) == 'lock' and 'Session' in y.get('t', '')]
    R.inst('walk', bool(locks), 'walk|entries', 'the entries are looked at', x.loc)
    act = tcall('Session::hasActiveClient', True)
    for b, i, y in locks:
        q = Query(P, cut_cond=any_of(gone, act, notdue), cut_node=lambda fn, z, qq: any(z is e[2] for e in sites), eh=False)
        R.inst('walk', not q.reach_point(x, (b.id, i), (b.id, i), ROOT, None) and not q.after(x, (b.id, i)), 'walk|collected', 'an entry is removed unless gone, in use or not due', line_of(x, y))
    # a slot is dropped from the queue only after its entries were looked at; the walk ends only at the end or at a future slot
    ers = [(b, i, y) for b, i, y in x.nodes() if y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) == 'erase' and has_mem(x, y['o'], QR)]
    for b, i, y in locks:
        R.inst('walk', one_exit(x, b.id, {e[0].id for e in ers}), 'walk|slotall', 'all entries of a slot are looked at', line_of(x, y))
    R.inst('walk', bool(ers), 'walk|erase', 'due slots are dropped', x.loc)
    for b, i, y in ers:
        R.inst('walk', not reaches(P, x, (x.entry, -1), [(b.id, i)], cond=come), 'walk|slot', 'only slots whose second has come are dropped', line_of(x, y))
        cyc = cycle_blocks(x, b.id)
        R.inst('walk', bool(cyc), 'walk|loop', 'all slots are looked at', line_of(x, y))
        end = lambda q, fn, n, pt, ctx: n[0] == '==' and any(any(s is not None and on_mem(QR, 'end', 'cend')(f, s) for f, s, _, _ in q.sources(fn, z, pt, ctx)) for z in n[1:]) or (is_call_base(fn, n[1], 'empty', QR) and (n[0], const_val(n[2])) in (('!=', 0), ('==', 1)))
        # leaving the loop without the end or a future slot
        q = Query(P, cut_cond=any_of(end, future), eh=False)
        leave = False
        for bb in cyc:
            blk = x.blocks[bb]
            for si, (t, k) in enumerate(blk.succ):
                if t is None or k != 'n' or t in cyc:
                    continue
                facts = edge_facts(x, blk, si)
                if not any(q.implies(x, e, pol, (bb, len(blk.elems)), ROOT) for e, pol in facts):
                    leave = True
        R.inst('walk', not leave, 'walk|all', 'the walk ends only at the end or at a slot of the future', line_of(x, y))
    timers(P, R, x)
    # queueing
    gt = P.one('Session::getRemovalTime'); sq = P.one('Session::setQueuedRemovalAt')
    ins = lambda fn, y, q=None: y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in ('push_back', 'emplace_back') and has_mem(fn, y['o'], QR)
    must(P, R, 'due', qs, ins, 'queued', 'the session is queued', cond=nul)
    for b, i, y in qs.nodes():
        if ins(qs, y):
            k = strip_ptr(qs, y['o'])
            okk = k is not None and k['k'] == 'call' and base_name(k['n']) in ('operator[]', 'at') and arg_is(P, qs, k['a'][0], (b.id, i), lambda f, s: is_call(s, gt.q))
            R.inst('due', okk, 'due|slot', 'under the time of its removal', line_of(qs, y))
            R.inst('due', any(param0(qs, z, (b.id, i), 0) for z in qs.walk(y['a'][0], True)), 'due|which', 'this session', line_of(qs, y))
            mk = lambda fn, z, q=None: is_call(z, sq.q)
            tm = [(b2, i2, z) for b2, i2, z in qs.nodes() if is_call(z, gt.q)]
            R.inst('due', bool(tm) and all(not reaches(P, qs, (qs.entry, -1), [(b2.id, i2)], node=mk) for b2, i2, z in tm), 'due|mark', 'the time of the disconnect is taken first', line_of(qs, y))
    must(P, R, 'due', sq, lambda fn, y, q: asg_parts(fn, y) is not None and is_mem(asg_parts(fn, y)[0], QA) and any(z['k'] == 'call' and base_name(z.get('n', '')) == 'now' for _, s, _, _ in Query(P).sources(fn, asg_parts(fn, y)[1], points(fn)[id(y)], ROOT) if s is not None for z in fn.walk(s, True)), 'now', 'the time of the disconnect is now')
    for b, i, y in gt.nodes():
        if y['k'] == 'ret':
            ss = Query(P).sources(gt, y['e'], (b.id, i), ROOT)
            def parts(f, s, p, d=0):
                out = []
                if s is None or d > 6:
                    return out
                for z in f.walk(s, True):
                    out.append(z)
                    if z['k'] == 'var':
                        for f2, s2, p2, c2 in Query(P).sources(f, z, p, ROOT):
                            if s2 is not None and s2 is not z and s2.get('k') != 'var':
                                out += parts(f2, s2, p2, d + 1)
                return out
            zs = [z for f, s, p, c in ss for z in parts(f, s, p)]
            plus = any(z['k'] == 'call' and z.get('op') == '+' or z.get('n') in ('std::chrono::operator+',) or (z['k'] == 'bin' and z['op'] == '+') for z in zs)
            minus = any(z['k'] == 'call' and z.get('op') in ('-', '/', '*') or (z['k'] == 'bin' and z['op'] in ('-', '/', '*')) for z in zs)
            unit = [z for z in zs if z['k'] == 'ctor' and 'chrono::duration' in z.get('t', '') and any(is_mem(strip(gt, q_), EXP) for q_ in z.get('a', []) if q_ is not None)]
            mem = {z['n'] for z in zs if z['k'] == 'mem'}
            secs = all('milli' not in z.get('t', '') and '1000' not in z.get('t', '') and '60' not in z.get('t', '') for z in unit)
            R.inst('due', mem >= {QA, EXP} and plus and not minus and secs, 'due|time', 'disconnect plus expiry in seconds', line_of(gt, y))


def one_exit(fn, bid, avoid):
    """the innermost loop around block bid (cycles that do not pass the blocks in avoid) is left at one place only"""
    def walk(step):
        seen = set(); st = list(step(bid))
        while st:
            b = st.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b); st += list(step(b))
        return seen
    succ = lambda b: [t for t, k in fn.blocks[b].succ if t is not None and k == 'n']
    pred = {}
    for b in fn.blocks:
        for t in succ(b):
            pred.setdefault(t, []).append(b)
    loop = walk(succ) & walk(lambda b: pred.get(b, []))
    if bid not in loop:
        return False
    return len([b for b in loop if any(t not in loop for t in succ(b))]) <= 1


def is_call_base(fn, x, name, mem):
    x = strip(fn, x)
    return x is not None and x['k'] == 'call' and x.get('o') is not None and base_name(x.get('n', '')) == name and has_mem(fn, x['o'], mem)


def now_var(q, f, w, p, c):
    return any(s is not None and s['k'] == 'call' and base_name(s.get('n', '')) == 'now' for _, s, _, _ in q.sources(f, w, p, c))


def mentions(P, fn, x, names, d=0):
    """the expression (or what its locals are initialised with, or a lambda in it) refers to one of the functions"""
    if x is None or d > 5:
        return False
    for z in fn.walk(x, True):
        if z.get('n') in names and z['k'] in ('fn', 'call'):
            return True
        if z['k'] == 'var' and any(e[3] is not None and mentions(P, fn, e[3], names, d + 1) for e in fn.defs().get(z['id'], []) if e[2] in ('init', 'asg')):
            return True
        if z['k'] == 'lambda' and any(w.get('n') in names for g in P.lambda_fns(z) for _, _, w in g.nodes()):
            return True
    return False


def pushes_task(P, fn, y):
    if is_call(y, 'ThreadData::addImmediateTask'):
        return True
    if y['k'] != 'call' or y.get('o') is None or base_name(y.get('n', '')) not in ('push_back', 'emplace_back'):
        return False
    x = strip_ptr(fn, y['o'])
    if x is None:
        return False
    if 'taskQueue' in show(fn, x):
        return True
    return x['k'] == 'var' and any(e[3] is not None and 'taskQueue' in show(fn, e[3]) for e in fn.defs().get(x['id'], []))


def timers(P, R, x):
    """a repeated timer leads to the walk"""
    # chain: addTask(bind(&MainApp::queueCleanup)) -> callIfThread(&ThreadData::queueRemoveExpiredSessions) -> bind(&ThreadData::removeExpiredSessions) -> walk
    want = {x.q}
    for step in range(6):
        grow = set()
        for f in P.fns.values():
            if f.q in want:
                continue
            for b, i, y in f.nodes():
                if (y['k'] == 'call' and y.get('n') in want) or (y['k'] in ('fn', 'fref', 'addr') and y.get('n') in want) or (y['k'] == 'lambda' and any(z.get('n') in want for g in P.lambda_fns(y) for _, _, z in g.nodes())):
                    grow.add(f.q); break
        want |= grow
    rt = P.one('MainApp::reloadTimers')
    R.inst('walk', rt.q in want, 'walk|timer', 'a timer leads to the walk', rt.loc)
    n = 0
    for b, i, y in rt.nodes():
        if y['k'] == 'call' and base_name(y.get('n', '')) == 'addTask':
            if mentions(P, rt, y['a'][0], want):
                n += 1
                R.inst('walk', const_val(strip(rt, y['a'][2])) == 1, 'walk|repeat', 'the timer repeats', line_of(rt, y))
    R.inst('walk', n >= 1, 'walk|added', 'the timer is added', rt.loc)
