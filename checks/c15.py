"""Wills: when they are taken on, dropped, delayed and published."""
from core.rules import *
from checks.c11 import must, reaches, param0, on_mem, each
from checks.c13 import base_is, MAPS, is_map, from_map
from checks.c14 import mentions, pushes_task, is_call_base, now_var, one_exit
from checks.c06 import enum_values  # noqa: F401
from checks.c12 import member

ST = 'SubscriptionStore::'
CW, CS, SW = 'Client::willPublish', 'Client::stagedWillPublish', 'Session::willPublish'
PEND = ST + 'pendingWillMessages'
EN = 'Settings::willsEnabled'
SEND, QW, QS = ST + 'sendWill', ST + 'queueWillMessage', ST + 'queueOrSendWillMessage'


def isnull(p):
    """fact: the value is null, p(q, fn, x, pt, ctx)"""
    return lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) == ('==', 0) and p(q, fn, n[1], pt, ctx)


def flag(fn0, k, pol):
    return truth(lambda q, fn, x: x['k'] == 'var' and fn.id == fn0.id and x['id'] == fn0.params[k]['id'], pol)


def check(P, R):
    R.rule('taken', 'a will is taken on exactly when the client sent one, wills are enabled and its registration is allowed')
    R.rule('dropped', 'a will is dropped exactly by a DISCONNECT with the normal reason')
    R.rule('end', 'the will of a connection that ended any other way is handed over for publishing')
    R.rule('delay', 'a will with a delay waits that long, any other is published at once')
    R.rule('due', 'due wills are published, unless the session has a connection again')
    R.rule('session', 'a will that waits is published when its session ends')
    R.rule('publish', 'an allowed will is published to its subscribers, and retained when it says so')
    R.rule('once', 'a published will is forgotten')
    taken(P, R)
    dropped(P, R)
    end(P, R)
    delay(P, R)
    due(P, R)
    session(P, R)
    publish(P, R)


def taken(P, R):
    hc = P.one('MqttPacket::handleConnect'); st = P.one('Client::stageWill'); sf = P.one('Client::setWillFromStaged')
    ca = P.one('ThreadData::continuationOfAuthentication'); R.saw(hc.id, st.id, sf.id, ca.id)
    WF = 'ConnectData::will_flag'
    for f, b, i, y in sites_of(P, calls_to(st.q)):
        R.inst('taken', f.id == hc.id, 'taken|stage|' + f.q, 'a will comes from CONNECT', line_of(f, y))
    stg = lambda fn, y, q=None: is_call(y, st.q)
    qosbad = lambda q, fn, n, pt, ctx: (n[0] in ('>',) and base_is(q, fn, n[1], pt, ctx, {'ConnectData::will_qos'})) or (n[0] in ('<',) and base_is(q, fn, n[2], pt, ctx, {'ConnectData::will_qos'}))
    props = [(b.id, i) for b, i, y in hc.nodes() if is_call(y, 'Client::setClientProperties')]
    ack = [(b.id, i) for b, i, y in hc.nodes() if is_call(y, 'Client::stageConnack')]
    sites = [(b, i, y) for b, i, y in hc.nodes() if stg(hc, y)]
    R.inst('taken', bool(sites), 'taken|any', 'wills are taken on', hc.loc)
    for b, i, y in sites:
        pt = (b.id, i)
        R.inst('taken', not reaches(P, hc, (hc.entry, -1), [pt], cond=tmem(WF, True)), 'taken|flag', 'only a will that was sent', line_of(hc, y))
        R.inst('taken', not reaches(P, hc, (hc.entry, -1), [pt], cond=tmem(EN, True)), 'taken|enabled', 'only when wills are enabled', line_of(hc, y))
        R.inst('taken', arg_is(P, hc, y['a'][0], pt, lambda f, s: any(is_mem(z, 'ConnectData::willpublish') for z in f.walk(s, True))), 'taken|which', 'the will of the CONNECT', line_of(hc, y))
        R.inst('taken', not reaches(P, hc, (hc.entry, -1), [pt], node=lambda fn, z, q: is_call(z, 'Client::setClientProperties')), 'taken|known', 'the identity of the client is known by then', line_of(hc, y))
    # every CONNECT with a will that is accepted had it taken on: reaching the staging of the CONNACK without
    if not ack:
        raise AnalysisError('staging of the CONNACK not found')
    R.inst('taken', not reaches(P, hc, (hc.entry, -1), ack, cond=any_of(tmem(WF, False), tmem(EN, False), qosbad), node=stg), 'taken|all', 'a will that was sent is taken on', hc.loc)
    # the copy gets the identity of the client
    newp = lambda fn, y, q=None: (asg_parts(fn, y) is not None and is_mem(asg_parts(fn, y)[0], CS)) or (y['k'] == 'call' and y.get('o') is not None and base_name(y['n']) in ('reset', 'swap') and has_mem(fn, y['o'], CS))
    must(P, R, 'taken', st, newp, 'stored', 'it is kept')
    for F, G, w in (('client_id', ('Client::clientid', 'Client::getClientId'), 'client ID'), ('username', ('Client::username', 'Client::getUsername'), 'user name')):
        ident = lambda fn, y, q=None: asg_parts(fn, y) is not None and (lambda l: l is not None and l['k'] == 'mem' and base_name(l['n']) == F)(strip(fn, asg_parts(fn, y)[0])) and arg_is(P, fn, asg_parts(fn, y)[1], points(fn)[id(y)], lambda f, s: s.get('n') in G)
        must(P, R, 'taken', st, ident, 'ident|' + F, 'under the %s of the client' % w)
        for b, i, y in st.nodes():
            ap = asg_parts(st, y)
            if ap and (lambda l: l is not None and l['k'] == 'mem' and base_name(l['n']) == F)(strip(st, ap[0])):
                R.inst('taken', ident(st, y), 'ident|other|' + F, 'the %s of a will' % w, line_of(st, y))
    # from staged to active
    acl = lambda q, fn, n, pt, ctx: n[0] == '==' and enum_name(n[2]) == 'AuthResult::success' and (lambda ss: bool(ss) and all(is_call(s, 'Authentication::aclCheck') and any(enum_name(strip(f, a)) == 'AclAccess::register_will' for a in s['a'] if a is not None) for f, s, _, _ in ss))(q.sources(fn, n[1], pt, ctx))
    nacl = lambda q, fn, n, pt, ctx: n[0] == '!=' and acl(q, fn, ('==',) + tuple(n[1:]), pt, ctx)
    for f, b, i, y in sites_of(P, calls_to(sf.q)):
        R.saw(f.id)
        R.inst('taken', f.id == ca.id, 'taken|active|' + f.q, 'wills become active on authentication', line_of(f, y))
        R.inst('taken', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=acl), 'taken|acl', 'only a will whose registration is allowed becomes active', line_of(f, y))
    nowill = isnull(lambda q, fn, x, pt, ctx: base_is(q, fn, x, pt, ctx, {'Client::getStagedWill', CS}))
    reg = [(b.id, i) for b, i, y in ca.nodes() if is_call(y, ST + 'registerClientAndKickExistingOne')]
    if not reg:
        raise AnalysisError('registration of the client not found')
    R.inst('taken', not reaches(P, ca, (ca.entry, -1), reg, cond=any_of(nowill, nacl), node=lambda fn, z, q: is_call(z, sf.q)), 'taken|activated', 'an allowed will is active before the session is assigned', ca.loc)
    mv = lambda fn, y, q=None: asg_parts(fn, y) is not None and is_mem(asg_parts(fn, y)[0], CW) and any(is_mem(z, CS) for z in fn.walk(asg_parts(fn, y)[1], True)) or (y['k'] == 'call' and base_name(y.get('n', '')) == 'swap' and {z['n'] for z in fn.walk(y, True) if z['k'] == 'mem'} >= {CW, CS})
    must(P, R, 'taken', sf, mv, 'moved', 'the staged will becomes the active one')
    # the session gets the will of the client
    ov = P.byq.get('Session::assignActiveConnection', [])
    sets = lambda fn, y, q=None: asg_parts(fn, y) is not None and is_mem(strip(fn, asg_parts(fn, y)[0]), SW) and any(z.get('n') in ('Client::getWill', CW) for z in fn.walk(asg_parts(fn, y)[1], True)) or (y['k'] == 'call' and y.get('op') == '=' and has_mem(fn, y.get('o') or (y['a'] and y['a'][0]) or {}, SW) and any(z.get('n') in ('Client::getWill', CW) for a in y['a'] for z in fn.walk(a, True)))
    for f in ov:
        R.saw(f.id)
        must(P, R, 'taken', f, lambda fn, y, q: sets(fn, y) or (is_call(y, f.q) and y.get('r') != f.id), 'session', 'the session has the will of its connection')


def dropped(P, R):
    hd = P.one('MqttPacket::handleDisconnect'); cc = P.one('Client::clearWill'); R.saw(hd.id, cc.id)
    RC = 'DisconnectData::reasonCode'
    ok = compares(RC, ('==', 'ReasonCodes::Success')); no = compares(RC, ('!=', 'ReasonCodes::Success'))
    clr = lambda fn, y, q=None: is_call(y, cc.q)
    for f, b, i, y in sites_of(P, clr):
        R.inst('dropped', f.id == hd.id, 'dropped|site|' + f.q, 'a will is dropped by DISCONNECT only', line_of(f, y))
        if f.id == hd.id:
            R.inst('dropped', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=ok), 'dropped|normal', 'only with the normal reason', line_of(f, y))
    nosend = isnull(lambda q, fn, x, pt, ctx: fn.id == hd.id and param0(fn, x, pt, 0))
    must(P, R, 'dropped', hd, clr, 'all', 'a normal DISCONNECT drops the will', cond=any_of(no, nosend))
    clears = lambda m: (lambda fn, y, q=None: (y['k'] == 'call' and y.get('o') is not None and base_name(y['n']) in ('reset',) and not [a for a in y['a'] if a is not None] and has_mem(fn, y['o'], m)) or (asg_parts(fn, y) is not None and is_mem(strip(fn, asg_parts(fn, y)[0]), m) and (lambda v: v is not None and (v['k'] == 'null' or const_val(v) == 0 or v['k'] in ('ctor', 'initlist') and not [a for a in v.get('a', []) if a is not None]))(strip(fn, asg_parts(fn, y)[1]))))
    for m, w in ((CW, 'active'), (CS, 'staged')):
        must(P, R, 'dropped', cc, clears(m), 'clear|' + w, 'the %s will of the client is gone' % w)
    sc = P.byq.get('Session::clearWill', [])
    z0 = [f for f in sc if not f.params]
    if not z0:
        raise AnalysisError('Session::clearWill not found')
    nos = isnull(lambda q, fn, x, pt, ctx: base_is(q, fn, x, pt, ctx, {'Client::session', 'Client::getSession'}))
    must(P, R, 'dropped', cc, lambda fn, y, q: is_call(y, 'Session::clearWill') and not [a for a in y['a'] if a is not None], 'clear|session', 'as is the one of the session', cond=nos)
    for f in z0:
        must(P, R, 'dropped', f, clears(SW), 'clear|sess', 'the will of the session is gone')
    # nobody else drops the active will of a client or session
    allowed = {cc.q, 'Client::setWillFromStaged', 'Client::sendOrQueueWill', 'Client::~Client', 'Session::clearWill', 'Session::setWill', 'Session::assignActiveConnection', 'Client::Client', 'Session::Session'}

    def touches(fn, y):
        for m in (CW, SW):
            ap = asg_parts(fn, y)
            if ap and is_mem(strip(fn, ap[0]), m):
                return True
            if y['k'] == 'call' and y.get('o') is not None and base_name(y['n']) in ('reset', 'resetIfSame', 'swap', 'operator=') and has_mem(fn, y['o'], m):
                return True
            if y['k'] == 'call' and y.get('n') in ('std::move', 'std::exchange', 'std::swap') and any(is_mem(strip(fn, a), m) for a in y['a'] if a is not None):
                return True
        return False
    n = 0
    for f, b, i, y in sites_of(P, touches):
        n += 1
        t = tops(P, [f], stop=lambda h: h.q in allowed)
        R.inst('dropped', f.q in allowed or (t and all(h.q in allowed for h in t)), 'dropped|writer|' + f.q, 'the will is changed by %s' % f.q, line_of(f, y))
    R.inst('dropped', n >= 4, 'dropped|writers', 'the writers are known', cc.loc)


def end(P, R):
    d = P.one('Client::~Client'); a = P.one('ThreadData::clientDisconnectActions'); q = P.one('ThreadData::queueClientDisconnectActions')
    R.saw(d.id, a.id, q.id)
    qa = lambda fn, y, qq=None: is_call(y, q.q)
    noep = compares('Client::epoll_fd', ('<', 0), ('<=', -1), ('==', -1))
    notd = isnull(lambda qq, fn, x, pt, ctx: (lambda ss: bool(ss) and all(s is not None and s['k'] == 'call' and base_name(s.get('n', '')) in ('lock', 'lockThreadData') for _, s, _, _ in ss))(qq.sources(fn, x, pt, ctx)))
    must(P, R, 'end', d, qa, 'queued', 'the will is handed over when the connection is gone', cond=any_of(noep, notd))
    k = [j for j, p in enumerate(a.params) if 'WillPublish' in p['t']]
    s = [j for j, p in enumerate(a.params) if 'shared_ptr<Session>' in p['t']]
    if len(k) != 1 or len(s) != 1:
        raise AnalysisError('arguments of clientDisconnectActions')
    # what happens to the fields between entry and the hand over
    for b, i, y in d.nodes():
        if qa(d, y):
            kq = [j for j, p in enumerate(q.params) if 'WillPublish' in p['t']]
            R.inst('end', len(kq) == 1 and any(is_mem(z, CW) for z in d.walk(y['a'][kq[0]], True)), 'end|which', 'the will of this connection', line_of(d, y))
    for b, i, y in q.nodes():
        if y['k'] == 'call' and y.get('n') == 'std::bind':
            args = [strip(q, x) for x in y['a'] if x is not None]
            wp = [j for j, p in enumerate(q.params) if 'WillPublish' in p['t']][0]
            sp = [j for j, p in enumerate(q.params) if 'shared_ptr<Session>' in p['t']][0]
            has = lambda j: any(z['k'] == 'var' and z['id'] == q.params[j]['id'] for x in y['a'] if x is not None for z in q.walk(x, True))
            R.inst('end', has(wp) and has(sp), 'end|bound', 'the will and session go with it', line_of(q, y))
    will = lambda fn, x: param0(fn, x, None, k[0])
    nowill = isnull(lambda qq, fn, x, pt, ctx: fn.id == a.id and will(fn, x))
    give = lambda fn, y, qq=None: is_call(y, QS, SEND) and will(fn, y['a'][0]) and param0(fn, y['a'][1], None, s[0])
    must(P, R, 'end', a, give, 'given', 'a will that is left is published or delayed', cond=nowill)
    rm = [(b.id, i) for b, i, y in a.nodes() if is_call(y, ST + 'removeSession')]
    for b, i, y in a.nodes():
        if not give(a, y):
            continue
        R.inst('end', not any(reaches(P, a, p, [(b.id, i)]) for p in rm), 'end|order', 'before the session is removed', line_of(a, y))
        if is_call(y, QS) and len(y['a']) > 2 and y['a'][2] is not None:
            # at once only when the session was replaced
            diff = lambda qq, fn, n, pt, ctx: n[0] == '!=' and any(param0(fn, z, None, s[0]) for z in n[1:]) and any((lambda ss: bool(ss) and all(is_call(x, ST + 'lockSession') for _, x, _, _ in ss))(qq.sources(fn, z, pt, ctx)) for z in n[1:])
            same = lambda qq, fn, n, pt, ctx: n[0] == '==' and diff(qq, fn, ('!=',) + tuple(n[1:]), pt, ctx)
            nos = isnull(lambda qq, fn, x, pt, ctx: fn.id == a.id and param0(fn, x, None, s[0]))
            R.inst('end', bvalued(P, a, y['a'][2], (b.id, i), True, diff), 'end|now', 'at once only when the session was replaced', line_of(a, y))
            R.inst('end', bvalued(P, a, y['a'][2], (b.id, i), False, any_of(same, nos)), 'end|replaced', 'at once when the session was replaced', line_of(a, y))
    # shutdown
    sa = P.one('ThreadData::sendAllWills'); so = P.one('Client::sendOrQueueWill'); R.saw(sa.id, so.id)
    for b, i, y in sa.nodes():
        if is_call(y, so.q):
            R.inst('end', each(P, sa, (b.id, i), lambda z: z is not None and has_mem(sa, z, 'ThreadData::clients') or z is not None and any(w['k'] == 'mem' and base_name(w['n']) in ('by_fd', 'clients') for w in sa.walk(z, True))), 'end|each', 'for every connection', line_of(sa, y))
    R.inst('end', any(is_call(y, so.q) for _, _, y in sa.nodes()), 'end|shutdown', 'wills are handed over at shutdown', sa.loc)
    notd2 = truth(lambda qq, fn, x: x['k'] == 'call' and x.get('o') is not None and base_name(x.get('n', '')) == 'expired' and has_mem(fn, x['o'], 'Client::threadData'), True)
    now2 = isnull(lambda qq, fn, x, pt, ctx: is_mem(strip(fn, x), CW))
    must(P, R, 'end', so, lambda fn, y, qq: is_call(y, QS, SEND) and is_mem(strip(fn, y['a'][0]), CW) and is_mem(strip(fn, y['a'][1]), 'Client::session'), 'conn', 'the will of the connection', cond=any_of(notd2, now2, notd))


def delay(P, R):
    f = P.one(QS); R.saw(f.id)
    fk = [j for j, p in enumerate(f.params) if p['t'] == 'bool']
    nul = isnull(lambda q, fn, x, pt, ctx: fn.id == f.id and param0(fn, x, pt, 0))
    force = flag(f, fk[0], True) if fk else (lambda *a: False)
    WD = 'WillPublish::will_delay'
    isdelay = lambda q, fn, x, pt, ctx: any(is_mem(s, WD) for _, s, _, _ in q.sources(fn, x, pt, ctx)) and all(is_mem(s, WD) or const_val(s) == 0 for _, s, _, _ in q.sources(fn, x, pt, ctx))
    pos = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) in (('>', 0), ('!=', 0), ('>=', 1)) and isdelay(q, fn, n[1], pt, ctx)
    zero = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) in (('<=', 0), ('==', 0), ('<', 1)) and isdelay(q, fn, n[1], pt, ctx)
    snd = lambda fn, y, q=None: is_call(y, SEND) and param0(fn, y['a'][0], None, 0) and param0(fn, y['a'][1], None, 1)
    qu = lambda fn, y, q=None: is_call(y, QW) and param0(fn, y['a'][0], None, 0) and param0(fn, y['a'][1], None, 1)
    must(P, R, 'delay', f, snd, 'now', 'published at once', cond=any_of(nul, pos))
    must(P, R, 'delay', f, qu, 'later', 'or queued', cond=any_of(nul, zero, force))
    for b, i, y in f.nodes():
        if qu(f, y):
            R.inst('delay', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=pos), 'delay|only', 'only a will with a delay waits', line_of(f, y))
        if snd(f, y):
            R.inst('delay', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=any_of(zero, force)), 'delay|early', 'a delay is not skipped', line_of(f, y))
    if fk:
        # forced: never the delay
        for b, i, y in f.nodes():
            if y['k'] == 'cond' and any(is_mem(strip(f, y[s]), WD) for s in ('a', 'b')):
                br = 'b' if is_mem(strip(f, y['b']), WD) else 'a'
                R.inst('delay', Query(P, cut_cond=flag(f, fk[0], False)).implies(f, y['c'], br == 'a', (b.id, i), ROOT), 'delay|forced', 'the delay counts unless forced', line_of(f, y))
        for b, i, y in f.nodes():
            if qu(f, y):
                # reaching the queueing with the flag set
                ok = not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=any_of(flag(f, fk[0], False), lambda q, fn, n, pt, ctx: pos(q, fn, n, pt, ctx) and forced_zero(P, fn, n[1], pt, ctx, f, fk[0])))
                R.inst('delay', ok, 'delay|force', 'forced means at once', line_of(f, y))
    g = P.one(QW); R.saw(g.id)
    nulg = isnull(lambda q, fn, x, pt, ctx: fn.id == g.id and param0(fn, x, pt, 0))
    ins = lambda fn, y, q=None: y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in ('push_back', 'emplace_back') and has_mem(fn, y['o'], PEND)
    must(P, R, 'delay', g, ins, 'queued', 'the will waits', cond=nulg)
    must(P, R, 'delay', g, lambda fn, y, q: is_call(y, 'WillPublish::setQueuedAt'), 'since', 'since now', cond=nulg)
    for b, i, y in g.nodes():
        if ins(g, y):
            kx = strip_ptr(g, y['o'])
            zs = []
            if kx is not None and kx['k'] == 'call' and kx['a']:
                zs = gather(P, g, kx['a'][0], (b.id, i))
            plus = any(z['k'] == 'call' and z.get('op') == '+' or z.get('n') == 'std::chrono::operator+' or (z['k'] == 'bin' and z['op'] == '+') for z in zs)
            minus = any(z['k'] == 'call' and z.get('op') in ('-', '/', '*') or (z['k'] == 'bin' and z['op'] in ('-', '/', '*', '%')) for z in zs)
            unit = [z for z in zs if z['k'] == 'ctor' and 'chrono::duration' in z.get('t', '') and any(is_mem(strip(g, a), WD) for a in z.get('a', []) if a is not None)]
            secs = bool(unit) and all('milli' not in z.get('t', '') and '1000' not in z.get('t', '') and '60' not in z.get('t', '') for z in unit)
            now = any(z['k'] == 'call' and base_name(z.get('n', '')) == 'now' for z in zs)
            R.inst('delay', plus and not minus and secs and now, 'delay|when', 'until now plus the delay in seconds', line_of(g, y))
            a0 = gather(P, g, y['a'][0], (b.id, i)) + [z for a in y['a'] if a is not None for z in g.walk(a, True)]
            R.inst('delay', all(any(z['k'] == 'var' and z['id'] == g.params[j]['id'] for z in a0) for j in (0, 1)), 'delay|what', 'this will of this session', line_of(g, y))


def forced_zero(P, fn, x, pt, ctx, f, k):
    """x is zero when the flag is set: the delay is a source only under the flag being false"""
    x = strip(fn, x)
    c = None
    if x is not None and x['k'] == 'var':
        ds = [e for e in fn.defs().get(x['id'], [])]
        ds = [strip(fn, e[3]) for e in ds if e[3] is not None]
        for e in ds:
            if e['k'] == 'cond':
                br = 'b' if is_mem(strip(fn, e['b']), 'WillPublish::will_delay') else 'a'
                if not Query(P, cut_cond=flag(f, k, False)).implies(fn, e['c'], br == 'a', pt, ROOT):
                    return False
                c = True
            elif const_val(e) == 0:
                c = True
            else:
                return False
        if c and all(e['k'] in ('cond',) for e in ds):
            return True
    return False


def gather(P, fn, x, pt, d=0):
    out = []
    if x is None or d > 6:
        return out
    for z in fn.walk(x, True):
        out.append(z)
        if z['k'] == 'var':
            for f2, s2, p2, c2 in Query(P).sources(fn, z, pt, ROOT):
                if s2 is not None and s2.get('k') != 'var':
                    out += gather(P, f2, s2, p2, d + 1)
    return out


def due(P, R):
    x = P.one(ST + 'sendQueuedWillMessages'); R.saw(x.id)
    slot = lambda fn, z: any(w['k'] == 'mem' and base_name(w.get('n') or '') == 'first' for w in fn.walk(z, True))
    slot_src = lambda q, fn, z, pt, ctx: any(s is not None and slot(f, s) for f, s, _, _ in q.sources(fn, z, pt, ctx)) or (z is not None and slot(fn, z))
    now_src = lambda q, fn, z, pt, ctx: any(s is not None and any(w['k'] == 'call' and base_name(w.get('n', '')) == 'now' or w['k'] == 'var' and now_var(q, f, w, p, c) for w in f.walk(s, True)) for f, s, p, c in q.sources(fn, z, pt, ctx))
    come = lambda q, fn, n, pt, ctx: (n[0] in ('<', '<=') and slot_src(q, fn, n[1], pt, ctx) and now_src(q, fn, n[2], pt, ctx)) or (n[0] in ('>', '>=') and slot_src(q, fn, n[2], pt, ctx) and now_src(q, fn, n[1], pt, ctx))
    future = lambda q, fn, n, pt, ctx: (n[0] == '>' and slot_src(q, fn, n[1], pt, ctx) and now_src(q, fn, n[2], pt, ctx)) or (n[0] == '<' and slot_src(q, fn, n[2], pt, ctx) and now_src(q, fn, n[1], pt, ctx))
    snd = [(b, i, y) for b, i, y in x.nodes() if is_call(y, SEND)]
    R.inst('due', bool(snd), 'due|send', 'due wills are published', x.loc)
    noact = tcall('Session::hasActiveClient', False); act = tcall('Session::hasActiveClient', True)
    nos = isnull(lambda q, fn, z, pt, ctx: base_is(q, fn, z, pt, ctx, {'QueuedWill::getSession'}))
    def lock_will(q, fn, z, pt, ctx):
        ss = q.sources(fn, z, pt, ctx)
        return bool(ss) and all(s is not None and s['k'] == 'call' and base_name(s.get('n', '')) == 'lock' and any(w.get('n') == 'QueuedWill::getWill' for w in f.walk(s, True)) for f, s, _, _ in ss)
    now_ = isnull(lock_will)
    locks = [(b.id, i) for b, i, y in x.nodes() if is_call(y, 'QueuedWill::getWill')]
    R.inst('due', bool(locks), 'due|entries', 'the waiting wills are looked at', x.loc)
    for b, i, y in snd:
        pt = (b.id, i)
        q = Query(P, cut_cond=any_of(noact, nos), eh=False)
        R.inst('due', not any(q.reach_point(x, l, pt, ROOT, None) for l in locks), 'due|active', 'not when the session has a connection again', line_of(x, y))
        R.inst('due', not reaches(P, x, (x.entry, -1), [pt], cond=come), 'due|slot', 'not before its second has come', line_of(x, y))
        R.inst('due', arg_is(P, x, y['a'][0], pt, lambda f, s: any(w.get('n') == 'QueuedWill::getWill' for w in f.walk(s, True))) and arg_is(P, x, y['a'][1], pt, lambda f, s: is_call(s, 'QueuedWill::getSession')), 'due|what', 'the will of this entry', line_of(x, y))
    for l in locks:
        q = Query(P, cut_cond=any_of(act, nos, now_), cut_node=lambda fn, z, qq: is_call(z, SEND), eh=False)
        R.inst('due', not q.reach_point(x, l, l, ROOT, None) and not q.after(x, l), 'due|sent', 'every one is published, unless it is gone or its session is in use', x.loc)
    ers = [(b, i, y) for b, i, y in x.nodes() if y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in ('erase', 'clear') and has_mem(x, y['o'], PEND)]
    for l in locks:
        R.inst('due', one_exit(x, l[0], {e[0].id for e in ers}), 'due|slotall', 'all entries of a slot are looked at', x.loc)
    R.inst('due', bool(ers), 'due|erase', 'due slots are dropped', x.loc)
    for b, i, y in ers:
        R.inst('due', not reaches(P, x, (x.entry, -1), [(b.id, i)], cond=come), 'due|only', 'only slots whose second has come are dropped', line_of(x, y))
        cyc = cycle_blocks(x, b.id)
        R.inst('due', bool(cyc), 'due|loop', 'all slots are looked at', line_of(x, y))
        endc = lambda q, fn, n, pt, ctx: n[0] == '==' and any(any(s is not None and on_mem(PEND, 'end', 'cend')(f, s) for f, s, _, _ in q.sources(fn, z, pt, ctx)) for z in n[1:]) or (is_call_base(fn, n[1], 'empty', PEND) and (n[0], const_val(n[2])) in (('!=', 0), ('==', 1)))
        q = Query(P, cut_cond=any_of(endc, future), eh=False)
        leave = False
        for bb in cyc:
            blk = x.blocks[bb]
            for si, (t, k) in enumerate(blk.succ):
                if t is None or k != 'n' or t in cyc:
                    continue
                if not any(q.implies(x, e, pol, (bb, len(blk.elems)), ROOT) for e, pol in edge_facts(x, blk, si)):
                    leave = True
        R.inst('due', not leave, 'due|all', 'the walk ends only at the end or at a slot of the future', line_of(x, y))
    timer(P, R, 'due', x)


def timer(P, R, rule, x):
    want = {x.q}
    for step in range(6):
        grow = set()
        for f in P.fns.values():
            if f.q in want:
                continue
            for b, i, y in f.nodes():
                if (y['k'] == 'call' and y.get('n') in want) or (y['k'] in ('fn', 'fref', 'addr') and y.get('n') in want) or (y['k'] == 'lambda' and any(z.get('n') in want for g in P.lambda_fns(y) for _, _, z in g.nodes())):
                    grow.add(f.q); break
        want |= grow
    rt = P.one('MainApp::reloadTimers')
    n = 0
    for b, i, y in rt.nodes():
        if y['k'] == 'call' and base_name(y.get('n', '')) == 'addTask' and mentions(P, rt, y['a'][0], want):
            n += 1
            R.inst(rule, const_val(strip(rt, y['a'][2])) == 1, rule + '|repeat', 'the timer repeats', line_of(rt, y))
    R.inst(rule, n >= 1, rule + '|timer', 'a timer leads to the walk', rt.loc)


def session(P, R):
    r = P.one(ST + 'removeSession'); R.saw(r.id)
    will = lambda q, fn, z, pt, ctx: base_is(q, fn, z, pt, ctx, {'Session::getWill'})
    nowill = isnull(will)
    give = lambda fn, y, q=None: (is_call(y, QS) and len(y['a']) > 2 and const_val(strip(fn, y['a'][2]) if y['a'][2] is not None else None) == 1 or is_call(y, SEND)) and arg_is(P, fn, y['a'][0], points(fn)[id(y)], lambda f, s: is_call(s, 'Session::getWill'))
    gets = [(b, i, y) for b, i, y in r.nodes() if is_call(y, 'Session::getWill')]
    R.inst('session', bool(gets), 'session|removed', 'the will of a removed session is looked at', r.loc)
    for b, i, y in gets:
        q = Query(P, cut_cond=nowill, cut_node=give, eh=False)
        R.inst('session', not q.reach_point(r, (b.id, i), (b.id, i), ROOT, None) and not q.after(r, (b.id, i)), 'session|given', 'and published', line_of(r, y))
    # looked at for each removed session: from the erase every path to the exit passes the look up
    er = [(b, i, y) for b, i, y in r.nodes() if y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in ('erase', 'extract') and is_map(r, y['o'])]
    if not er:
        raise AnalysisError('removal of the session not found')
    coll = {strip_ptr(r, y['o']).get('id') for b, i, y in r.nodes() if y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in ('push_back', 'emplace_back', 'push_front') and strip_ptr(r, y['o']) is not None and strip_ptr(r, y['o'])['k'] == 'var'}
    if coll:
        for b, i, y in er:
            q = Query(P, cut_node=lambda fn, z, qq: z['k'] == 'call' and z.get('o') is not None and base_name(z.get('n', '')) in ('push_back', 'emplace_back', 'push_front') and strip_ptr(fn, z['o']).get('id') in coll, eh=False)
            before = not q.reach_point(r, (r.entry, -1), (b.id, i), ROOT, None)
            R.inst('session', before or not q.after(r, (b.id, i)), 'session|kept', 'the removed session is kept for it', line_of(r, y))
        for b, i, y in gets:
            R.inst('session', each(P, r, (b.id, i), lambda z: z is not None and z['k'] == 'var' and z['id'] in coll, skip=isnull(lambda q, fn, z, pt, ctx: True)), 'session|each', 'for each one', line_of(r, y))
    else:
        for b, i, y in er:
            q = Query(P, cut_node=lambda fn, z, qq: is_call(z, 'Session::getWill'), eh=False)
            R.inst('session', not q.reach_point(r, (r.entry, -1), (b.id, i), ROOT, None) or not q.after(r, (b.id, i)), 'session|each', 'for each one', line_of(r, y))
    # replaced session
    regs = P.byq.get(ST + 'registerClientAndKickExistingOne', [])
    n = 0
    for f in regs:
        put = [(b, i, y) for b, i, y in f.nodes() if asg_parts(f, y) is not None and strip_ptr(f, asg_parts(f, y)[0]) is not None and strip_ptr(f, asg_parts(f, y)[0])['k'] == 'call' and strip_ptr(f, asg_parts(f, y)[0]).get('o') is not None and is_map(f, strip_ptr(f, asg_parts(f, y)[0])['o'])]
        for b, i, y in put:
            R.saw(f.id); n += 1
            noq = any_of(tcall('WillPublish::getQueued', False), truth(lambda q, fn, x: x['k'] == 'mem' and x['n'] == 'WillPublish::isQueued', False))
            olds = lambda s: s['k'] in ('var', 'mem') or True
            nos = isnull(lambda q, fn, z, pt, ctx: (lambda w: w is not None and w['k'] == 'var' and 'shared_ptr<Session>' in (var_type(fn, w['id']) or ''))(strip(fn, z)))
            fresh = member(P, MAPS[0], False)
            q = Query(P, cut_cond=any_of(nowill, noq, nos, fresh), cut_node=lambda fn, z, qq: give(fn, z), eh=False)
            R.inst('session', not q.after(f, (b.id, i)), 'session|replaced', 'a waiting will of a replaced session is published', line_of(f, y))
    R.inst('session', n >= 1, 'session|register', 'the registration of a session', r.loc)


def publish(P, R):
    f = P.one(SEND); R.saw(f.id)
    nul = isnull(lambda q, fn, x, pt, ctx: fn.id == f.id and (param0(fn, x, pt, 0) or param0(fn, x, pt, 1)))
    off = tmem(EN, False); on = tmem(EN, True)
    AR = 'AuthResult'
    isacl = lambda s, f2: is_call(s, 'Authentication::aclCheck') and any(enum_name(strip(f2, a)) == 'AclAccess::write' for a in s['a'] if a is not None)
    oks = {'AuthResult::success', 'AuthResult::success_without_setting_retained'}
    allv = set(enum_values(P, AR))
    names = {'Authentication::aclCheck'}
    allow = [in_set(P, names, AR, oks), in_set(P, names, AR, {'AuthResult::success'})]
    noret = in_set(P, names, AR, allv - {'AuthResult::success'})
    pub = lambda fn, y, q=None: is_call(y, ST + 'queuePacketAtSubscribers')
    ret = lambda fn, y, q=None: is_call(y, ST + 'setRetainedMessage')
    for v in sorted(oks):
        must(P, R, 'publish', f, pub, 'sent', 'the will goes to its subscribers', cond=any_of(nul, off, in_set(P, names, AR, allv - {v})))
    rt = lambda pol: truth(lambda q, fn, x: x['k'] == 'mem' and base_name(x['n']) == 'retain', pol)
    must(P, R, 'publish', f, ret, 'retained', 'and is retained', cond=any_of(nul, off, noret, rt(False)))
    acls = [(b, i, y) for b, i, y in f.nodes() if is_call(y, 'Authentication::aclCheck')]
    for b, i, y in acls:
        R.inst('publish', isacl(y, f), 'publish|acl', 'it is allowed as any publish', line_of(f, y))
    for b, i, y in f.nodes():
        pt = (b.id, i)
        if pub(f, y) or ret(f, y):
            R.inst('publish', not reaches(P, f, (f.entry, -1), [pt], cond=allow[1 if ret(f, y) else 0]), 'publish|allowed', 'only when it is allowed', line_of(f, y))
            R.inst('publish', not reaches(P, f, (f.entry, -1), [pt], cond=on), 'publish|on', 'only when wills are enabled', line_of(f, y))
            zs = gather(P, f, y['a'][0], pt)
            R.inst('publish', any(z['k'] == 'var' and z['id'] == f.params[0]['id'] for z in zs) or copies(P, f, zs), 'publish|what', 'it is this will', line_of(f, y))
        if ret(f, y):
            R.inst('publish', not reaches(P, f, (f.entry, -1), [pt], cond=rt(True)), 'publish|retain', 'retained only when it says so', line_of(f, y))
        if pub(f, y):
            R.inst('publish', arg_is(P, f, y['a'][1], pt, lambda g, s: s['k'] == 'mem' and base_name(s['n']) == 'client_id'), 'publish|from', 'as from its client', line_of(f, y))
            # the expiry starts now
            rs = lambda fn, z, q=None: is_call(z, 'Publish::restartExpiry') or is_call(z, 'WillPublish::restartExpiry')
            R.inst('publish', not reaches(P, f, (f.entry, -1), [pt], node=rs), 'publish|expiry', 'its expiry interval starts when it is published', line_of(f, y))
    # once
    clr = lambda fn, y, q=None: is_call(y, 'Session::clearWill')
    must(P, R, 'once', f, clr, 'forgotten', 'the session forgets a published will', cond=nul)
    for b, i, y in f.nodes():
        if clr(f, y):
            R.inst('once', any(param0(f, a, None, 0) for a in y['a'] if a is not None), 'once|which', 'but not the will of a successor', line_of(f, y))
        if pub(f, y):
            R.inst('once', not reaches(P, f, (f.entry, -1), [(b.id, i)], node=clr), 'once|first', 'before it is published', line_of(f, y))
    for g in P.byq.get('Session::clearWill', []):
        if g.params:
            R.saw(g.id)
            rs = lambda fn, y, q=None: (y['k'] == 'call' and y.get('o') is not None and has_mem(fn, y['o'], SW) and base_name(y['n']) == 'resetIfSame' and param0(fn, y['a'][0], None, 0))
            must(P, R, 'once', g, rs, 'same', 'forgotten when it is that one')
    ri = [g for g in P.fns.values() if base_name(g.q) == 'resetIfSame' and 'CheckedSharedPtr' in g.q or base_name(g.q) == 'resetIfSame']
    for g in ri:
        R.saw(g.id)
        eq = lambda q, fn, n, pt, ctx: n[0] == '==' and any(param0(fn, z, None) for z in n[1:])
        ne = lambda q, fn, n, pt, ctx: n[0] == '!=' and any(param0(fn, z, None) for z in n[1:])
        rst = lambda fn, y, q=None: (y['k'] == 'call' and y.get('o') is not None and base_name(y['n']) == 'reset') or (asg_parts(fn, y) is not None and strip(fn, asg_parts(fn, y)[0])['k'] == 'mem')
        must(P, R, 'once', g, rst, 'reset', 'the same one is dropped', cond=ne)
        for b, i, y in g.nodes():
            if rst(g, y):
                R.inst('once', not reaches(P, g, (g.entry, -1), [(b.id, i)], cond=eq), 'once|other', 'another one is kept', line_of(g, y))
    R.inst('once', bool(ri) or not any(g.params for g in P.byq.get('Session::clearWill', [])), 'once|cmp', 'comparison', f.loc)
    so = P.one('Client::sendOrQueueWill')
    drop = lambda fn, y, q=None: (y['k'] == 'call' and y.get('o') is not None and base_name(y['n']) == 'reset' and has_mem(fn, y['o'], CW)) or (asg_parts(fn, y) is not None and is_mem(strip(fn, asg_parts(fn, y)[0]), CW)) or (y['k'] == 'call' and y.get('n') in ('std::move', 'std::exchange') and any(is_mem(strip(fn, a), CW) for a in y['a'] if a is not None))
    for b, i, y in so.nodes():
        if is_call(y, QS, SEND):
            q = Query(P, cut_node=drop, eh=False)
            R.inst('once', not q.after(so, (b.id, i)) or not q.reach_point(so, (so.entry, -1), (b.id, i), ROOT, None), 'once|shutdown', 'the connection forgets it', line_of(so, y))


def copies(P, f, zs):
    """a variable among zs was made from the will"""
    for z in zs:
        if z['k'] == 'var':
            for e in f.defs().get(z['id'], []):
                if e[3] is not None and any(w['k'] == 'var' and w['id'] == f.params[0]['id'] for w in f.walk(e[3], True)):
                    return True
    return False
