"""Which session a connection gets."""
from core.rules import *
from checks.c11 import must, reaches, param0, on_mem
from checks.c12 import member

SU, CU = 'Session::getUsername', 'Client::getUsername'
SG, CG = 'Session::getFmqClientGroupId', 'Client::getFmqClientGroupId'
MAPS = ('SubscriptionStore::sessionsById', 'SubscriptionStore::sessionsByIdConst')
DOD = 'Session::destroyOnDisconnect'


def base_is(q, fn, x, pt, ctx, names):
    ss = q.sources(fn, x, pt, ctx)
    return bool(ss) and all(s is not None and (s['k'] in ('call', 'mem') and s.get('n') in names) for _, s, _, _ in ss)


def same(a, b):
    """fact: the two properties are equal"""
    def c(q, fn, n, pt, ctx):
        if n[0] != '==':
            return False
        return (base_is(q, fn, n[1], pt, ctx, a) and base_is(q, fn, n[2], pt, ctx, b)) or (base_is(q, fn, n[1], pt, ctx, b) and base_is(q, fn, n[2], pt, ctx, a))
    return c


def is_map(fn, x):
    return any(has_mem(fn, x, m) for m in MAPS)


def session_value(q, fn, x, pt, ctx):
    """x is (possibly) the session that was looked up or null"""
    ss = q.sources(fn, x, pt, ctx)
    return bool(ss) and all(s is None or s['k'] in ('uninit', 'null') or (s['k'] in ('ctor', 'initlist')) or from_map(f, s) or is_call(s, 'SubscriptionStore::lockSession') for f, s, _, _ in ss)


def from_map(fn, s):
    s = strip_ptr(fn, s)
    if s is None:
        return False
    if s['k'] == 'mem' and base_name(s['n']) == 'second':
        return True
    return s['k'] == 'call' and s.get('o') is not None and base_name(s['n']) in ('operator[]', 'at') and is_map(fn, s['o'])


def null_session(pol):
    def c(q, fn, n, pt, ctx):
        if (n[0], const_val(n[2])) not in ((('==', 0),) if pol else (('!=', 0),)):
            return False
        x = strip(fn, n[1])
        return x is not None and x['k'] in ('var', 'mem', 'call') and session_value(q, fn, x, pt, ctx)
    return c


def flag_param(fn0, name):
    return lambda pol: truth(lambda q, fn, x: x['k'] == 'var' and fn.id == fn0.id and any(p['id'] == x['id'] and p['n'] == name for p in fn0.params), pol)


def new_session(fn, y):
    return y['k'] in ('new', 'ctor') and (y.get('t', '') in ('Session', 'Session *') or is_call(y, 'Session::Session')) or (y['k'] == 'call' and y.get('n') in ('std::make_shared', 'std::make_unique') and 'Session' in y.get('t', '') and 'shared_ptr<Session>' in y.get('t', ''))


def check(P, R):
    R.rule('user', 'a session is taken over only by a connection with the same username and client group, and nothing happens to the other connection before that')
    R.rule('kick', 'the connection that uses the session is disconnected')
    R.rule('fresh', 'a session is continued exactly when it exists, outlives its connections and clean start is not asked for')
    R.rule('assign', 'session and connection are tied together, with the properties of the new connection')
    R.rule('params', 'clean start, receive maximum and expiry are those of the CONNECT')
    R.rule('present', 'CONNACK says session present exactly when a session of MQTT 3.1.1 or later can be continued')
    R.rule('id', 'no session is stored under an empty client ID or that of another client')
    reg = [f for f in P.byq.get('SubscriptionStore::registerClientAndKickExistingOne', []) if len(f.params) == 4]
    if len(reg) != 1:
        raise AnalysisError('registration of clients not found')
    reg = reg[0]
    wrap = [f for f in P.byq['SubscriptionStore::registerClientAndKickExistingOne'] if f.id != reg.id]
    asg5 = [f for f in P.byq.get('Session::assignActiveConnection', []) if len(f.params) == 5]
    asg1 = [f for f in P.byq.get('Session::assignActiveConnection', []) if len(f.params) == 1]
    if len(asg5) != 1 or len(asg1) != 1 or not wrap:
        raise AnalysisError('assignment of connections not found')
    asg5, asg1 = asg5[0], asg1[0]
    pn = {p['n']: p for p in reg.params}
    clean = lambda pol: truth(lambda q, fn, x: x['k'] == 'var' and x['id'] == reg.params[1]['id'], pol)
    kick = lambda fn, y: is_call(y, 'ThreadData::serverInitiatedDisconnect')
    assign = lambda fn, y: is_call(y, asg5.q) and any(t.id == asg5.id for t in P.targets(y))
    new = lambda fn, y, q=None: new_session(fn, y)
    lab = lambda fn, y: base_name(y.get('n', '')) or y['k']
    tgt = lambda fn, y: kick(fn, y) or assign(fn, y)
    enter = lambda t: t.cls in ('SubscriptionStore',)
    su, sg = same({SU}, {CU}), same({SG}, {CG})
    nul = null_session(True); have = null_session(False)
    notfound = member(P, MAPS[0], False)
    for c, k, w in ((su, 'username', 'same username'), (sg, 'group', 'same client group')):
        guarded(P, R, 'user', [reg], kick, cut_cond=any_of(c, nul), what=w, key='kick|' + k, label=lab, eh=False, enter=enter)
        guarded(P, R, 'user', [reg], assign, cut_cond=any_of(c, nul, notfound), cut_node=new if False else None, what=w, key='assign|' + k, label=lab, eh=False, enter=enter)
    # the identity of a session never changes
    for m in ('Session::username', 'Session::client_id', 'Session::fmq_client_group_id'):
        ws = [(f, y) for f, b, i, y in sites_of(P, lambda fn, y: any(is_mem(o, m) for o in mutated(P, fn, y)))]
        for f, y in ws:
            R.bad('user', 'user|const|%s|%s' % (m, f.q), '%s of a session changed' % m, line_of(f, y))
        if not ws:
            R.ok('user', '%s is set only at construction' % m, reg.loc)
    for g, m in ((SU, 'Session::username'), (SG, 'Session::fmq_client_group_id'), ('Session::getClientId', 'Session::client_id'), (CU, 'Client::username'), (CG, 'Client::fmq_client_group_id'), ('Client::getClientId', 'Client::clientid')):
        f = P.one(g)
        for b, i, y in f.nodes():
            if y['k'] == 'ret':
                R.inst('user', is_mem(strip_ptr(f, y['e']), m) or arg_is(P, f, y['e'], (b.id, i), lambda h, s: is_mem(s, m)), 'user|getter|' + g, 'the property itself', line_of(f, y))
    sc = [f for f in P.byq.get('Session::Session', []) if len(f.params) == 3]
    for f in sc:
        ini = {y['n']: strip(f, y['e']) for b, i, y in f.nodes() if y['k'] == 'minit' and y.get('n')}
        for k, m in enumerate(('Session::client_id', 'Session::username', 'Session::fmq_client_group_id')):
            x = ini.get(m)
            while x is not None and x['k'] == 'ctor' and len([a for a in x['a'] if a is not None]) == 1:
                x = strip(f, [a for a in x['a'] if a is not None][0])
            R.inst('user', x is not None and param0(f, x, None, k), 'user|ctor|' + m, 'set from the argument', f.loc)
    # kick
    noclient = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) == ('==', 0) and base_is(q, fn, n[1], pt, ctx, {'Session::makeSharedClient'}) or (n[0] == '==' and const_val(n[2]) == 0 and is_call(strip(fn, n[1]), 'Session::hasActiveClient'))
    must(P, R, 'kick', reg, lambda fn, y, q: kick(fn, y), 'kicked', 'an existing connection is disconnected', cond=any_of(nul, notfound, noclient))
    for f, b, i, y in sites_of(P, lambda fn, y: kick(fn, y) and fn.cls == 'SubscriptionStore'):
        a = y['a']; pt = (b.id, i)
        R.inst('kick', arg_is(P, f, a[0], pt, lambda g, s: is_call(s, 'Session::makeSharedClient')), 'kick|who', 'the connection of the session', line_of(f, y))
        R.inst('kick', enum_name(strip(f, a[1])) == 'ReasonCodes::SessionTakenOver', 'kick|reason', 'with the reason that the session is taken over', line_of(f, y))
        R.inst('kick', not any(assign(g, z) and Query(P)._plain_reach(f, (b2.id, i2), (b.id, i), ()) for g, b2, i2, z in ((f, b2, i2, z) for b2, i2, z in f.nodes())), 'kick|order', 'before the new connection is assigned', line_of(f, y))
    ms = P.one('Session::makeSharedClient')
    for b, i, y in ms.nodes():
        if y['k'] == 'ret':
            R.inst('kick', any(z['k'] == 'call' and base_name(z.get('n', '')) == 'lock' and has_mem(ms, z['o'], 'Session::client') for _, s, _, _ in Query(P).sources(ms, y['e'], (b.id, i), ROOT) if s is not None for z in ms.walk(s, True)), 'kick|client', 'the connection of the session', line_of(ms, y))
    sid = [f for f in P.byq.get('ThreadData::serverInitiatedDisconnect', []) if f.params and f.params[0]['t'].startswith('const ')]
    sidm = [f for f in P.byq.get('ThreadData::serverInitiatedDisconnect', []) if f not in sid]
    for f in sidm:
        must(P, R, 'kick', f, lambda fn, y, q: any(t in sid for t in P.targets(y)) if y['k'] == 'call' else False, 'forward', 'the disconnect is passed on')
    for f in sid:
        nocl = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) == ('==', 0) and param0(fn, n[1], None)
        que = lambda fn, y, q=None: is_call(y, 'ThreadData::addImmediateTask') or (y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in ('push_back', 'emplace_back') and 'taskQueue' in show(fn, y['o'])) or any_queue(P, fn, y)
        must(P, R, 'kick', f, que, 'queued', 'the disconnect is queued', cond=nocl)
        lam = [g for b, i, y in f.nodes() if y['k'] == 'lambda' for g in P.lambda_fns(y)]
        eff = [g for g in lam if any(is_call(y, 'Client::setDisconnectStage') for b, i, y in g.nodes())]
        R.inst('kick', bool(eff), 'kick|task', 'the task ends the connection', f.loc)
        for g in eff:
            must(P, R, 'kick', g, lambda fn, y, q: is_call(y, 'Client::setDisconnectStage', 'ThreadData::removeClientQueued', 'ThreadData::removeClient'), 'ends', 'every path of the task ends the connection')
    # fresh
    dodT, dodF = any_of(tcall('Session::getDestroyOnDisconnect', True), tmem(DOD, True)), any_of(tcall('Session::getDestroyOnDisconnect', False), tmem(DOD, False))
    for c, k, w in ((have, 'exists', 'the session exists'), (dodF, 'keeps', 'the session outlives its connection'), (clean(False), 'clean', 'clean start is not asked for')):
        guarded(P, R, 'fresh', [reg], assign, cut_cond=c, cut_node=new, what=w + ' (or a new session)', key='continue|' + k, label=lab, eh=False, enter=enter)
    guarded(P, R, 'fresh', [reg], lambda fn, y: new_session(fn, y), cut_cond=any_of(nul, notfound, dodT, clean(True)), what='a new session only without one to continue', key='new', label=lab, eh=False, enter=enter)
    gd = P.one('Session::getDestroyOnDisconnect')
    for b, i, y in gd.nodes():
        if y['k'] == 'ret':
            R.inst('fresh', is_mem(strip_ptr(gd, y['e']), DOD) or arg_is(P, gd, y['e'], (b.id, i), lambda h, s: is_mem(s, DOD)), 'fresh|getter', 'the property itself', line_of(gd, y))
    news = [(f, b, i, y) for f, b, i, y in sites_of(P, lambda fn, y: new_session(fn, y) and fn.cls == 'SubscriptionStore')]
    for f, b, i, y in news:
        if y['k'] == 'call' or (y['k'] == 'ctor') or y['k'] == 'new':
            a = next((z['a'] for z in f.walk(y, True) if is_call(z, 'Session::Session')), y.get('a') or [])
            if len(a) == 3:
                want = ('Client::getClientId', CU, CG)
                for k in range(3):
                    okc = lambda g, s: is_call(s, want[k]) or (k == 0 and s['k'] == 'var')
                    R.inst('fresh', arg_is(P, f, a[k], (b.id, i), okc), 'fresh|arg%d|%s' % (k, f.q), 'the new session has the identity of the client', line_of(f, y))
        if f.id == reg.id:
            put = lambda fn, z, q=None: stores(P, fn, z)
            R.inst('fresh', not Query(P, cut_node=put, eh=False).after(f, (b.id, i)), 'fresh|stored', 'the new session replaces the old one', line_of(f, y))
    # the key
    for f, b, i, y in sites_of(P, lambda fn, y: fn.cls == 'SubscriptionStore' and y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in ('operator[]', 'find', 'at', 'insert_or_assign', 'emplace') and is_map(fn, y['o']) and y.get('a')):
        a = y['a'][0]
        if base_name(y['n']) in ('find', 'at') and f.id != reg.id:
            continue
        ok = arg_is(P, f, a, (b.id, i), lambda g, s: is_call(s, 'Client::getClientId', 'Session::getClientId') or (s['k'] == 'var' and any(p['id'] == s['id'] for p in g.params)))
        R.inst('id', ok, 'id|key|%s' % f.q, 'sessions are found and stored under the client ID', line_of(f, y))
    empt = lambda q, fn, n, pt, ctx: (lambda x: x is not None and x['k'] == 'call' and x.get('o') is not None and ((base_name(x.get('n', '')) == 'empty' and (n[0], const_val(n[2])) in (('==', 0), ('!=', 1))) or (base_name(x.get('n', '')) in ('size', 'length') and (n[0], const_val(n[2])) in (('!=', 0), ('>', 0), ('>=', 1)))) and base_is(q, fn, x['o'], pt, ctx, {'Client::getClientId', 'Client::clientid'}))(strip(fn, n[1]))
    guarded(P, R, 'id', [reg], lambda fn, y: assign(fn, y) or new_session(fn, y) or kick(fn, y), cut_cond=empt, what='the client ID is not empty', key='empty', label=lab, eh=False, enter=enter)
    # assign
    ac = lambda fn, y, q=None: y['k'] == 'call' and any(t.id == asg1.id for t in P.targets(y))
    must(P, R, 'assign', asg5, ac, 'client', 'the session gets the connection')
    must(P, R, 'assign', asg5, lambda fn, y, q: is_call(y, 'Client::assignSession'), 'session', 'the connection gets the session')
    must(P, R, 'assign', asg5, lambda fn, y, q: is_call(y, 'Session::setSessionProperties'), 'props', 'the session gets the properties of the connection')
    guarded(P, R, 'assign', [asg5], lambda fn, y: ac(fn, y) or is_call(y, 'Client::assignSession', 'Session::setSessionProperties'), cut_cond=same({SU, 'Session::username'}, {CU}), what='same username', key='username', label=lab, eh=False, enter=lambda t: False)
    for b, i, y in asg5.nodes():
        if is_call(y, 'Session::setSessionProperties'):
            a = y['a']
            R.inst('assign', all(param0(asg5, a[k], (b.id, i), j) for k, j in ((0, 2), (1, 3), (2, 4))) and arg_is(P, asg5, a[3], (b.id, i), lambda f, s: is_call(s, 'Client::getProtocolVersion')), 'assign|args', 'receive maximum, expiry, clean start and protocol of the connection', line_of(asg5, y))
        if is_call(y, 'Client::assignSession'):
            R.inst('assign', param0(asg5, y['a'][0], (b.id, i), 0), 'assign|which', 'this session', line_of(asg5, y))
    wr = lambda m, val: (lambda fn, y, q=None: fn.id == asg1.id and asg_parts(fn, y) is not None and is_mem(asg_parts(fn, y)[0], m) and val(fn, asg_parts(fn, y)[1], points(fn)[id(y)]))
    must(P, R, 'assign', asg1, wr('Session::client', lambda f, x, p: param0(f, x, p, 0)), 'set', 'the connection is kept')
    must(P, R, 'assign', asg1, wr('Session::willPublish', lambda f, x, p: arg_is(P, f, x, p, lambda g, s: is_call(s, 'Client::getWill'))), 'will', 'the will is that of the connection')
    must(P, R, 'assign', asg1, wr('Session::removalQueued', lambda f, x, p: const_val(strip(f, x)) == 0), 'removal', 'the session is not waiting for removal')
    cs = P.one('Client::assignSession')
    must(P, R, 'assign', cs, lambda fn, y, q: asg_parts(fn, y) is not None and is_mem(asg_parts(fn, y)[0], 'Client::session') and param0(fn, asg_parts(fn, y)[1], points(fn)[id(y)]), 'csession', 'the connection keeps the session')
    for b, i, y in reg.nodes():
        if assign(reg, y):
            a = y['a']
            R.inst('assign', param0(reg, a[1], (b.id, i), 0) and param0(reg, a[2], (b.id, i), 2) and param0(reg, a[3], (b.id, i), 3) and param0(reg, a[4], (b.id, i), 1), 'assign|regargs', 'with the arguments of the registration', line_of(reg, y))
    must(P, R, 'assign', reg, lambda fn, y, q: assign(fn, y), 'reg', 'a registered client has a session')
    params(P, R, reg, wrap)
    present(P, R)


def any_queue(P, fn, y):
    return y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in ('push_back', 'emplace_back', 'push') and any('taskQueue' in show(f, s) for f, s, _, _ in Query(P).sources(fn, y['o'], points(fn)[id(y)], ROOT) if s is not None)


def stores(P, fn, z):
    ap = asg_parts(fn, z)
    if ap and ap[0] is not None:
        d = strip_ptr(fn, ap[0])
        if d is None:
            return False
        if d['k'] == 'call' and d.get('o') is not None and base_name(d['n']) in ('operator[]', 'at') and is_map(fn, d['o']):
            return True
        if d['k'] == 'mem' and base_name(d['n']) == 'second':
            return True
    return z['k'] == 'call' and z.get('o') is not None and base_name(z.get('n', '')) in ('insert_or_assign',) and is_map(fn, z['o'])


def params(P, R, reg, wrap):
    F = {1: 'clean_start', 2: 'clientReceiveMax', 3: 'sessionExpiryInterval'}
    rd = 'StowedClientRegistrationData::'
    for w in wrap:
        R.saw(w.id)
        n = 0
        for b, i, y in w.nodes():
            if y['k'] == 'call' and any(t.id == reg.id for t in P.targets(y)):
                a = y['a']
                if arg_is(P, w, a[1], (b.id, i), lambda f, s: is_mem(s, rd + 'clean_start')):
                    n += 1
                    for k in (2, 3):
                        R.inst('params', arg_is(P, w, a[k], (b.id, i), lambda f, s: is_mem(s, rd + F[k])), 'params|' + F[k], 'the stored value is used', line_of(w, y))
                else:
                    nod = lambda q, fn, nn, pt, ctx: (nn[0], const_val(nn[2])) == ('==', 0) and base_is(q, fn, nn[1], pt, ctx, {'Client::getRegistrationData'})
                    R.inst('params', not reaches(P, w, (w.entry, -1), [(b.id, i)], cond=nod), 'params|default', 'defaults only without stored values', line_of(w, y))
        R.inst('params', n >= 1, 'params|used', 'the stored values are used', w.loc)
    sr = P.one('Client::setRegistrationData')
    mk = [(b, i, y) for b, i, y in sr.nodes() if y['k'] == 'call' and y.get('n') == 'std::make_unique' or is_call(y, 'StowedClientRegistrationData::StowedClientRegistrationData')]
    R.inst('params', any(len(y['a']) == 3 and all(param0(sr, y['a'][k], (b.id, i), k) for k in range(3)) for b, i, y in mk), 'params|stow', 'the values are stored', sr.loc)
    for c in P.byq.get('StowedClientRegistrationData::StowedClientRegistrationData', []):
        if len(c.params) == 3:
            ini = {y['n']: strip(c, y['e']) for b, i, y in c.nodes() if y['k'] == 'minit' and y.get('n')}
            for k in (1, 2, 3):
                R.inst('params', param0(c, ini.get(rd + F[k]), None, k - 1), 'params|ctor|' + F[k], 'the values are stored', c.loc)
    h = P.one('MqttPacket::handleConnect')
    for f, b, i, y in sites_of(P, calls_to(sr.q)):
        a = y['a']
        R.inst('params', all(arg_is(P, f, a[k], (b.id, i), lambda g, s: is_mem(s, 'ConnectData::' + m)) for k, m in enumerate(('clean_start', 'client_receive_max', 'session_expire'))), 'params|connect|' + f.q, 'the values of the CONNECT', line_of(f, y))
    au = lambda fn, y: is_call(y, 'ThreadData::continuationOfAuthentication', 'Authentication::login', 'Authentication::extendedAuth', 'Authentication::loginCheck')
    sites = [y for b, i, y in h.nodes() if au(h, y)]
    if sites:
        guarded(P, R, 'params', [h], lambda fn, y: fn.id == h.id and au(fn, y), cut_node=lambda fn, y, q: is_call(y, sr.q), what='the values are stored before the client is authenticated', key='before', label=lambda fn, y: base_name(y['n']), eh=False, enter=lambda t: False)
    else:
        raise AnalysisError('authentication not found in handleConnect')


def present(P, R):
    h = P.one('MqttPacket::handleConnect')
    R.saw(h.id)
    cleanT, cleanF = tmem('ConnectData::clean_start', True), tmem('ConnectData::clean_start', False)
    pv = {'MqttPacket::protocolVersion', 'Client::getProtocolVersion'}
    new3 = in_set(P, pv, 'ProtocolVersion', {'ProtocolVersion::Mqtt311', 'ProtocolVersion::Mqtt5'})
    old3 = in_set(P, pv, 'ProtocolVersion', set(enum_values(P, 'ProtocolVersion')) - {'ProtocolVersion::Mqtt311', 'ProtocolVersion::Mqtt5'})
    dodT, dodF = any_of(tcall('Session::getDestroyOnDisconnect', True), tmem(DOD, True)), any_of(tcall('Session::getDestroyOnDisconnect', False), tmem(DOD, False))
    have, nul = null_session(False), null_session(True)
    n = 0
    for b, i, y in h.nodes():
        if not is_call(y, 'ConnAck::ConnAck') and not (y['k'] == 'call' and y.get('n') == 'std::make_unique' and 'ConnAck' in y.get('t', '')):
            continue
        a = [x for x in y['a'] if x is not None]
        if len(a) < 2 or (enum_name(strip(h, a[1])) or '') != 'ReasonCodes::Success':
            continue
        n += 1
        pt = (b.id, i)
        if len(a) < 3:
            R.bad('present', 'present|arg', 'session present is not passed', line_of(h, y)); continue
        for c, k, w in ((new3, 'version', 'only with MQTT 3.1.1 or later'), (cleanF, 'clean', 'only without clean start'), (have, 'exists', 'only when the session exists'), (dodF, 'keeps', 'only when the session outlives its connections')):
            R.inst('present', bvalued(P, h, a[2], pt, True, c), 'present|' + k, w, line_of(h, y))
        R.inst('present', bvalued(P, h, a[2], pt, False, any_of(old3, cleanT, nul, dodT)), 'present|yes', 'whenever the session can be continued', line_of(h, y))
    R.inst('present', n >= 1, 'present|site', 'CONNACK is prepared', h.loc)
    for b, i, y in h.nodes():
        if is_call(y, 'SubscriptionStore::lockSession'):
            R.inst('present', arg_is(P, h, y['a'][0], (b.id, i), lambda f, s: is_mem(s, 'ConnectData::client_id') or is_call(s, 'Client::getClientId')), 'present|key', 'the session of the client ID', line_of(h, y))
