"""Login: where a success decision may come from, and what happens (only) on success."""
from core.rules import *
from checks.c04 import has_field

CONT = 'ThreadData::continuationOfAuthentication'
CHECKS = ('Authentication::loginCheck', 'Authentication::extendedAuth')


def check(P, R):
    R.rule('on-success', 'a connection is made authenticated, registered and told success only on a successful login result')
    R.rule('decision-source', 'the login result comes from the login or extended authentication check (of this connection), or is an allowed constant')
    R.rule('without-check', 'login without a check is granted only to anonymous clients when allowed, or on a sufficient client certificate / proxy identity')
    R.rule('anonymous', 'whether anonymous clients are allowed is the decision of the listener when it makes one, and of the configuration otherwise')
    R.rule('on-denial', 'every other result than success, continue and pending is answered with a refusal and a disconnect')
    R.rule('authenticated-writers', 'the authenticated state is set only by the login continuation, an accepted outgoing connection and test code')
    R.rule('async', 'an asynchronous result is used for the client it was given for')
    R.rule('identity', 'the user name of a verified certificate or proxy identity replaces the one the client sent')
    cont = P.one(CONT)
    EX = {'MqttPacket::handleConnAck': 'outgoing connection', 'MainApp::start': 'fuzz input', 'FlashMQTestClient::start': 'test'}
    sets_auth = lambda fn, y: (is_call(y, 'Client::setAuthenticated') and const_val(strip(fn, arg(y, 0))) != 0) or (writes_to('Client::authenticated')(fn, y) and fn.q != 'Client::setAuthenticated' and not fn.is_ctor)
    gain = lambda fn, y: sets_auth(fn, y) or is_call(y, 'SubscriptionStore::registerClientAndKickExistingOne', 'Client::sendConnackSuccess')
    succ = compares('AuthResult?', ('==', 'AuthResult::success'))

    def success(q, fn, n, pt, ctx):
        return n[0] == '==' and enum_name(n[2]) == 'AuthResult::success' and (strip(fn, n[1]) or {}).get('t', '').replace('const ', '') == 'AuthResult' and not aclish(q, fn, n[1], pt, ctx)

    def aclish(q, fn, x, pt, ctx):
        return any(s is not None and is_call(s, 'Authentication::aclCheck') for _, s, _, _ in q.sources(fn, x, pt, ctx))
    roots = tops(P, fns_with(P, gain), stop=lambda f: f.id == cont.id or f.q in EX, skip=lambda f: f.q in ('SubscriptionStore::registerClientAndKickExistingOne',) and False)
    roots = [r for r in roots if r.file not in ('flashmqtestclient.cpp',) and not r.q.startswith('FlashMQTempDir')]
    for r in roots:
        R.inst('authenticated-writers', r.id == cont.id or r.q in EX, 'authenticated-writers|' + r.q, 'authentication granted in %s' % r.q, r.loc)
        if r.q not in EX:
            guarded(P, R, 'on-success', [r], gain, cut_cond=success, what='result is success', key='success', label=lambda fn, y: base_name(y.get('n', 'authenticated')))
    ms = P.fn('MainApp::start', optional=True)
    if ms:
        fz = lambda q, fn, n, pt, ctx: n[0] in ('!=', '==') and 'fuzz' in show(fn, n[1]).lower()
        g = guarded(P, R, 'authenticated-writers', ms, sets_auth, cut_cond=fz, what='fuzzing only', key='fuzz', minimum=0, enter=lambda t: t.cls == 'MainApp')
    # where results come from
    sites = [s for s in P.call_sites(cont)]
    R.inst('decision-source', len(sites) >= 2, 'decision-source|sites', '%d callers of the login continuation' % len(sites))
    q = Query(P)
    consts = []
    for cf, cpt, call in sites:
        for f, s, p, c in q.sources(cf, call['a'][1], cpt, ROOT):
            loc = line_of(f, s or call) if s and s.get('l') else line_of(cf, call)
            if s is not None and s['k'] == 'call' and s.get('n') in CHECKS:
                good = True
                o = [x for _, x, _, _ in q.sources(f, s['a'][0], p, c)]
                idok = all(x is not None and (is_call(x, 'Client::getClientId') or is_mem(x, 'ConnectData::client_id')) for x in o)
                R.inst('decision-source', idok, 'decision-source|%s|id' % f.q, 'the check is made for the client id of the connection', loc)
            elif s is not None and s['k'] == 'mem' and s['n'] == 'AsyncAuthResult::result':
                own = strip_ptr(f, s['b'])
                src = [x for _, x, _, _ in q.sources(f, own, p, c)]
                oke = all(x is not None and x['k'] == 'call' and x.get('n') == 'Client::stealAsyncAuthResult' and same_obj(f, x['o'], call['a'][0]) for x in src) and bool(src)
                R.inst('async', oke, 'async|%s' % f.q, 'result taken from the same client', loc)
                good = True
            elif s is not None and s['k'] == 'enum':
                good = s['n'] != 'AuthResult::success' or f.q == 'MqttPacket::handleConnect'
                consts.append((f, s))
            else:
                good = False
            R.inst('decision-source', good, 'decision-source|%s' % cf.q, 'login result from %s' % (show(f, s)[:60] if s else '?'), loc)
    # granted without a check
    hc = P.one('MqttPacket::handleConnect')

    def grants(fn, y):
        ap = asg_parts(fn, y) if y['k'] in ('asg', 'call') else None
        if ap and ap[1] is not None and enum_name(strip(fn, ap[1])) == 'AuthResult::success' and fn.id in reach:
            return True
        if y['k'] == 'decl':
            return any(enum_name(strip(fn, v.get('e'))) == 'AuthResult::success' for v in y['d'] if v.get('e') is not None and 'AuthResult' in v['t']) and fn.id in reach
        if y['k'] == 'ret' and y.get('e') is not None and fn.ret and 'AuthResult' in fn.ret:
            return enum_name(strip(fn, y['e'])) == 'AuthResult::success' and fn.id in reach
        if y['k'] == 'call' and y.get('n') == CONT and enum_name(strip(fn, arg(y, 1))) == 'AuthResult::success':
            return True
        return False
    reach = {hc.id} | {f.id for f in P.fns.values() if f.cls == 'MqttPacket' or f.file == 'mqttpacket.cpp'}
    reach -= {f.id for f in P.fns.values() if f.q in ('MqttPacket::handleSubscribe', 'MqttPacket::handlePublish')}
    x509 = compares('Client::x509ClientVerification', ('==', 'X509ClientVerification::X509IsEnough'))
    x509c = compares('Client::getX509ClientVerification', ('==', 'X509ClientVerification::X509IsEnough'))
    ha = compares({'Client::haProxyMode', 'Client::getHaProxyMode'}, ('==', 'HaProxyMode::HaProxyClientVerification'))
    idfact = any_of(x509, x509c, ha)
    yes = compares({'Client::allowAnonymousOverride', 'Client::getAllowAnonymousOverride'}, ('==', 'AllowListenerAnonymous::Yes'))
    nooverride = compares({'Client::allowAnonymousOverride', 'Client::getAllowAnonymousOverride'}, ('==', 'AllowListenerAnonymous::None'))
    anon = tmem('Settings::allowAnonymous', True)
    nouser = truth(lambda q, fn, x: is_mem(strip_ptr(fn, x), 'ConnectData::username'), False)
    nouser2 = truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) in ('has_value', 'operator bool') and is_mem(strip_ptr(fn, x['o']), 'ConnectData::username'), False)
    nometh = truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and has_mem(fn, x['o'], 'ConnectData::authenticationMethod'), True)
    for c, k, w in ((any_of(idfact, yes, anon), 'allowed', 'anonymous allowed'), (any_of(idfact, nouser, nouser2), 'user', 'no user name given'),
                    (any_of(idfact, nometh), 'method', 'no authentication method given')):
        guarded(P, R, 'without-check', [hc], grants, cut_cond=c, what=w + ' (or sufficient verified identity)', key=k)
    guarded(P, R, 'anonymous', [hc], grants, cut_cond=any_of(idfact, yes, nooverride), what='the listener does not forbid anonymous clients', key='override')
    lc = sites_of(P, calls_to('Authentication::loginCheck'))
    for f, b, i, y in lc:
        a = arg(y, 5)
        v = strip(f, a)
        q1 = Query(P, cut_cond=any_of(yes, anon)); q2 = Query(P, cut_cond=any_of(yes, nooverride))
        pt = (b.id, i)
        ok = const_val(v) == 0 or (q1.implies(f, a, True, pt, ROOT) and q2.implies(f, a, True, pt, ROOT))
        R.inst('anonymous', ok, 'anonymous|arg|' + f.q, 'the login check is told about anonymous access only when it is allowed', line_of(f, y))
    # refusals
    deny = lambda fn, y: is_call(y, 'Client::sendConnackDeny') or (is_call(y, 'Client::setDisconnectStage') and enum_name(strip(fn, arg(y, 0))) in ('DisconnectStage::SendPendingAppData', 'DisconnectStage::Now'))
    okres = any_of(lambda q, fn, n, pt, ctx: n[0] == '==' and enum_name(n[2]) in ('AuthResult::success', 'AuthResult::auth_continue', 'AuthResult::async') and (strip(fn, n[1]) or {}).get('t', '').replace('const ', '') == 'AuthResult' and not aclish(q, fn, n[1], pt, ctx))
    qq = Query(P, cut_cond=okres, cut_node=lambda fn, y, q_: deny(fn, y), eh=False)
    R.saw(cont.id)
    R.inst('on-denial', not qq.explore(cont), 'on-denial|continuation', 'every other result leads to a refusal', cont.loc)
    sd = P.one('Client::sendConnackDeny')
    qs = Query(P, cut_node=lambda fn, y, q_: is_call(y, 'Client::setDisconnectStage') and enum_name(strip(fn, arg(y, 0))) in ('DisconnectStage::SendPendingAppData', 'DisconnectStage::Now') or writes_to('Client::disconnectStage')(fn, y) and enum_name(strip(fn, asg_parts(fn, y)[1])) != 'DisconnectStage::NotInitiated', eh=False)
    R.inst('on-denial', not qs.explore(sd), 'on-denial|disconnect', 'a refused client is disconnected', sd.loc)
    # login outcome is used: from a check every path reaches the continuation or records a pending check
    always_after(P, R, 'on-denial', [hc, P.one('MqttPacket::handleExtendedAuth')], calls_to(*CHECKS), lambda fn, y: is_call(y, CONT, 'Client::setAsyncAuthenticating'),
                 'the result of the check is acted on', 'acted')
    # identity from certificate / proxy
    xv = set(enum_values(P, 'X509ClientVerification')); hv = set(enum_values(P, 'HaProxyMode'))
    cases = [(in_set(P, {'Client::x509ClientVerification', 'Client::getX509ClientVerification'}, 'X509ClientVerification', xv - {m}), 'Client::getUsernameFromPeerCertificate', 'certificate', m) for m in sorted(xv - {'X509ClientVerification::None'})]
    cases += [(in_set(P, {'Client::haProxyMode', 'Client::getHaProxyMode'}, 'HaProxyMode', hv - {m}), 'Client::getHaProxySslCnName', 'proxy', m) for m in sorted(hv) if 'Verific' in m or 'Verfic' in m]
    uvars = {strip(f, a)['id'] for f, b, i, y in sites_of(P, calls_to('Client::setClientProperties')) if f.id == hc.id for a in y['a'] if (strip(f, a) or {}).get('k') == 'var'}

    def is_user(fn, d):
        return d is not None and d['k'] == 'var' and d['id'] in uvars
    for c, src, k, mode in cases:
        fetch = lambda fn, y, q_, src=src: is_call(y, src)
        nonempty = truth(lambda q_, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and any(s is not None and is_call(strip_ptr(fn, s), src) for s in [s2 for _, s2, _, _ in q_.sources(fn, strip_ptr(fn, x['o']), last_pt(q_, fn, x), ROOT)]), False)
        guarded(P, R, 'identity', [hc], lambda fn, y: is_call(y, 'Client::setClientProperties') and fn.id == hc.id, cut_cond=any_of(c, nonempty), what='%s: a user name was obtained from the %s' % (base_name(mode), k), key=base_name(mode))
        def takes_it(fn, y, q_, src=src):
            ap = asg_parts(fn, y)
            return bool(ap) and fn.id == hc.id and is_user(fn, ap[0]) and ap[1] is not None and feeds(P, fn, ap[1], src)
        guarded(P, R, 'identity', [hc], lambda fn, y: is_call(y, 'Client::setClientProperties') and fn.id == hc.id, cut_cond=c, cut_node=takes_it, what='%s: that user name is used' % base_name(mode), key='used|' + base_name(mode))


def same_obj(fn, a, b):
    x, y = strip_ptr(fn, a), strip_ptr(fn, b)
    return x is not None and y is not None and x['k'] == y['k'] and x.get('id') == y.get('id') and x.get('n') == y.get('n')


def last_pt(q, fn, x):
    for b, i, y in fn.nodes():
        if y is x:
            return (b.id, i)
    return (fn.entry, 0)


def sources_of(P, f, x, pt):
    return [s for _, s, _, _ in Query(P).sources(f, x, pt, ROOT)]


def feeds(P, fn, s, src, depth=0):
    s = strip_ptr(fn, s)
    if s is None or depth > 6:
        return False
    if is_call(s, src):
        return True
    if s['k'] == 'var':
        for d in fn.defs().get(s['id'], []):
            if d[3] is not None and feeds(P, fn, d[3], src, depth + 1):
                return True
    if s['k'] == 'call' and s.get('o') is not None and base_name(s['n']) in ('value', 'value_or', 'operator*'):
        return feeds(P, fn, s['o'], src, depth + 1)
    return False
