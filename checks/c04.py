"""Guard analysis of the packet dispatcher: what a connection may do before it is authenticated and after its
disconnect has started."""
from core.rules import *

GATED = {'MqttPacket::handlePublish', 'MqttPacket::handlePubAck', 'MqttPacket::handlePubRec', 'MqttPacket::handlePubRel', 'MqttPacket::handlePubComp',
         'MqttPacket::handleSubscribe', 'MqttPacket::handleUnsubscribe', 'MqttPacket::handleSubAck', 'Client::writePingResp'}
OPEN = {'MqttPacket::handleConnect', 'MqttPacket::handleExtendedAuth', 'MqttPacket::handleDisconnect', 'MqttPacket::handleConnAck'}
PT = 'MqttPacket::packetType'
AUTH = 'Client::authenticated'
STAGE = 'Client::disconnectStage'


def check(P, R):
    R.rule('gate', 'packets other than CONNECT, AUTH, DISCONNECT and CONNACK are handled only on an authenticated connection')
    R.rule('auth-started', 'an AUTH packet is handled only when authenticated or when CONNECT started extended authentication')
    R.rule('not-after-disconnect', 'no packet is handled once disconnecting the client has been initiated')
    R.rule('connect-once', 'a CONNECT is acted on only when it is the first one; a CONNACK only on an outgoing connection, once, with success')
    R.rule('pre-auth-size', 'a packet of an unauthenticated connection is accepted only when smaller than 1 MB')
    R.rule('pre-auth-count', 'a packet dropped for lack of authentication is counted and the count is limited')
    R.rule('deferred', 'packets are kept only during an asynchronous login check and are handled only after authentication; the number is limited')
    R.rule('dispatch', 'packet handlers are reached only through the dispatcher')
    h = P.one('MqttPacket::handle')
    for q in sorted(GATED | OPEN):
        P.fn(q)
    isgated = calls_to(*GATED)
    ishandler = calls_to(*(GATED | OPEN))
    roots = tops(P, fns_with(P, ishandler), stop=lambda f: f.id == h.id)
    for r in roots:
        R.inst('dispatch', r.id == h.id, 'dispatch|' + r.q, 'packets handled by %s' % r.q, r.loc)
    full = enum_values(P, 'PacketType')
    allowed = {'PacketType::CONNECT', 'PacketType::CONNACK', 'PacketType::AUTH', 'PacketType::DISCONNECT'}
    authd = tmem(AUTH, True)
    other = in_set(P, PT, 'PacketType', allowed)
    lab = lambda fn, y: base_name(y['n'])
    guarded(P, R, 'gate', roots, isgated, cut_cond=any_of(authd, other), what='authenticated', key='auth', label=lab, minimum=len(GATED))
    method = truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and x.get('o') is not None and has_field(q, fn, x['o'], 'Client::extendedAuthenticationMethod'), False)
    notauth = in_set(P, PT, 'PacketType', set(full) - {'PacketType::AUTH'})
    guarded(P, R, 'auth-started', roots, calls_to('MqttPacket::handleExtendedAuth'), cut_cond=any_of(authd, method, notauth), what='authentication started', key='method')
    stage = in_set(P, STAGE, 'DisconnectStage', {'DisconnectStage::NotInitiated'})
    guarded(P, R, 'not-after-disconnect', roots, ishandler, cut_cond=stage, what='disconnect not initiated', key='stage', label=lab, minimum=len(GATED) + len(OPEN))
    # connect once
    hc = P.one('MqttPacket::handleConnect')
    notseen = tmem('Client::connectPacketSeen', False)
    act = calls_to('MqttPacket::parseConnectData', 'Client::setClientProperties', 'Client::setRegistrationData', 'Client::stageConnack', 'Authentication::loginCheck',
                   'Authentication::extendedAuth', 'ThreadData::continuationOfAuthentication')
    guarded(P, R, 'connect-once', [hc], act, cut_cond=notseen, what='first CONNECT', key='connect', label=lab, minimum=4)
    marks = lambda fn, y, q: is_call(y, 'Client::setHasConnectPacketSeen') or (writes_to('Client::connectPacketSeen')(fn, y))
    guarded(P, R, 'connect-once', [hc], calls_to('Authentication::loginCheck', 'Authentication::extendedAuth', 'ThreadData::continuationOfAuthentication'), cut_node=marks,
            what='CONNECT recorded', key='mark', label=lab, minimum=2)
    for f, b, i, y in sites_of(P, writes_to('Client::connectPacketSeen')):
        vals = up_sources(P, f, asg_parts(f, y)[1], (b.id, i))
        R.inst('connect-once', bool(vals) and all(const_val(x) == 1 for g, x in vals), 'connect-once|value|' + f.q, 'the CONNECT mark is only ever set', '%s:%s' % (f.file, y.get('l')))
    ha = P.one('MqttPacket::handleConnAck')
    outgoing = any_of(tcall('Client::isOutgoingConnection', True), tmem('Client::outgoingConnection', True))
    success = compares({'ConnAckData::reasonCode'}, ('==', 'ReasonCodes::Success'))
    tgt = calls_to('Client::setAuthenticated', 'Session::sendAllPendingQosData', 'SubscriptionStore::addSubscription')
    for c, k, w in ((outgoing, 'outgoing', 'outgoing connection'), (notseen, 'first', 'first CONNACK'), (success, 'success', 'successful CONNACK')):
        guarded(P, R, 'connect-once', [ha], tgt, cut_cond=c, what=w, key=k, label=lab)
    # framing limits before authentication
    bp = P.one('MqttPacket::bufferToMqttPackets')
    takes = lambda fn, y: is_call(y, 'CirBuf::readToVector') and fn.cls != 'CirBuf'

    # the size in question is the variable that determines how many bytes are taken from the buffer
    sizes = set()
    q0 = Query(P)
    for f, b, i, y in sites_of(P, takes):
        if f.id == bp.id and arg(y, 0) is not None:
            x = strip(f, arg(y, 0))
            if x is not None and x['k'] == 'var':
                sizes.add((f.id, x['id']))
            sizes |= {(g.id, s['id']) for g, s, _, _ in q0.sources(f, arg(y, 0), (b.id, i), ROOT) if s is not None and s['k'] == 'var'}
    if not sizes:
        raise AnalysisError('packet size variable of %s not recognised' % bp.q)

    def small(q, fn, n, pt, ctx):
        c = const_val(n[2])
        if n[0] not in ('<', '<=') or c is None or c > 1024 * 1024:
            return False
        x = strip(fn, n[1])
        if x is None or x['k'] != 'var':
            return False
        return (fn.id, x['id']) in sizes or any(s is not None and s['k'] == 'var' and (g.id, s['id']) in sizes for g, s, _, _ in q.sources(fn, x, pt, ctx))
    nosender = truth(lambda q, fn, x: x['k'] == 'var' and 'shared_ptr<Client>' in (x.get('t') or next((p['t'] for p in fn.params if p['id'] == x['id']), '')), False)
    guarded(P, R, 'pre-auth-size', [bp], takes, cut_cond=any_of(authd, small, nosender), what='authenticated or small', key='size')
    # counting dropped packets: from "not authenticated" to a plain "done" either a handler runs or the count was checked
    def under(q, fn, n, pt, ctx):
        x = strip(fn, n[1])
        if x is not None and x['k'] == 'un':
            x = strip(fn, x['e'])
        c = const_val(n[2])
        return n[0] in ('<', '<=') and c is not None and c < 255 and is_mem(x, 'Client::preAuthPacketCounter')
    done = lambda fn, y: fn.id == h.id and y['k'] == 'ret'

    def isret_done(fn, y):
        if not done(fn, y) or y.get('e') is None:
            return False
        e = strip(fn, y['e'])
        return e is not None and not (e['k'] == 'enum' and e['n'] == 'HandleResult::Defer')
    state_guard(P, R, 'pre-auth-count', [h], [(isret_done, {0, 2}, 'end of packet handling')], [(tmem(AUTH, False), 1), (any_of(under, other), 2)],
                what='count limited')
    counter = [(f, y) for f, b, i, y in sites_of(P, writes_to('Client::preAuthPacketCounter')) if not f.is_ctor]
    R.inst('pre-auth-count', bool(counter) and all(is_inc(f, y) for f, y in counter), 'pre-auth-count|inc', 'the counter of dropped packets only increases', counter[0][0].loc if counter else None)
    # deferring
    pending = tmem('Client::asyncAuthenticating', True)
    defer = lambda fn, y: y['k'] == 'ret' and y.get('e') is not None and fn.id == h.id and (strip(fn, y['e']) or {}).get('n') == 'HandleResult::Defer'
    guarded(P, R, 'deferred', [h], defer, cut_cond=pending, what='asynchronous check pending', key='pending')
    q = P.one('Client::addPacketToAfterAsyncQueue')
    keep = lambda fn, y: y['k'] == 'call' and base_name(y.get('n', '')) in ('push_back', 'emplace_back', 'insert', 'emplace', 'push_front', 'emplace_front') and y.get('o') is not None and has_mem(fn, y['o'], 'Client::packetQueueAfterAsync')

    def lim(q_, fn, n, pt, ctx):
        x = strip(fn, n[1])
        return n[0] in ('<', '<=') and const_val(n[2]) is not None and x is not None and x['k'] == 'call' and base_name(x.get('n', '')) == 'size' and has_mem(fn, x['o'], 'Client::packetQueueAfterAsync')
    guarded(P, R, 'deferred', [q], keep, cut_cond=lim, what='number of kept packets limited', key='limit')
    order = [y for b, i, y in q.nodes() if keep(q, y)]
    R.inst('deferred', all(base_name(y['n']).endswith('_back') for y in order), 'deferred|order', 'kept packets are appended', q.loc)
    hroots = tops(P, fns_with(P, calls_to('Client::handleAfterAsyncQueue')), stop=lambda f: f.q == 'ThreadData::continuationOfAuthentication')
    setauth = lambda fn, y, q: (is_call(y, 'Client::setAuthenticated') and const_val(strip(fn, arg(y, 0))) == 1) or (writes_to(AUTH)(fn, y) and const_val(strip(fn, asg_parts(fn, y)[1])) == 1)
    guarded(P, R, 'deferred', hroots, calls_to('Client::handleAfterAsyncQueue'), cut_cond=authd, cut_node=setauth, what='authenticated before handling kept packets', key='after')


def is_inc(fn, y):
    if y['k'] == 'un':
        return '++' in y['op']
    return y['k'] == 'asg' and y['op'] == '+='


def has_field(q, fn, x, name):
    x = strip(fn, x)
    if has_mem(fn, x, name):
        return True
    if x is not None and x['k'] == 'call':
        for t in q.P.targets(x):
            rets = [y for b, i, y in t.nodes() if y['k'] == 'ret']
            if rets and all(has_mem(t, y['e'], name) for y in rets):
                return True
    return False
