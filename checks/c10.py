"""Receiving side of QoS 1 and 2: acknowledgements, and QoS 2 identifiers from PUBLISH to PUBREL."""
from core.rules import *

QOS = 'Publish::qos'
PID = 'MqttPacket::packet_id'
FAN = ('SubscriptionStore::queuePacketAtSubscribers', 'SubscriptionStore::trySetRetainedMessages')
IN = 'Session::QoSData::incomingQoS2MessageIds'


def fld(*suffix):
    return lambda fn, x: x['k'] == 'mem' and x['n'] in suffix


def under(P, h):
    """h and the helpers it is split into"""
    return h.id


def mem_names(P, cls, name):
    for r in P.records.values() if hasattr(P, 'records') else ():
        pass


def check(P, R):
    R.rule('acked', 'a PUBLISH with QoS above 0 that is handled to its end is acknowledged')
    R.rule('ack-once', 'a PUBLISH is acknowledged at most once')
    R.rule('ack-kind', 'QoS 1 is answered with PUBACK, QoS 2 with PUBREC, QoS 0 not at all, with the packet identifier of the PUBLISH')
    R.rule('staged', 'QoS and packet identifier of the acknowledgement are those received, not those changed later')
    R.rule('dedupe', 'a QoS 2 PUBLISH whose identifier is still in use is not delivered or retained again')
    R.rule('remember', 'the identifier of a QoS 2 PUBLISH is recorded before the message is delivered or retained')
    R.rule('forget', 'the identifier is given up only by PUBREL, or when an MQTT 5 client was told about a failure')
    R.rule('release', 'PUBREL gives up the identifier and is answered by PUBCOMP')
    R.rule('store', 'the set of identifiers is changed only by recording, releasing, loading and resetting')
    R.rule('pubrec', 'PUBREC with a success code is answered by PUBREL and tracked until PUBCOMP; one with an error code ends the exchange')
    R.rule('handlers', 'PUBACK, PUBREC and PUBCOMP act on the identifier they carry')
    hp = P.one('MqttPacket::handlePublish')
    sn = P.one('AckSender::sendNow')
    lab = lambda fn, y: base_name(y['n'])
    isq = lambda x: x is not None and x['k'] == 'mem' and x['n'] in ('Publish::qos', 'PublishBase::qos')
    pid = lambda f, s: s['k'] == 'mem' and s['n'] == PID
    # ---- acknowledgement
    sends = lambda fn, y, q=None: is_call(y, 'AckSender::sendNow')
    R.saw(hp.id, sn.id)
    R.inst('acked', not normal_exit(P, hp, cut_node=sends, eh=False), 'acked|exit', 'every handled PUBLISH reaches the acknowledgement', hp.loc)
    builds = lambda fn, y: is_call(y, 'PubResponse::PubResponse')
    writes = lambda fn, y: is_call(y, 'Client::writeMqttPacket', 'Client::writeMqttPacketAndBlameThisClient')
    unsent = tmem('AckSender::sent', False)
    marks = lambda fn, y, q=None: writes_to('AckSender::sent')(fn, y) and const_val(strip(fn, asg_parts(fn, y)[1])) == 1
    guarded(P, R, 'ack-once', [sn], lambda fn, y: writes(fn, y) and fn.cls == 'AckSender', cut_cond=unsent, what='not sent yet', key='unsent', label=lab)
    for f, b, i, y in sites_of(P, lambda fn, y: writes(fn, y) and fn.cls == 'AckSender'):
        q = Query(P, cut_node=marks, eh=False)
        before = not Query(P, cut_node=marks, eh=False).reach_point(f, (f.entry, -1), (b.id, i), ROOT, None)
        R.inst('ack-once', before or not q.after(f, (b.id, i)), 'ack-once|marked|' + f.q, 'sending is recorded', line_of(f, y))
    for f, b, i, y in sites_of(P, writes_to('AckSender::sent')):
        if f.is_ctor and f.q == 'AckSender::AckSender':
            continue
        ap = asg_parts(f, y)
        R.inst('ack-once', ap is not None and const_val(strip(f, ap[1])) == 1, 'ack-once|reset|' + f.q, 'the record is never taken back', line_of(f, y))
    # exit without sending only for QoS 0 or when sent before
    q0 = compares('AckSender::qos', ('==', 0), ('<', 1), ('<=', 0))
    R.inst('acked', not normal_exit(P, sn, cut_cond=any_of(tmem('AckSender::sent', True), q0), cut_node=lambda fn, y, q: writes(fn, y), eh=False), 'acked|send', 'the acknowledgement is written unless QoS is 0 or it was sent', sn.loc)
    guarded(P, R, 'ack-kind', [sn], builds, cut_cond=compares('AckSender::qos', ('!=', 0), ('>', 0), ('>=', 1), ('==', 1), ('==', 2), ('>=', 2), ('>', 1)), what='QoS above 0', key='qos0', label=lambda fn, y: 'response')
    one = compares('AckSender::qos', ('==', 1), ('<', 2), ('<=', 1)); two = compares('AckSender::qos', ('==', 2), ('!=', 1), ('>', 1), ('>=', 2))
    nb = 0
    for f, b, i, y in sites_of(P, lambda fn, y: builds(fn, y) and fn.cls == 'AckSender'):
        nb += 1; pt = (b.id, i); a = y['a']
        R.inst('ack-kind', valued(P, f, a[1], pt, enumc(P, 'PacketType::PUBACK'), one) and valued(P, f, a[1], pt, enumc(P, 'PacketType::PUBREC'), two)
               and arg_is(P, f, a[1], pt, lambda g, s: enum_name(s) in ('PacketType::PUBACK', 'PacketType::PUBREC')), 'ack-kind|type', 'PUBACK for QoS 1, PUBREC for QoS 2', line_of(f, y))
        R.inst('ack-kind', arg_is(P, f, a[2], pt, fld('AckSender::ackCode')) and arg_is(P, f, a[3], pt, fld('AckSender::packetId')), 'ack-kind|args', 'staged code and identifier are sent', line_of(f, y))
    if not nb:
        raise AnalysisError('construction of the acknowledgement not found')
    ct = P.one('AckSender::AckSender')
    ini = {y['n']: strip(ct, y['e']) for b, i, y in ct.nodes() if y['k'] == 'minit' and y.get('n')}
    for fldn, k in (('AckSender::qos', 0), ('AckSender::packetId', 1), ('AckSender::protocolVersion', 2)):
        R.inst('staged', (ini.get(fldn) or {}).get('id') == ct.params[k]['id'], 'staged|' + fldn, '%s is the value given' % base_name(fldn), ct.loc)
    for n in ('AckSender::qos', 'AckSender::packetId'):
        for f, b, i, y in sites_of(P, writes_to(n)):
            R.inst('staged', f.is_ctor, 'staged|write|%s|%s' % (n, f.q), '%s is not changed after construction' % base_name(n), line_of(f, y))
    # ---- handlePublish: positions where QoS or identifier may already be changed
    parse = calls_to('MqttPacket::parsePublishData')
    reach = P.reachable_fns([hp], how=('call',))

    def changes(field):
        def f(fn, y):
            if fn.id not in scope or parse(fn, y):
                return False
            return any(has_any(fn, o, field) for o in mutated(P, fn, y))
        return f

    def has_any(fn, o, field):
        return any(has_mem(fn, o, n) for n in field)
    scope = {hp.id} | {f.id for f in P.fns.values() if f.id in reach and f.cls == 'MqttPacket' and f.q not in ('MqttPacket::parsePublishData',)}
    qosf = ('Publish::qos', 'PublishBase::qos'); pidf = (PID,)

    def fresh(fn, pt, field):
        """no change of the field can precede point pt in fn"""
        ch = [(b.id, i) for b, i, y in fn.nodes() if changes(field)(fn, y)]
        Q = Query(P)
        return not any(Q._plain_reach(fn, c, pt, ()) for c in ch)

    def orig(fn, x, pt, field):
        """x is the field as received: read before any change"""
        ss = Query(P).sources(fn, x, pt, ROOT)
        return bool(ss) and all(s is not None and s['k'] == 'mem' and s['n'] in field and fresh(f, p, field) for f, s, p, c in ss)
    cs = [(f, b, i, y) for f, b, i, y in sites_of(P, calls_to('AckSender::AckSender'))]
    R.inst('staged', len(cs) >= 1, 'staged|site', '%d staged acknowledgements' % len(cs), hp.loc)
    for f, b, i, y in cs:
        R.inst('staged', f.id == hp.id and orig(f, y['a'][0], (b.id, i), qosf), 'staged|qos|' + f.q, 'the received QoS is staged', line_of(f, y))
        R.inst('staged', orig(f, y['a'][1], (b.id, i), pidf), 'staged|id|' + f.q, 'the received packet identifier is staged', line_of(f, y))

    def notq2(q, fn, n, pt, ctx):
        c = const_val(n[2])
        if (n[0], c) not in (('!=', 2), ('<', 2), ('<=', 1), ('==', 0), ('==', 1)):
            return False
        ss = q.sources(fn, n[1], pt, ctx)
        return bool(ss) and all(s is not None and s['k'] == 'mem' and s['n'] in qosf and (f.id != hp.id or fresh(f, p, qosf)) for f, s, p, c2 in ss)

    def transit(q, fn, n, pt, ctx):
        x = strip(fn, n[1])
        if not truth(lambda q_, f_, z: z['k'] == 'call' and z.get('n') == 'Session::incomingQoS2MessageIdInTransit', False)(q, fn, n, pt, ctx):
            return False
        p = points(fn).get(id(x), pt)
        return orig(fn, x['a'][0], p, pidf)
    fan = calls_to(*FAN)
    guarded(P, R, 'dedupe', [hp], fan, cut_cond=any_of(notq2, transit), what='identifier not in use (or not QoS 2)', key='transit', label=lab, minimum=2, eh=False)

    def adds(fn, y, q=None):
        if not is_call(y, 'Session::addIncomingQoS2MessageId'):
            return False
        p = points(fn).get(id(y))
        return p is None or orig(fn, y['a'][0], p, pidf)
    guarded(P, R, 'remember', [hp], fan, cut_cond=notq2, cut_node=adds, what='identifier recorded (or not QoS 2)', key='added', label=lab, minimum=2, eh=False)
    # ---- giving up
    rem = calls_to('Session::removeIncomingQoS2MessageId')
    hr = P.one('MqttPacket::handlePubRel')
    for r in tops(P, fns_with(P, rem), stop=lambda f: f.id in (hp.id, hr.id)):
        R.inst('forget', r.id in (hp.id, hr.id), 'forget|' + r.q, 'identifiers released by %s' % r.q, r.loc)
    setcode = lambda fn, y, q=None: is_call(y, 'AckSender::setAckCode') and code_err(fn, y)

    def code_err(fn, y):
        p = points(fn).get(id(y))
        return arg_is(P, fn, y['a'][0], p, lambda g, s: s['k'] == 'enum' and s['v'] >= 0x80)
    v5 = compares({'MqttPacket::protocolVersion', 'Client::getProtocolVersion', 'Client::protocolVersion'}, ('>=', 'ProtocolVersion::Mqtt5'), ('==', 'ProtocolVersion::Mqtt5'), ('>', 'ProtocolVersion::Mqtt311'))
    old = compares({'MqttPacket::protocolVersion', 'Client::getProtocolVersion', 'Client::protocolVersion'}, ('<', 'ProtocolVersion::Mqtt5'), ('!=', 'ProtocolVersion::Mqtt5'), ('<=', 'ProtocolVersion::Mqtt311'))
    guarded(P, R, 'forget', [hp], rem, cut_cond=v5, what='MQTT 5', key='v5', label=lab, minimum=0, eh=False)
    qq = Query(P, target=rem, cut_node=setcode, eh=False); qq.run([hp])
    for h in qq.hits:
        f, pt2, y = h[0], h[1] if isinstance(h[1], tuple) else None, h[2]
        p = points(f).get(id(y))
        after = Query(P, cut_node=setcode, eh=False).after(f, p)
        R.inst('forget', not after, 'forget|code|' + f.q, 'an identifier is given up by a PUBLISH only with an error code', line_of(f, y))
    nset = 0
    for f, b, i, y in sites_of(P, lambda fn, y: is_call(y, 'AckSender::setAckCode') and fn.id in scope):
        if not code_err(f, y):
            ok = arg_is(P, f, y['a'][0], (b.id, i), lambda g, s: s['k'] == 'enum' and s['v'] == 0)
            R.inst('forget', ok, 'forget|success|' + f.q, 'acknowledged with a constant code', line_of(f, y)); continue
        nset += 1
        rr = lambda fn, z, q=None: rem(fn, z)
        before = not Query(P, cut_cond=any_of(old, notq2), cut_node=rr, eh=False).reach_point(f, (f.entry, -1), (b.id, i), ROOT, None)
        aft = Query(P, cut_cond=any_of(old, notq2), cut_node=rr, eh=False).after(f, (b.id, i))
        R.inst('forget', before or not aft, 'forget|error|' + f.q, 'a PUBLISH refused with an error code gives up its identifier (MQTT 5)', line_of(f, y))
    R.inst('forget', nset >= 1, 'forget|sites', '%d refusals with an error code' % nset, hp.loc)
    # ---- PUBREL
    resp = lambda t: (lambda fn, y, q=None: builds(fn, y) and arg_is(P, fn, y['a'][1], points(fn).get(id(y)), lambda g, s: enum_name(s) == t))
    R.saw(hr.id)
    R.inst('release', not normal_exit(P, hr, cut_node=lambda fn, y, q: rem(fn, y), eh=False), 'release|removed', 'PUBREL releases the identifier', hr.loc)
    R.inst('release', not normal_exit(P, hr, cut_node=resp('PacketType::PUBCOMP'), eh=False), 'release|answer', 'PUBREL is answered by PUBCOMP', hr.loc)
    R.inst('release', not normal_exit(P, hr, cut_node=lambda fn, y, q: writes(fn, y), eh=False), 'release|write', 'the answer is written', hr.loc)
    found = tcall('Session::removeIncomingQoS2MessageId', True); gone = tcall('Session::removeIncomingQoS2MessageId', False)
    handler(P, R, 'release', [hr], 'PacketType::PUBCOMP', builds, pid, found, gone)
    # ---- PUBREC, PUBACK, PUBCOMP
    hrec = P.one('MqttPacket::handlePubRec')
    err = compares('PubRecData::reasonCode', ('>=', 'ReasonCodes::UnspecifiedError'), ('>=', 0x80), ('>', 0x7f))
    okc = compares('PubRecData::reasonCode', ('<', 'ReasonCodes::UnspecifiedError'), ('<', 0x80), ('<=', 0x7f), ('==', 'ReasonCodes::Success'), ('==', 'ReasonCodes::NoMatchingSubscribers'))
    track = lambda fn, y, q=None: is_call(y, 'Session::addOutgoingQoS2MessageId')
    clear = lambda fn, y, q=None: is_call(y, 'Session::clearQosMessage')
    R.saw(hrec.id)
    for nd, k, w in ((track, 'track', 'the identifier is kept until PUBCOMP'), (resp('PacketType::PUBREL'), 'pubrel', 'PUBREL is sent'), (lambda fn, y, q: writes(fn, y), 'write', 'PUBREL is written')):
        R.inst('pubrec', not normal_exit(P, hrec, cut_cond=err, cut_node=nd, eh=False), 'pubrec|' + k, 'success: ' + w, hrec.loc)
    guarded(P, R, 'pubrec', [hrec], lambda fn, y: track(fn, y) or resp('PacketType::PUBREL')(fn, y), cut_cond=okc, what='not after an error code', key='ends', label=lab, minimum=2, eh=False)
    R.inst('pubrec', not normal_exit(P, hrec, cut_node=clear, eh=False), 'pubrec|clear', 'the stored message is dropped', hrec.loc)
    handler(P, R, 'pubrec', [hrec], 'PacketType::PUBREL', builds, pid, tcall('Session::clearQosMessage', True), tcall('Session::clearQosMessage', False))
    for f, b, i, y in sites_of(P, clear):
        if f.id in P.reachable_fns([hrec], how=('call',)) and f.cls == 'MqttPacket':
            pt = (b.id, i); a = y['a'][1]
            R.inst('pubrec', (const_val(strip(f, a)) is None) and Query(P, cut_cond=err).implies(f, a, True, pt, ROOT) and Query(P, cut_cond=okc).implies(f, a, False, pt, ROOT), 'pubrec|end', 'the exchange ends here exactly for an error code', line_of(f, y))
    pr = P.one('MqttPacket::parsePubRecData')
    w = [(f, b, i, y) for f, b, i, y in sites_of(P, writes_to('PubRecData::reasonCode'))]
    R.inst('pubrec', bool(w) and all(any(is_call(s, 'MqttPacket::readUint8') for s in [s2 for _, s2, _, _ in Query(P).sources(f, asg_parts(f, y)[1], (b.id, i), ROOT)]) for f, b, i, y in w), 'pubrec|code', 'the reason code is the received byte', pr.loc)
    more = tcall('MqttPacket::atEnd', True)
    R.inst('pubrec', not normal_exit(P, pr, cut_cond=more, cut_node=lambda fn, y, q: writes_to('PubRecData::reasonCode')(fn, y), eh=False), 'pubrec|read', 'a reason code that is present is read', pr.loc)
    ha = P.one('MqttPacket::handlePubAck'); hc = P.one('MqttPacket::handlePubComp')
    for h, call in ((ha, 'Session::clearQosMessage'), (hc, 'Session::removeOutgoingQoS2MessageId')):
        R.saw(h.id)
        R.inst('handlers', not normal_exit(P, h, cut_node=lambda fn, y, q: is_call(y, call), eh=False), 'handlers|' + h.q, '%s is called' % call, h.loc)
    scope2 = {f.id for f in P.fns.values() if f.cls == 'MqttPacket'}
    for f, b, i, y in sites_of(P, lambda fn, y: fn.id in scope2 and is_call(y, 'Session::clearQosMessage', 'Session::removeOutgoingQoS2MessageId', 'Session::addOutgoingQoS2MessageId', 'Session::removeIncomingQoS2MessageId', 'Session::addIncomingQoS2MessageId', 'Session::incomingQoS2MessageIdInTransit')):
        R.inst('handlers', arg_is(P, f, y['a'][0], (b.id, i), pid), 'handlers|id|%s|%s' % (f.q, base_name(y['n'])), '%s gets the identifier of the packet' % base_name(y['n']), line_of(f, y))
        if y['n'] == 'Session::clearQosMessage' and f.id in P.reachable_fns([ha], how=('call',)):
            R.inst('handlers', const_val(strip(f, y['a'][1])) == 1, 'handlers|ends|' + f.q, 'PUBACK ends the exchange', line_of(f, y))
    # ---- identifier sets
    for st, add, rm, test in ((IN, 'Session::addIncomingQoS2MessageId', 'Session::removeIncomingQoS2MessageId', 'Session::incomingQoS2MessageIdInTransit'),
                              ('Session::QoSData::outgoingQoS2MessageIds', 'Session::addOutgoingQoS2MessageId', 'Session::removeOutgoingQoS2MessageId', None)):
        idset(P, R, st, add, rm, test)


def handler(P, R, rule, roots, ptype, builds, pid, found, gone):
    n = 0
    sc = P.reachable_fns(roots, how=('call',))
    for f, b, i, y in sites_of(P, lambda fn, y: builds(fn, y) and fn.id in sc):
        pt = (b.id, i); a = y['a']
        if not arg_is(P, f, a[1], pt, lambda g, s: enum_name(s) == ptype):
            continue
        n += 1
        R.inst(rule, arg_is(P, f, a[3], pt, pid), '%s|id|%s' % (rule, f.q), '%s carries the identifier' % base_name(ptype), line_of(f, y))
        ok = valued(P, f, a[2], pt, enumc(P, 'ReasonCodes::Success'), found) and valued(P, f, a[2], pt, enumc(P, 'ReasonCodes::PacketIdentifierNotFound'), gone) and \
            arg_is(P, f, a[2], pt, lambda g, s: enum_name(s) in ('ReasonCodes::Success', 'ReasonCodes::PacketIdentifierNotFound'))
        R.inst(rule, ok, '%s|code|%s' % (rule, f.q), 'the code tells whether the identifier was known', line_of(f, y))
    if not n:
        R.bad(rule, '%s|none' % rule, '%s is not built' % base_name(ptype), roots[0].loc)


def idset(P, R, st, add, rm, test):
    def param(fn, x):
        s = strip(fn, x)
        return s is not None and s['k'] == 'var' and fn.params and s['id'] == fn.params[0]['id']
    onset = lambda fn, y, *m: y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in m and has_mem(fn, y['o'], st)
    fa, fr = P.one(add), P.one(rm)
    ins = lambda fn, y, q=None: onset(fn, y, 'insert', 'emplace') and param(fn, y['a'][0])
    R.saw(fa.id, fr.id)
    R.inst('store', not normal_exit(P, fa, cut_node=ins, eh=False), 'store|add|' + st, 'recording inserts the identifier', fa.loc)
    # membership facts of a set: find(p) != end, count(p), contains(p)
    def member(pol):
        def c(q, fn, n, pt, ctx):
            x = strip(fn, n[1])
            if x is not None and x['k'] == 'call' and onset(fn, x, 'contains', 'count', 'erase') and param(fn, x['a'][0]):
                v = const_val(n[2])
                return ((n[0], v) in (('!=', 0), ('>', 0), ('>=', 1), ('==', 1))) if pol else ((n[0], v) in (('==', 0), ('<', 1), ('<=', 0)))
            if n[0] != ('!=' if pol else '=='):
                return False
            sides = [n[1], n[2]]
            def isfind(z):
                return any(s is not None and s['k'] == 'call' and onset(f, s, 'find') and param(f, s['a'][0]) for f, s, _, _ in q.sources(fn, z, pt, ctx))
            def isend(z):
                return any(s is not None and s['k'] == 'call' and onset(f, s, 'end', 'cend') for f, s, _, _ in q.sources(fn, z, pt, ctx))
            def iserase(z):
                s = strip(fn, z)
                return s is not None and s['k'] == 'call' and onset(fn, s, 'erase') and param(fn, s['a'][0])
            return (isfind(sides[0]) and isend(sides[1])) or (isfind(sides[1]) and isend(sides[0])) or (iserase(sides[0]) and const_val(sides[1]) == 0)
        return c
    er = lambda fn, y, q=None: onset(fn, y, 'erase') and (param(fn, y['a'][0]) or any(s is not None and s['k'] == 'call' and (onset(f, s, 'find') and param(f, s['a'][0])) for f, s, _, _ in Query(P).sources(fn, y['a'][0], points(fn)[id(y)], ROOT))
                                                       or wrapped_find(P, fn, y, onset, param))
    R.inst('store', not normal_exit(P, fr, cut_cond=member(False), cut_node=er, eh=False), 'store|remove|' + st, 'releasing erases the identifier', fr.loc)
    if fr.ret and 'bool' in fr.ret:
        retcheck(P, R, fr, member, 'store|found|' + st, 'releasing tells whether the identifier was there', er)
    if test:
        ft = P.one(test)
        retcheck(P, R, ft, member, 'store|test|' + st, 'the test answers whether the identifier is there', None)
    allowed = {add: ('insert', 'emplace'), rm: ('erase',), 'Session::resetQoSData': None}
    for f in P.fns.values():
        for b, i, y in f.nodes():
            hit = (y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in MUTATORS | {'extract', 'merge'} and has_mem(f, y['o'], st)) or (asg_parts(f, y) and asg_parts(f, y)[0] is not None and has_mem(f, asg_parts(f, y)[0], st))
            if not hit or f.q.startswith('Session::QoSData::'):
                continue
            top = f.q
            ok = top in allowed or top.startswith('SessionsAndSubscriptionsDB::') or top == 'SessionsAndSubscriptionsDB::readDataV3V4V5V6V7'
            if not ok:
                ok = all(r.q in allowed for r in tops(P, [f], stop=lambda g: g.q in allowed))
            R.inst('store', ok, 'store|writer|%s|%s' % (st, f.q), 'identifiers changed in %s' % f.q, line_of(f, y))
    R.inst('store', not any(onset(fa, y, 'clear', 'erase') for b, i, y in fa.nodes()), 'store|addonly|' + st, 'recording removes nothing', fa.loc)


def wrapped_find(P, fn, y, onset, param):
    """erase(const_iterator(it)) with it = find(p)"""
    for z in fn.walk(y['a'][0], True):
        if z['k'] == 'var':
            for d in fn.defs().get(z['id'], []):
                if d[3] is not None:
                    s = strip(fn, d[3])
                    if s is not None and s['k'] == 'call' and onset(fn, s, 'find') and param(fn, s['a'][0]):
                        return True
    return False


def retcheck(P, R, f, member, key, what, er):
    ok = True; n = 0
    for b, i, y in f.nodes():
        if y['k'] == 'ret' and y.get('e') is not None:
            n += 1
            for pol in (True, False):
                q = Query(P, cut_cond=member(pol))
                cv = const_val(strip(f, y['e']))
                if cv is not None:
                    if bool(cv) == pol and q.reach_point(f, (f.entry, -1), (b.id, i), ROOT, None):
                        ok = False
                elif not q.implies(f, y['e'], pol, (b.id, i), ROOT):
                    ok = False
    R.saw(f.id)
    R.inst('store', ok and n > 0, key, what, f.loc)
