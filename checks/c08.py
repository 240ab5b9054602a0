"""Malformed packets: for every packet type, the facts that must hold on all paths to its acceptance."""
from core.rules import *
from core import scan
from checks.c07 import READ

MP = 'MqttPacket::'
V5 = {'ProtocolVersion::Mqtt5'}


def call_or_mem(*names):
    return lambda fn, s: s['k'] in ('call', 'mem') and s.get('n') in names


def bits(q, fn, x, pt, ctx, depth=0):
    """x is a selection of bits of one value: (source node, mask, shift) or None; !!, != 0, casts and locals are looked through"""
    x = strip(fn, x)
    if x is None or depth > 10:
        return None
    if x['k'] == 'var':
        ss = q.sources(fn, x, pt, ctx)
        if len(ss) != 1 or ss[0][1] is None or ss[0][1]['k'] == 'var':
            return None
        f, s, p, c = ss[0]
        return bits(q, f, s, p, c, depth + 1)
    if x['k'] == 'un' and x['op'] == '!':
        e = strip(fn, x['e'])
        if e is not None and e['k'] == 'un' and e['op'] == '!':
            return bits(q, fn, e['e'], pt, ctx, depth + 1)
        return None
    if x['k'] == 'bin' and x['op'] in ('!=', '>') and const_val(strip(fn, x['b'])) == 0:
        return bits(q, fn, x['a'], pt, ctx, depth + 1)
    if x['k'] == 'bin' and x['op'] == '==' and const_val(strip(fn, x['b'])) not in (None, 0):
        r = bits(q, fn, x['a'], pt, ctx, depth + 1)
        return r if r and bin(r[1]).count('1') == 1 and r[1] >> r[2] == const_val(strip(fn, x['b'])) else None
    if x['k'] == 'cond' and const_val(strip(fn, x['a'])) == 1 and const_val(strip(fn, x['b'])) == 0:
        return bits(q, fn, x['c'], pt, ctx, depth + 1)
    if x['k'] == 'bin' and x['op'] in ('>>', '/'):
        k = const_val(strip(fn, x['b']))
        r = bits(q, fn, x['a'], pt, ctx, depth + 1)
        if k is None or r is None:
            return None
        if x['op'] == '/':
            if k & (k - 1):
                return None
            k = k.bit_length() - 1
        return r[0], (r[1] >> (k + r[2])) << (k + r[2]), r[2] + k
    if x['k'] == 'bin' and x['op'] == '&':
        for a, b in ((x['a'], x['b']), (x['b'], x['a'])):
            m = const_val(strip(fn, b))
            if m is not None:
                r = bits(q, fn, a, pt, ctx, depth + 1)
                return (r[0], r[1] & (m << r[2]), r[2]) if r else None
        return None
    if x['k'] in ('call', 'mem', 'idx', 'ctor'):
        return x, 0xFF, 0
    return None


def check(P, R):
    R.rule('reserved', 'reserved bits and header flags must have their specified value')
    R.rule('protocol', 'CONNECT names a known protocol and version')
    R.rule('decode', 'flags, QoS and retain are taken from the bits the specification assigns')
    R.rule('packet-id', 'packet identifier zero is refused')
    R.rule('qos', 'QoS 3 is refused; DUP with QoS 0 is refused')
    R.rule('filters', 'SUBSCRIBE and UNSUBSCRIBE without a filter are refused')
    R.rule('connect-flags', 'contradicting CONNECT flags are refused')
    R.rule('auth-data', 'authentication data without a method is refused')
    R.rule('text', 'every text field is checked for UTF-8 on reading; publish topics and response topics also for wildcards')
    R.rule('topic', 'an empty topic or invalid filter is refused before it is used')
    R.rule('syntax', 'filters, share names: exactly the strings of the specification are valid')
    R.rule('shared', 'shared filters: name and remaining filter are validated, No Local is refused, the filter text keeps all levels')
    R.rule('payload', 'a payload announced as UTF-8 is checked')
    R.rule('size', 'packet lengths are bounded before the packet is read')
    q = Query(P)
    conn = P.one(MP + 'parseConnectData'); pub = P.one(MP + 'parsePublishData'); sub = P.one(MP + 'handleSubscribe'); unsub = P.one(MP + 'handleUnsubscribe')
    handle = P.one(MP + 'handle'); auth = P.one(MP + 'parseAuthData'); disc = P.one(MP + 'parseDisconnectData')
    readbyte = lambda s: s['k'] == 'call' and s.get('n') in (MP + 'readByte', MP + 'readUint8')
    isfirst = lambda fn, s: (s['k'] == 'mem' and s['n'] == MP + 'first_byte') or (s['k'] in ('idx', 'call') and any(is_mem(z, MP + 'bites') for z in fn.walk(s, True)) and any(const_val(z) == 0 for z in fn.walk(s, True) if z['k'] == 'int'))

    def nibble(val):
        def cond(qq, fn, n, pt, ctx):
            c = const_val(n[2])
            if n[0] != '==' or c != val:
                return False
            r = bits(qq, fn, n[1], pt, ctx)
            return bool(r) and isfirst(fn, r[0]) and r[1] == 0x0F and r[2] == 0
        return cond
    for f, v, nm in ((auth, 0, 'AUTH'), (disc, 0, 'DISCONNECT'), (sub, 2, 'SUBSCRIBE'), (unsub, 2, 'UNSUBSCRIBE'), (P.one(MP + 'handlePubRel'), 2, 'PUBREL')):
        returns_only_if(P, R, 'reserved', f, nibble(v), nm, 'the flags in the header of %s are %d' % (nm, v))
    # CONNECT flags
    flagsrc = None
    for b, i, y in conn.nodes():
        ap = asg_parts(conn, y)
        if ap and is_mem(ap[0], 'ConnectData::will_flag') and const_val(strip(conn, ap[1])) is None:
            r = bits(q, conn, ap[1], (b.id, i), ROOT)
            if r and readbyte(r[0]):
                flagsrc = r[0]
    if flagsrc is None:
        raise AnalysisError('the read of the CONNECT flags is not found')
    same = lambda s: s is flagsrc or (s.get('k') == 'call' and s.get('l') == flagsrc.get('l') and s.get('n') == flagsrc.get('n'))

    def flag_zero(mask):
        def cond(qq, fn, n, pt, ctx):
            if not (n[0] == '==' and const_val(n[2]) == 0):
                return False
            r = bits(qq, fn, n[1], pt, ctx)
            return bool(r) and same(r[0]) and (r[1] & mask) == mask
        return cond

    def flag_set(mask):
        def cond(qq, fn, n, pt, ctx):
            if not (n[0] in ('!=', '>') and const_val(n[2]) == 0):
                return False
            r = bits(qq, fn, n[1], pt, ctx)
            return bool(r) and same(r[0]) and r[1] == mask
        return cond
    returns_only_if(P, R, 'reserved', conn, flag_zero(1), 'CONNECT', 'the reserved CONNECT flag is 0')
    for fld, mask, sh in (('password_flag', 0x40, None), ('will_retain', 0x20, None), ('will_qos', 0x18, 3), ('will_flag', 4, None), ('clean_start', 2, None)):
        n = 0
        for b, i, y in conn.nodes():
            ap = asg_parts(conn, y)
            if ap and is_mem(ap[0], 'ConnectData::' + fld) and const_val(strip(conn, ap[1])) is None:
                r = bits(q, conn, ap[1], (b.id, i), ROOT); n += 1
                R.inst('decode', bool(r) and same(r[0]) and r[1] == mask and (sh is None or r[2] == sh), 'decode|CONNECT|' + fld, 'CONNECT %s is bit mask %#x' % (fld, mask), line_of(conn, y))
        if not n:
            R.bad('decode', 'decode|CONNECT|' + fld, 'CONNECT %s is not taken from the flags' % fld, conn.loc)
    ids = [0]

    def wr(name):
        def f(fn, y):
            ap = asg_parts(fn, y)
            return bool(ap) and fn.id == conn.id and is_mem(ap[0], name) and any(is_call(z, MP + 'readBytesToString') for z in fn.walk(ap[1], True))
        return f
    guarded(P, R, 'decode', [conn], wr('ConnectData::username'), cut_cond=flag_set(0x80), what='a user name is read only when its flag is set', key='username')
    pflag = any_of(flag_set(0x40), tmem('ConnectData::password_flag', True))
    guarded(P, R, 'decode', [conn], wr('ConnectData::password'), cut_cond=pflag, what='a password is read only when its flag is set', key='password')
    wflag = any_of(flag_set(4), tmem('ConnectData::will_flag', True))
    guarded(P, R, 'decode', [conn], lambda fn, y: fn.id == conn.id and bool(asg_parts(fn, y)) and is_mem(asg_parts(fn, y)[0], 'Publish::topic'), cut_cond=wflag, what='a will is read only when its flag is set', key='will')
    returns_only_if(P, R, 'decode', conn, any_of(flag_zero(0x80), ), 'username-read', 'a user name whose flag is set is read', cut_node=lambda fn, y, qq: wr('ConnectData::username')(fn, y))
    returns_only_if(P, R, 'decode', conn, any_of(flag_zero(0x40), tmem('ConnectData::password_flag', False)), 'password-read', 'a password whose flag is set is read', cut_node=lambda fn, y, qq: wr('ConnectData::password')(fn, y))
    returns_only_if(P, R, 'connect-flags', conn, any_of(wflag, flag_zero(0x20), tmem('ConnectData::will_retain', False)), 'will-retain', 'will retain without will is refused')
    returns_only_if(P, R, 'connect-flags', conn, any_of(wflag, flag_zero(0x18), compares('ConnectData::will_qos', ('==', 0), ('<=', 0), ('<', 1))), 'will-qos', 'will QoS without will is refused')
    v5 = in_set(P, MP + 'protocolVersion', 'ProtocolVersion', V5)
    v3 = in_set(P, MP + 'protocolVersion', 'ProtocolVersion', {e for e in enum_values(P, 'ProtocolVersion') if not e.endswith('Mqtt5')})
    guarded(P, R, 'connect-flags', [conn], wr('ConnectData::password'), cut_cond=any_of(v5, flag_set(0x80)), what='before MQTT 5, a password needs a user name', key='pw')
    # protocol name and level
    namefact = lambda want, lvl: None

    def streq(fn, x, text):
        return any(z['k'] == 'str' and z['v'] == text for z in fn.walk(x, True)) if x is not None else False

    def named(text):
        def cond(qq, fn, n, pt, ctx):
            return fn.id == conn.id and n[0] in ('==',) and (streq(fn, n[1], text) or streq(fn, n[2], text)) and (const_val(n[2]) is None or True) or \
                (n[0] == '!=' and const_val(n[2]) == 0 and strip(fn, n[1]) is not None and strip(fn, n[1])['k'] == 'call' and strip(fn, n[1]).get('op') == '==' and streq(fn, n[1], text))
        return cond
    returns_only_if(P, R, 'protocol', conn, any_of(named('MQTT'), named('MQIsdp')), 'name', 'only the protocol names MQTT and MQIsdp are accepted')
    level = lambda v: compares('ConnectData::protocol_level_byte', ('==', v))
    for ver, lv, nm in (('Mqtt31', 3, 'MQIsdp'), ('Mqtt311', 4, 'MQTT'), ('Mqtt5', 5, 'MQTT')):
        setter = lambda fn, y: fn.id == conn.id and bool(asg_parts(fn, y)) and is_mem(asg_parts(fn, y)[0], MP + 'protocolVersion') and enum_name(strip(fn, asg_parts(fn, y)[1])) == 'ProtocolVersion::' + ver
        guarded(P, R, 'protocol', [conn], setter, cut_cond=level(lv), what='%s is level %d' % (ver, lv), key=ver)
        guarded(P, R, 'protocol', [conn], setter, cut_cond=named(nm), what='%s is called %s' % (ver, nm), key=ver + 'name')
    # a version that is not recognised is refused before anything else happens
    hc = P.one(MP + 'handleConnect')
    known = in_set(P, MP + 'protocolVersion', 'ProtocolVersion', {e for e in enum_values(P, 'ProtocolVersion') if not e.endswith('None')})
    guarded(P, R, 'protocol', [hc], lambda fn, y: is_call(y, 'Authentication::loginCheck', 'Authentication::extendedAuth', 'Client::setClientProperties'), cut_cond=known, what='protocol version is known', key='none')
    # packet type
    guarded(P, R, 'reserved', [handle], lambda fn, y: fn.id == handle.id and y['k'] == 'call' and base_name(y.get('n', '')).startswith('handle'), cut_cond=any_of(compares(MP + 'packetType', ('!=', 'PacketType::Reserved')), lambda qq, fn, n, pt, ctx: n[0] == '==' and is_mem(n[1], MP + 'packetType') and (enum_name(n[2]) or 'PacketType::Reserved') != 'PacketType::Reserved'), what='packet type 0 is refused', key='type')
    returns_only_if(P, R, 'reserved', handle, any_of(compares(MP + 'packetType', ('!=', 'PacketType::Reserved')), lambda qq, fn, n, pt, ctx: n[0] == '==' and is_mem(n[1], MP + 'packetType') and (enum_name(n[2]) or 'PacketType::Reserved') != 'PacketType::Reserved', in_set(P, 'Client::getDisconnectStage', 'DisconnectStage', {e for e in enum_values(P, 'DisconnectStage') if not e.endswith('NotInitiated')})), 'type', 'packet type 0 is refused')
    # PUBLISH header
    for fld, mask, sh in (('Publish::retain', 1, None), ('Publish::qos', 6, 1)):
        ws = [(b, i, y) for b, i, y in pub.nodes() if asg_parts(pub, y) and is_mem(asg_parts(pub, y)[0], fld)]
        for b, i, y in ws:
            r = bits(q, pub, asg_parts(pub, y)[1], (b.id, i), ROOT)
            R.inst('decode', bool(r) and isfirst(pub, r[0]) and r[1] == mask and (sh is None or r[2] == sh), 'decode|PUBLISH|' + fld, 'PUBLISH %s is bit mask %#x of the first byte' % (fld, mask), line_of(pub, y))
        R.inst('decode', bool(ws), 'decode|PUBLISH|' + fld, 'PUBLISH %s is taken from the header' % fld, pub.loc)
    le2 = (('<=', 2), ('<', 3), ('!=', 3))
    returns_only_if(P, R, 'qos', pub, compares('Publish::qos', *le2), 'publish', 'QoS of a PUBLISH is at most 2')
    returns_only_if(P, R, 'qos', conn, compares('ConnectData::will_qos', *le2), 'will', 'QoS of a will is at most 2')

    def nodup(qq, fn, n, pt, ctx):
        if n[0] != '==' or const_val(n[2]) != 0:
            return False
        r = bits(qq, fn, n[1], pt, ctx)
        return bool(r) and isfirst(fn, r[0]) and r[1] == 8
    returns_only_if(P, R, 'qos', pub, any_of(compares('Publish::qos', ('!=', 0), ('>', 0), ('>=', 1)), nodup), 'dup', 'DUP with QoS 0 is refused')
    # packet identifiers
    nz = (('!=', 0), ('>', 0), ('>=', 1))
    pid = compares({MP + 'packet_id', MP + 'readTwoBytesToUInt16'}, *nz)
    for f in (sub, unsub, P.one(MP + 'handlePubAck'), P.one(MP + 'handlePubRec'), P.one(MP + 'handlePubRel'), P.one(MP + 'handlePubComp')):
        returns_only_if(P, R, 'packet-id', f, pid, 'zero', 'a packet identifier other than 0')
    returns_only_if(P, R, 'packet-id', pub, any_of(pid, compares('Publish::qos', ('==', 0), ('<=', 0), ('<', 1))), 'zero', 'a packet identifier other than 0 with QoS 1 and 2')
    # SUBSCRIBE options
    subscribe(P, R, q, sub, unsub, v5, v3)
    # authentication data
    empt = lambda fld, pol: truth(lambda qq, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and is_mem(strip_ptr(fn, x['o']), fld), pol)
    returns_only_if(P, R, 'auth-data', conn, any_of(empt('ConnectData::authenticationMethod', False), empt('ConnectData::authenticationData', True)), 'CONNECT', 'authentication data needs a method')
    returns_only_if(P, R, 'auth-data', auth, any_of(empt('AuthPacketData::method', False), empt('AuthPacketData::data', True)), 'AUTH', 'authentication data needs a method')
    text(P, R, q)
    # topics
    topicok = empt('Publish::topic', False)
    returns_only_if(P, R, 'topic', pub, topicok, 'publish', 'an empty publish topic is refused')
    # payload
    def utf8of(*fields):
        def m(qq, fn, x):
            if x['k'] != 'call' or base_name(x.get('n', '')) not in ('isValidUtf8Generic', 'isValidUtf8') or not x.get('a'):
                return False
            return any((z['k'] in ('call', 'mem') and z.get('n') in fields) for z in fn.walk(x['a'][0], True)) or any(s is not None and any(z['k'] in ('call', 'mem') and z.get('n') in fields for z in f.walk(s, True)) for f, s, _, _ in qq.sources(fn, x['a'][0], points(fn).get(id(x), (fn.entry, 0)), ROOT))
        return truth(m, True)
    unannounced = tmem('Publish::payloadUtf8', False)
    returns_only_if(P, R, 'payload', pub, any_of(unannounced, utf8of(MP + 'getPayloadView', MP + 'getPayloadCopy', 'Publish::payload')), 'publish', 'announced UTF-8 payload is valid')
    returns_only_if(P, R, 'payload', conn, any_of(unannounced, utf8of('Publish::payload'), flag_zero(4), tmem('ConnectData::will_flag', False)), 'will', 'announced UTF-8 will payload is valid')
    for f, flds in ((pub, {MP + 'payloadLen', MP + 'payloadStart'}), (conn, {'Publish::payload'})):
        isvalid = lambda fn, y: y['k'] == 'call' and base_name(y.get('n', '')) in ('isValidUtf8Generic', 'isValidUtf8') and fn.id == f.id
        for fld in sorted(flds):
            guarded(P, R, 'payload', [f], isvalid, cut_node=lambda fn, y, qq: bool(asg_parts(fn, y)) and is_mem(asg_parts(fn, y)[0], fld), what='the check sees the payload of this packet', key=fld)
    size(P, R, q)


def subscribe(P, R, q, sub, unsub, v5, v3):
    MPr = MP + 'readUint8'
    # the options byte: argument of the options decoder
    ctor = [f for f in P.fns.values() if f.q.startswith('SubscriptionOptionsByte::')]
    if not ctor:
        raise AnalysisError('SubscriptionOptionsByte not found')
    optsrc = lambda fn, s: s['k'] == 'call' and s.get('n') in (MP + 'readUint8', MP + 'readByte') and fn.id == sub.id

    def zero(mask):
        def cond(qq, fn, n, pt, ctx):
            if not (n[0] == '==' and const_val(n[2]) == 0):
                return False
            r = bits(qq, fn, n[1], pt, ctx)
            return bool(r) and optsrc(fn, r[0]) and (r[1] & mask) == mask
        return cond

    def upto(k):
        def cond(qq, fn, n, pt, ctx):
            c = const_val(n[2])
            if c is None or not ((n[0] == '<=' and c <= k) or (n[0] == '<' and c <= k + 1)):
                return False
            r = bits(qq, fn, n[1], pt, ctx)
            return bool(r) and optsrc(fn, r[0]) and r[1] == 0xFF and r[2] == 0
        return cond
    use = lambda fn, y: is_call(y, 'Authentication::aclCheck') and fn.id == sub.id
    rd = lambda fn, y: fn.id == sub.id and is_call(y, MP + 'readUint8', MP + 'readByte') and not in_dispatch(fn, y)
    filt = lambda fn, y: fn.id in (sub.id, unsub.id) and is_call(y, MP + 'readBytesToString') and not userprop(q, fn, y)
    for cond, key, what in ((any_of(v3, zero(0xC0), upto(63)), 'v5', 'bits 6 and 7 of the subscription options are 0'), (any_of(v5, upto(2)), 'v3', 'before MQTT 5, the requested QoS byte is 0, 1 or 2')):
        state_guard(P, R, 'reserved', [sub], [(use, {1}, key)], [(cond, 1)], resets=filt, what=what)
    # retain handling 3
    rh = P.one('SubscriptionOptionsByte::getRetainHandling')
    enumrh = enum_values(P, 'RetainHandling')
    lim = any_of(lambda qq, fn, n, pt, ctx: fn.id == rh.id and const_val(n[2]) is not None and ((n[0] == '<=' and const_val(n[2]) == 2) or (n[0] == '<' and const_val(n[2]) == 3) or (n[0] == '!=' and const_val(n[2]) == 3) or (n[0] == '==' and const_val(n[2]) in (0, 1, 2))))
    returns_only_if(P, R, 'reserved', rh, lim, 'retain-handling', 'retain handling 3 is refused')
    R.saw(rh.id)
    rets = [(b, i, y) for b, i, y in rh.nodes() if y['k'] == 'ret' and y.get('e') is not None]
    guarded(P, R, 'reserved', [sub], use, cut_node=lambda fn, y, qq: is_call(y, rh.q), what='retain handling is decoded (and 3 refused) before acceptance', key='rh')
    # decoding of the options
    for nm, mask, sh in (('getQos', 3, 0), ('getNoLocal', 4, None), ('getRetainAsPublished', 8, None)):
        f = P.one('SubscriptionOptionsByte::' + nm)
        for b, i, y in f.nodes():
            if y['k'] == 'ret' and y.get('e') is not None:
                r = bits(q, f, y['e'], (b.id, i), ROOT)
                R.inst('decode', bool(r) and r[0]['k'] == 'mem' and r[1] == mask and (sh is None or r[2] == sh), 'decode|SUBSCRIBE|' + nm, 'subscription option %s is mask %#x' % (nm, mask), line_of(f, y))
    srcs = set()
    for b, i, y in rh.nodes():
        if y['k'] == 'bin' and y['op'] in ('&', '>>'):
            r = bits(q, rh, y, (b.id, i), ROOT)
            if r:
                srcs.add((r[1], r[2]))
    R.inst('decode', (0x30, 4) in srcs or (0x30, 0) in srcs, 'decode|SUBSCRIBE|getRetainHandling', 'retain handling is bits 4 and 5', rh.loc)
    le2 = (('<=', 2), ('<', 3))
    qosvar = lambda qq, fn, n, pt, ctx: fn.id == sub.id and (n[0], const_val(n[2])) in le2 + (('!=', 3),) and strip(fn, n[1]) is not None and (strip(fn, n[1])['k'] == 'var' and any(s is not None and is_call(s, 'SubscriptionOptionsByte::getQos') for _, s, _, _ in qq.sources(fn, n[1], pt, ctx)) or is_call(strip(fn, n[1]), 'SubscriptionOptionsByte::getQos'))
    state_guard(P, R, 'qos', [sub], [(use, {1}, 'requested QoS')], [(qosvar, 1)], resets=filt, what='requested QoS is at most 2')
    # filters present
    remains = lambda qq, fn, n, pt, ctx: n[0] in ('>', '!=', '>=') and is_call(strip(fn, n[1]), MP + 'remainingAfterPos') and (const_val(n[2]) or 0) >= (1 if n[0] == '>=' else 0)
    notend = tcall(MP + 'atEnd', False)
    nonempty = truth(lambda qq, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and (strip_ptr(fn, x['o']) or {}).get('k') == 'var', False)
    counted = lambda qq, fn, n, pt, ctx: n[0] in ('!=', '>') and const_val(n[2]) == 0 and ((strip(fn, n[1]) or {}).get('k') == 'var' and counter_like(fn, strip(fn, n[1])['id']) or ((strip(fn, n[1]) or {}).get('k') == 'call' and base_name(strip(fn, n[1]).get('n', '')) == 'size' and (strip_ptr(fn, strip(fn, n[1])['o']) or {}).get('k') == 'var'))
    for f, t in ((sub, 'SubAck::SubAck'), (unsub, 'UnsubAck::UnsubAck')):
        guarded(P, R, 'filters', [f], lambda fn, y: y['k'] == 'ctor' and y.get('n') == t and fn.id == f.id, cut_cond=any_of(remains, notend, nonempty, counted), what='at least one filter', key='none')
    # filter validity
    fvar = lambda fn, x: (strip(fn, x) or {}).get('k') == 'var' and strip(fn, x)
    for f, uses in ((sub, {'Authentication::aclCheck': 2}), (unsub, {'SubscriptionStore::removeSubscription': None, 'Authentication::onUnsubscribe': None})):
        fv = set()
        for b, i, y in f.nodes():
            if filt(f, y):
                for d in f.defs():
                    for dd in f.defs()[d]:
                        if dd[3] is not None and any(z is y for z in f.walk(dd[3], True)):
                            fv.add(d)
        if not fv:
            raise AnalysisError('the filter of %s is not found' % f.q)
        tgt = lambda fn, y: is_call(y, *uses) and fn.id == f.id
        def isf(qq, fn, x, ctx):
            g, z, c = lval(qq, fn, x, ctx)
            return z is not None and z['k'] == 'var' and z['id'] in fv and g.id == f.id

        def nonem(qq, fn, n, pt, ctx):
            x = strip(fn, n[1]); c = const_val(n[2])
            if x is None or x['k'] != 'call' or x.get('o') is None or not isf(qq, fn, x['o'], ctx):
                return False
            m = base_name(x.get('n', ''))
            return (m == 'empty' and truth(lambda a, b, z: True, False)(qq, fn, n, pt, ctx)) or (m in ('size', 'length') and (n[0], c) in (('!=', 0), ('>', 0), ('>=', 1)))

        def valid(qq, fn, n, pt, ctx):
            x = strip(fn, n[1])
            return is_call(x, 'isValidSubscribePath') and isf(qq, fn, arg(x, 0), ctx) and truth(lambda a, b, z: True, True)(qq, fn, n, pt, ctx)
        # reading the next filter, or a plugin that may replace it, starts over
        rs = lambda fn, y: filt(fn, y) or (fn.id == f.id and is_call(y, 'Authentication::alterSubscribe'))
        state_guard(P, R, 'topic', [f], [(tgt, {1}, 'empty filter')], [(nonem, 1)], resets=rs, what='a filter is not empty')
        state_guard(P, R, 'topic', [f], [(tgt, {1}, 'invalid filter')], [(valid, 1)], resets=rs, what='a filter is valid')
        guarded(P, R, 'shared', [f], tgt, cut_node=lambda fn, y, qq: is_call(y, 'parseSubscriptionShare'), what='share prefix is taken off before use', key='share')
    # syntax
    def fstep(s, c):
        if s == '#' or (s == '+' and c != '/') or (c in '+#' and s not in ('^', '/')):
            return 'reject'
        return c if c in '+#/' else 'x'
    for nm, st, acc, neg, what in (('isValidSubscribePath', fstep, lambda s: True, False, 'valid topic filters'),
                                   ('isValidShareName', lambda s, c: 'reject' if c in '+#/' else 'x', lambda s: s != '^', False, 'valid share names'),
                                   ('containsDangerousCharacters', lambda s, c: 'reject' if c in '+#' else 'x', lambda s: True, True, 'names without wildcard characters')):
        f = P.one(nm)
        try:
            w, got, want, n = scan.compare(P, f, '^', st, acc, extra=(ord('+'), ord('#'), ord('/')), negate=neg)
        except scan.Unanalysable as e:
            raise AnalysisError('%s cannot be analysed as a character scanner: %s' % (nm, e))
        R.saw(f.id)
        R.inst('syntax', w is None, 'syntax|' + nm, '%s accepts exactly the %s (%d transitions compared%s)' % (nm, what, n, '' if w is None else '; differs on "%s": answers %s' % (w, got)), f.loc)
    # shared subscriptions
    ps = P.one('parseSubscriptionShare')
    outp = [p for p in ps.params]
    sn = [p['id'] for p in ps.params if p['n'].lower().startswith('share')]
    if len(sn) != 1:
        raise AnalysisError('share name parameter')
    setname = lambda fn, y: fn.id == ps.id and bool(asg_parts(fn, y)) and (asg_parts(fn, y)[0] or {}).get('k') == 'var' and asg_parts(fn, y)[0]['id'] == sn[0]
    guarded(P, R, 'shared', [ps], setname, cut_cond=tcall('isValidShareName', True), what='the share name is valid', key='name')
    sized = lambda k: (lambda qq, fn, n, pt, ctx: (strip(fn, n[1]) or {}).get('k') == 'call' and base_name(strip(fn, n[1]).get('n', '')) == 'size' and const_val(n[2]) is not None and ((n[0] == '>' and const_val(n[2]) >= k - 1) or (n[0] == '>=' and const_val(n[2]) >= k)))
    notempty0 = truth(lambda qq, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and (strip_ptr(fn, x['o']) or {}).get('k') in ('call', 'idx'), False)
    guarded(P, R, 'shared', [ps], setname, cut_cond=any_of(sized(2), notempty0), what='a filter follows the share name', key='filter')
    twoshare = lambda fn, n: None
    # no separator decision based on the text collected so far (loses empty levels)
    tp = [p['id'] for p in ps.params if 'basic_string<char>' in p['t'] and p['id'] != sn[0] and 'vector' not in p['t']]
    n = 0
    for b, i, y in ps.nodes():
        if y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in ('append', 'push_back', 'operator+=') and (strip(ps, y['o']) or {}).get('id') in tp and any(z['k'] in ('str', 'char') and z['v'] in ('/', 47) for z in ps.walk(y, True)):
            n += 1
            # conditions that decide over this separator: controlled by text.empty()?
            bad = False
            for pb in ps.blocks.values():
                t = pb.term
                if t and t.get('c') is not None and len(pb.succ) == 2 and any(z['k'] == 'call' and base_name(z.get('n', '')) in ('empty', 'size', 'length') and (strip(ps, z['o']) or {}).get('id') in tp for z in ps.walk(t['c'], True)):
                    if controls(ps, pb, b.id):
                        bad = True
            R.inst('shared', not bad, 'shared|join', 'the filter text is rebuilt with a separator between all levels, also after an empty first one', line_of(ps, y))
    nl = any_of(truth(lambda qq, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and 'hare' in show(fn, x['o']), True), truth(lambda qq, fn, x: (x['k'] == 'var' and any(s is not None and any(is_call(z, 'SubscriptionOptionsByte::getNoLocal') for z in f.walk(s, True)) for f, s, _, _ in qq.sources(fn, x, points(fn).get(id(x), (fn.exit, 0)), ROOT))) or is_call(x, 'SubscriptionOptionsByte::getNoLocal'), False))
    nlv = [v['id'] for b, i, y in sub.nodes() if y['k'] == 'decl' for v in y['d'] if v.get('e') is not None and any(is_call(z, 'SubscriptionOptionsByte::getNoLocal') for z in sub.walk(v['e'], True))]
    nl2 = truth(lambda qq, fn, x: x['k'] == 'var' and x['id'] in nlv, False)
    state_guard(P, R, 'shared', [sub], [(use, {1}, 'No Local')], [(any_of(nl, nl2), 1)], resets=filt, what='No Local on a shared subscription is refused')


def controls(fn, pb, bid):
    """is block bid reachable from exactly one of the two branches of pb without passing pb again?"""
    def reach(t):
        seen = {pb.id}; st = [t]
        while st:
            x = st.pop()
            if x is None or x in seen:
                continue
            seen.add(x)
            st += [s for s, k in fn.blocks[x].succ if k == 'n']
        return bid in seen
    return reach(pb.succ[0][0]) != reach(pb.succ[1][0])


def counter_like(fn, vid):
    ds = fn.defs().get(vid, [])
    return bool(ds) and all((d[2] == 'init' and const_val(strip(fn, d[3])) == 0) or d[2] == 'upd' for d in ds)


def in_dispatch(fn, y):
    return False


def userprop(q, fn, y):
    """the string read goes into a user property / reason string, i.e. it is not used as a filter: its variable does
    not reach splitTopic or isValidSubscribePath"""
    for d, l in fn.defs().items():
        for dd in l:
            if dd[3] is not None and any(z is y for z in fn.walk(dd[3], True)):
                for b, i, z in fn.nodes():
                    if is_call(z, 'splitTopic', 'isValidSubscribePath') and any((strip(fn, a) or {}).get('id') == d for a in z.get('a', [])):
                        return False
                # also through a helper that receives it
                return True
    return True


BINARY = {'ConnectData::password', 'ConnectData::authenticationData', 'ConnAckData::authData', 'AuthPacketData::data', 'Publish::correlationData'}
TOPICS = {'Publish::topic', 'Publish::responseTopic'}


def text(P, R, q):
    rs = P.one(MP + 'readBytesToString')
    names = [p['n'] for p in rs.params]
    bools = [k for k, p in enumerate(rs.params) if p['t'].replace('const ', '') == 'bool']
    if len(bools) != 2:
        raise AnalysisError('parameters of readBytesToString')
    iv, ip = bools
    for f in P.fns.values():
        for b, i, y in f.nodes():
            if not is_call(y, rs.q):
                continue
            dst = destination(f, y)
            v = const_val(strip(f, arg(y, iv))); p = const_val(strip(f, arg(y, ip)))
            nm = (dst or show(f, y))
            ok = v == 1 or dst in BINARY
            R.inst('text', ok, 'text|%s|%s' % (f.q, dst or 'local'), 'UTF-8 is checked when %s reads %s' % (f.q, dst or 'a string'), line_of(f, y))
            if dst in TOPICS:
                R.inst('text', p == 1, 'text|%s|%s|wildcards' % (f.q, dst), 'wildcards are refused when %s reads %s' % (f.q, dst), line_of(f, y))
    # the reader itself
    pv = rs.params[iv]['id']; pp = rs.params[ip]['id']
    off = truth(lambda qq, fn, x: x['k'] == 'var' and x['id'] == pv, False)

    def valid(qq, fn, x):
        if x['k'] != 'call' or base_name(x.get('n', '')) not in ('isValidUtf8', 'isValidUtf8Generic') or len(x.get('a', [])) < 2:
            return False
        a1 = strip(fn, x['a'][1])
        return a1 is not None and a1['k'] == 'var' and a1['id'] == pp and retvar(fn, x['a'][0])
    returns_only_if(P, R, 'text', rs, any_of(off, truth(valid, True)), 'reader', 'text is returned only when valid, with the wildcard check as requested')
    pl = [p['id'] for p in rs.params if 'int' in p['t'] or 'short' in p['t']]

    def lenok(qq, fn, n, pt, ctx):
        if n[0] not in ('<=', '<'):
            return False
        a, b = strip(fn, n[1]), strip(fn, n[2])
        return b is not None and b['k'] == 'var' and b['id'] in pl and any(s is not None and is_call(s, MP + 'readTwoBytesToUInt16') for _, s, _, _ in qq.sources(fn, a, pt, ctx))

    def lenok2(qq, fn, n, pt, ctx):
        return n[0] in ('>=', '>') and lenok(qq, fn, ('<=', n[2], n[1]), pt, ctx)
    returns_only_if(P, R, 'text', rs, any_of(lenok, lenok2), 'length', 'strings longer than allowed are refused')


def retvar(fn, x):
    x = strip(fn, x)
    if x is None or x['k'] != 'var':
        return False
    return any(y['k'] == 'ret' and y.get('e') is not None and (strip(fn, y['e']) or {}).get('id') == x['id'] for b, i, y in fn.nodes())


def destination(fn, call):
    """the field a read string is stored in"""
    for b, i, y in fn.nodes():
        ap = asg_parts(fn, y)
        if ap and ap[0] is not None and ap[1] is not None and strip(fn, ap[1]) is call:
            d = strip_ptr(fn, ap[0])
            if d is not None and d['k'] == 'mem':
                return d['n']
    # through a local that is only moved into a field
    for b, i, y in fn.nodes():
        if y['k'] == 'decl':
            for v in y['d']:
                if v.get('e') is not None and strip(fn, v['e']) is call:
                    for b2, i2, z in fn.nodes():
                        ap = asg_parts(fn, z)
                        if ap and ap[1] is not None and (strip(fn, ap[1]) or {}).get('id') == v['id'] and (strip_ptr(fn, ap[0]) or {}).get('k') == 'mem':
                            return strip_ptr(fn, ap[0])['n']
    return None


def loop_limit(P, fn, readnode):
    """bound on the number of iterations that pass the reading node and complete, from facts every iteration passes"""
    q = Query(P)
    bid, idx = points(fn)[id(readnode)]
    cyc = cycle_blocks(fn, bid)
    best = None
    for b in [fn.blocks[c] for c in cyc]:
        if not b.term or len(b.succ) != 2:
            continue
        for si, (t, k) in enumerate(b.succ):
            if t is None or k != 'n' or t not in cyc:
                continue
            for x, pol in edge_facts(fn, b, si):
                at = (b.id, len(b.elems))
                sx = strip(fn, x)
                while sx is not None and sx['k'] == 'var' and [d[2] for d in fn.defs().get(sx['id'], [])] == ['init'] and fn.defs()[sx['id']][0][0] in cyc:
                    d = fn.defs()[sx['id']][0]
                    at = d[:2]; x = d[3]; sx = strip(fn, x)
                n = norm(fn, x, pol)
                if not n or n[0] not in ('<', '<=', '!='):
                    continue
                v = strip(fn, n[1]); B = const_val(n[2])
                if v is None or v['k'] != 'var' or B is None:
                    continue
                # every cycle through the read passes this edge?
                other = [s for j, (s, kk) in enumerate(b.succ) if j != si]
                def skips():
                    seen = set(); st = [(bid, True)]
                    while st:
                        u, first = st.pop()
                        for j, (s, kk) in enumerate(fn.blocks[u].succ):
                            if s is None or kk != 'n' or s not in cyc or (u == b.id and j == si):
                                continue
                            if s == bid:
                                return True
                            if s not in seen:
                                seen.add(s); st.append((s, False))
                    return False
                if skips():
                    continue
                ds = fn.defs().get(v['id'], [])
                inits = [const_val(strip(fn, d[3])) for d in ds if d[2] == 'init']
                ups = [(y, fn_pt) for bb, ii, y in fn.nodes() for fn_pt in [(bb.id, ii)] if (y['k'] == 'asg' and (strip(fn, y['a']) or {}).get('id') == v['id']) or (y['k'] == 'un' and y['op'] in ('++', 'post++') and (strip(fn, y['e']) or {}).get('id') == v['id'])]
                if len(inits) != 1 or inits[0] is None or len(ups) != 1:
                    continue
                y, up = ups[0]
                if y['k'] == 'un':
                    stepf = lambda z: z + 1
                elif y['op'] == '*=' and const_val(strip(fn, y['b'])):
                    kk = const_val(strip(fn, y['b'])); stepf = lambda z: z * kk
                elif y['op'] == '+=' and const_val(strip(fn, y['b'])):
                    kk = const_val(strip(fn, y['b'])); stepf = lambda z: z + kk
                elif y['op'] == '<<=' and const_val(strip(fn, y['b'])):
                    kk = const_val(strip(fn, y['b'])); stepf = lambda z: z << kk
                else:
                    continue
                # is the update passed before the test within an iteration?
                before = not q.reach_point(fn, (fn.entry, -1), at, ROOT, {up})
                val = inits[0]; it = 0
                ok = {'<': lambda z: z < B, '<=': lambda z: z <= B, '!=': lambda z: z != B}[n[0]]
                for j in range(1, 64):
                    if before:
                        val = stepf(val)
                    if not ok(val):
                        break
                    it = j
                    if not before:
                        val = stepf(val)
                if best is None or it < best:
                    best = it
    return best


def size(P, R, q):
    bf = P.one(MP + 'bufferToMqttPackets')
    take = lambda fn, y: fn.id == bf.id and is_call(y, 'CirBuf::readToVector', 'CirBuf::read')
    lens = set()
    for b, i, y in bf.nodes():
        if take(bf, y):
            s = strip(bf, arg(y, 0))
            if s is not None and s['k'] == 'var':
                lens.add(s['id'])
    if not lens:
        raise AnalysisError('packet length in bufferToMqttPackets')
    islen = lambda fn, x: (strip(fn, x) or {}).get('k') == 'var' and strip(fn, x)['id'] in lens

    def bounded(by):
        def cond(qq, fn, n, pt, ctx):
            a, o, b = n[1], n[0], n[2]
            if not islen(fn, a) and islen(fn, b):
                a, b, o = b, a, SWAP.get(o, o)
            if not islen(fn, a) or o not in ('<=', '<'):
                return False
            ss = qq.sources(fn, b, pt, ctx)
            if not ss or any(s is None for _, s, _, _ in ss):
                return False
            if all(by(f, s) for f, s, _, _ in ss):
                return True
            # a minimum computed with branches: every other definition is known to be no larger
            bv = strip(fn, b)
            if bv is None or bv['k'] != 'var' or not any(by(f, s) for f, s, _, _ in ss):
                return False
            rd = [d for d in qq.reaching_defs(fn, bv['id'], pt) or [] if d[3] is not None]
            for d in rd:
                v = strip(fn, d[3])
                if v is None:
                    return False
                if by(fn, v):
                    continue
                like = lambda g, z: (z['k'] == 'var' and z['id'] == bv['id']) or show(g, z) == show(fn, v) or (const_val(z) is not None and const_val(z) == const_val(v))

                def le(q2, g, m, p2, c2):
                    l, r = strip(g, m[1]), strip(g, m[2])
                    if l is None or r is None:
                        return False
                    by2 = lambda z: by(g, z) or (z['k'] == 'var' and all(t is not None and by(f2, t) for f2, t, _, _ in q2.sources(g, z, p2, c2)))
                    return (m[0] in ('<=', '<') and like(g, l) and by2(r)) or (m[0] in ('>=', '>') and like(g, r) and by2(l))
                q2 = Query(P, cut_cond=le)
                others = {(e[0], e[1]) for e in rd if e is not d}
                if q2.reach_point(fn, (fn.entry, -1), (d[0], d[1]), ROOT, None) and q2.reach_point(fn, (d[0], d[1]), pt, ROOT, others):
                    return False
            return True
        return cond

    def ismin(part):
        def f(fn, s):
            if part(fn, s):
                return True
            return s['k'] == 'call' and s.get('n') == 'std::min' and any(part(fn, strip(fn, a)) for a in s.get('a', []) if strip(fn, a) is not None)
        return f
    mx = lambda fn, s: is_call(s, 'Client::getMaxIncomingPacketSize')
    ab = lambda fn, s: const_val(s) is not None and const_val(s) <= 268435461 or (s['k'] == 'gvar' and 'MAX_PACKET' in s['n'].upper())
    us = lambda fn, s: is_call(s, 'CirBuf::usedBytes')
    for c, key, what in ((bounded(ismin(mx)), 'limit', 'the packet is within the limit announced to the client'), (bounded(ismin(ab)), 'absolute', 'the packet is within the absolute limit of the protocol'), (bounded(us), 'complete', 'the packet has arrived completely')):
        state_guard(P, R, 'size', [bf], [(take, {1}, key)], [(c, 1)], resets=lambda fn, y: fn.id == bf.id and (y['k'] == 'decl' and any(v['id'] in lens for v in y['d'])), what=what)
    unauth = lambda qq, fn, n, pt, ctx: islen(fn, n[1]) and const_val(n[2]) is not None and ((n[0] == '<' and const_val(n[2]) <= 1024 * 1024) or (n[0] == '<=' and const_val(n[2]) < 1024 * 1024))
    state_guard(P, R, 'size', [bf], [(take, {1}, 'unauthenticated')], [(any_of(unauth, tcall('Client::getAuthenticated', True), truth(lambda qq, fn, x: x['k'] == 'var' and 'shared_ptr<Client>' in var_type(fn, x['id']), False)), 1)], resets=lambda fn, y: fn.id == bf.id and (y['k'] == 'decl' and any(v['id'] in lens for v in y['d'])), what='before authentication packets are smaller than 1 MB')
    for f, nm in ((bf, 'CirBuf::peakAhead'), (P.one(MP + 'decodeVariableByteIntAtPos'), None)):
        rd = [y for b, i, y in f.nodes() if (nm and is_call(y, nm)) or (nm is None and (y['k'] == 'idx' or (y['k'] == 'call' and base_name(y.get('n', '')) in ('operator[]', 'at'))) and any(is_mem(z, MP + 'bites') for z in f.walk(y, True)))]
        if not rd:
            raise AnalysisError('length bytes in %s' % f.q)
        for y in rd:
            if not cycle_blocks(f, points(f)[id(y)][0]):
                continue
            k = loop_limit(P, f, y)
            R.inst('size', k is not None and k <= 4, 'size|%s|bytes' % f.q, 'a length has at most 4 bytes (%s found)' % k, line_of(f, y))
    R.saw(bf.id)
