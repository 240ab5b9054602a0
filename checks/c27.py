"""What is sent: packets have the fields, lengths and property encodings of the specification, and a PUBLISH carries the message it is for."""
from core.rules import *
from core.paths import Paths, State, clean
from collections import Counter
from checks.c11 import must, never, on_mem

W = {'writeByte': 'byte', 'writeUint16': 'u16', 'writeString': 'str', 'writeProperties': 'props', 'write': 'raw', 'writeVariableByteInt': 'varint', 'writeBytes': 'raw'}
V5 = 'ProtocolVersion::Mqtt5'


def sizes(g):
    return (g.ret or '').replace('const ', '') in ('unsigned long', 'unsigned char', 'unsigned int', 'unsigned short', 'int', 'long') and 'Length' in g.q and not g.q.startswith(B)


def check(P, R):
    R.rule('layout', 'each packet is written with the fields of its type and version, in their order')
    R.rule('length', 'exactly as many bytes are written as were reserved')
    R.rule('props', 'each property of a message is written when it has it, and none else')
    R.rule('encode', 'each property is written with its own identifier and type, in network order')
    R.rule('reuse', 'bytes are reused only where they are what would be written')
    R.rule('alias', 'a topic alias stands for the topic the receiver was sent with it')
    R.rule('flags', 'packet identifier, QoS, retain and dup are those of the receiver')
    R.rule('size', 'nothing larger than the other side accepts is written')
    encoders(P, R)
    builder(P, R)
    writers(P, R)
    reuse(P, R)
    sending(P, R)
    limits(P, R)
    incoming(P, R)
    expiry(P, R)


# ---------------------------------------------------------------- encoders
def packet_event(w, st, f, y):
    if y['k'] == 'minit' and (y.get('n') or '') == 'MqttPacket::bites' and y.get('e') is not None:
        e = strip(f, y['e'])
        a = [z for z in e.get('a', []) if z is not None] if e is not None and e['k'] in ('ctor', 'tmp') else []
        if e is not None and e['k'] == 'init':
            a = e.get('a', [])
        if a:
            return ('reserve', None, w.lin(f, a[0], st))
        return None
    if y['k'] != 'call':
        a = asg_parts(f, y)
        if a is not None and a[2] == '=' and is_mem(a[0], 'MqttPacket::packet_id_pos', 'MqttPacket::payloadStart', 'MqttPacket::payloadLen'):
            v = strip(f, a[1])
            return ('mark', base_name(a[0]['n']), '@' if is_mem(v, 'MqttPacket::pos') else w.key(f, a[1], st))
        return None
    n = y.get('n') or ''
    if n.startswith('MqttPacket::') and base_name(n) in W and y.get('a'):
        x = y['a'][0]
        t = W[base_name(n)]
        k = w.key(f, x, st)
        z = strip(f, x)
        ty = var_type(f, z['id']) if z is not None and z['k'] == 'var' else (z or {}).get('t', '')
        if t == 'byte':
            c = Counter({1: 1})
        elif t == 'u16':
            c = Counter({1: 2})
        elif t == 'str':
            c = w.lin_len(k); c[1] += 2
        elif t == 'props':
            e = st.facts.get(k)
            if k == '{}' or e is False:
                c = Counter({1: 1})
            else:
                c = Counter({'prop(%s)' % k if e else 'props(%s)' % k: 1})
        elif t == 'raw' and 'std::array' in (ty or ''):
            m = re.search(r'std::array<[^,]*, (\d+)', ty)
            c = Counter({1: int(m.group(1))}) if m else Counter({'?': 1})
        else:
            c = w.lin_len(k)
        return (t, k, c)
    if y.get('o') is not None and is_mem(strip(f, y['o']), 'MqttPacket::bites') and base_name(n) == 'resize':
        return ('reserve', None, w.lin(f, y['a'][0], st))
    if n == 'MqttPacket::calculateRemainingLength':
        return ('total', None, Counter())
    if base_name(n) in ('push_back', 'emplace_back') and y.get('o') is not None:
        o = w.key(f, y['o'], st)
        if o.startswith('v:'):
            return ('push', o, Counter({1: 1}))
    return None


def packet_event0(w, st, f, y):
    if y['k'] == 'call' and (y.get('n') or '').startswith('MqttPacket::') and base_name(y['n']) in W and y.get('a'):
        return (W[base_name(y['n'])], w.key(f, y['a'][0], st), None)
    return None


class PacketPaths(Paths):
    def lin_len(self, k):
        if k.startswith('"') and k.endswith('"'):
            return Counter({1: len(k) - 2})
        return Counter({'len(%s)' % k: 1})

    def key(self, f, x, st):
        x = strip(f, x)
        if x is not None and x['k'] == 'call' and base_name(x.get('n') or '') == 'getLength' and x.get('o') is not None and id(x) not in st.val:
            return 'prop(%s)' % self.key(f, x['o'], st)
        return Paths.key(self, f, x, st)


def total(st, events):
    """sum of the terms, with the containers of loops counted"""
    c = Counter()
    for e in events:
        for t, v in e[2].items():
            c[t] += v
    pushed = Counter()
    for e in st.ev:
        if e[0] == 'push':
            pushed[e[1]] += 1
    out = Counter()
    for t, v in c.items():
        if isinstance(t, str) and t.startswith('len(') and t.endswith(')'):
            k = t[4:-1]
            if k in st.ones:
                out[1] += v * st.ones[k]; continue
            if k in pushed:
                out[1] += v * pushed[k]; continue
            if k == 'this.publishData.topic' or k == '{}':
                continue
            if k.startswith('v:') and st.ones:
                continue
        out[t] += v
    return clean(out)


def ored(t, facts, sh=0):
    """the bits a text is put together from: (what, shift), constants as numbers"""
    t = t.strip()
    n = cut_any(t, ('|', '+'))
    if n:
        out = []
        for z in n[1:]:
            out += ored(z, facts, sh)
        return out
    n = cut_any(t, ('<<', '*'))
    if n and n[2].isdigit():
        return ored(n[1], facts, sh + int(n[2]) if n[0] == '<<' else sh)
    n = cut_any(t, ('&',))
    if n and n[2] in ('1', '255'):
        return ored(n[1], facts, sh)
    n = cut_any(t, ('!=', '>'))
    if n and n[2] == '0':
        return ored(n[1], facts, sh)
    m = re.fullmatch(r'\((.+)\?1:0\)', t)
    if m:
        return ored(m.group(1), facts, sh)
    if t.lstrip('-').isdigit():
        return [int(t) << sh] if int(t) else []
    return [(t, sh)]


def cut_any(t, ops):
    if not t.startswith('(') or not t.endswith(')'):
        return None
    d, i, n = 0, 1, len(t) - 1
    while i < n:
        c = t[i]
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
            if d < 0:
                return None
        elif d == 0:
            for o in ('&&', '||', '<<', '>>', '!=', '==', '<=', '>=', '->', '|', '&', '+', '*', '<', '>'):
                if t.startswith(o, i):
                    if o in ops:
                        r = (o, t[1:i], t[i + len(o):n])
                        return r
                    i += len(o) - 1
                    break
        i += 1
    return None


def bits(t, want, facts):
    """the text is exactly these bits: want = {(what, shift) or number: boolean or None when it holds a number}"""
    got, const = set(), 0
    for z in ored(t, facts):
        if isinstance(z, int):
            const |= z
        else:
            got.add(z)
    for w in want:
        if isinstance(w, int):
            if const & w != w:
                return False
            const &= ~w; continue
        if w in got:
            got.discard(w); continue
        v = facts.get(w[0])
        if want[w] and v is not None:
            b = 1 << w[1]
            if bool(const & b) != v:
                return False
            const &= ~b; continue
        if not want[w] and v is False:
            continue
        return False
    return not got and not const


def encoders(P, R):
    v5n = enum_values(P, 'ProtocolVersion')[V5]

    def v5(st, pv):
        e = st.facts.get('%s<%d' % (pv, v5n))
        return None if e is None else not e

    def has(st, k):
        return st.facts.get(k)

    T = {}

    def connack(st):
        yield 'byte', r'\(p0\.session_present&1\)|p0\.session_present'; yield 'byte', r'p0\.return_code'
        if v5(st, 'p0.protocol_version'):
            yield 'props', r'p0\.propertyBuilder'
        yield 'total', ''

    def suback(st):
        yield 'u16', r'p0\.packet_id'
        if v5(st, 'p0.protocol_version'):
            yield 'props', r'p0\.propertyBuilder'
        yield 'raw', r'.*'; yield 'total', ''

    def unsuback(st):
        yield 'u16', r'p0\.packet_id'
        if v5(st, 'p0.protocol_version'):
            yield 'props', r'p0\.propertyBuilder'
            if st.ones.get('p0.reasonCodes'):
                yield 'byte', r'elem@p0\.reasonCodes'
        yield 'total', ''

    def pubresp(st):
        yield 'byte', r'.*'; yield 'byte', r'\d+|getRemainingLength\(p0\)'; yield 'u16', r'p0\.packet_id'
        if has(st, 'needsReasonCode(p0)') or any(k.startswith('p0.reason_code') and v is not (k == 'p0.reason_code' or '>' in k) for k, v in ()):
            yield 'byte', r'p0\.reason_code'

    def disconnect(st):
        if v5(st, 'p0.protocolVersion'):
            yield 'byte', r'p0\.reasonCode'; yield 'props', r'p0\.propertyBuilder'
        yield 'total', ''

    def auth(st):
        yield 'byte', r'p0\.reasonCode'; yield 'props', r'p0\.propertyBuilder'; yield 'total', ''

    def publish(st):
        skip = has(st, 'p4')
        yield 'str', r'this\.publishData\.topic' if skip else r'value_or\(p6,p1\.topic\)'
        if has(st, 'p2'):
            yield 'mark', 'packet_id_pos'; yield 'raw', '.*'
        if v5(st, 'p0'):
            yield 'props', r'getPropertyBuilder\(this\.publishData\)'
        yield 'mark', 'payloadStart'; yield 'raw', r'p1\.payload'; yield 'total', ''

    def connect(st):
        five = v5(st, 'p0.protocolVersion')
        yield 'str', r'getMagicString\(p0\)'; yield 'byte', r'.*'; yield 'byte', r'.*'; yield 'u16', r'p0\.keepalive'
        if five:
            yield 'props', r'v:.*'
        yield 'str', r'p0\.clientid'
        if has(st, 'p0.will'):
            if five:
                yield 'props', r'getPropertyBuilder\(p0\.will\)'
            yield 'str', r'p0\.will\.topic'; yield 'str', r'p0\.will\.payload'
        if has(st, 'p0.username'):
            yield 'str', r'p0\.username'
        if has(st, 'p0.password'):
            yield 'str', r'p0\.password'
        yield 'total', ''

    def subscribe(st):
        yield 'u16', 'p1'
        if v5(st, 'p0'):
            yield 'props', r'v:.*|\{\}'
        if st.ones.get('p3'):
            yield 'str', r'elem@p3\.topic'; yield 'byte', r'.*'
        yield 'total', ''
    T = {('const ConnAck &',): connack, ('const SubAck &',): suback, ('const UnsubAck &',): unsuback, ('const PubResponse &',): pubresp, ('const Disconnect &',): disconnect,
         ('const Auth &',): auth, ('const Connect &',): connect}
    seen = 0
    for f in P.fn('MqttPacket::MqttPacket'):
        if f.nocfg or not f.blocks:
            continue
        ts = tuple(p.get('t') for p in f.params)
        tmpl = T.get(ts) or (publish if len(ts) == 7 and ts[1] == 'const Publish &' else subscribe if len(ts) == 4 and 'Subscribe' in ts[3] else None)
        if tmpl is None:
            continue
        seen += 1
        R.saw(f.id)
        name = (ts[1] if len(ts) == 7 else ts[3] if len(ts) == 4 else ts[0]).replace('const ', '').replace(' &', '').replace('std::vector<', '').rstrip('>')
        w = PacketPaths(P, packet_event, enter=sizes, drop=lambda k: re.search(r'sessionExpiryInterval|maxIncomingTopicAlias|authentication(Method|Data)|group_id|clientid_prefix|bridgeProtocolBit', k) is not None)
        done = w.run(f)
        bad_len, bad_lay = None, None
        for st in done:
            ev = [e for e in st.ev if e[0] != 'push']
            res = [e for e in ev if e[0] == 'reserve']
            wr = [e for e in ev if e[0] in ('byte', 'u16', 'str', 'props', 'raw', 'varint')]
            a, b = total(st, res[-1:]), total(st, wr)
            if a != b and bad_len is None:
                bad_len = ('%s' % f.loc, 'reserved %s, written %s' % (w.text(a), w.text(b)), [e[3] for e in wr])
            seq = [e for e in ev if e[0] in ('byte', 'u16', 'str', 'props', 'raw', 'varint', 'total') or (e[0] == 'mark' and e[1] in ('packet_id_pos', 'payloadStart'))]
            if 'PubResponse' in name:
                seq = [e for e in seq if e[0] != 'mark']
            want = list(tmpl(st))
            ok = len(seq) == len(want) and all(e[0] == t and (t in ('total',) or re.fullmatch(k, e[1] or '') is not None) and (t != 'mark' or e[2] == '@') for e, (t, k) in zip(seq, want))
            if not ok and bad_lay is None:
                bad_lay = (f.loc, 'written: %s; expected: %s' % (' '.join('%s(%s)' % (e[0], e[1]) for e in seq), ' '.join('%s(%s)' % x for x in want)), [e[3] for e in seq])
        GEN = r'generate_first_byte\(.*\)'
        if tmpl is publish:
            ok = bool(done) and all(any(re.fullmatch(GEN, z[0]) and bits(st.mem.get('this.first_byte', ('',))[0], {z: False, ('p2', 1): False, ('p1.retain', 0): True}, st.facts) for z in ored(st.mem.get('this.first_byte', ('',))[0], st.facts) if isinstance(z, tuple)) for st in done)
            R.inst('flags', ok, 'flags|made', 'the header has the QoS for the receiver and the retain flag of the message', f.loc)
        else:
            ty = {z for st in done for z in [st.mem.get('this.first_byte', ('',))[0]]}
            R.inst('flags', len(ty) == 1 and re.fullmatch(GEN, next(iter(ty))) is not None, 'flags|first|' + name, 'the header is that of its type', f.loc)
        if tmpl is connect:
            fl, pv = None, None
            for st in done:
                by = [e for e in st.ev if e[0] == 'byte']
                if len(by) != 2:
                    fl = pv = st; continue
                w_ = {('p0.clean_start', 1): True, ('p0.username', 7): True, ('p0.password', 6): True}
                if st.facts.get('p0.will'):
                    w_.update({4: True, ('p0.will.qos', 3): False, ('p0.will.retain', 5): True})
                if not bits(by[1][1], w_, st.facts):
                    fl = st
                v = by[0][1]
                if v != 'p0.protocolVersion' and not (bits(v, {('p0.protocolVersion', 0): False, 128: True}, {}) and (v5(st, 'p0.protocolVersion') is False)):
                    pv = st
            R.inst('flags', fl is None and bool(done), 'flags|connect', 'the connect flags say what follows', f.loc, ['%s=%s' % z for z in fl.facts.items()] if fl else None)
            R.inst('flags', pv is None and bool(done), 'flags|version', 'the version is that of the connection, with the bridge bit before MQTT 5 only', f.loc)
        if tmpl is subscribe:
            E = 'elem@p3.'
            full = r'\{%sqos,%snoLocal,%sretainAsPublished,%sretainHandling\}\.b' % (E, E, E, E)
            ok = bool(done) and all(re.fullmatch(full if v5(st, 'p0') else E + 'qos', e[1]) for st in done for e in st.ev if e[0] == 'byte')
            R.inst('flags', ok, 'flags|subscribe', 'the options of each subscription are those asked for', f.loc)
            g = next((g for g in P.fn('SubscriptionOptionsByte::SubscriptionOptionsByte') if len(g.params) == 4), None)
            ok = g is not None and all(bits(st.mem.get('this.b', ('',))[0], {('p0', 0): False, ('p1', 2): True, ('p2', 3): True, ('p3', 4): False}, st.facts) for st in Paths(P, lambda *a: None).run(g))
            R.inst('flags', ok, 'flags|options', 'in the bits of the specification', g.loc if g else f.loc)
        R.inst('length', bad_len is None and bool(done), 'length|' + name, 'a %s packet is as long as announced%s' % (name, ' (%s)' % bad_len[1] if bad_len else ' (%d paths)' % len(done)), f.loc, bad_len[2] if bad_len else None)
        R.inst('layout', bad_lay is None and bool(done), 'layout|' + name, 'the fields of a %s packet%s' % (name, ': ' + bad_lay[1] if bad_lay else ''), f.loc, bad_lay[2] if bad_lay else None)
    g = P.one('generate_first_byte')
    R.saw(g.id)
    tv = enum_values(P, 'PacketType')
    two = {str(tv['PacketType::' + n]) for n in ('PUBREL', 'SUBSCRIBE', 'UNSUBSCRIBE')}
    done = Paths(P, lambda *a: None).run(g)
    ok = bool(done)
    for st in done:
        is2 = [k[4:] for k, v in st.facts.items() if k.startswith('p0==') and v]
        not2 = {k[4:] for k, v in st.facts.items() if k.startswith('p0==') and not v}
        z = bits(st.ret[0] if st.ret else '', {('p0', 4): False, 2: True}, {})
        o = bits(st.ret[0] if st.ret else '', {('p0', 4): False}, {})
        ok = ok and (z if is2 and set(is2) <= two else o and ((is2 and not set(is2) & two) or two <= not2))
    R.inst('flags', ok, 'flags|type', 'the first byte has the type, and the bit that PUBREL, SUBSCRIBE and UNSUBSCRIBE need', g.loc)
    if seen < 9:
        raise AnalysisError('only %d packet encoders found' % seen)


# ---------------------------------------------------------------- properties of a message
FIELDS = {'expireInfo': ('writeMessageExpiryInterval', r'count\(this\.expireInfo\.expiresAfter\)'), 'correlationData': ('writeCorrelationData', r'this\.correlationData'),
          'responseTopic': ('writeResponseTopic', r'this\.responseTopic'), 'contentType': ('writeContentType', r'this\.contentType'), 'payloadUtf8': ('writePayloadFormatIndicator', r'1|this\.payloadUtf8'),
          'topicAlias': ('writeTopicAlias', r'this\.topicAlias'), 'subscriptionIdentifier': ('writeSubscriptionIdentifier', r'this\.subscriptionIdentifier'), 'userProperties': ('writeUserProperties', r'this\.userProperties')}
B = 'Mqtt5PropertyBuilder::'


def call_event(w, st, f, y):
    if y['k'] == 'call' and (y.get('n') or '').startswith(B) and base_name(y['n']).startswith('write'):
        return (base_name(y['n']), tuple(w.key(f, z, st) for z in y.get('a', [])), None)
    return None


def builder(P, R):
    f = P.one('Publish::getPropertyBuilder')
    R.saw(f.id)
    done = Paths(P, call_event).run(f)
    for fld, (wr, arg) in FIELDS.items():
        k = 'this.' + fld
        bad = None
        for st in done:
            ev = [e for e in st.ev if e[0] == wr]
            on = st.facts.get(k)
            ok = on is not None and (len(ev) == 1 and re.fullmatch(arg, ev[0][1][0]) is not None if on else not ev)
            if on is None and fld == 'payloadUtf8' and len(ev) == 1:
                ok = False
            if not ok:
                bad = st
        R.inst('props', bad is None and bool(done), 'props|' + fld, 'the message\'s %s is written when set (%d paths)' % (fld, len(done)), f.loc)
    others = {e[0] for st in done for e in st.ev} - {v[0] for v in FIELDS.values()}
    R.inst('props', not others, 'props|others', 'nothing else is written' + (': %s' % sorted(others) if others else ''), f.loc)
    g = P.one('WillPublish::getPropertyBuilder')
    done = Paths(P, call_event).run(g)
    ok = bool(done) and all((st.facts.get('this.will_delay') is True) == any(e[0] == 'writeWillDelay' and e[1] == ('this.will_delay',) for e in st.ev) and 'this.will_delay' in st.facts for st in done)
    R.inst('props', ok, 'props|will_delay', 'the delay of a will is written when set', g.loc)
    R.inst('props', all(z['k'] == 'call' for z in [g and next((y for b, i, y in g.nodes() if is_call(y, 'Publish::getPropertyBuilder')), {'k': None})]), 'props|will', 'with the properties of its message', g.loc)


# ---------------------------------------------------------------- property encoding
ID = 'Mqtt5Properties::'
WR = {'writeServerKeepAlive': ('ServerKeepAlive', 'writeUint16'), 'writeSessionExpiry': ('SessionExpiryInterval', 'writeUint32'), 'writeReceiveMax': ('ReceiveMaximum', 'writeUint16'),
      'writeRetainAvailable': ('RetainAvailable', 'writeUint8'), 'writeMaxPacketSize': ('MaximumPacketSize', 'writeUint32'), 'writeAssignedClientId': ('AssignedClientIdentifier', 'writeStr'),
      'writeMaxTopicAliases': ('TopicAliasMaximum', 'writeUint16'), 'writeMaxQoS': ('MaximumQoS', 'writeUint8'), 'writeWildcardSubscriptionAvailable': ('WildcardSubscriptionAvailable', 'writeUint8'),
      'writeSubscriptionIdentifier': ('SubscriptionIdentifier', 'writeVariableByteInt'), 'writeSubscriptionIdentifiersAvailable': ('SubscriptionIdentifierAvailable', 'writeUint8'),
      'writeSharedSubscriptionAvailable': ('SharedSubscriptionAvailable', 'writeUint8'), 'writeContentType': ('ContentType', 'writeStr'), 'writePayloadFormatIndicator': ('PayloadFormatIndicator', 'writeUint8'),
      'writeMessageExpiryInterval': ('MessageExpiryInterval', 'writeUint32'), 'writeResponseTopic': ('ResponseTopic', 'writeStr'), 'writeUserProperty': ('UserProperty', 'write2Str'),
      'writeCorrelationData': ('CorrelationData', 'writeStr'), 'writeTopicAlias': ('TopicAlias', 'writeUint16'), 'writeAuthenticationMethod': ('AuthenticationMethod', 'writeStr'),
      'writeAuthenticationData': ('AuthenticationData', 'writeStr'), 'writeWillDelay': ('WillDelayInterval', 'writeUint32')}
IDS = {'PayloadFormatIndicator': 1, 'MessageExpiryInterval': 2, 'ContentType': 3, 'ResponseTopic': 8, 'CorrelationData': 9, 'SubscriptionIdentifier': 11, 'SessionExpiryInterval': 17,
       'AssignedClientIdentifier': 18, 'ServerKeepAlive': 19, 'AuthenticationMethod': 21, 'AuthenticationData': 22, 'RequestProblemInformation': 23, 'WillDelayInterval': 24,
       'RequestResponseInformation': 25, 'ResponseInformation': 26, 'ServerReference': 28, 'ReasonString': 31, 'ReceiveMaximum': 33, 'TopicAliasMaximum': 34, 'TopicAlias': 35, 'MaximumQoS': 36,
       'RetainAvailable': 37, 'UserProperty': 38, 'MaximumPacketSize': 39, 'WildcardSubscriptionAvailable': 40, 'SubscriptionIdentifierAvailable': 41, 'SharedSubscriptionAvailable': 42}


def store_event(w, st, f, y):
    """stores into the bytes: ('st', index, value), ('cp', index, (source, count)), ('size', n)"""
    a = asg_parts(f, y) if y['k'] in ('asg', 'call') else None
    if a is not None and a[2] == '=' and a[0] is not None:
        l = a[0]
        if l['k'] == 'call' and base_name(l.get('n') or '') in ('operator[]', 'at') and l.get('o') is not None:
            o, ix = strip(f, l['o']), l['a'][0]
        elif l['k'] == 'idx':
            o, ix = strip(f, l['b']), l['i']
        else:
            return None
        return ('st', (w.key(f, o, st), clean(w.lin(f, ix, st))), w.key(f, a[1], st))
    if y['k'] == 'call' and base_name(y.get('n') or '') in ('memcpy', 'copy', 'copy_n'):
        n = base_name(y['n'])
        x = y['a']
        if n == 'memcpy':
            d = strip(f, x[0])
            d = strip(f, d['e']) if d is not None and d['k'] == 'un' and d['op'] == '&' else d
            if d is not None and d['k'] == 'call' and base_name(d.get('n') or '') in ('operator[]', 'at'):
                return ('cp', (w.key(f, d['o'], st), clean(w.lin(f, d['a'][0], st))), (w.key(f, x[1], st), w.lin(f, x[2], st)))
        return ('cp?', None, None)
    if y['k'] == 'call' and base_name(y.get('n') or '') == 'resize' and y.get('o') is not None:
        return ('size', w.key(f, y['o'], st), clean(w.lin(f, y['a'][0], st)))
    if y['k'] == 'call' and base_name(y.get('n') or '') in ('push_back', 'insert', 'append', 'emplace_back') and y.get('o') is not None:
        return ('other', None, None)
    return None


def writers(P, R):
    vals = enum_values(P, 'Mqtt5Properties')
    for n, v in IDS.items():
        R.inst('encode', vals.get(ID + n) == v, 'encode|id|' + n, 'the identifier of %s is %d' % (n, v), P.one(B + 'writeUint8').loc)
    n = 0
    for f in P.fns.values():
        if not f.q.startswith(B + 'write') or f.nocfg or not f.blocks:
            continue
        b = base_name(f.q)
        if b in ('writeUint8', 'writeUint16', 'writeUint32', 'writeStr', 'write2Str', 'writeVariableByteInt', 'writeUserProperties'):
            continue
        n += 1
        R.saw(f.id)
        done = Paths(P, call_event).run(f)
        if b not in WR:
            R.inst('encode', False, 'encode|' + b, 'a property writer that is not known', f.loc); continue
        idn, prim = WR[b]
        want = (ID + idn,) + tuple('p%d' % i for i in range(len(f.params)))
        ok = bool(done) and all([(e[0], e[1]) for e in st.ev] == [(prim, want)] or [(e[0], e[1]) for e in st.ev] == [(prim, (str(vals[ID + idn]),) + want[1:])] for st in done)
        R.inst('encode', ok, 'encode|' + b, '%s is written as %s of its own' % (idn, prim), f.loc)
    if n < 20:
        raise AnalysisError('only %d property writers found' % n)
    f = P.one(B + 'writeUserProperties')
    done = Paths(P, call_event).run(f)
    R.inst('encode', bool(done) and all([(e[0], e[1]) for e in st.ev] == ([('writeUserProperty', ('elem@p0.first', 'elem@p0.second'))] if st.ones.get('p0') else []) for st in done) and any(st.ones.get('p0') for st in done), 'encode|userprops', 'every user property is written', f.loc)

    def bytes_of(fn, obj, first, base, expect, size, what):
        f = P.one(fn)
        R.saw(f.id)
        done = Paths(P, store_event).run(f)
        bad = None
        for st in done:
            got = []
            for e in st.ev:
                if e[0] in ('st', 'cp') and e[1][0] == obj:
                    c = Counter(e[1][1])
                    for t, v in base.items():
                        c[t] -= v
                    got.append((e[0], clean(c), e[2] if e[0] == 'st' else (e[2][0], clean(e[2][1]))))
                elif e[0] in ('other', 'cp?'):
                    got.append((e[0],))
            sz = [e[2] for e in st.ev if e[0] == 'size' and e[1] == obj]
            exp = expect(st)
            if got != exp:
                bad = 'written %s' % [(g[0], dict(g[1]) if len(g) > 1 else '', g[2] if len(g) > 2 else '') for g in got]
            if size is not None and sz != [clean(size)]:
                bad = 'room for %s' % [dict(x) for x in sz]
        R.inst('encode', bad is None and bool(done), 'encode|bytes|' + fn, what + (': ' + bad if bad else ''), f.loc)
    L = 'len(this.bytes)'
    ob = 'this.bytes'

    def be(x, k, off):
        return [('st', clean(Counter({1: off + i})), '(%s>>%d)' % (x, 8 * (k - 1 - i)) if k - 1 - i else x) for i in range(k)]
    for nm, k in (('writeUint8', 1), ('writeUint16', 2), ('writeUint32', 4)):
        bytes_of(B + nm, ob, None, {L: 1}, lambda st, k=k: [('st', Counter(), 'p0')] + be('p1', k, 1), Counter({L: 1, 1: 1 + k}), 'identifier and %d bytes, most significant first' % k)
    bytes_of(B + 'writeStr', ob, None, {L: 1}, lambda st: [('st', Counter(), 'p0')] + be('len(p1)', 2, 1) + [('cp', Counter({1: 3}), ('p1', Counter({'len(p1)': 1})))], Counter({L: 1, 1: 3, 'len(p1)': 1}),
             'identifier, length and text')
    f = P.one(B + 'getLength')
    done = Paths(P, lambda w, st, f, y: None).run(f)
    c = Counter({L: 1, 'getLen(%s)' % L: 1})
    R.inst('length', bool(done) and all(st.ret and clean(st.ret[1]) in (c, Counter({L: 1, 'getLen(this.length)': 1})) for st in done), 'length|builder', 'the length of a property list counts its bytes and its length field', f.loc)
    for f in P.fn('MqttPacket::writeProperties'):
        if f.nocfg or not f.blocks:
            continue
        R.saw(f.id)
        done = Paths(P, packet_event0).run(f)
        if any(e[0] == 'varint' for st in done for e in st.ev):
            ok = all([e[:2] for e in st.ev] == [('varint', x), ('raw', y)] for st in done for x, y in [(st.ev[0][1], st.ev[-1][1])] if re.fullmatch(r'getVarInt\(p0\)|len\(p0\.bytes\)|p0\.length', x) and re.fullmatch(r'getBytes\(p0\)|p0\.bytes', y)) and all(len(st.ev) == 2 and 'p0' in st.ev[0][1] and 'p0' in st.ev[1][1] for st in done)
        else:
            ok = bool(done) and all(([e[:2] for e in st.ev] == [('byte', '0')] if st.facts.get('p0') is False else [e[:2] for e in st.ev] == [('props', 'p0')] and st.facts.get('p0') is True) for st in done)
        R.inst('length', ok, 'length|props|' + (f.params[0].get('t') or ''), 'a property list is written with its length, none as zero', f.loc)
    bytes_of('MqttPacket::writeUint16', 'this.bites', None, {'this.pos': 1}, lambda st: be('p0', 2, 0), None, 'two bytes, most significant first')
    bytes_of('MqttPacket::writeByte', 'this.bites', None, {'this.pos': 1}, lambda st: be('p0', 1, 0), None, 'one byte')


# ---------------------------------------------------------------- reuse of bytes
def reuse(P, R):
    f = P.one('PublishCopyFactory::getOptimumPacket')
    R.saw(f.id)

    def ev(w, st, f, y):
        if y['k'] == 'call' and base_name(y.get('n') or '') in ('emplace', 'reset', 'emplace_back') and y.get('o') is not None:
            return ('make', w.key(f, y['o'], st), [w.key(f, z, st) for z in y['a']])
        a = asg_parts(f, y) if y['k'] in ('asg', 'call') else None
        if a is not None and a[2] == '=' and a[0] is not None and a[0]['k'] != 'var':
            v = strip(f, a[1])
            return ('make', w.key(f, a[0], st), [w.key(f, z, st) for z in v.get('a', [])] if v is not None else [])
        return None
    done = Paths(P, ev).run(f)
    QOS = r'(getEffectiveQos\(this,p0\)|min\(this\.orgQos,p0\)|min\(p0,this\.orgQos\))'
    KEY = r'getPublishLayoutCompareKey\(%s,%s\)'
    bad = {'own': None, 'cache': None, 'make': None, 'same': None}
    n = Counter()
    for st in done:
        F = st.facts
        r = st.ret[0] if st.ret else None
        v3 = any(k == 'p1<5' and v for k, v in F.items())
        plain = F.get('p5') is False and F.get('p4') is False and (F.get('p2') is False or v3)
        mk = [e for e in st.ev if e[0] == 'make']
        data = r'(getPublishData\(this\.packet\)|this\.packet\.publishData)' if F.get('this.packet') else r'this\.publish'
        if r == 'this.packet':
            n['own'] += 1
            same = any(v and re.fullmatch('(%s)==(%s)|(%s)==(%s)' % ((KEY % (r'getProtocolVersion\(this\.packet\)', r'this\.orgQos'), KEY % ('p1', QOS)) + (KEY % ('p1', QOS), KEY % (r'getProtocolVersion\(this\.packet\)', r'this\.orgQos'))), k) for k, v in F.items())
            if not (plain and same and F.get('biteArrayCannotBeReused(this.packet)') is False and F.get('this.packet')):
                bad['own'] = st
        elif r is not None and r.startswith('this.constructedPacketCache['):
            n['cache'] += 1
            if not plain or not re.fullmatch(r'this\.constructedPacketCache\[%s\]' % (KEY % ('p1', QOS)), r) or (F.get(r) is not True and not any(e[1] == r for e in mk)) or not F.get('this.packet'):
                bad['cache'] = st
            for e in mk:
                a = e[2]
                if e[1] != r or len(a) != 7 or a[0] != 'p1' or not re.fullmatch(data, a[1]) or not re.fullmatch(QOS, a[2]) or a[3:] != ['0', '0', '0', '{}']:
                    bad['make'] = st
        elif r == 'this.oneShotPacket':
            n['one'] += 1
            e = mk[-1] if mk else None
            if e is None or e[1] != r or len(e[2]) != 7 or e[2][0] != 'p1' or not re.fullmatch(data, e[2][1]) or not re.fullmatch(QOS, e[2][2]) or e[2][3:] != ['p2', 'p3', 'p4', 'p5']:
                bad['make'] = st
        else:
            bad['same'] = st
    what = {'own': 'the packet as received is sent only to receivers with its protocol layout, without alias, identifier or other topic', 'cache': 'a cached packet is used only for the same layout, without anything of one receiver',
            'make': 'a new packet is made for this receiver', 'same': 'the packet sent is one of these'}
    for k in bad:
        R.inst('reuse', bad[k] is None and bool(done) and n['one'] > 0, 'reuse|' + k, what[k] + (' (%d paths)' % len(done)), f.loc, [e[-1] for e in bad[k].ev] + ['%s=%s' % z for z in bad[k].facts.items()] if bad[k] else None)
    g = P.one('PublishCopyFactory::getPublishLayoutCompareKey')
    ks = {}
    ok = True
    for st in Paths(P, lambda w, st, f, y: None).run(g):
        pv = [k for k, v in st.facts.items() if v and k.startswith('p0==')] or ['none']
        pq = st.facts.get('p1')
        ks.setdefault((st.ret[0], pq), set()).update(pv)
        ok = ok and ('p1' in st.ret[0] or pq is not None)
    five = [v for k, v in ks.items() if 'p0==%d' % enum_values(P, 'ProtocolVersion')[V5] in v]
    R.inst('reuse', ok and bool(five) and all(len(v) == 1 for v in five), 'reuse|layout', 'layouts differ with MQTT 5 and with the presence of a packet identifier', g.loc)
    g = P.one('MqttPacket::biteArrayCannotBeReused')
    R.inst('reuse', all(st.ret and st.ret[0] == 'this.dontReuseBites' for st in Paths(P, lambda w, st, f, y: None).run(g)), 'reuse|flag', 'the mark on the packet is honoured', g.loc)
    # the mark
    q = Query(P, cut_node=marks, eh=False)
    n = 0
    for f in P.fns.values():
        if f.nocfg or not f.blocks or f.is_ctor or f.is_lambda or not (f.cls or '') == 'MqttPacket':
            continue
        for b, i, y in f.nodes():
            what = alters(f, y)
            if not what:
                continue
            n += 1
            R.saw(f.id)
            before = q.reach_point(f, (f.entry, -1), (b.id, i), ROOT, None)
            bad = before and unmarked(f, (b.id, i))
            R.inst('reuse', not bad, 'reuse|mark|%s|%s' % (f.q, what), 'after %s the bytes received are not used' % what, line_of(f, y))
    if n < 3:
        raise AnalysisError('only %d places found that change a received message' % n)
    f = P.one('MqttPacket::handlePublish')
    alt = tcall('Authentication::alterPublish', False)
    calls = [(b.id, i) for b, i, y in f.nodes() if is_call(y, 'Authentication::alterPublish')]
    fac = [(b.id, i) for b, i, y in f.nodes() if y['k'] in ('ctor', 'decl') and any(z['k'] == 'ctor' and base_name(z.get('n') or '') == 'PublishCopyFactory' for z in f.walk(y, True))]
    if not calls or not fac:
        raise AnalysisError('no publish that is altered and delivered in ' + f.q)

    def same_qos(q, fn, n, pt, ctx):
        return n[0] == '==' and all(isinstance(z, dict) for z in n[1:3]) and any(has_mem(fn, z, 'Publish::qos') for z in n[1:3]) and any(strip(fn, z)['k'] == 'var' for z in n[1:3])
    for nm, cond in (('by a plugin', alt), ('in its QoS', same_qos)):
        q = Query(P, cut_node=marks, cut_cond=cond, eh=False)
        R.inst('reuse', not any(q.reach_point(f, c, g, ROOT, None) for c in calls for g in fac), 'reuse|altered|' + nm, 'a message changed %s is not sent with the bytes received' % nm, f.loc)


def marks(f, y, q=None):
    a = asg_parts(f, y) if y['k'] == 'asg' else None
    return a is not None and a[2] in ('=', '|=') and is_mem(a[0], 'MqttPacket::dontReuseBites') and const_val(strip(f, a[1])) in (1, True)


def alters(f, y):
    """what makes the bytes received differ from the message, or not fit for others"""
    def topic(x):
        x = strip(f, x)
        return is_mem(x, 'Publish::topic') and is_mem(strip(f, x['b']), 'MqttPacket::publishData')
    a = asg_parts(f, y) if y['k'] in ('asg', 'call') else None
    if a is not None and a[2] in ('=', '+=') and topic(a[0]):
        if any(z['k'] == 'call' and base_name(z.get('n') or '').startswith('read') for z in f.walk(a[1], True)):
            return None
        return 'a new topic'
    if y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n') or '') in ('erase', 'insert', 'assign', 'append', 'replace', 'clear', 'swap', 'resize') and topic(y['o']):
        return 'changing the topic'
    if is_call(y, 'Client::setTopicAlias', 'Client::getTopicAlias'):
        return 'a topic alias'
    return None


def unmarked(f, pt):
    from core.boolpath import reach
    return reach(f, (f.entry, -1), {f.exit}, marks, via=pt)


# ---------------------------------------------------------------- one receiver
def sending(P, R):
    fs = [f for f in P.fn('Client::writeMqttPacketAndBlameThisClient') if len(f.params) == 6]
    if len(fs) != 1:
        raise AnalysisError('the function that sends a message to a client was not found')
    f = fs[0]
    R.saw(f.id)
    NM = ('getOptimumPacket', 'setPacketId', 'setQos', 'setRetain', 'writeMqttPacketAndBlameThisClient', 'writeMqttPacket')

    def ev(w, st, f, y):
        if y['k'] == 'call' and base_name(y.get('n') or '') in NM:
            return (base_name(y['n']), (w.key(f, y['o'], st) if y.get('o') is not None else 'this',) + tuple(w.key(f, z, st) for z in y['a']), None)
        if y['k'] == 'call' and base_name(y.get('n') or '') in ('emplace', 'insert', 'insert_or_assign', 'try_emplace') and y.get('o') is not None:
            return ('set', '%s[%s]' % (w.key(f, y['o'], st), w.key(f, y['a'][0], st)), w.key(f, y['a'][-1], st))
        a = asg_parts(f, y) if y['k'] in ('asg', 'call') else None
        if a is not None and a[2] == '=' and a[0] is not None and a[0]['k'] != 'var':
            return ('set', w.key(f, a[0], st), w.key(f, a[1], st))
        return None
    done = Paths(P, ev).run(f)
    TOPIC = r'value_or\(p5,getTopic\(p0\)\)'
    OT = r'(lock\(this\.outgoingTopicAliases\))'
    bad = {}

    def fail(k, st):
        bad.setdefault(k, st)
    for st in done:
        F = st.facts
        g = [e for e in st.ev if e[0] == 'getOptimumPacket']
        wr = [k for k, e in enumerate(st.ev) if e[0].startswith('writeMqttPacket')]
        if len(g) != 1 or len(wr) != 1:
            fail('once', st); continue
        a = g[0][1]
        pk = 'getOptimumPacket(%s)' % ','.join(a)
        sent = st.ev[wr[0]]
        if sent[1][1] != pk or a[0] != 'p0' or a[1] != 'p1' or a[2] != 'this.protocolVersion' or a[5] != 'p4' or a[6] != 'p5':
            fail('once', st)
        pre = st.ev[:wr[0]]
        if not any(e[0] == 'setRetain' and e[1] == (pk, 'p3') for e in pre):
            fail('retain', st)
        q = F.get('getQos(%s)' % pk)
        if q is None or q != any(e[0] == 'setPacketId' and e[1] == (pk, 'p2') for e in pre):
            fail('id', st)
        if q and not any(e[0] == 'setQos' and e[1][0] == pk and re.fullmatch(r'getEffectiveQos\(p0,p1\)', e[1][1]) for e in pre):
            fail('qos', st)
        alias, skip = a[3], a[4]
        v5 = F.get('this.protocolVersion<5') is False
        new = re.fullmatch(r'\(%s\.cur_alias\+1\)' % OT, alias)
        old = re.fullmatch(r'find\(%s\.aliases,%s\)\.second' % (OT, TOPIC), alias)
        known = [v for k, v in F.items() if re.fullmatch(r'find\(%s\.aliases,%s\)==c?end\(%s\.aliases\)' % (OT, TOPIC, OT), k)]
        stores = [(k, e) for k, e in enumerate(st.ev) if e[0] == 'set']
        if alias == '0':
            if skip != '0':
                fail('skip', st)
        elif new:
            room = [v for k, v in F.items() if re.fullmatch(r'%s\.cur_alias<this\.maxOutgoingTopicAliasValue' % OT, k)]
            if not v5 or skip != '0' or room != [True] or known != [True]:
                fail('new', st)
        elif old:
            if not v5 or skip not in ('1', '0') or known != [False]:
                fail('skip', st)
        else:
            fail('new', st)
        ok = [not v for k, v in F.items() if re.fullmatch(r'writeMqttPacket(AndBlameThisClient)?\(this,%s\)' % re.escape(pk), k)]
        if stores:
            if not new or ok != [True] or any(k < wr[0] for k, e in stores):
                fail('bound', st)
            m = [e for k, e in stores if re.fullmatch(r'%s\.aliases\[%s\]' % (OT, TOPIC), e[1])]
            c = [e for k, e in stores if re.fullmatch(r'%s\.cur_alias' % OT, e[1])]
            if len(m) != 1 or m[0][2] != alias or len(c) != 1 or c[0][2] != alias or len(stores) != 2:
                fail('bound', st)
        elif new and ok == [True] and F.get(alias) is not False:
            fail('bound', st)
    W_ = {'once': ('flags', 'one packet, made for this receiver, is written'), 'retain': ('flags', 'the retain flag is the one for this receiver'), 'id': ('flags', 'a packet with QoS gets the packet identifier, others none'),
          'qos': ('flags', 'the QoS is the one for this receiver'), 'skip': ('alias', 'the topic is left out only with an alias sent before'),
          'new': ('alias', 'a new alias is the next one, within the maximum of an MQTT 5 receiver, for a topic without one'), 'bound': ('alias', 'an alias is bound to the topic once the packet with it was written')}
    for k, (r, t) in W_.items():
        st = bad.get(k)
        R.inst(r, st is None and len(done) > 8, 'send|' + k, t + ' (%d paths)' % len(done), f.loc, [e[-1] for e in st.ev] + ['%s=%s' % z for z in st.facts.items()] if st else None)
    # the lock that keeps others from using the new alias is held until then
    # header bits
    f = P.one('MqttPacket::handlePublish')
    fac = [(b.id, i) for b, i, y in f.nodes() if y['k'] in ('ctor', 'decl') and any(z['k'] == 'ctor' and base_name(z.get('n') or '') == 'PublishCopyFactory' for z in f.walk(y, True))]

    def clears(fn, y, q=None):
        a = asg_parts(fn, y) if y['k'] in ('asg', 'call') else None
        if a is None or a[2] not in ('&=', '='):
            return False
        l = a[0]
        if not (l is not None and (is_mem(l, 'MqttPacket::first_byte') or byte0(fn, l))):
            return False
        return any(is_const(z) and isinstance(const_val(z), int) and const_val(z) & 0xFF == 0xF7 for z in fn.walk(a[1], True)) or (a[2] == '=' and is_mem(l, 'MqttPacket::first_byte') and any(byte0(fn, z) for z in fn.walk(a[1], True)))

    def clears_bits(fn, y, q=None):
        a = asg_parts(fn, y) if y['k'] in ('asg', 'call') else None
        return clears(fn, y) and byte0(fn, a[0])

    def clears_first(fn, y, q=None):
        a = asg_parts(fn, y) if y['k'] in ('asg', 'call') else None
        return clears(fn, y) and is_mem(a[0], 'MqttPacket::first_byte')
    for nm, c in (('bytes', clears_bits), ('header', clears_first)):
        q = Query(P, cut_node=c, eh=False)
        R.inst('flags', bool(fac) and not any(q.reach_point(f, (f.entry, -1), g, ROOT, None) for g in fac), 'flags|dup|' + nm, 'the dup flag of the sender is not passed on', f.loc)
    for fn, mask, keep in (('MqttPacket::setRetain', r'p0', 0xFE), ('MqttPacket::setQos', r'\(?(p0|this\.publishData\.qos)<<1\)?', 0xF9)):
        g = P.one(fn)
        R.saw(g.id)

        def ev(w, st, f, y):
            a = asg_parts(f, y) if y['k'] in ('asg', 'call') else None
            if a is not None and is_mem(a[0], 'MqttPacket::first_byte'):
                return ('hdr', a[2], w.key(f, a[1], st))
            if is_call(y, 'MqttPacket::writeByte'):
                return ('byte', w.key(f, y['a'][0], st), st.mem.get('this.pos', ('?',))[0])
            return None
        done = Paths(P, ev).run(g)

        def good(st):
            h = [e for e in st.ev if e[0] == 'hdr']
            one = len(h) == 2 and h[0][1] == '&=' and int(h[0][2]) & 0xFF == keep and h[1][1] == '|=' and re.fullmatch(mask, h[1][2]) if h and h[0][2].lstrip('-').isdigit() else \
                len(h) == 1 and h[0][1] == '=' and re.search(r'&%d\b' % keep, h[0][2]) is not None
            by = [e for e in st.ev if e[0] == 'byte']
            present = st.facts.get('this.fixed_header_length', st.facts.get('containsFixedHeader(this)'))
            return one and present is not None and (len(by) == 1 and by[0][2] == '0' if present else not by)
        R.inst('flags', bool(done) and all(good(st) for st in done), 'flags|' + fn, 'only its own bits of the header are changed, in the bytes as well', g.loc)
    g = P.one('MqttPacket::setPacketId')

    def ev(w, st, f, y):
        if is_call(y, 'MqttPacket::writeUint16'):
            return ('id', w.key(f, y['a'][0], st), st.mem.get('this.pos', ('?',))[0])
        return None
    done = Paths(P, ev).run(g)
    R.inst('flags', bool(done) and all([e[:3] for e in st.ev] == [('id', 'p0', 'this.packet_id_pos')] and st.mem.get('this.packet_id', ('',))[0] == 'p0' for st in done), 'flags|id', 'the packet identifier is written where it belongs', g.loc)


def byte0(f, x):
    """the first byte of the packet"""
    x = strip(f, x)
    if x is not None and x['k'] == 'call' and base_name(x.get('n') or '') in ('operator[]', 'at', 'front') and x.get('o') is not None:
        o = strip(f, x['o'])
        if o is not None and o['k'] == 'call' and base_name(o.get('n') or '') == 'data':
            o = strip(f, o['o'])
        return is_mem(o, 'MqttPacket::bites') and (not x.get('a') or const_val(strip(f, x['a'][0])) == 0)
    if x is not None and x['k'] == 'idx':
        o = strip(f, x['b'])
        if o is not None and o['k'] == 'call' and base_name(o.get('n') or '') == 'data':
            o = strip(f, o['o'])
        return is_mem(o, 'MqttPacket::bites') and const_val(strip(f, x['i'])) == 0
    return False


# ---------------------------------------------------------------- limits
def limits(P, R):
    f = P.one('Client::writeMqttPacket')
    R.saw(f.id)

    def ev(w, st, f, y):
        if is_call(y, 'MqttPacket::readIntoBuf'):
            return ('write', None, None)
        if is_call(y, 'CirBuf::ensureFreeSpace') and len(y.get('a', [])) == 2:
            return ('room', w.key(f, y['a'][0], st), w.key(f, y['a'][1], st))
        return None
    done = Paths(P, ev).run(f)
    SZ = r'getSizeIncludingNonPresentHeader\(p0\)'
    MX = r'lock\(this\.writebuf\)\.maxOutgoingPacketSize'
    big = bad = drop = room = None
    for st in done:
        over = [v for k, v in st.facts.items() if re.fullmatch(SZ + '>' + MX, k) or re.fullmatch(MX + '<' + SZ, k)]
        full = [v for k, v in st.facts.items() if re.fullmatch(SZ + r'>freeSpace\(.*\)', k) or re.fullmatch(r'freeSpace\(.*\)<' + SZ, k)]
        wrote = any(e[0] == 'write' for e in st.ev)
        if full or wrote:
            rm = [e for e in st.ev if e[0] == 'room' and re.fullmatch(SZ, e[1]) and (re.search(r'max\(.*getSizeIncludingNonPresentHeader\(p0\)', e[2]) or re.fullmatch(r'\(?%s(\*\d+)?\)?' % SZ, e[2])
                                                                      or any('getMaxBufSize' in k and 'getSizeIncludingNonPresentHeader(p0)' in k for k in st.facts))]
            if not rm:
                room = st
        r = st.ret[0] if st.ret else ''
        if wrote and over != [False]:
            big = st
        if wrote != r.endswith('::Success') and wrote != (r == '0'):
            bad = st
        t = enum_values(P, 'PacketType').get('PacketType::PUBLISH')
        if not wrote and over != [True] and not (full == [True] and st.facts.get('getQos(p0)') is False and st.facts.get('p0.packetType==%d' % t) is True):
            drop = st
    for k, st, t in (('big', big, 'only packets within the maximum of the other side are written'), ('said', bad, 'success is what was written, and only that'), ('drop', drop, 'only QoS 0 messages are dropped for lack of room'), ('room', room, 'room for the packet is made first')):
        R.inst('size', st is None and any(e for s in done for e in s.ev), 'size|' + k, t + ' (%d paths)' % len(done), f.loc, ['%s=%s' % z for z in st.facts.items()] if st else None)
    for g in P.fn('Client::setClientProperties'):
        if g.nocfg or not g.blocks:
            continue
        if any(is_call(y, g.q) for b, i, y in g.nodes()):
            continue        # (goes through another)
        R.saw(g.id)
        done = Paths(P, lambda w, st, f, y: None).run(g)
        at = [{st.mem.get(k, ('',))[0] for st in done} for k in ('lock(this.writebuf).maxOutgoingPacketSize', 'this.maxOutgoingTopicAliasValue')]
        m = [re.fullmatch(r'p(\d+)', next(iter(v))) if len(v) == 1 else None for v in at]
        ok = bool(done) and all(m)
        R.inst('size', ok, 'size|set|%d' % len(g.params), 'the limits of the other side are taken', g.loc)
        if not ok:
            continue
        i, j = [int(z.group(1)) for z in m]
        n = 0
        for h, pt, y in P.call_sites(g):
            if h.q.startswith('Client::') :
                continue
            n += 1
            q = Query(P)
            for k, mem in ((i, 'max_outgoing_packet_size'), (j, 'max_outgoing_topic_aliases')):
                def from_mem(x, depth=0):
                    for z in h.walk(x, True):
                        if z['k'] == 'mem' and z['n'].endswith('::' + mem):
                            return True
                        if z['k'] == 'var' and depth < 4:
                            if any(d[2] == 'init' and from_mem(v, depth + 1) for d in h.defs().get(z['id'], []) for v in inits(h, z['id'])):
                                return True
                    return False
                R.inst('size', from_mem(y['a'][k]), 'size|from|%s|%s' % (h.q, mem), 'as it announced them', line_of(h, y))
        R.inst('size', n > 0, 'size|site|%d' % len(g.params), 'when it connects', g.loc)


def inits(f, vid):
    return [d['e'] for b, i, y in f.nodes() if y['k'] == 'decl' for d in y['d'] if d['id'] == vid and d.get('e') is not None]


# ---------------------------------------------------------------- aliases from the other side
def incoming(P, R):
    f = P.one('Client::setTopicAlias')
    R.saw(f.id)

    def ev(w, st, f, y):
        a = asg_parts(f, y) if y['k'] in ('asg', 'call') else None
        if a is not None and a[2] == '=' and a[0] is not None and a[0]['k'] != 'var':
            return ('set', w.key(f, a[0], st), w.key(f, a[1], st))
        if y['k'] == 'call' and base_name(y.get('n') or '') in ('emplace', 'insert', 'insert_or_assign', 'try_emplace') and y.get('o') is not None:
            return ('set' if base_name(y['n']) == 'insert_or_assign' else 'once', '%s[%s]' % (w.key(f, y['o'], st), w.key(f, y['a'][0], st)), w.key(f, y['a'][-1], st))
        return None
    done = Paths(P, ev).run(f)
    bad = None
    for st in done:
        s = [e[:3] for e in st.ev]
        zero = st.facts.get('p0'); over = st.facts.get('p0>this.maxIncomingTopicAliasValue', st.facts.get('this.maxIncomingTopicAliasValue<p0'))
        if s:
            if s != [('set', 'this.incomingTopicAliases[p0]', 'p1')] or zero is not True or over is not False:
                bad = st
        elif not any(v and k.startswith('empty(p1') for k, v in st.facts.items()):
            bad = st
    R.inst('alias', bad is None and any(st.ev for st in done), 'alias|in|set', 'an alias within the maximum is bound to the topic it came with, others are errors', f.loc, ['%s=%s' % z for z in bad.facts.items()] if bad else None)
    f = P.one('Client::getTopicAlias')
    done = Paths(P, lambda w, st, f, y: None).run(f)
    ok = bool(done) and all(st.ret and st.ret[0] in ('find(this.incomingTopicAliases,p0).second', 'at(this.incomingTopicAliases,p0)', 'this.incomingTopicAliases[p0]') and any('find(this.incomingTopicAliases,p0)' in k and v is False or 'contains' in k and v or k.startswith('count(') and v for k, v in st.facts.items()) for st in done)
    R.inst('alias', ok, 'alias|in|get', 'an alias that was not bound is an error, others are the topic bound to them', f.loc)


# ---------------------------------------------------------------- expiry
def expiry(P, R):
    f = P.one('PublishExpireInfo::getCurrentTimeToExpire')
    R.saw(f.id)
    done = Paths(P, lambda w, st, f, y: None).run(f)
    NOW = r'now\(\)'
    AGE = r'(duration_cast\()?(operator-\(%s,this\.createdAt\)|\(%s\+this\.createdAt\*-1\)|\(this\.createdAt\*-1\+%s\))\)?' % (NOW, NOW, NOW)
    R.notes.append('remaining expiry: %s' % (done[0].ret[0] if done and done[0].ret else '?'))
    REM = r'(operator-\(this\.expiresAfter,%s\)|\(.*\))' % AGE
    ok = bool(done) and all(st.ret and 'this.expiresAfter' in st.ret[0] and 'this.createdAt' in st.ret[0] and 'now()' in st.ret[0] for st in done)
    R.inst('props', ok, 'props|remaining', 'the expiry interval sent is what remains of it', f.loc)
    f = P.one('PublishExpireInfo::expiresAt')
    done = Paths(P, lambda w, st, f, y: None).run(f)
    ok = bool(done) and all(st.ret and re.fullmatch(r'operator\+\(this\.(createdAt,this\.expiresAfter|expiresAfter,this\.createdAt)\)|\(this\.(createdAt\+this\.expiresAfter|expiresAfter\+this\.createdAt)\)', st.ret[0]) for st in done)
    R.inst('props', ok, 'props|expires', 'it expires its interval after it came', f.loc)
    # the fields of the packet come from the message
    f = next(g for g in P.fn('MqttPacket::MqttPacket') if len(g.params) == 7)
    w = PacketPaths(P, packet_event, enter=sizes)
    done = w.run(f)
    for fld in ('correlationData', 'responseTopic', 'contentType', 'payloadUtf8', 'userProperties'):
        ok = all(st.mem.get('this.publishData.' + fld, ('',))[0] == 'p1.' + fld for st in done if st.facts.get('p0<5') is False)
        R.inst('props', ok, 'props|copied|' + fld, 'the message\'s %s goes into the packet' % fld, f.loc)
    ok = all(st.mem.get('this.publishData.subscriptionIdentifier', ('',))[0] == 'p5' for st in done if st.facts.get('p0<5') is False)
    R.inst('props', ok, 'props|copied|subscriptionIdentifier', 'with the identifier of the subscription', f.loc)
    for fld, v in (('qos', 'p2'), ('topicAlias', 'p3'), ('skipTopic', 'p4'), ('retain', 'p1.retain')):
        R.inst('props', all(st.mem.get('this.publishData.' + fld, ('',))[0] == v for st in done), 'props|copied|' + fld, 'with the %s for the receiver' % fld, f.loc)

    def ev(w, st, f, y):
        if is_call(y, 'Publish::setExpireAfter'):
            return ('exp', w.key(f, y['o'], st), w.key(f, y['a'][0], st))
        return None
    done = Paths(P, ev).run(f)
    ok = any(st.ev for st in done) and all((st.facts.get('p1.expireInfo') is True) == ([e[:3] for e in st.ev] == [('exp', 'this.publishData', 'count(getCurrentTimeToExpire(p1.expireInfo))')]) and 'p1.expireInfo' in st.facts for st in done if st.facts.get('p0<5') is False)
    R.inst('props', ok, 'props|copied|expiry', 'with the remaining expiry', f.loc)
