"""MQTT 5 property lists: for every dispatch over property identifiers, the allowed identifiers, the once-only
check, the wire type, the destination and the value constraints are decided on all paths."""
from core.rules import *

MP = 'MqttPacket::'
READ = {MP + 'readByte': 'byte', MP + 'readUint8': 'byte', MP + 'readTwoBytesToUInt16': 'u16', MP + 'readFourBytesToUint32': 'u32',
        MP + 'decodeVariableByteIntAtPos': 'var', MP + 'readBytesToString': 'str', MP + 'readBytes': 'raw'}
WIRE = {'PayloadFormatIndicator': 'byte', 'MessageExpiryInterval': 'u32', 'ContentType': 'str', 'ResponseTopic': 'str', 'CorrelationData': 'str',
        'SubscriptionIdentifier': 'var', 'SessionExpiryInterval': 'u32', 'AssignedClientIdentifier': 'str', 'ServerKeepAlive': 'u16',
        'AuthenticationMethod': 'str', 'AuthenticationData': 'str', 'RequestProblemInformation': 'byte', 'WillDelayInterval': 'u32',
        'RequestResponseInformation': 'byte', 'ResponseInformation': 'str', 'ServerReference': 'str', 'ReasonString': 'str',
        'ReceiveMaximum': 'u16', 'TopicAliasMaximum': 'u16', 'TopicAlias': 'u16', 'MaximumQoS': 'byte', 'RetainAvailable': 'byte',
        'UserProperty': 'str str', 'MaximumPacketSize': 'u32', 'WildcardSubscriptionAvailable': 'byte',
        'SubscriptionIdentifierAvailable': 'byte', 'SharedSubscriptionAvailable': 'byte'}
ALLOWED = {
    'CONNECT': {'SessionExpiryInterval', 'ReceiveMaximum', 'MaximumPacketSize', 'TopicAliasMaximum', 'RequestResponseInformation', 'RequestProblemInformation',
                'UserProperty', 'AuthenticationMethod', 'AuthenticationData'},
    'will': {'WillDelayInterval', 'PayloadFormatIndicator', 'MessageExpiryInterval', 'ContentType', 'ResponseTopic', 'CorrelationData', 'UserProperty'},
    'CONNACK': {'SessionExpiryInterval', 'ReceiveMaximum', 'MaximumQoS', 'RetainAvailable', 'MaximumPacketSize', 'AssignedClientIdentifier', 'TopicAliasMaximum',
                'ReasonString', 'UserProperty', 'WildcardSubscriptionAvailable', 'SubscriptionIdentifierAvailable', 'SharedSubscriptionAvailable', 'ServerKeepAlive',
                'ResponseInformation', 'ServerReference', 'AuthenticationMethod', 'AuthenticationData'},
    'PUBLISH': {'PayloadFormatIndicator', 'MessageExpiryInterval', 'TopicAlias', 'ResponseTopic', 'CorrelationData', 'UserProperty', 'SubscriptionIdentifier', 'ContentType'},
    'SUBSCRIBE': {'SubscriptionIdentifier', 'UserProperty'},
    'SUBACK': {'ReasonString', 'UserProperty'},
    'UNSUBSCRIBE': {'UserProperty'},
    'DISCONNECT': {'SessionExpiryInterval', 'ReasonString', 'UserProperty', 'ServerReference'},
    'AUTH': {'AuthenticationMethod', 'AuthenticationData', 'ReasonString', 'UserProperty'}}
ANCHOR = {MP + 'parseConnectData': ('CONNECT', 'will'), MP + 'parseConnAckData': ('CONNACK',), MP + 'parsePublishData': ('PUBLISH',), MP + 'handleSubscribe': ('SUBSCRIBE',),
          MP + 'parseSubAckData': ('SUBACK',), MP + 'handleUnsubscribe': ('UNSUBSCRIBE',), MP + 'parseDisconnectData': ('DISCONNECT',), MP + 'parseAuthData': ('AUTH',)}
DEST = {('CONNECT', 'SessionExpiryInterval'): 'ConnectData::session_expire', ('CONNECT', 'ReceiveMaximum'): 'ConnectData::client_receive_max',
        ('CONNECT', 'MaximumPacketSize'): 'ConnectData::max_outgoing_packet_size', ('CONNECT', 'TopicAliasMaximum'): 'ConnectData::max_outgoing_topic_aliases',
        ('CONNECT', 'AuthenticationMethod'): 'ConnectData::authenticationMethod', ('CONNECT', 'AuthenticationData'): 'ConnectData::authenticationData',
        ('CONNECT', 'RequestProblemInformation'): 'ConnectData::request_problem_information', ('CONNECT', 'RequestResponseInformation'): 'ConnectData::request_response_information',
        ('will', 'WillDelayInterval'): 'WillPublish::will_delay', ('will', 'PayloadFormatIndicator'): 'Publish::payloadUtf8', ('will', 'ContentType'): 'Publish::contentType',
        ('will', 'ResponseTopic'): 'Publish::responseTopic', ('will', 'CorrelationData'): 'Publish::correlationData', ('will', 'MessageExpiryInterval'): 'Publish::setExpireAfter',
        ('PUBLISH', 'PayloadFormatIndicator'): 'Publish::payloadUtf8', ('PUBLISH', 'ContentType'): 'Publish::contentType', ('PUBLISH', 'MessageExpiryInterval'): 'Publish::setExpireAfter',
        ('PUBLISH', 'ResponseTopic'): 'Publish::responseTopic', ('PUBLISH', 'CorrelationData'): 'Publish::correlationData',
        ('CONNACK', 'ReceiveMaximum'): 'ConnAckData::client_receive_max', ('CONNACK', 'MaximumPacketSize'): 'ConnAckData::max_outgoing_packet_size',
        ('CONNACK', 'MaximumQoS'): 'ConnAckData::max_qos', ('CONNACK', 'RetainAvailable'): 'ConnAckData::retained_available', ('CONNACK', 'TopicAliasMaximum'): 'ConnAckData::max_outgoing_topic_aliases',
        ('CONNACK', 'SharedSubscriptionAvailable'): 'ConnAckData::shared_subscriptions_available', ('CONNACK', 'ServerKeepAlive'): 'ConnAckData::keep_alive',
        ('DISCONNECT', 'SessionExpiryInterval'): 'DisconnectData::session_expiry_interval', ('AUTH', 'AuthenticationMethod'): 'AuthPacketData::method',
        ('AUTH', 'AuthenticationData'): 'AuthPacketData::data'}
LE1 = (('<=', 1), ('<', 2)); NZ = (('!=', 0), ('>', 0), ('>=', 1))
VALUE = {('CONNECT', 'RequestResponseInformation'): LE1, ('CONNECT', 'RequestProblemInformation'): LE1, ('CONNECT', 'ReceiveMaximum'): NZ, ('CONNECT', 'MaximumPacketSize'): NZ,
         ('CONNACK', 'RetainAvailable'): LE1, ('CONNACK', 'SharedSubscriptionAvailable'): LE1, ('CONNACK', 'ReceiveMaximum'): NZ, ('CONNACK', 'MaximumPacketSize'): NZ,
         ('PUBLISH', 'TopicAlias'): NZ, ('SUBSCRIBE', 'SubscriptionIdentifier'): NZ, ('PUBLISH', 'ResponseTopic'): 'nonempty', ('will', 'ResponseTopic'): 'nonempty'}
E5 = 'Mqtt5Properties::'


def isprop(fn, x):
    x = strip(fn, x)
    return x is not None and x['k'] == 'enum' and x['n'].startswith(E5)


def dispatches(P):
    """fn -> [(property, start block)] for every branch edge that establishes property == X where the property was
    read from the packet (or is a parameter of a function that reads packet data)"""
    out = {}
    for f in P.fns.values():
        if f.nocfg:
            continue
        l = []
        for b in f.blocks.values():
            for si, (t, k) in enumerate(b.succ):
                if t is None or k != 'n':
                    continue
                for x, pol in edge_facts(f, b, si):
                    n = norm(f, x, pol)
                    if n and n[0] == '==' and isprop(f, n[2]):
                        l.append((strip(f, n[2])['n'][len(E5):], t, b.id, n[1]))
        if l and any(y['k'] == 'call' and y.get('n') in READ for _, _, y in f.nodes()):
            out[f.id] = l
    return out


def counter_key(q, fn, x, pt, ctx):
    """identity of a counter: (variable, index or None, prop-indexed)"""
    x = strip(fn, x)
    if x is not None and x['k'] == 'un' and x['op'] in ('++', 'post++', '--', 'post--'):
        x = strip(fn, x['e'])
    f, x, c = lval(q, fn, x, ctx)
    if x is None:
        return None
    if x['k'] == 'idx' or (x['k'] == 'call' and base_name(x.get('n', '')) in ('operator[]', 'at') and x.get('o') is not None):
        base, ix = (x['b'], x['i']) if x['k'] == 'idx' else (x['o'], arg(x, 0))
        ss = q.sources(f, ix, points(f).get(id(x), (f.entry, 0)) if c is not ctx else pt, c)
        vals = {const_val(s) for _, s, _, _ in ss}
        bf, bx, bc = lval(q, f, base, c)
        if bx is None or bx['k'] not in ('var', 'mem') or len(vals) != 1:
            return None
        v = vals.pop()
        if v is None:
            s = ss[0][1]
            if s is None or not any(strip(f, z) is not None for z in [s]):
                return None
            v = 'prop'
        return (bx.get('id') or bx.get('n'), v)
    if x['k'] == 'var':
        return (x['id'], None)
    return None


def zero_fact(key):
    def cond(q, fn, n, pt, ctx):
        c = const_val(n[2])
        x = strip(fn, n[1])
        if x is None:
            return False
        pre = x['k'] == 'un' and x['op'] == '++'
        if (n[0], c) in ((('==', 1), ('<=', 1), ('<', 2)) if pre else (('==', 0), ('<=', 0), ('<', 1))):
            k = counter_key(q, fn, x, pt, ctx)
            return k is not None and (k == key or (k[0] == key[0] and k[1] == 'prop'))
        # a set: insert(...).second is true
        if (n[0], c) in (('!=', 0), ('==', 1)) and x['k'] == 'mem' and base_name(x['n']) == 'second':
            cc = strip_ptr(fn, x['b'])
            for f, s, p, c2 in q.sources(fn, cc, pt, ctx):
                if s is None or s['k'] != 'call' or base_name(s.get('n', '')) not in ('insert', 'emplace'):
                    return False
                bf, bx, bc = lval(q, f, s['o'], c2)
                return bx is not None and bx['k'] == 'var' and key == (bx['id'], 'prop')
        return False
    return cond


def check(P, R):
    R.rule('allowed', 'each packet type accepts only the property identifiers MQTT 5 defines for it')
    R.rule('unknown', 'a property identifier that is not handled ends in an error')
    R.rule('once', 'a property other than a user property is accepted only once per list (own counter, tested and marked on every path)')
    R.rule('counter', 'the counters of a list start at zero and are not reset while the list is read')
    R.rule('wire', 'each property is read with the wire type of the specification')
    R.rule('destination', 'each property value ends up in the field it belongs to')
    R.rule('value', 'reserved and impossible values are refused')
    R.rule('list-end', 'a property list is read exactly up to its announced end')
    R.rule('permitted', 'subscription identifiers are accepted only when enabled, and in PUBLISH only from the server a bridge connects to')
    D = dispatches(P)
    if not D:
        raise AnalysisError('no dispatch over MQTT 5 properties found')
    seen_kinds = set()
    for fid, l in sorted(D.items()):
        fn = P.fns[fid]
        R.saw(fid)
        # group by the dispatched value
        groups = {}
        for prop, t, bid, lhs in l:
            x = strip(fn, lhs)
            groups.setdefault(x.get('id') if x is not None and x['k'] == 'var' else ('b', bid), []).append((prop, t, bid, lhs))
        roots = tops(P, [fn], stop=lambda f: f.q in ANCHOR)
        kinds = [k for r in roots for k in ANCHOR.get(r.q, ())]
        if not kinds:
            if any(not r.q.startswith('MqttPacket') for r in roots) and not any(r.q in ANCHOR for r in roots):
                continue
            raise AnalysisError('property list of %s belongs to no known packet' % fn.q)
        for gid, g in sorted(groups.items(), key=str):
            props = {p for p, _, _, _ in g}
            kind = max(kinds, key=lambda k: len(props & ALLOWED[k]) - len(props - ALLOWED[k]))
            seen_kinds.add(kind)
            one_list(P, R, fn, kind, g)
    for k in ALLOWED:
        if k not in seen_kinds:
            raise AnalysisError('no property list found for %s' % k)


def one_list(P, R, fn, kind, g):
    q0 = Query(P)
    # the point where the next identifier is read
    lhs = strip(fn, g[0][3])
    if lhs is not None and lhs['k'] == 'var':
        defs = [(d[0], d[1]) for d in fn.defs().get(lhs['id'], []) if d[2] in ('init', 'asg')]
    else:
        defs = []
    goal = defs[0] if len(defs) == 1 else None
    start_of = {}
    for p, t, bid, _ in g:
        start_of.setdefault(p, []).append((t, bid))
    anyeq = lambda q, f, n, pt, ctx: n[0] == '==' and isprop(f, n[2]) and f.id == fn.id
    # unknown identifiers
    q = Query(P, cut_cond=anyeq)
    ex, again = q._walk(fn, goal or (fn.entry, -1), ROOT, False, [], goal=goal) if goal else (q.explore(fn, ROOT, False, []), False)
    if goal:
        ex, again = walk_from(q, fn, goal, goal)
    R.inst('unknown', not ex and not again, 'unknown|%s' % kind, 'unhandled identifiers in %s end in an error' % kind, fn.loc)
    for p in sorted(start_of):
        R.inst('allowed', p in ALLOWED[kind], 'allowed|%s|%s' % (kind, p), '%s in %s' % (p, kind), fn.loc)
    # counters
    def candidates(t):
        out = set()
        for f, pt, y in reach_nodes(P, fn, t, goal):
            if y['k'] == 'idx' or (y['k'] == 'call' and base_name(y.get('n', '')) in ('operator[]', 'at') and y.get('o') is not None):
                k = counter_key(q0, f, y, pt, ROOT)
                if k:
                    out.add(k)
            elif y['k'] == 'var' and not (lhs is not None and y['id'] == lhs.get('id')):
                ty = var_type(f, y['id'])
                if ty.startswith('std::array') or '[' in ty:
                    out |= {(y['id'], v) for v in range(0, 24)}
                if ty.startswith(('std::', 'std::array', 'std::map', 'std::set', 'std::unordered')) or '[' in ty or '<' in ty:
                    out.add((y['id'], 'prop'))
                if ty in ('bool', 'int', 'unsigned int', 'unsigned char', 'unsigned short', 'char', 'unsigned long', 'long') or ty.endswith('&'):
                    out.add((y['id'], None))
            elif y['k'] == 'call' and base_name(y.get('n', '')) in ('insert', 'emplace') and y.get('o') is not None:
                o = strip_ptr(f, y['o'])
                if o is not None and o['k'] == 'var':
                    out.add((o['id'], 'prop'))
        return sorted(out, key=str)
    used = {}
    for p in sorted(start_of):
        for t, bid in start_of[p]:
            loc = '%s:%s' % (fn.file, (fn.blocks[t].label or {}).get('l') or first_line(fn, t))
            if p != 'UserProperty':
                # a case that does nothing before the next round (no data consumed) cannot exist: wire rule
                keys = []
                for k in candidates(t):
                    q = Query(P, cut_cond=any_of(zero_fact(k), nosender))
                    ex, again = walk_from(q, fn, (t, -1), goal)
                    if not ex and not again:
                        keys.append(k)
                marked = [k for k in keys if is_marked(P, fn, t, goal, k)]
                R.inst('once', bool(marked), 'once|%s|%s' % (kind, p), '%s in %s only once' % (p, kind), loc)
                for k in marked[:1]:
                    if k[1] != 'prop':
                        R.inst('once', used.setdefault(k, p) == p, 'once|%s|%s|own' % (kind, p), '%s in %s has its own counter' % (p, kind), loc)
                    scope(P, R, fn, kind, k, goal)
            # wire type
            want = WIRE.get(p)
            if want:
                seqs = read_sequences(P, fn, t, goal)
                bad = [s for s in seqs if ' '.join(s) != want and not (want == 'str' and s == ('raw',)) and not (p == 'TopicAlias' and s == ())]
                R.inst('wire', not bad and bool(seqs), 'wire|%s|%s' % (kind, p), '%s in %s is read as %s' % (p, kind, want if not bad else ' '.join(bad[0]) or 'nothing'), loc)
            # destination
            d = DEST.get((kind, p))
            if d:
                dest(P, R, fn, kind, p, d, t, goal, loc)
            if p == 'UserProperty' and kind in ('CONNECT', 'will', 'PUBLISH', 'SUBSCRIBE', 'UNSUBSCRIBE', 'AUTH'):
                dest(P, R, fn, kind, p, 'Publish::addUserProperty', t, goal, loc)
            v = VALUE.get((kind, p))
            if v:
                value(P, R, fn, kind, p, v, t, goal, loc)
            if (kind, p) == ('SUBSCRIBE', 'SubscriptionIdentifier'):
                ex, again = walk_from(Query(P, cut_cond=tmem('Settings::subscriptionIdentifierEnabled', True)), fn, (t, -1), goal)
                R.inst('permitted', not ex and not again, 'permitted|subscribe', 'subscription identifiers only when enabled', loc)
            if (kind, p) == ('PUBLISH', 'SubscriptionIdentifier'):
                c = compares({'Client::getClientType', 'Client::clientType'}, ('==', 'ClientType::LocalBridge'))
                ex, again = walk_from(Query(P, cut_cond=c), fn, (t, -1), goal)
                R.inst('permitted', not ex and not again, 'permitted|publish', 'subscription identifiers in PUBLISH only from the remote server of a bridge', loc)
    # the end of the list
    pos = lambda f, x: is_mem(x, 'MqttPacket::pos')

    def bound(ops):
        def cond(q, f, n, pt, ctx):
            if n[0] in ops and pos(f, strip(f, n[1])):
                return limit(q, f, n[2], pt, ctx)
            if SWAP[n[0]] in ops and pos(f, strip(f, n[2])):
                return limit(q, f, n[1], pt, ctx)
            return False
        return cond

    def limit(q, f, x, pt, ctx):
        ss = q.sources(f, x, pt, ctx)
        return bool(ss) and all(s is not None and s['k'] == 'bin' and s['op'] == '+' and {'p', 'l'} == {'p' if is_mem(strip(ff, z), 'MqttPacket::pos') else 'l' if any(is_call(w, MP + 'decodeVariableByteIntAtPos') for _, w, _, _ in q.sources(ff, z, p2, c2)) else '?' for z in (s['a'], s['b'])} for ff, s, p2, c2 in ss)
    inhelper = goal is None
    if not inhelper:
        qc = Query(P, cut_cond=bound(('>=', '==')))
        ex, _ = walk_from(qc, fn, goal, None)
        R.inst('list-end', not ex, 'list-end|%s|complete' % kind, '%s: the list is left only at its announced end' % kind, fn.loc)
        loop = cycle_blocks(fn, goal[0])
        over = True
        for f, bid, si in sorted(qc.edges_cut, key=str):
            if f != fn.id or fn.blocks[bid].succ[si][0] in loop:
                continue
            qo = Query(P, cut_cond=bound(('<=', '==', '<')))
            if not qo.edge_cut(fn, fn.blocks[bid], si, ROOT):
                ex, _ = walk_from(qo, fn, (fn.blocks[bid].succ[si][0], -1), None)
                over = over and not ex
        R.inst('list-end', over, 'list-end|%s|overrun' % kind, '%s: a list running past its announced end is an error' % kind, fn.loc)
    else:
        R.ok('list-end', 'list of %s read by a helper' % kind, fn.loc)


def first_line(fn, bid):
    for i, x in fn.blocks[bid].elems:
        if x.get('l'):
            return x['l']
    return fn.line


def nosender(q, fn, n, pt, ctx):
    """fact: there is no client behind this packet (data that does not come from a peer)"""
    x = strip(fn, n[1])
    return n[0] == '==' and const_val(n[2]) == 0 and x is not None and x['k'] == 'var' and 'shared_ptr<Client>' in var_type(fn, x['id'])


def walk_from(q, fn, start, goal):
    return q._walk(fn, start, ROOT, False, [], goal=goal)


def is_marked(P, fn, t, goal, key):
    """every path from the case to the next identifier marks the counter"""
    q0 = Query(P)
    if key[1] == 'prop':
        pass

    def touches(f, y):
        if y['k'] == 'un' and y['op'] in ('++', 'post++'):
            k = counter_key(q0, f, y['e'], points(f)[id(y)], ROOT)
            return k is not None and (k == key or f.id != fn.id)
        ap = asg_parts(f, y)
        if ap:
            k = counter_key(q0, f, ap[0], points(f)[id(y)], ROOT)
            v = const_val(strip(f, ap[1]))
            return k is not None and (k == key or f.id != fn.id) and (ap[2] == '+=' or ap[2] == '|=' or (v is not None and v != 0))
        if y['k'] == 'call' and base_name(y.get('n', '')) in ('insert', 'emplace') and key[1] == 'prop':
            o = strip_ptr(f, y['o']) if y.get('o') is not None else None
            return o is not None and o['k'] == 'var' and (o['id'] == key[0] or f.id != fn.id)
        return False
    callees = {t2.id for t2, y, how in P.callees(fn) if how == 'call'}
    q = Query(P, cut_cond=nosender, cut_node=lambda f, y, q: (f.id == fn.id or f.id in callees) and touches(f, y))
    ex, again = walk_from(q, fn, (t, -1), goal)
    return not ex and not again


def scope(P, R, fn, kind, key, goal):
    """the counter variable is initialised to zero and not reset between two identifiers"""
    loop = cycle_blocks(fn, goal[0]) if goal else set()
    reset = None; zero = False
    for b, i, y in fn.nodes():
        if y['k'] == 'decl':
            for v in y['d']:
                if v['id'] == key[0]:
                    raw = fn.deref(v.get('e')) if v.get('e') is not None else None
                    e = strip(fn, raw)
                    if raw is not None and (raw['k'] == 'init' or const_val(e) == 0 or not (raw['k'] == 'ctor' and v['t'].startswith('std::array'))):
                        zero = True
                    if v['t'].endswith('&') :
                        zero = True
                    if b.id in loop and not v['t'].endswith('&'):
                        reset = y
        elif y['k'] == 'call' and base_name(y.get('n', '')) in ('fill', 'clear', 'reset') and y.get('o') is not None:
            o = strip_ptr(fn, y['o'])
            if o is not None and o.get('id') == key[0]:
                zero = zero or base_name(y['n']) != 'fill' or const_val(strip(fn, arg(y, 0))) == 0
                if b.id in loop:
                    reset = y
        else:
            ap = asg_parts(fn, y)
            if ap and ap[0] is not None and ap[2] == '=' and (ap[0].get('id') == key[0]) and b.id in loop and key[1] is not None:
                reset = y
    if key[0] in [p['id'] for p in fn.params]:
        zero = True
    R.inst('counter', zero and reset is None, 'counter|%s' % kind, 'counters of %s start at zero and are not reset in the loop' % kind, fn.loc)
    t = var_type(fn, key[0])
    if t.startswith('std::array<') and isinstance(key[1], int):
        size = int(t.rstrip('> &').rsplit(',', 1)[1])
        R.inst('counter', key[1] < size, 'counter|%s|size' % kind, 'counter %s[%d] of %d' % (kind, key[1], size), fn.loc)


def read_sequences(P, fn, t, goal):
    out = set()
    goalnode = None
    if goal:
        i, x = fn.blocks[goal[0]].elems[goal[1]]
        goalnode = x

    def event(f, y):
        if goalnode is not None and y is goalnode:
            return ('stop',)
        if y['k'] == 'call' and y.get('n') in READ:
            return ('r', READ[y['n']])
        return None

    def step(s, sym):
        if sym[0] == 'stop':
            out.add(s); return None
        if len(s) > 4:
            return None
        return s + (sym[1],)
    # the loop condition may be evaluated before the next identifier; the identifier read itself precedes the declaration
    A = Automaton(P, event, step)
    ex = A.walk(fn, (t, 0), {()})
    # the read of the next identifier is part of the sequence that reached the goal
    res = set()
    for s in out:
        res.add(s[:-1] if s and s[-1] == 'byte' else s)
    inloop = goal is not None
    if not inloop:
        res |= ex
    return res


def dest(P, R, fn, kind, p, d, t, goal, loc):
    ismember = lambda f, y: (asg_parts(f, y) is not None and is_mem(strip_ptr(f, asg_parts(f, y)[0]), d)) or (y['k'] == 'call' and y.get('n') == d) or \
        (y['k'] == 'call' and base_name(y.get('n', '')) in ('emplace', 'assign') and y.get('o') is not None and is_mem(strip_ptr(f, y['o']), d))
    q = Query(P, cut_node=lambda f, y, q: ismember(f, y))
    ex, again = walk_from(q, fn, (t, -1), goal)
    R.inst('destination', not ex and not again, 'destination|%s|%s' % (kind, p), '%s of %s goes to %s' % (p, kind, d), loc)
    # the value comes from the packet; only capping by std::min may change it
    q0 = Query(P)
    for f, pt, y in reach_nodes(P, fn, t, goal):
        if not ismember(f, y):
            continue
        vals = [asg_parts(f, y)[1]] if asg_parts(f, y) else y.get('a', [])
        okv = True
        for n, v in enumerate(vals):
            okv = okv and v is not None and from_read(q0, f, v, pt)
        if d == 'Publish::addUserProperty' and len(vals) == 2:
            a, b = [[s for _, s, _, _ in q0.sources(f, v, pt, ROOT)] for v in vals]
            if a and b and a[0] is not None and b[0] is not None and a[0].get('n') in READ and b[0].get('n') in READ:
                okv = okv and ordered(f, a[0], b[0], goal)
        R.inst('destination', okv, 'destination|%s|%s|value' % (kind, p), 'value of %s in %s comes from the packet' % (p, kind), line_of(f, y))


def ordered(fn, a, b, goal):
    """call a is evaluated before call b"""
    pa, pb = points(fn).get(id(a)), points(fn).get(id(b))
    if pa is None or pb is None:
        return False
    if pa[0] == pb[0]:
        return pa[1] < pb[1]
    q = [pb[0]]; seen = set()
    while q:
        x = q.pop()
        for p, k in fn.blocks[x].preds:
            if p == pa[0]:
                return True
            if p not in seen and p != pb[0] and not (goal and p == goal[0]):
                seen.add(p); q.append(p)
    return False


def from_read(q, fn, x, pt, depth=0, only=None, ctx=ROOT):
    if depth > 6:
        return False
    ss = q.sources(fn, x, pt, ctx)
    if only is not None and not any(s is not None and const_val(s) is None for _, s, _, _ in ss):
        return False
    for f, s, p, c in ss:
        if s is None:
            return False
        if s['k'] == 'call' and s.get('n') in READ and (only is None or id(s) in only):
            continue
        if const_val(s) is not None and only is not None:
            continue
        if s['k'] == 'call' and s.get('n') in ('std::min', 'std::max'):
            if any(from_read(q, f, a, p, depth + 1, only, c) for a in s['a']):
                continue
            return False
        if s['k'] in ('cast', 'ctor', 'init') and s.get('a'):
            if from_read(q, f, s['a'][0], p, depth + 1, only, c):
                continue
            return False
        if s['k'] == 'bin' and any(from_read(q, f, a, p, depth + 1, only, c) for a in (s['a'], s['b'])):
            continue
        if s['k'] == 'un' and s['op'] == '!' and from_read(q, f, s['e'], p, depth + 1, only, c):
            continue
        return False
    return bool(ss)


def reach_nodes(P, fn, t, goal):
    """nodes reachable from block t before the goal point (same function)"""
    seen = set(); st = [(t, 0)]
    while st:
        bid, i0 = st.pop()
        b = fn.blocks[bid]
        stop = False
        for idx in range(i0, len(b.elems)):
            if goal == (bid, idx):
                stop = True; break
            for y in fn.walk(b.elems[idx][1]):
                yield fn, (bid, idx), y
        if stop:
            continue
        for s, k in b.succ:
            if s is not None and k == 'n' and s not in seen and not leaves(fn, t, bid, s, goal):
                seen.add(s); st.append((s, 0))


def leaves(fn, t, bid, s, goal):
    """do not follow the path out of the loop: only the case body is of interest"""
    if goal is None:
        return False
    return s not in cycle_blocks(fn, goal[0])


def value(P, R, fn, kind, p, v, t, goal, loc):
    q0 = Query(P)
    if v == 'nonempty':
        d = DEST[(kind, p)]

        def cond(q, f, n, pt, ctx):
            x = strip(f, n[1]); c = const_val(n[2])
            if x is None or x['k'] != 'call' or x.get('o') is None:
                return False
            nm = base_name(x.get('n', ''))
            o = strip_ptr(f, x['o'])
            ok = is_mem(o, d) or any(s is not None and s['k'] == 'call' and s.get('n') in READ for _, s, _, _ in q.sources(f, o, pt, ctx))
            return ok and ((nm == 'empty' and (n[0], c) in (('==', 0), ('!=', 1))) or (nm in ('size', 'length') and (n[0], c) in NZ))
        what = '%s of %s may not be empty' % (p, kind)
    else:
        d = DEST.get((kind, p))

        def cond(q, f, n, pt, ctx):
            if (n[0], const_val(n[2])) not in v:
                return False
            x = strip(f, n[1])
            if d and is_mem(x, d):
                return True
            return x is not None and from_read(q, f, x, pt, 0, mine, ctx)
        mine = {id(y) for f, pt, y in reach_nodes(P, fn, t, goal)}
        what = '%s of %s is checked' % (p, kind)
    ex, _ = walk_from(Query(P, cut_cond=any_of(cond, nosender)), fn, (t, -1), None)
    if goal is None and ex:
        pass
    R.inst('value', not ex, 'value|%s|%s' % (kind, p), what, loc)
