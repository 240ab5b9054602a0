"""Sending side of QoS 1 and 2: stored until acknowledged, sent again on reconnect."""
from core.rules import *
from checks.c11 import must, reaches, param0, on_mem, steps, each, index_ok

Q = 'Session::QoSData::'
QB = 'QoSPublishQueue::'
WR = ('Client::writeMqttPacketAndBlameThisClient', 'Client::writeMqttPacket')
HEAD, TAIL, MAP, BYTES, EXP = (QB + n for n in ('head', 'tail', 'queue', 'qosQueueBytes', 'queueExpirations'))
NEXT, PREV = 'QueuedPublish::next', 'QueuedPublish::prev'
QUEUE = (Q + 'queuePublish', QB + 'queuePublish')


def check(P, R):
    R.rule('stored', 'a QoS message for a session that outlives the connection is queued before it is written or the client is found offline')
    R.rule('written', 'a message that passed the checks is written to a connected client, with the QoS, identifier and options it was queued with')
    R.rule('limit', 'a QoS message is dropped exactly when the byte limit is reached with messages queued, or no identifier is free')
    R.rule('ack', 'a message leaves the queue only when acknowledged, expired, denied or beyond the quota')
    R.rule('list', 'the queue keeps its messages in order, its byte count and its expirations complete')
    R.rule('resend', 'on reconnect every queued message is sent again in order, with its QoS and identifier, unless expired, denied or beyond the quota')
    R.rule('pubrel', 'on reconnect PUBREL is sent for every identifier that awaits PUBCOMP')
    R.rule('reconnect', 'sending again happens at every accepted connection, after CONNACK')
    R.rule('copy', 'the queued message is a copy with the effective QoS, retain flag and subscription identifier')
    write(P, R)
    removal(P, R)
    queue(P, R)
    resend(P, R)
    copies(P, R)


def label(fn, y):
    return base_name(y['n']) if y.get('n') else y['k']


def write(P, R):
    w = P.one('Session::writePacket')
    R.saw(w.id)
    par = {p['n']: p['id'] for p in w.params}
    isq = lambda q, fn, x, pt, ctx: (lambda ss: bool(ss) and all(is_call(s, 'PublishCopyFactory::getEffectiveQos') for _, s, _, _ in ss))(q.sources(fn, x, pt, ctx))
    q0 = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) in (('==', 0), ('<=', 0), ('<', 1)) and isq(q, fn, n[1], pt, ctx)
    gets = (Q + 'getNextPacketId', 'Session::getNextPacketIdLocked')

    def has_id(pol):
        def c(q, fn, n, pt, ctx):
            if (n[0], const_val(n[2])) not in ((('!=', 0), ('==', 1)) if pol else (('==', 0), ('!=', 1))):
                return False
            ss = q.sources(fn, n[1], pt, ctx)
            got = [s for _, s, _, _ in ss if is_call(s, *gets)]
            rest = [s for _, s, _, _ in ss if not is_call(s, *gets)]
            return (bool(got) or not pol and False) and all(empty(s) for s in rest)
        return c

    def empty(s):
        return s is None or s['k'] in ('uninit',) or (s['k'] in ('ctor', 'initlist') and not s.get('a')) or (s['k'] == 'gvar' and s['n'].endswith('nullopt')) or (s['k'] == 'ctor' and all(a is not None and a['k'] in ('gvar',) for a in s['a']))
    dod = any_of(tmem('Session::destroyOnDisconnect', True), tcall('Session::getDestroyOnDisconnect', True))
    keeps = any_of(tmem('Session::destroyOnDisconnect', False), tcall('Session::getDestroyOnDisconnect', False))
    queued = lambda fn, y, q=None: is_call(y, *QUEUE)
    wr = lambda fn, y: is_call(y, *WR)

    def offline(fn, y):
        return y['k'] == 'ret' and fn.id == w.id and (enum_name(strip(fn, y['e'])) or '') == 'PacketDropReason::ClientOffline'
    tgt = lambda fn, y: wr(fn, y) or offline(fn, y)
    guarded(P, R, 'stored', [w], tgt, cut_cond=any_of(q0, dod), cut_node=queued, what='queued (or QoS 0, or the session ends with the connection)', key='queued', label=label, minimum=2, eh=False, enter=lambda t: t.cls == 'Session')
    guarded(P, R, 'stored', [w], tgt, cut_cond=any_of(q0, has_id(True)), what='an identifier was obtained (or QoS 0)', key='id', label=label, minimum=2, eh=False, enter=lambda t: t.cls == 'Session')
    # every call that stores
    qs = [(f, b, i, y) for f, b, i, y in sites_of(P, lambda fn, y: queued(fn, y) and fn.cls == 'Session')]
    R.inst('stored', bool(qs), 'stored|site', 'messages are queued', w.loc)
    eff_id = lambda f, x, pt: all(s is not None and (is_call(s, *gets) or empty(s) or (s['k'] == 'call' and base_name(s.get('n', '')) in ('value', 'operator*', 'value_or') and all(is_call(s2, *gets) or empty(s2) for _, s2, _, _ in Query(P).sources(f, s['o'], pt, ROOT)))) for _, s, _, _ in Query(P).sources(f, x, pt, ROOT))
    subid = lambda f, s: s['k'] == 'var' and s['id'] == w.params[3]['id']
    for f, b, i, y in qs:
        a = y['a']; pt = (b.id, i); loc = line_of(f, y)
        if f.id != w.id or len(a) != 6:
            R.bad('stored', 'stored|form|' + f.q, 'queueing of a message not recognised', loc); continue
        R.inst('stored', eff_id(f, a[1], pt), 'stored|arg|id', 'queued with the identifier obtained', loc)
        R.inst('stored', arg_is(P, f, a[2], pt, lambda g, s: is_call(s, 'PublishCopyFactory::getEffectiveQos')), 'stored|arg|qos', 'queued with the effective QoS', loc)
        R.inst('stored', arg_is(P, f, a[3], pt, lambda g, s: is_call(s, 'PublishCopyFactory::getEffectiveRetain')), 'stored|arg|retain', 'queued with the effective retain flag', loc)
        R.inst('stored', arg_is(P, f, a[4], pt, subid), 'stored|arg|subid', 'queued with the subscription identifier', loc)
    ws = [(f, b, i, y) for f, b, i, y in sites_of(P, lambda fn, y: fn.id == w.id and is_call(y, WR[0]))]
    R.inst('written', bool(ws), 'written|site', 'messages are written', w.loc)
    for f, b, i, y in ws:
        a = y['a']; pt = (b.id, i); loc = line_of(f, y)
        if len(a) < 6:
            R.bad('written', 'written|form', 'writing of a message not recognised', loc); continue
        R.inst('written', arg_is(P, f, a[1], pt, lambda g, s: is_call(s, 'PublishCopyFactory::getEffectiveQos')), 'written|qos', 'written with the effective QoS', loc)
        R.inst('written', eff_id(f, a[2], pt), 'written|id', 'written with the identifier obtained', loc)
        R.inst('written', arg_is(P, f, a[4], pt, subid), 'written|subid', 'written with the subscription identifier', loc)
        R.inst('written', arg_is(P, f, a[3], pt, lambda g, s: is_call(s, 'PublishCopyFactory::getEffectiveRetain') or const_val(s) == 0), 'written|retain', 'written with the effective retain flag', loc)
        avail = tcall('Client::isRetainedAvailable', True)
        na = tcall('Client::isRetainedAvailable', False)
        for ff, s, p, c in Query(P).sources(f, a[3], pt, ROOT):
            if const_val(s) == 0:
                R.inst('written', not reaches(P, f, (f.entry, -1), [p], cond=na) or valued(P, f, a[3], pt, 0, any_of(na, lambda *z: False)), 'written|noretain', 'the flag is removed only for receivers without retained messages', loc)
        for q, (g2, b2, i2, y2) in [(None, z) for z in qs]:
            R.inst('written', show(f, a[5]) == show(g2, y2['a'][5]) if len(y2['a']) == 6 else False, 'written|override', 'written under the topic it is queued with', loc)
    # a message that passes is written or the client is offline
    dropq = lambda fn, y, q=None: y['k'] == 'ret' and fn.id == w.id and (enum_name(strip(fn, y['e'])) or '').startswith('PacketDropReason::')
    nocl = truth(lambda q, fn, x: x['k'] == 'var' and any(is_call(s, 'Session::makeSharedClient') for _, s, _, _ in q.sources(fn, x, points(fn).get(id(x), (fn.exit, 0)), ROOT)), False)

    def noclient(q, fn, n, pt, ctx):
        if (n[0], const_val(n[2])) not in (('==', 0), ('!=', 1)):
            return False
        ss = q.sources(fn, n[1], pt, ctx)
        return bool(ss) and all(is_call(s, 'Session::makeSharedClient') or (s is not None and s['k'] == 'call' and base_name(s.get('n', '')) == 'lock' and has_mem(f, s['o'], 'Session::client')) for f, s, _, _ in ss)
    denied = lambda q, fn, n, pt, ctx: n[0] == '!=' and enum_name(n[2]) == 'AuthResult::success' or (n[0] == '==' and (enum_name(n[2]) or '').startswith('AuthResult::') and enum_name(n[2]) != 'AuthResult::success')
    must(P, R, 'written', w, lambda fn, y, q: wr(fn, y), 'reached', 'written unless denied, without identifier or offline', cond=any_of(denied, noclient, has_id(False)))
    # ---- limit
    mx = 'Settings::maxQosBytesPendingPerClient'
    byt = {Q + 'getQueuedByteSize', QB + 'getByteSize'}; cnt = {Q + 'getQueuedCount', QB + 'size'}

    def rel(ok):
        def c(q, fn, n, pt, ctx):
            s1 = [s for _, s, _, _ in q.sources(fn, n[1], pt, ctx)]; s2 = [s for _, s, _, _ in q.sources(fn, n[2], pt, ctx)]
            if all(is_call(s, *byt) for s in s1) and s1 and all(is_mem(s, mx) for s in s2) and s2:
                return n[0] in ok
            if all(is_call(s, *byt) for s in s2) and s2 and all(is_mem(s, mx) for s in s1) and s1:
                return SWAP[n[0]] in ok
            return False
        return c
    less = rel(('<', '<=')); more = rel(('>=', '>'))
    nil = compares(cnt, ('==', 0), ('<', 1), ('<=', 0)); some = compares(cnt, ('!=', 0), ('>', 0), ('>=', 1))
    get = lambda fn, y: is_call(y, *gets)
    guarded(P, R, 'limit', [w], get, cut_cond=any_of(less, nil), what='below the byte limit (or nothing queued)', key='bytes', label=label, eh=False, enter=lambda t: t.cls == 'Session')
    drop = [(b.id, i, y) for b, i, y in w.nodes() if y['k'] == 'ret' and (enum_name(strip(w, y['e'])) or '') == 'PacketDropReason::QoSTODOSomethingSomething']
    for bid, i, y in drop:
        R.inst('limit', not reaches(P, w, (w.entry, -1), [(bid, i)], cond=has_id(False)), 'limit|noid', 'dropped only without identifier', line_of(w, y))
        for c, k, t in ((more, 'full', 'bytes are at the limit'), (some, 'count', 'something is queued')):
            R.inst('limit', not reaches(P, w, (w.entry, -1), [(bid, i)], cond=c, node=lambda fn, z, q: get(fn, z)), 'limit|' + k, 'no identifier is asked for only when %s' % t, line_of(w, y))
        R.inst('limit', not reaches(P, w, (w.entry, -1), [(bid, i)], cond=lambda q, fn, n, pt, ctx: n[0] in ('>', '!=') and const_val(n[2]) == 0 and isq(q, fn, n[1], pt, ctx) or n[0] == '>=' and const_val(n[2]) == 1 and isq(q, fn, n[1], pt, ctx)), 'limit|qos0', 'QoS 0 is not dropped for it', line_of(w, y))
    for nm, fld, inner in ((Q + 'getQueuedByteSize', BYTES, QB + 'getByteSize'), (Q + 'getQueuedCount', MAP, QB + 'size')):
        f = P.one(nm); g = P.one(inner)
        for b, i, y in f.nodes():
            if y['k'] == 'ret':
                R.inst('limit', arg_is(P, f, y['e'], (b.id, i), lambda h, s: is_call(s, inner)), 'limit|' + nm, 'the count of the queue', line_of(f, y))
        for b, i, y in g.nodes():
            if y['k'] == 'ret':
                R.inst('limit', arg_is(P, g, y['e'], (b.id, i), lambda h, s: is_mem(s, fld) or (s['k'] == 'call' and s.get('o') is not None and base_name(s['n']) == 'size' and has_mem(h, s['o'], fld))), 'limit|' + inner, 'the count of the queue', line_of(g, y))


def removal(P, R):
    er = calls_to(Q + 'eraseQueuedPublish', QB + 'erase')
    allowed = {'Session::clearQosMessage': None, 'Session::sendAllPendingQosData': None}
    for f, b, i, y in sites_of(P, lambda fn, y: is_call(y, Q + 'eraseQueuedPublish', QB + 'erase')):
        tp = tops(P, [f], stop=lambda h: h.q in allowed)
        R.inst('ack', all(t.q in allowed for t in tp), 'ack|site|' + f.q, 'a message is removed by %s' % f.q, line_of(f, y))
    e = P.one(Q + 'eraseQueuedPublish')
    must(P, R, 'ack', e, lambda fn, y, q: is_call(y, QB + 'erase') and param0(fn, y['a'][0], None), 'erase', 'the message with the identifier is removed')
    for b, i, y in e.nodes():
        if y['k'] == 'ret':
            R.inst('ack', arg_is(P, e, y['e'], (b.id, i), lambda f, s: is_call(s, QB + 'erase')), 'ack|erased', 'it is told whether it was there', line_of(e, y))
    for f in P.fns.values():
        if f.cls == 'QoSPublishQueue' or f.q.startswith(Q):
            continue
        for b, i, y in f.nodes():
            if any(has_mem(f, o, n) for o in mutated(P, f, y) for n in (MAP, HEAD, TAIL, BYTES, NEXT, PREV)):
                R.bad('ack', 'ack|writer|' + f.q, 'the queue is changed by %s' % f.q, line_of(f, y))


def member(P, st, pol, key=None):
    """membership of the map by find"""
    def c(q, fn, n, pt, ctx):
        if n[0] != ('!=' if pol else '=='):
            x = strip(fn, n[1])
            if x is not None and x['k'] == 'call' and on_mem(st, 'count', 'contains', 'erase')(fn, x):
                v = const_val(n[2])
                return (n[0], v) in ((('>', 0), ('>=', 1)) if pol else (('<', 1), ('<=', 0)))
            return False
        x = strip(fn, n[1])
        if x is not None and x['k'] == 'call' and on_mem(st, 'count', 'contains')(fn, x):
            return const_val(n[2]) == 0
        fi = lambda z: any(s is not None and on_mem(st, 'find')(f, s) for f, s, _, _ in q.sources(fn, z, pt, ctx))
        en = lambda z: any(s is not None and on_mem(st, 'end', 'cend')(f, s) for f, s, _, _ in q.sources(fn, z, pt, ctx))
        return (fi(n[1]) and en(n[2])) or (fi(n[2]) and en(n[1]))
    return c


def queue(P, R):
    er = P.one(QB + 'erase'); rl = P.one(QB + 'eraseFromMapAndRelinkList'); sub = P.one(QB + 'subtractQoSBytes')
    add = P.one(QB + 'addToHeadOfLinkedList'); ex = P.one(QB + 'addToExpirationQueue'); cl = P.one(QB + 'clearExpiredMessages')
    absent, there = member(P, MAP, False), member(P, MAP, True)
    must(P, R, 'list', er, lambda fn, y, q: is_call(y, rl.q), 'erase|unlink', 'a message found is unlinked', cond=absent)
    must(P, R, 'list', er, lambda fn, y, q: is_call(y, sub.q), 'erase|bytes', 'and its bytes subtracted', cond=absent)
    for b, i, y in er.nodes():
        if is_call(y, rl.q, sub.q):
            R.inst('list', not reaches(P, er, (er.entry, -1), [(b.id, i)], cond=there), 'list|erase|found|' + base_name(y['n']), 'only when found', line_of(er, y))
        if is_call(y, rl.q):
            R.inst('list', not any(is_call(z, sub.q) and Query(P)._plain_reach(er, (b.id, i), (b2.id, i2), ()) for b2, i2, z in er.nodes()), 'list|erase|order', 'bytes are subtracted before the message is gone', line_of(er, y))
        if y['k'] == 'ret':
            cv = const_val(strip(er, y['e']))
            R.inst('list', (not reaches(P, er, (er.entry, -1), [(b.id, i)], cond=there if cv else absent)) if cv is not None else (Query(P, cut_cond=there).implies(er, y['e'], True, (b.id, i), ROOT) and Query(P, cut_cond=absent).implies(er, y['e'], False, (b.id, i), ROOT)), 'list|erase|answer', 'it is told whether the message was there', line_of(er, y))
        if y['k'] == 'call' and on_mem(MAP, 'find', 'count', 'contains')(er, y):
            R.inst('list', param0(er, y['a'][0], None), 'list|erase|key', 'the identifier is looked up', line_of(er, y))
    # only what has expired is unlinked by the expiry walk
    def due(q, fn, n, pt, ctx):
        e = lambda x: any(z['k'] == 'mem' and base_name(z.get('n') or '') == 'first' for z in fn.walk(x, True))
        t = lambda x: any(is_call(z, 'std::chrono::steady_clock::now', 'std::chrono::_V2::steady_clock::now') for _, s2, _, _ in q.sources(fn, x, pt, ctx) for z in fn.walk(s2, True))
        o = n[0]
        return (e(n[1]) and t(n[2]) and o in ('<', '<=')) or (e(n[2]) and t(n[1]) and o in ('>', '>='))
    for b, i, y in cl.nodes():
        if is_call(y, rl.q):
            q = Query(P, cut_cond=due, eh=False)
            R.inst('list', not q.reach_point(cl, (cl.entry, -1), (b.id, i), ROOT, None) and not q.reach_point(cl, (b.id, i), (b.id, i), ROOT, None), 'list|expire|due', 'only a message whose time has passed is removed', line_of(cl, y))
    # byte count: added on queueing, subtracted on removal
    fp = 'QueuedPublish::getApproximateMemoryFootprint'
    bys = lambda op: (lambda fn, y, q=None: asg_parts(fn, y) is not None and is_mem(asg_parts(fn, y)[0], BYTES) and bybytes(fn, y, op))

    def bybytes(fn, y, op):
        d, v, o = asg_parts(fn, y)
        p = points(fn).get(id(y))
        if o == op + '=':
            return arg_is(P, fn, v, p, lambda f, s: is_call(s, fp))
        x = strip(fn, v)
        return o == '=' and x is not None and x['k'] == 'bin' and x['op'] == op and is_mem(strip(fn, x['a']), BYTES) and arg_is(P, fn, x['b'], p, lambda f, s: is_call(s, fp))
    null = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) == ('==', 0) and param0(fn, n[1], None)
    must(P, R, 'list', sub, bys('-'), 'bytes|subtract', 'the bytes of the message are subtracted', cond=null)
    neg = lambda q, fn, n, pt, ctx: n[0] in ('<', '<=') and const_val(n[2]) == 0 and is_mem(strip(fn, n[1]), BYTES)
    for f, b, i, y in sites_of(P, lambda fn, y: any(is_mem(o, BYTES) for o in mutated(P, fn, y))):
        if f.q in (QB + 'operator=', QB + 'QoSPublishQueue') or f.q == QB + 'recalculateQosQueueBytes':
            continue
        ok = bys('+')(f, y) or bys('-')(f, y)
        if not ok and asg_parts(f, y) and const_val(strip(f, asg_parts(f, y)[1])) == 0:
            ok = not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=neg)
        R.inst('list', ok, 'list|bytes|' + f.q, 'the byte count changes by the size of the message', line_of(f, y))
    R.inst('list', not P.callers(P.one(QB + 'recalculateQosQueueBytes')) if P.byq.get(QB + 'recalculateQosQueueBytes') else True, 'list|recalc', 'the byte count is not recalculated elsewhere', sub.loc)
    mf = P.one(fp)
    R.inst('list', not any(any(o is not None and o['k'] == 'mem' for o in mutated(P, mf, y)) for b, i, y in mf.nodes()), 'list|footprint', 'the size of a message is a function of the message', mf.loc)
    qp = P.byq.get(QB + 'queuePublish', [])
    if len(qp) < 2:
        raise AnalysisError('queueing functions not found')
    for f in qp:
        idp = [p for p in f.params if p['n'] == 'id' or 'short' in p['t']]
        k = f.params.index(idp[0])
        new = lambda fn, s: s is not None and s['k'] == 'call' and s.get('n') in ('std::make_shared',) or (s is not None and s['k'] in ('ctor', 'new'))
        tag = str(len(f.params))
        for nd, key, what in ((lambda fn, y, q: is_call(y, add.q), 'linked', 'a queued message is linked'), (bys('+'), 'bytes', 'its bytes are added'), (lambda fn, y, q: is_call(y, ex.q), 'expiry', 'its expiration is registered'),
                              (lambda fn, y, q: mapset(P, fn, y, k), 'map', 'it is found by its identifier')):
            must(P, R, 'list', f, nd, 'queue|%s|%s' % (key, tag), what)
        mk = [(b.id, i, y) for b, i, y in f.nodes() if y['k'] == 'call' and y.get('n') == 'std::make_shared']
        R.inst('list', len(mk) == 1 and all(param0(f, y['a'][1], None, k) for _, _, y in mk), 'list|queue|id|' + tag, 'it carries the identifier', f.loc)
    # constructor of the entry
    ct = [f for f in P.byq.get('QueuedPublish::QueuedPublish', []) if len(f.params) == 3]
    for c in ct:
        ini = {y['n']: y['e'] for b, i, y in c.nodes() if y['k'] == 'minit' and y.get('n')}
        for n, k in (('QueuedPublish::publish', 0), ('QueuedPublish::packet_id', 1), ('QueuedPublish::topic_override', 2)):
            e = ini.get(n)
            R.inst('list', e is not None and any(z['k'] == 'var' and z['id'] == c.params[k]['id'] for z in c.walk(e, True)), 'list|entry|' + n, '%s is the value given' % base_name(n), c.loc)
    for nm, m in (('getPacketId', 'packet_id'), ('getPublish', 'publish'), ('getTopicOverride', 'topic_override')):
        g = P.one('QueuedPublish::' + nm)
        for b, i, y in g.nodes():
            if y['k'] == 'ret':
                R.inst('list', is_mem(strip(g, y['e']), 'QueuedPublish::' + m), 'list|get|' + nm, '%s answers %s' % (nm, m), line_of(g, y))
    # expiration
    noexp = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) == ('==', 0) and (param0(fn, n[1], None) or any(s is not None and s['k'] == 'mem' and base_name(s['n']) == 'expireInfo' for _, s, _, _ in q.sources(fn, n[1], pt, ctx)) or any(is_call(s, 'PublishBase::expiresAt', 'Publish::expiresAt') for _, s, _, _ in q.sources(fn, n[1], pt, ctx)))
    must(P, R, 'list', ex, lambda fn, y, q: on_mem(EXP, 'emplace', 'insert')(fn, y), 'expiry', 'a message that expires is registered', cond=noexp)
    # linking
    asgn = lambda dst, src: (lambda fn, y, q=None: asg_parts(fn, y) is not None and dst(fn, asg_parts(fn, y)[0]) and src(fn, asg_parts(fn, y)[1], points(fn).get(id(y))))
    mem = lambda n: (lambda fn, x, *a: is_mem(strip_ptr(fn, x), n))
    parm = lambda fn, x, *a: param0(fn, strip_ptr(fn, x), None)
    headnull = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) == ('==', 0) and is_mem(strip_ptr(fn, n[1]), HEAD)
    tailset = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) == ('!=', 0) and is_mem(strip_ptr(fn, n[1]), TAIL)
    via = lambda base, f2: (lambda fn, x, *a: (lambda s: s is not None and s['k'] == 'mem' and s['n'] == f2 and base(fn, s['b']))(strip_ptr(fn, x)))
    h1 = asgn(via(parm, PREV), mem(HEAD)); h2 = asgn(via(mem(HEAD), NEXT), parm); h3 = asgn(mem(HEAD), parm); h4 = asgn(mem(TAIL), parm)
    must(P, R, 'list', add, h1, 'add|prev', 'the new message follows the newest')
    must(P, R, 'list', add, h2, 'add|next', 'the newest is followed by the new message', cond=headnull)
    must(P, R, 'list', add, h3, 'add|head', 'the new message is the newest')
    must(P, R, 'list', add, h4, 'add|tail', 'the first message is also the oldest', cond=tailset)
    for b, i, y in add.nodes():
        if h3(add, y):
            R.inst('list', not any((h1(add, z) or h2(add, z)) and Query(P)._plain_reach(add, (b.id, i), (b2.id, i2), ()) for b2, i2, z in add.nodes()), 'list|add|order', 'links are made before the newest changes', line_of(add, y))
        if h4(add, y):
            R.inst('list', not reaches(P, add, (add.entry, -1), [(b.id, i)], cond=lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) == ('==', 0) and is_mem(strip_ptr(fn, n[1]), TAIL)), 'list|add|tailonly', 'the oldest is set only when there was none', line_of(add, y))
        ap = asg_parts(add, y)
        if ap and is_mem(strip_ptr(add, ap[0]), NEXT) and is_mem(strip_ptr(add, ap[0]), HEAD) is False and not h2(add, y):
            R.bad('list', 'list|add|other', 'unexpected link', line_of(add, y))
    # unlinking: neighbours joined, ends moved, map entry gone
    lockof = lambda fld: (lambda fn, x, *a: any_lock(P, fn, x, fld))
    field_of_entry = lambda fld: (lambda fn, x, *a: (lambda s: s is not None and s['k'] == 'mem' and s['n'] == fld and not any_lock(P, fn, s['b'], NEXT) and not any_lock(P, fn, s['b'], PREV))(strip_ptr(fn, x)) or any_lock(P, fn, x, fld))
    nbr = lambda through, fld: (lambda fn, x, *a: (lambda s: s is not None and s['k'] == 'mem' and s['n'] == fld and any_lock(P, fn, s['b'], through))(strip_ptr(fn, x)))
    nolock = lambda fld: (lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) == ('==', 0) and any_lock(P, fn, n[1], fld))
    notend = lambda end: (lambda q, fn, n, pt, ctx: n[0] == '!=' and (is_mem(strip_ptr(fn, n[1]), end) or is_mem(strip_ptr(fn, n[2]), end)))
    isend = lambda end: (lambda q, fn, n, pt, ctx: n[0] == '==' and (is_mem(strip_ptr(fn, n[1]), end) or is_mem(strip_ptr(fn, n[2]), end)) and const_val(n[2]) is None)
    acts = ((asgn(nbr(PREV, NEXT), field_of_entry(NEXT)), nolock(PREV), 'prev', 'the message before is joined to the one after', None),
            (asgn(nbr(NEXT, PREV), field_of_entry(PREV)), nolock(NEXT), 'next', 'the message after is joined to the one before', None),
            (asgn(mem(HEAD), lockof(PREV)), notend(HEAD), 'head', 'the newest becomes the one before', HEAD),
            (asgn(mem(TAIL), lockof(NEXT)), notend(TAIL), 'tail', 'the oldest becomes the one after', TAIL))
    gone = lambda fn, y, q=None: on_mem(MAP, 'erase')(fn, y) and param0(fn, y['a'][0], None)
    must(P, R, 'list', rl, gone, 'unlink|map', 'the message is no longer found')
    for nd, c, k, what, end in acts:
        must(P, R, 'list', rl, nd, 'unlink|' + k, what, cond=c)
        for b, i, y in rl.nodes():
            if nd(rl, y):
                R.inst('list', not any(gone(rl, z) and Query(P)._plain_reach(rl, (b2.id, i2), (b.id, i), ()) for b2, i2, z in rl.nodes()), 'list|unlink|order|' + k, 'before the message is gone', line_of(rl, y))
                if end:
                    R.inst('list', not reaches(P, rl, (rl.entry, -1), [(b.id, i)], cond=isend(end)), 'list|unlink|only|' + k, 'only when it was at that end', line_of(rl, y))
    for b, i, y in rl.nodes():
        ap = asg_parts(rl, y)
        if ap and any(is_mem(strip_ptr(rl, ap[0]), n) for n in (HEAD, TAIL, NEXT, PREV)) and not any(a[0](rl, y) for a in acts):
            R.bad('list', 'list|unlink|other', 'unexpected link', line_of(rl, y))
    # expired: removed with bytes and link, reported
    push = lambda fn, y, q=None: y['k'] == 'call' and y.get('o') is not None and base_name(y['n']) in ('push_back', 'emplace_back') and fn.id == cl.id
    rms = [(b.id, i, y) for b, i, y in cl.nodes() if is_call(y, rl.q)]
    R.inst('list', bool(rms), 'list|expired', 'expired messages are removed', cl.loc)
    due = lambda q, fn, n, pt, ctx: now_cmp(q, fn, n, pt, ctx)
    for bid, i, y in rms:
        for nd, k, w in ((push, 'report', 'its identifier is reported'), (lambda fn, z, q: is_call(z, sub.q), 'bytes', 'its bytes are subtracted')):
            pre = not reaches(P, cl, (cl.entry, -1), [(bid, i)], node=nd) and not Query(P, cut_node=nd, eh=False).reach_point(cl, (bid, i), (bid, i), ROOT, None)
            R.inst('list', pre, 'list|expired|' + k, w, line_of(cl, y))
        R.inst('list', not reaches(P, cl, (cl.entry, -1), [(bid, i)], cond=due), 'list|expired|due', 'only messages whose time has come are removed', line_of(cl, y))
        same = lambda q, fn, n, pt, ctx: n[0] == '==' and any(base_name((strip_ptr(fn, z) or {}).get('n', '')) == 'second' for z in (n[1], n[2])) and const_val(n[2]) is None
        R.inst('list', not reaches(P, cl, (cl.entry, -1), [(bid, i)], cond=same), 'list|expired|same', 'only the message that was registered is removed', line_of(cl, y))


def now_cmp(q, fn, n, pt, ctx):
    isnow = lambda z: (lambda ss: bool(ss) and all(s is not None and s['k'] == 'call' and base_name(s.get('n', '')) == 'now' for _, s, _, _ in ss))(q.sources(fn, z, pt, ctx))
    isfirst = lambda z: any(y['k'] == 'mem' and base_name(y['n']) == 'first' for y in ([strip(fn, z)] if z is not None else []) if y is not None)
    if isfirst(n[1]) and isnow(n[2]):
        return n[0] in ('<=', '<')
    if isfirst(n[2]) and isnow(n[1]):
        return n[0] in ('>=', '>')
    return False


def any_lock(P, fn, x, fld, d=0):
    """x is <entry>.fld.lock() or a local holding it"""
    x = strip_ptr(fn, x)
    if x is None or d > 5:
        return False
    if x['k'] == 'call' and x.get('o') is not None and base_name(x.get('n', '')) == 'lock':
        return is_mem(strip_ptr(fn, x['o']), fld)
    if x['k'] == 'var':
        ds = [e for e in fn.defs().get(x['id'], []) if e[2] in ('init', 'asg')]
        return bool(ds) and all(e[3] is not None and any_lock(P, fn, e[3], fld, d + 1) for e in ds)
    return False


def mapset(P, fn, y, k):
    """queue[id] = entry, queue.emplace(id, entry), insert_or_assign"""
    if on_mem(MAP, 'emplace', 'insert_or_assign', 'try_emplace')(fn, y):
        return param0(fn, y['a'][0], None, k)
    ap = asg_parts(fn, y)
    if ap is None or ap[0] is None:
        return False
    d = ap[0]
    if d['k'] == 'call' and base_name(d.get('n', '')) == 'operator[]' and has_mem(fn, d['o'], MAP):
        return param0(fn, d['a'][0], None, k)
    return False


def resend(P, R):
    s = P.one('Session::sendAllPendingQosData')
    R.saw(s.id)
    is_cp = lambda fn, y: y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in ('emplace_back', 'push_back')
    erase = lambda fn, y, q=None: is_call(y, Q + 'eraseQueuedPublish', QB + 'erase')
    cps = [(b.id, i, y) for b, i, y in s.nodes() if is_cp(s, y) and any(is_call(z, 'QueuedPublish::getPacketId') for z in s.walk(y, True))]
    ers = [(b.id, i, y) for b, i, y in s.nodes() if erase(s, y)]
    if not cps:
        # written directly inside the loop
        raise AnalysisError('collection of queued messages not found')
    expired = tcall({'PublishBase::hasExpired', 'Publish::hasExpired'}, True)
    denied = lambda q, fn, n, pt, ctx: (n[0] == '!=' and enum_name(n[2]) == 'AuthResult::success') or (n[0] == '==' and (enum_name(n[2]) or '').startswith('AuthResult::') and enum_name(n[2]) != 'AuthResult::success')
    spent = any_of(tcall(Q + 'flowControlExhausted', True), compares(Q + 'flowControlQuota', ('<=', 0), ('==', 0), ('<', 1)))
    for bid, i, y in ers:
        q = Query(P, cut_cond=any_of(expired, denied, spent), eh=False)
        R.inst('resend', not q.reach_point(s, (s.entry, -1), (bid, i), ROOT, None) and not q.reach_point(s, (bid, i), (bid, i), ROOT, None), 'resend|drop', 'dropped only when expired, denied or beyond the quota', line_of(s, y))
    # walk over the list: starts at the tail, follows next, ends at the end
    walk_ok(P, R, s, cps, erase)
    dec = lambda fn, y, q=None: is_call(y, Q + 'decreaseFlowControlQuotaAgain') or steps(fn, y, Q + 'flowControlQuota') == -1
    for bid, i, y in cps:
        q = Query(P, cut_node=dec, eh=False)
        R.inst('resend', not q.reach_point(s, (s.entry, -1), (bid, i), ROOT, None) and not q.reach_point(s, (bid, i), (bid, i), ROOT, None), 'resend|quota', 'a message sent again costs one of the quota', line_of(s, y))
        for c, k, w in ((tcall({'PublishBase::hasExpired', 'Publish::hasExpired'}, False), 'expired', 'expired messages are not sent'),):
            q = Query(P, cut_cond=c, eh=False)
            R.inst('resend', not q.reach_point(s, (s.entry, -1), (bid, i), ROOT, None) and not q.reach_point(s, (bid, i), (bid, i), ROOT, None), 'resend|' + k, w, line_of(s, y))
        lst = strip_ptr(s, y['o'])
        # args: publish, override, id of the same entry
        ok = [any(is_call(z, 'QueuedPublish::' + m) for a in y['a'] for _, s2, _, _ in Query(P).sources(s, a, (bid, i), ROOT) for z in s.walk(s2, True) if s2 is not None) for m in ('getPublish', 'getTopicOverride', 'getPacketId')]
        R.inst('resend', all(ok), 'resend|fields', 'message, topic and identifier are kept together', line_of(s, y))
    # writing
    ws = [(b.id, i, y) for b, i, y in s.nodes() if is_call(y, WR[0])]
    pubs = [w for w in ws if len(w[2]['a']) >= 6]
    rels = [w for w in ws if len(w[2]['a']) < 6]
    R.inst('resend', bool(pubs), 'resend|write', 'the messages are written', s.loc)
    lists = {strip_ptr(s, y['o']).get('id') for _, _, y in cps}
    for bid, i, y in pubs:
        a = y['a']; pt = (bid, i)
        R.inst('resend', each(P, s, pt, lambda x: x is not None and x['k'] == 'var' and x['id'] in lists), 'resend|all', 'every collected message is written', line_of(s, y))
        R.inst('resend', arg_is(P, s, a[1], pt, lambda f, z: is_mem(z, 'PublishBase::qos', 'Publish::qos')), 'resend|qos', 'with the QoS it was queued with', line_of(s, y))
        R.inst('resend', arg_is(P, s, a[4], pt, lambda f, z: is_mem(z, 'PublishBase::subscriptionIdentifier', 'Publish::subscriptionIdentifier')), 'resend|subid', 'with the subscription identifier it was queued with', line_of(s, y))
        R.inst('resend', elem_of(s, a[2]) and elem_of(s, a[5]) and ('short' in tup(s, a[2]) or True), 'resend|id', 'with the identifier and topic it was queued with', line_of(s, y))
    st = Q + 'outgoingQoS2MessageIds'
    cp2 = [(b.id, i, y) for b, i, y in s.nodes() if is_cp(s, y) and not any(is_call(z, 'QueuedPublish::getPacketId') for z in s.walk(y, True))]
    ok_direct = [w for w in rels if each(P, s, (w[0], w[1]), lambda x: is_mem(x, st))]
    full = [c for c in cp2 if each(P, s, (c[0], c[1]), lambda x: is_mem(x, st))]
    ctor2 = [v for v, ds in s.defs().items() for d in ds if d[3] is not None and d[2] == 'init' and any(is_mem(z, st) for z in s.walk(d[3], True))]
    ids = {strip_ptr(s, c[2]['o']).get('id') for c in full} | set(ctor2)
    R.inst('pubrel', bool(rels) and all(each(P, s, (w[0], w[1]), lambda x: is_mem(x, st) or (x is not None and x['k'] == 'var' and x['id'] in ids)) for w in rels), 'pubrel|all', 'PUBREL is written for every identifier', s.loc)
    for b, i, y in s.nodes():
        if is_call(y, 'PubResponse::PubResponse'):
            R.inst('pubrel', arg_is(P, s, y['a'][1], (b.id, i), lambda f, z: enum_name(z) == 'PacketType::PUBREL') and arg_is(P, s, y['a'][2], (b.id, i), lambda f, z: enum_name(z) == 'ReasonCodes::Success'), 'pubrel|kind', 'PUBREL with success', line_of(s, y))
            R.inst('pubrel', not any(const_val(z) is not None for _, z, _, _ in Query(P).sources(s, y['a'][3], (b.id, i), ROOT)), 'pubrel|id', 'with the identifier', line_of(s, y))
            e = [w for w in rels if Query(P)._plain_reach(s, (b.id, i), (w[0], w[1]), ())]
            R.inst('pubrel', bool(e), 'pubrel|written', 'it is written', line_of(s, y))
    # nothing is written unless there is a client; with a client everything is
    nc = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) == ('==', 0) and (lambda ss: bool(ss) and all(is_call(z, 'Session::makeSharedClient') for _, z, _, _ in ss))(q.sources(fn, n[1], pt, ctx))
    must(P, R, 'resend', s, lambda fn, y, q: is_call(y, Q + 'getQoSQueueTail', QB + 'getTail'), 'queue', 'the queue is looked at when a client is connected', cond=nc)
    # ---- when
    callers = {'ThreadData::continuationOfAuthentication', 'MqttPacket::handleConnAck'}
    snd = lambda fn, y, q=None: is_call(y, s.q)
    ca = P.one('ThreadData::continuationOfAuthentication'); hc = P.one('MqttPacket::handleConnAck')
    ack = lambda fn, y: is_call(y, 'Client::sendConnackSuccess')
    always_after(P, R, 'reconnect', [ca], ack, lambda fn, y: snd(fn, y), 'pending messages are sent after CONNACK', 'connack', eh=False)
    for f, b, i, y in sites_of(P, lambda fn, y: ack(fn, y)):
        tp = tops(P, [f], stop=lambda h: h.id == ca.id)
        R.inst('reconnect', all(t.id == ca.id for t in tp), 'reconnect|ack|' + f.q, 'CONNACK is sent by %s' % f.q, line_of(f, y))
    guarded(P, R, 'reconnect', [ca], lambda fn, y: snd(fn, y), cut_node=lambda fn, y, q: ack(fn, y), what='CONNACK was sent', key='first', label=label, eh=False, enter=lambda t: t.cls in ('ThreadData',))
    guarded(P, R, 'reconnect', [ca], ack, cut_node=lambda fn, y, q: is_call(y, 'SubscriptionStore::registerClientAndKickExistingOne'), what='the session is assigned', key='session', label=label, eh=False, enter=lambda t: t.cls in ('ThreadData',))
    setp = lambda fn, y: is_call(y, 'Session::setSessionProperties')
    always_after(P, R, 'reconnect', [hc], setp, lambda fn, y: snd(fn, y), 'pending messages of a bridge are sent after CONNACK', 'bridge', eh=False)


def tup(s, x):
    return ''


def elem_of(s, x):
    """an element of the tuple that is iterated over (or a local copy of it)"""
    x = strip(s, x)
    n = 0
    while x is not None and n < 8:
        n += 1
        if x['k'] == 'call' and x.get('n') == 'std::get':
            return True
        if x['k'] == 'mem':
            return True
        if x['k'] == 'var':
            ds = [d for d in s.defs().get(x['id'], []) if d[2] == 'init']
            if '@b' in x['id']:
                return True     # structured binding
            if len(ds) != 1:
                return False
            if ds[0][3] is None:
                return True     # structured binding
            x = strip(s, ds[0][3]); continue
        return x['k'] in ('binding', 'sb')
    return False


def walk_ok(P, R, s, cps, drop):
    """the loop variable starts at the oldest entry, moves to the next one, and every entry is kept or dropped for a reason"""
    bid = cps[0][0]
    cyc = cycle_blocks(s, bid)
    exits = [b for b in cyc if any(t not in cyc for t, k in s.blocks[b].succ if k == 'n')]
    R.inst('resend', len(exits) == 1, 'resend|exit', 'the walk over the queue ends only at its end', s.loc)
    if len(exits) != 1:
        return
    h = s.blocks[exits[0]]
    n = stay(s, h, cyc)
    var = strip_ptr(s, n[1]) if n else None
    ok = n is not None and n[0] == '!=' and const_val(n[2]) == 0 and var is not None and var['k'] == 'var'
    R.inst('resend', ok, 'resend|cond', 'the walk goes on while there is an entry', s.loc)
    if not ok:
        return
    ds = [d for d in s.defs().get(var['id'], []) if d[2] in ('init', 'asg')]
    first = [d for d in ds if d[0] not in cyc]; nxt = [d for d in ds if d[0] in cyc]
    tail = lambda e: any(is_call(z, Q + 'getQoSQueueTail', QB + 'getTail') for z in s.walk(e, True))
    step = lambda e: any(z['k'] == 'call' and z.get('o') is not None and base_name(z['n']) == 'lock' and is_mem(strip_ptr(s, z['o']), NEXT) for z in s.walk(e, True)) or any_lock(P, s, e, NEXT)
    R.inst('resend', bool(first) and all(d[3] is not None and tail(d[3]) for d in first), 'resend|oldest', 'the walk starts at the oldest message', s.loc)
    asg = [d for d in nxt]
    R.inst('resend', bool(asg) and all(d[3] is not None and step(d[3]) for d in asg), 'resend|next', 'the walk goes to the next message', s.loc)
    q = Query(P, cut_node=lambda fn, y, qq: drop(fn, y) or any(y is c[2] for c in cps), eh=False)
    body = [t for t, k in h.succ if k == 'n' and t in cyc]
    R.inst('resend', all(not q.reach_point(s, (b, -1), (h.id, len(h.elems)), ROOT, None) for b in body), 'resend|each', 'every message is kept or dropped for a reason', s.loc)
    st = Query(P, cut_node=lambda fn, y, qq: any((s.blocks[d[0]].elems[d[1]][1] is y) or points(s).get(id(y)) == (d[0], d[1]) for d in asg), eh=False)
    R.inst('resend', all(not st.reach_point(s, (b, -1), (h.id, len(h.elems)), ROOT, None) for b in body), 'resend|moves', 'every round moves on', s.loc)
    # no use of next after the entry was unlinked
    for d in asg:
        R.inst('resend', not any(drop(s, y) and Query(P, eh=False)._plain_reach(s, (b.id, i), (d[0], d[1]), {(h.id, len(h.elems))}) for b, i, y in s.nodes()), 'resend|order', 'the next message is found before the current one is dropped', s.loc)
    gt = P.one(Q + 'getQoSQueueTail'); g2 = P.one(QB + 'getTail')
    for b, i, y in gt.nodes():
        if y['k'] == 'ret':
            R.inst('resend', any(is_call(z, g2.q) for z in gt.walk(y['e'], True)), 'resend|tail', 'the oldest message', line_of(gt, y))
    for b, i, y in g2.nodes():
        if y['k'] == 'ret':
            R.inst('resend', is_mem(strip_ptr(g2, y['e']), TAIL), 'resend|gettail', 'the oldest message', line_of(g2, y))


def copies(P, R):
    f = P.one('PublishCopyFactory::getNewPublish')
    eff = P.one('PublishCopyFactory::getEffectiveQos'); ret = P.one('PublishCopyFactory::getEffectiveRetain')
    w = lambda *n: (lambda fn, y, q=None: writes_to(*n)(fn, y))
    for n, src, k in ((('PublishBase::qos', 'Publish::qos'), eff.q, 'qos'), (('PublishBase::retain', 'Publish::retain'), ret.q, 'retain')):
        must(P, R, 'copy', f, lambda fn, y, q: w(*n)(fn, y) and arg_is(P, fn, asg_parts(fn, y)[1], points(fn)[id(y)], lambda g, s: is_call(s, src)), k, 'the copy has the effective %s' % k)
    inpk = truth(lambda q, fn, x: is_mem(strip_ptr(fn, x), 'PublishCopyFactory::packet'), False)
    must(P, R, 'copy', f, lambda fn, y, q: w('PublishBase::subscriptionIdentifier', 'Publish::subscriptionIdentifier')(fn, y) and param0(fn, asg_parts(fn, y)[1], None, 2), 'subid', 'the copy of a received message has the subscription identifier', cond=inpk)
    for b, i, y in eff.nodes():
        if y['k'] == 'ret':
            # min(orgQos, max)
            okm = False
            for g, s, p, c in Query(P).sources(eff, y['e'], (b.id, i), ROOT):
                pass
            ss = [s for _, s, _, _ in Query(P).sources(eff, y['e'], (b.id, i), ROOT)]
            org = lambda z: is_mem(strip(eff, z), 'PublishCopyFactory::orgQos'); mx = lambda z: param0(eff, z, None)
            if len(ss) == 1 and ss[0] is not None and ss[0]['k'] == 'call' and ss[0].get('n') == 'std::min':
                a = ss[0]['a']; okm = (org(a[0]) and mx(a[1])) or (org(a[1]) and mx(a[0]))
            else:
                lt = lambda q, fn, n, pt, ctx: (n[0] in ('<', '<=') and org(n[1]) and mx(n[2])) or (n[0] in ('>', '>=') and mx(n[1]) and org(n[2]))
                gt = lambda q, fn, n, pt, ctx: (n[0] in ('>', '>=') and org(n[1]) and mx(n[2])) or (n[0] in ('<', '<=') and mx(n[1]) and org(n[2]))
                x = strip(eff, y['e'])
                if x is not None and x['k'] == 'cond':
                    okm = (org(x['a']) and mx(x['b']) and Query(P, cut_cond=lt).implies(eff, x['c'], True, (b.id, i), ROOT) and Query(P, cut_cond=gt).implies(eff, x['c'], False, (b.id, i), ROOT)) or \
                          (mx(x['a']) and org(x['b']) and Query(P, cut_cond=gt).implies(eff, x['c'], True, (b.id, i), ROOT) and Query(P, cut_cond=lt).implies(eff, x['c'], False, (b.id, i), ROOT))
                else:
                    okm = (org(x) and not reaches(P, eff, (eff.entry, -1), [(b.id, i)], cond=lt)) or (mx(x) and not reaches(P, eff, (eff.entry, -1), [(b.id, i)], cond=gt))
            R.inst('copy', okm, 'copy|min', 'the effective QoS is the lower of published and granted', line_of(eff, y))
    for b, i, y in ret.nodes():
        if y['k'] == 'ret':
            both = [truth(lambda q, fn, x: is_mem(x, 'PublishCopyFactory::orgRetain'), True), truth(lambda q, fn, x: param0(fn, x, None), True)]
            cv = const_val(strip(ret, y['e']))
            ok = all(Query(P, cut_cond=c).implies(ret, y['e'], True, (b.id, i), ROOT) for c in both) if cv is None else (cv == 0 or all(not reaches(P, ret, (ret.entry, -1), [(b.id, i)], cond=c) for c in both))
            R.inst('copy', ok, 'copy|retain', 'retain is kept only when published with it and asked for', line_of(ret, y))
    for c in P.byq.get('PublishCopyFactory::PublishCopyFactory', []):
        ini = {y['n']: strip(c, y['e']) for b, i, y in c.nodes() if y['k'] == 'minit' and y.get('n')}
        if 'PublishCopyFactory::orgQos' not in ini:
            continue
        R.inst('copy', (is_mem(ini['PublishCopyFactory::orgQos'], 'PublishBase::qos', 'Publish::qos') or is_call(ini['PublishCopyFactory::orgQos'], 'MqttPacket::getQos')), 'copy|org|' + c.params[0]['t'], 'the QoS published with', c.loc)
        R.inst('copy', (is_mem(ini.get('PublishCopyFactory::orgRetain'), 'PublishBase::retain', 'Publish::retain') or is_call(ini.get('PublishCopyFactory::orgRetain'), 'MqttPacket::getRetain')), 'copy|orgretain|' + c.params[0]['t'], 'the retain flag published with', c.loc)
