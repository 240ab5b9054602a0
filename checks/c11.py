"""Packet identifiers of outgoing QoS messages: unique while in use, non-zero, bounded by the flow control quota."""
from core.rules import *

Q = 'Session::QoSData::'
QUOTA, CEIL, IDS, NEXT = Q + 'flowControlQuota', Q + 'flowControlCealing', Q + 'usedIds', Q + 'nextPacketId'


def on_mem(mem, *methods):
    """method call on the field"""
    return lambda fn, y, q=None: y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in methods and has_mem(fn, y['o'], mem)


def steps(fn, y, mem):
    """+1 / -1 when node y changes the field by one, 'set' for another write, None otherwise"""
    if y['k'] == 'un' and y['op'] in ('++', '--', 'post++', 'post--') and is_mem(strip(fn, y['e']), mem):
        return 1 if '++' in y['op'] else -1
    ap = asg_parts(fn, y)
    if ap is None or not is_mem(ap[0], mem):
        return None
    if ap[2] in ('+=', '-=') and const_val(strip(fn, ap[1])) == 1:
        return 1 if ap[2] == '+=' else -1
    v = strip(fn, ap[1])
    if ap[2] == '=' and v is not None and v['k'] == 'bin' and v['op'] in ('+', '-'):
        for a, b in ((v['a'], v['b']), (v['b'], v['a'])):
            if is_mem(strip(fn, a), mem) and const_val(strip(fn, b)) == 1:
                return 1 if v['op'] == '+' else -1
    return 'set'


def param0(fn, x, pt, k=0):
    ss = Query(None).sources(fn, x, pt, ROOT) if False else None
    s = strip(fn, x)
    return s is not None and s['k'] == 'var' and len(fn.params) > k and s['id'] == fn.params[k]['id']


def cmp_fields(op_ok, a, b):
    """fact: field a <op> field b for op in op_ok (either operand order)"""
    def c(q, fn, n, pt, ctx):
        if is_mem(strip(fn, n[1]), a) and is_mem(strip(fn, n[2]), b):
            return n[0] in op_ok
        if is_mem(strip(fn, n[1]), b) and is_mem(strip(fn, n[2]), a):
            return SWAP[n[0]] in op_ok
        return False
    return c


def never(*a):
    return False


def reaches(P, fn, start, goals, cond=None, node=None):
    cond = cond or never        # (with a condition, branches on locals are followed consistently)
    q = Query(P, cut_cond=cond, cut_node=node, eh=False)
    return any(q.reach_point(fn, start, g, ROOT, None) for g in goals)


def must(P, R, rule, fn, node, key, what, cond=None, start=None):
    R.saw(fn.id)
    R.inst(rule, not normal_exit(P, fn, cut_cond=cond or never, cut_node=node, eh=False, start=start), '%s|%s' % (rule, key), what, fn.loc)


def check(P, R):
    R.rule('fresh', 'an identifier that is handed out is not zero, not in use, and recorded as in use')
    R.rule('quota', 'an identifier costs one of the quota, and none is handed out when the quota is used up')
    R.rule('search', 'none is handed out only when the quota is used up or every identifier was tried')
    R.rule('return', 'giving an identifier back frees it and adds one to the quota, never above the maximum')
    R.rule('release', 'identifiers are given back exactly at the end of an exchange that existed')
    R.rule('max', 'quota and maximum are set from the Receive Maximum of the connection and the configured limit')
    R.rule('set', 'the set of identifiers keeps members and answers membership exactly')
    R.rule('load', 'identifiers of messages loaded from disk are in use')
    ids(P, R)
    back(P, R)
    maximum(P, R)
    usedids(P, R)
    load(P, R)


def ids(P, R):
    g = P.one(Q + 'getNextPacketId')
    R.saw(g.id)
    rets = []; empty = []
    for b, i, y in g.nodes():
        if y['k'] == 'ret' and y.get('e') is not None:
            ss = [s for _, s, _, _ in Query(P).sources(g, y['e'], (b.id, i), ROOT)]
            vals = [s for s in ss if s is not None and not (s['k'] in ('ctor', 'initlist') and not [a for a in s.get('a', []) if a is not None]) and not (s['k'] == 'gvar' and s['n'].endswith('nullopt')) and not (s['k'] == 'ctor' and all((strip(g, a) or {}).get('k') in ('initlist', 'gvar') for a in s.get('a', [])))]
            if vals:
                rets.append((b.id, i, y, vals))
            if len(vals) < len(ss) or not ss:
                empty.append((b.id, i, y))
    if not rets:
        raise AnalysisError('no identifier is returned by getNextPacketId')
    val_ok = lambda s: s['k'] == 'mem' and s['n'] == NEXT or (s['k'] == 'ctor' and s.get('a') and is_mem(strip(g, s['a'][0]), NEXT))
    for bid, i, y, vals in rets:
        R.inst('fresh', all(val_ok(s) for s in vals), 'fresh|value', 'the counter is returned', line_of(g, y))
    goals = [(b, i) for b, i, _, _ in rets]
    isnext = lambda q, fn, x, pt, ctx: any(True for _ in ()) or all(s is not None and is_mem(s, NEXT) for _, s, _, _ in q.sources(fn, x, pt, ctx))

    def nonzero(q, fn, n, pt, ctx):
        return (n[0], const_val(n[2])) in (('!=', 0), ('>', 0), ('>=', 1)) and isnext(q, fn, n[1], pt, ctx)

    def unused(q, fn, n, pt, ctx):
        x = strip(fn, n[1])
        if x is None or x['k'] != 'call' or x.get('n') != 'UsedIds::contains' or not has_mem(fn, x['o'], IDS):
            return False
        return truth(lambda q_, f_, z: True, False)(q, fn, n, pt, ctx) and isnext(q, fn, x['a'][0], pt, ctx)
    rec = lambda fn, y, q=None: on_mem(IDS, 'insert')(fn, y) and arg_is(P, fn, y['a'][0], points(fn)[id(y)], lambda f, s: is_mem(s, NEXT))
    chg = [(b.id, i, y) for b, i, y in g.nodes() if steps(g, y, NEXT) is not None]
    R.inst('fresh', bool(chg), 'fresh|counter', 'the counter moves on', g.loc)
    R.inst('fresh', not reaches(P, g, (g.entry, -1), goals, node=lambda fn, y, q: fn.id == g.id and steps(fn, y, NEXT) is not None), 'fresh|moves', 'every identifier handed out follows a step of the counter', g.loc)
    for bid, i, y in chg:
        R.inst('fresh', steps(g, y, NEXT) == 1 or cyc_ok(P, g, y), 'fresh|step', 'the counter is advanced by one', line_of(g, y))
        for c, nd, k, w in ((nonzero, None, 'zero', 'zero is not handed out'), (unused, None, 'unused', 'an identifier in use is not handed out'), (None, rec, 'recorded', 'the identifier is recorded as in use')):
            R.inst('fresh', not reaches(P, g, (bid, i), goals, cond=c, node=nd), 'fresh|' + k, w, line_of(g, y))
    pos = compares(QUOTA, ('!=', 0), ('>', 0), ('>=', 1))
    exh = compares(QUOTA, ('==', 0), ('<=', 0), ('<', 1))
    posx = any_of(pos, tcall(Q + 'flowControlExhausted', False)); exhx = any_of(exh, tcall(Q + 'flowControlExhausted', True))
    dec = lambda fn, y, q=None: steps(fn, y, QUOTA) == -1
    R.inst('quota', not reaches(P, g, (g.entry, -1), goals, cond=posx), 'quota|positive', 'handed out only with quota left', g.loc)
    R.inst('quota', not reaches(P, g, (g.entry, -1), goals, node=dec), 'quota|paid', 'the quota is decreased', g.loc)
    decs = [(b.id, i, y) for b, i, y in g.nodes() if steps(g, y, QUOTA) is not None]
    for bid, i, y in decs:
        R.inst('quota', steps(g, y, QUOTA) == -1 and not any(Query(P)._plain_reach(g, (bid, i), (b2, i2), ()) for b2, i2, _ in decs), 'quota|once', 'the quota is decreased once', line_of(g, y))
        R.inst('quota', not Query(P, cut_node=lambda fn, z, q: z['k'] == 'ret' and any(z is r[2] for r in rets), eh=False).after(g, (bid, i)), 'quota|kept', 'a decrease is followed by handing out', line_of(g, y))
    ex = P.one(Q + 'flowControlExhausted')
    for pol, c in ((True, exh), (False, pos)):
        for b, i, y in ex.nodes():
            if y['k'] == 'ret':
                R.inst('quota', Query(P, cut_cond=c).implies(ex, y['e'], pol, (b.id, i), ROOT), 'quota|exhausted', 'exhausted means no quota is left', line_of(ex, y))
    again = P.one(Q + 'decreaseFlowControlQuotaAgain')
    must(P, R, 'quota', again, dec, 'again', 'a message sent again costs one of the quota')
    for f, b, i, y in sites_of(P, calls_to(again.q)):
        R.inst('quota', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=posx) or not loopfree(P, f, (b.id, i), posx), 'quota|againguard|' + f.q, 'sent again only with quota left', line_of(f, y))
    for n in (QUOTA, CEIL, NEXT):
        for f, b, i, y in sites_of(P, lambda fn, y: steps(fn, y, n) is not None):
            own = {QUOTA: ('getNextPacketId', 'decreaseFlowControlQuotaAgain', 'increaseFlowControlQuota', 'resetFlowControlCounters', 'QoSData'), CEIL: ('resetFlowControlCounters', 'QoSData'), NEXT: ('getNextPacketId', 'loadNextPacketId')}[n]
            if f.q == Q + 'operator=':
                continue
            tp = tops(P, [f], stop=lambda h: h.q in [Q + o for o in own])
            R.inst('quota', all(t.q in [Q + o for o in own] for t in tp), 'quota|writer|%s|%s' % (base_name(n), f.q), '%s is changed by %s' % (base_name(n), f.q), line_of(f, y))
    # search: nothing handed out only without quota or after trying all
    full = []
    for v, ds in g.defs().items():
        ds = [d for d in ds if d[2] in ('init', 'asg')]
        if len(ds) == 1 and ds[0][3] is not None and const_val(strip(g, ds[0][3])) is not None:
            full.append((v, const_val(strip(g, ds[0][3]))))
    fullm = dict(full)

    def tried_all(q, fn, n, pt, ctx):
        x = strip(fn, n[1]); c = const_val(n[2])
        if x is not None and x['k'] == 'un' and x['op'] in ('++', '--', 'post++', 'post--', 'x++', 'x--'):
            x = strip(fn, x['e'])
        if x is None or x['k'] != 'var' or c is None or x['id'] not in fullm:
            return False
        st = [y for b, i, y in fn.nodes() if any(o is not None and o['k'] == 'var' and o['id'] == x['id'] for o in mutated(P, fn, y))]
        if len(st) != 1 or not (st[0]['k'] == 'un'):
            return False
        up = '++' in st[0]['op']
        n0 = fullm[x['id']]
        if up:
            return n[0] in ('>=', '>', '==') and c - n0 + (n[0] == '>') >= 65535
        return n[0] in ('<=', '<', '==') and n0 - c + (n[0] == '<') >= 65535
    goals2 = [(b, i) for b, i, _ in empty]
    R.inst('search', not goals2 or not reaches(P, g, (g.entry, -1), goals2, cond=any_of(exhx, tried_all)), 'search|all', 'nothing is handed out only without quota or after trying all identifiers', g.loc)
    # the search terminates: a loop around the step has a bound
    for bid, i, y in chg:
        cyc = cycle_blocks(g, bid)
        if cyc:
            ok = bounded(P, g, bid, cyc, fullm)
            R.inst('search', ok, 'search|bound', 'the search ends', line_of(g, y))


def cyc_ok(P, g, y):
    return False


def bounded(P, g, bid, cyc, consts):
    """the cycle has a counter: constant start, stepped on every round, compared with a constant on every round"""
    for v, n0 in consts.items():
        st = [(b.id, i) for b, i, y in g.nodes() if any(o is not None and o['k'] == 'var' and o['id'] == v for o in mutated(P, g, y))]
        if len(st) != 1 or st[0][0] not in cyc:
            continue
        tests = [b for b in cyc if g.blocks[b].term and g.blocks[b].term.get('c') is not None and any(y['k'] == 'var' and y['id'] == v for y in g.walk(g.blocks[b].term['c'], True)) and any(t not in cyc for t, k in g.blocks[b].succ if k == 'n')]
        if not tests:
            continue
        # every round passes the step and a test
        def round_without(block):
            seen = set(); s = [t for t, k in g.blocks[bid].succ if k == 'n']
            while s:
                b = s.pop()
                if b in seen or b == block or b is None:
                    continue
                if b == bid:
                    return True
                seen.add(b); s += [t for t, k in g.blocks[b].succ if k == 'n']
            return False
        if (st[0][0] == bid or not round_without(st[0][0])) and any(t == bid or not round_without(t) for t in tests):
            return True
    return False


def loopfree(P, f, pt, cond):
    """cut on every round as well"""
    q = Query(P, cut_cond=cond, eh=False)
    return not q.reach_point(f, pt, pt, ROOT, None)


def back(P, R):
    inc = P.one(Q + 'increaseFlowControlQuota')
    er = lambda fn, y, q=None: on_mem(IDS, 'erase')(fn, y) and param0(fn, y['a'][0], None)
    must(P, R, 'return', inc, er, 'free', 'the identifier is free again')
    full = cmp_fields(('>=', '>', '=='), QUOTA, CEIL); room = cmp_fields(('<', '<=', '!='), QUOTA, CEIL); below = cmp_fields(('<',), QUOTA, CEIL)
    add = lambda fn, y, q=None: steps(fn, y, QUOTA) == 1 or (asg_parts(fn, y) is not None and is_mem(asg_parts(fn, y)[0], QUOTA) and plus_min(fn, y))

    def plus_min(fn, y):
        v = strip(fn, asg_parts(fn, y)[1])
        if v is None or v['k'] != 'call' or v.get('n') != 'std::min':
            return False
        a = [strip(fn, z) for z in v['a']]
        return any(is_mem(z, CEIL) for z in a) and any(z is not None and z['k'] == 'bin' and z['op'] == '+' and const_val(strip(fn, z['b'])) == 1 and is_mem(strip(fn, z['a']), QUOTA) for z in a)

    def cap(fn, y, q=None):
        ap = asg_parts(fn, y)
        if ap is None or not is_mem(ap[0], QUOTA):
            return False
        v = strip(fn, ap[1])
        if is_mem(v, CEIL):
            return True
        return v is not None and v['k'] == 'call' and v.get('n') == 'std::min' and any(is_mem(strip(fn, z), CEIL) for z in v['a'])
    must(P, R, 'return', inc, add, 'add', 'the quota grows by one', cond=full)
    for b, i, y in inc.nodes():
        s = steps(inc, y, QUOTA)
        if s == 1:
            guarded_before = not reaches(P, inc, (inc.entry, -1), [(b.id, i)], cond=below)
            capped = not Query(P, cut_cond=cmp_fields(('<=', '<'), QUOTA, CEIL), cut_node=cap, eh=False).after(inc, (b.id, i))
            R.inst('return', guarded_before or capped, 'return|cap', 'the quota does not exceed the maximum', line_of(inc, y))
            R.inst('return', not any(steps(inc, z, QUOTA) == 1 and Query(P)._plain_reach(inc, (b.id, i), (b2.id, i2), ()) for b2, i2, z in inc.nodes()), 'return|once', 'the quota grows once', line_of(inc, y))
        elif s is not None:
            ok = cap(inc, y)
            v = strip(inc, asg_parts(inc, y)[1]) if ok else None
            if ok and is_mem(v, CEIL):
                ok = not reaches(P, inc, (inc.entry, -1), [(b.id, i)], cond=cmp_fields(('>', '>='), QUOTA, CEIL))
            R.inst('return', ok, 'return|set', 'the quota is only capped', line_of(inc, y))
    rel = P.one(Q + 'releasePacketId')
    must(P, R, 'return', rel, er, 'release', 'a released identifier is free again')
    # ---- when
    clr = P.one('Session::clearQosMessage')
    ends = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) in (('!=', 0), ('==', 1)) and ends_var(q, fn, n[1], pt, ctx)
    stays = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) in (('==', 0), ('!=', 1)) and ends_var(q, fn, n[1], pt, ctx)

    def ends_var(q, fn, x, pt, ctx):
        return all(f.id == clr.id and s is not None and s['k'] == 'var' and s['id'] == clr.params[1]['id'] for f, s, _, _ in q.sources(fn, x, pt, ctx))
    ini = calls_to(inc.q)
    erq = lambda pol: tcall({Q + 'eraseQueuedPublish', 'QoSPublishQueue::erase'}, pol)
    dod = lambda pol: any_of(tmem('Session::destroyOnDisconnect', pol), tcall('Session::getDestroyOnDisconnect', pol))
    lab = lambda fn, y: base_name(y['n'])
    guarded(P, R, 'release', [clr], ini, cut_cond=ends, what='the exchange ends', key='ends', label=lab, eh=False)
    guarded(P, R, 'release', [clr], ini, cut_cond=any_of(erq(True), dod(True)), what='the message was there', key='found', label=lab, eh=False)
    must(P, R, 'release', clr, lambda fn, y, q: ini(fn, y), 'clear', 'the end of an exchange gives the identifier back', cond=any_of(stays, erq(False)))
    must(P, R, 'release', clr, lambda fn, y, q: is_call(y, Q + 'eraseQueuedPublish', 'QoSPublishQueue::erase'), 'erase', 'the acknowledged message leaves the queue', cond=dod(True))
    for b, i, y in clr.nodes():
        if y['k'] == 'ret':
            # the answer tells whether the message was found
            q1 = Query(P, cut_cond=any_of(erq(True), dod(True)), eh=False); q0 = Query(P, cut_cond=erq(False), eh=False)
            cv = const_val(strip(clr, y['e']))
            ok = (q1.implies(clr, y['e'], True, (b.id, i), ROOT) if cv is None else True) and (q0.implies(clr, y['e'], False, (b.id, i), ROOT) if cv is None else True)
            R.inst('release', ok, 'release|answer', 'clearing tells whether the message was found', line_of(clr, y))
    for f, b, i, y in sites_of(P, lambda fn, y: fn.id == clr.id and is_call(y, inc.q, Q + 'eraseQueuedPublish')):
        R.inst('release', param0(f, y['a'][0], None), 'release|id|' + base_name(y['n']), '%s gets the acknowledged identifier' % base_name(y['n']), line_of(f, y))
    # PUBCOMP
    ro = P.one('Session::removeOutgoingQoS2MessageId')
    ST = Q + 'outgoingQoS2MessageIds'
    era = lambda fn, y, q=None: on_mem(ST, 'erase')(fn, y)

    def member(pol):
        def c(q, fn, n, pt, ctx):
            x = strip(fn, n[1])
            if x is not None and x['k'] == 'call' and on_mem(ST, 'contains', 'count', 'erase')(fn, x):
                v = const_val(n[2])
                return ((n[0], v) in (('!=', 0), ('>', 0), ('>=', 1), ('==', 1))) if pol else ((n[0], v) in (('==', 0), ('<', 1), ('<=', 0)))
            if n[0] != ('!=' if pol else '=='):
                return False
            fi = lambda z: any(s is not None and on_mem(ST, 'find')(f, s) for f, s, _, _ in q.sources(fn, z, pt, ctx))
            en = lambda z: any(s is not None and on_mem(ST, 'end', 'cend')(f, s) for f, s, _, _ in q.sources(fn, z, pt, ctx))
            return (fi(n[1]) and en(n[2])) or (fi(n[2]) and en(n[1]))
        return c
    guarded(P, R, 'release', [ro], ini, cut_cond=member(True), what='PUBREC was received before', key='pubcomp', label=lab, eh=False)
    must(P, R, 'release', ro, lambda fn, y, q: ini(fn, y), 'pubcomp', 'PUBCOMP gives the identifier back', cond=member(False))
    for f, b, i, y in sites_of(P, lambda fn, y: fn.id == ro.id and ini(fn, y)):
        R.inst('release', param0(f, y['a'][0], None), 'release|compid', 'the completed identifier is given back', line_of(f, y))
    # expired messages
    cx = P.one(Q + 'clearExpiredMessagesFromQueue')
    xs = [(b.id, i, y) for b, i, y in cx.nodes() if is_call(y, 'QoSPublishQueue::clearExpiredMessages')]
    for bid, i, y in xs:
        loops = [(b.id, j, z) for b, j, z in cx.nodes() if ini(cx, z) and Query(P)._plain_reach(cx, (bid, i), (b.id, j), ())]
        R.inst('release', bool(loops), 'release|expired', 'identifiers of expired messages are given back', line_of(cx, y))
        for lb, lj, z in loops:
            R.inst('release', each(P, cx, (lb, lj), lambda s: is_call(s, 'QoSPublishQueue::clearExpiredMessages')), 'release|expiredall', 'for every expired message', line_of(cx, z))
    R.inst('release', bool(xs), 'release|expiredcall', 'expired messages are looked for', cx.loc)
    # SUBACK of a bridge
    sa = P.one('MqttPacket::handleSubAck')
    lk = P.one('Session::increaseFlowControlQuotaLocked')
    allowed = {clr.q, ro.q, cx.q, lk.q}
    for f, b, i, y in sites_of(P, ini):
        tp = tops(P, [f], stop=lambda h: h.q in allowed)
        R.inst('release', all(t.q in allowed for t in tp), 'release|site|' + f.q, 'an identifier is given back by %s' % f.q, line_of(f, y))
    must(P, R, 'release', lk, lambda fn, y, q: ini(fn, y) and param0(fn, y['a'][0], None), 'locked', 'the identifier is given back')
    pid = lambda f, s: s['k'] == 'mem' and s['n'] == 'SubAckData::packet_id'
    for f, b, i, y in sites_of(P, calls_to(lk.q)):
        tp = tops(P, [f], stop=lambda h: h.id == sa.id)
        R.inst('release', all(t.id == sa.id for t in tp) and arg_is(P, f, y['a'][0], (b.id, i), pid), 'release|suback|' + f.q, 'SUBACK gives its identifier back', line_of(f, y))
    # sent again: an entry that is dropped frees its identifier
    dr = calls_to(Q + 'eraseQueuedPublish', 'QoSPublishQueue::erase')
    sp = P.one('Session::sendAllPendingQosData')
    always_after(P, R, 'release', [sp], dr, calls_to(rel.q, inc.q), 'a message dropped from the queue frees its identifier', 'dropped', eh=False)
    for f, b, i, y in sites_of(P, calls_to(rel.q)):
        before = [z for b2, i2, z in f.nodes() if dr(f, z) and Query(P)._plain_reach(f, (b2.id, i2), (b.id, i), ())]
        R.inst('release', bool(before) and not reaches(P, f, (f.entry, -1), [(b.id, i)], node=lambda fn, z, q: dr(fn, z)), 'release|freed|' + f.q, 'an identifier is freed only with its message', line_of(f, y))
        R.inst('release', any(same_arg(P, f, z, y) for z in before), 'release|freedid|' + f.q, 'the identifier of the dropped message is freed', line_of(f, y))


def same_arg(P, f, a, b):
    return show(f, a['a'][0]) == show(f, b['a'][0])


def each(P, fn, pt, src, what=None, skip=None):
    """pt lies in a range-for (or iterator loop) over a local holding src, is passed in every round, and the loop has no early exit"""
    bid = pt[0]
    cyc = cycle_blocks(fn, bid)
    if not cyc:
        return False
    # loop head: block in the cycle with an exit
    exits = [b for b in cyc if any(t not in cyc for t, k in fn.blocks[b].succ if k == 'n')]
    if len(exits) != 1:
        return False
    h = exits[0]
    # every round passes pt
    sq = Query(P, cut_cond=skip, eh=False) if skip else None

    def nxt(b):
        blk = fn.blocks[b]
        for si, (t, k) in enumerate(blk.succ):
            if k != 'n' or t not in cyc:
                continue
            if sq and any(sq.implies(fn, e, pol, (b, len(blk.elems)), ROOT) for e, pol in edge_facts(fn, blk, si)):
                continue
            yield t
    seen = set(); st = list(nxt(h))
    while st:
        b = st.pop()
        if b == bid or b in seen:
            continue
        if b == h:
            return False
        seen.add(b); st += list(nxt(b))
    rng = [v for b, i, y in fn.nodes() if y['k'] == 'decl' for v in y['d'] if v.get('i') is not None]
    def origin(x, d=0):
        x = strip(fn, x)
        if x is None or d > 8:
            return False
        if src(x):
            return True
        if x['k'] == 'var':
            return any(origin(e[3], d + 1) for e in fn.defs().get(x['id'], []) if e[3] is not None)
        if x['k'] == 'call' and x.get('o') is not None and base_name(x.get('n', '')) in ('begin', 'end', 'cbegin', 'cend'):
            return origin(x['o'], d + 1)
        if x['k'] in ('call', 'ctor') and x.get('a'):
            return any(origin(a, d + 1) for a in x['a'])
        return False
    t = fn.blocks[h].term
    return t is not None and t.get('c') is not None and any(origin(y) for y in fn.walk(t['c'], True) if y['k'] == 'var')


def maximum(P, R):
    rs = P.one(Q + 'resetFlowControlCounters')
    setp = P.one('Session::setSessionProperties')
    for n in (QUOTA, CEIL):
        w = lambda fn, y, q=None: steps(fn, y, n) == 'set' and param0(fn, asg_parts(fn, y)[1], None)
        must(P, R, 'max', rs, w, 'reset|' + base_name(n), '%s is the Receive Maximum' % base_name(n))
        for b, i, y in rs.nodes():
            if steps(rs, y, n) is not None:
                R.inst('max', w(rs, y), 'max|only|' + base_name(n), '%s is set to nothing else' % base_name(n), line_of(rs, y))
    must(P, R, 'max', setp, lambda fn, y, q: is_call(y, rs.q) and param0(fn, y['a'][0], None), 'connect', 'every connection resets the counters')
    SET = 'Settings::maxQosMsgPendingPerClient'
    field = {'ConnectData::client_receive_max', 'ConnAckData::client_receive_max'}
    n = 0
    for f, b, i, y in sites_of(P, calls_to(setp.q)):
        for g, s in up_sources(P, f, y['a'][0], (b.id, i)):
            n += 1
            ok = s is not None and s['k'] == 'mem' and (s['n'] in field or s['n'] in (SET, 'StowedClientRegistrationData::clientReceiveMax'))
            if not ok and f.cls == 'SessionsAndSubscriptionsDB':
                ok = const_val(s) == 0xFFFF or (s is not None and s['k'] == 'mem')
            R.inst('max', ok, 'max|arg|%s|%s' % (f.q, g.q), 'Receive Maximum is taken from the connection', line_of(f, y))
    if not n:
        raise AnalysisError('no call of setSessionProperties')
    # the field: configured limit, lowered by what the client sends
    lim = lambda s: s is not None and s['k'] == 'mem' and s['n'] == SET
    for c in ('ConnectData', 'ConnAckData'):
        ct = [f for f in P.byq.get(c + '::' + c, []) if any(is_mem(asg_parts(f, y)[0], c + '::client_receive_max') for b, i, y in f.nodes() if asg_parts(f, y)) or any(y['k'] == 'minit' and y.get('n') == c + '::client_receive_max' for b, i, y in f.nodes())]
        R.inst('max', bool(ct), 'max|ctor|' + c, '%s starts with the configured limit' % c, (ct or P.byq.get(c + '::' + c))[0].loc)
    m = 0
    for f, b, i, y in sites_of(P, writes_to(*field)):
        v = asg_parts(f, y)[1]; pt = (b.id, i)
        if f.is_ctor and f.q in ('ConnectData::ConnectData', 'ConnAckData::ConnAckData'):
            R.inst('max', arg_is(P, f, v, pt, lambda g, s: lim(s)), 'max|start|' + f.q, 'the configured limit', line_of(f, y)); continue
        m += 1
        mn = strip(f, v)
        ok = mn is not None and mn['k'] == 'call' and mn.get('n') == 'std::min' and any(is_mem(strip(f, a), *field) for a in mn['a']) and \
            any(any(is_call(s, 'MqttPacket::readTwoBytesToUInt16') for _, s, _, _ in Query(P).sources(f, a, pt, ROOT)) for a in mn['a'])
        if not ok:
            # assigned only when smaller
            less = lambda q, fn, nn, p, c: nn[0] in ('<', '<=') and is_mem(strip(fn, nn[2]), *field) or nn[0] in ('>', '>=') and is_mem(strip(fn, nn[1]), *field)
            ok = arg_is(P, f, v, pt, lambda g, s: is_call(s, 'MqttPacket::readTwoBytesToUInt16')) and not reaches(P, f, (f.entry, -1), [pt], cond=less)
        R.inst('max', ok, 'max|received|' + f.q, 'the received Receive Maximum lowers the limit', line_of(f, y))
    R.inst('max', m >= 2, 'max|count', 'Receive Maximum is taken from CONNECT and CONNACK', rs.loc)
    st = P.one('StowedClientRegistrationData::StowedClientRegistrationData')
    ini = {y['n']: strip(st, y['e']) for b, i, y in st.nodes() if y['k'] == 'minit' and y.get('n')}
    x = ini.get('StowedClientRegistrationData::clientReceiveMax')
    pn = [p for p in st.params if x is not None and x['k'] == 'var' and p['id'] == x['id']]
    R.inst('max', bool(pn), 'max|stowed', 'the stowed Receive Maximum is the given one', st.loc)
    if pn:
        k = [p['id'] for p in st.params].index(pn[0]['id'])
        for f, b, i, y in sites_of(P, lambda fn, y: y['k'] in ('ctor', 'call', 'new') and (y.get('n') == st.q or (y.get('n') in ('std::make_unique',) and 'StowedClientRegistrationData' in (y.get('t') or '') and len(y.get('a', [])) == len(st.params)))):
            for g, s in up_sources(P, f, y['a'][k], (b.id, i)):
                R.inst('max', s is not None and s['k'] == 'mem' and s['n'] in field, 'max|stow|%s' % g.q, 'Receive Maximum of the CONNECT is stowed', line_of(f, y))


# ------------------------------------------------------------------------------------------------ the set
def ceval(fn, x, env, P):
    """value of an arithmetic expression over one 16 bit variable"""
    x = strip(fn, x)
    if x is None:
        return None
    c = const_val(x)
    if c is not None:
        return c
    if x['k'] == 'var':
        if x['id'] in env:
            return env[x['id']]
        ds = [d for d in fn.defs().get(x['id'], []) if d[2] in ('init', 'asg', 'upd', 'param')]
        if len(ds) == 1 and ds[0][2] == 'init' and ds[0][3] is not None:
            return ceval(fn, ds[0][3], env, P)
        return None
    if x['k'] == 'bin':
        a, b = ceval(fn, x['a'], env, P), ceval(fn, x['b'], env, P)
        if a is None or b is None:
            return None
        o = x['op']
        M = (1 << 64) - 1
        try:
            return {'+': lambda: (a + b) & M, '-': lambda: (a - b) & M, '*': lambda: (a * b) & M, '/': lambda: a // b, '%': lambda: a % b, '&': lambda: a & b, '|': lambda: a | b,
                    '<<': lambda: (a << b) & M if b < 64 else None, '>>': lambda: a >> b}.get(o, lambda: None)()
        except ZeroDivisionError:
            return None
    if x['k'] == 'call' and not x.get('o') and len(P.targets(x)) == 1:
        t = P.targets(x)[0]
        rets = [y for b, i, y in t.nodes() if y['k'] == 'ret']
        if len(rets) == 1 and len(t.params) == len(x.get('a', [])):
            env2 = {p['id']: ceval(fn, a, env, P) for p, a in zip(t.params, x['a'])}
            return ceval(t, rets[0]['e'], env2, P)
    return None


BITS, NB, ARR, NA = 'UsedIds::m_bits', 'UsedIds::m_bits_used', 'UsedIds::m_ids', 'UsedIds::m_ids_used'


def word_index(P, fn, x, depth=0):
    """index expression of the word of m_bits an lvalue denotes"""
    x = strip_ptr(fn, x)
    if x is None or depth > 5:
        return None
    if x['k'] == 'var':
        ds = [d for d in fn.defs().get(x['id'], []) if d[2] == 'init']
        if len(ds) == 1 and ds[0][3] is not None and (var_type(fn, x['id']).endswith('&') or True):
            return word_index(P, fn, ds[0][3], depth + 1)
        return None
    if x['k'] == 'call' and x.get('o') is not None and base_name(x.get('n', '')) in ('at', 'operator[]') and has_mem2(fn, x['o'], BITS):
        return x['a'][0]
    if x['k'] == 'idx' and has_mem2(fn, x['b'], BITS):
        return x['i']
    return None


def has_mem2(fn, x, n):
    """x goes back to the field, through value()/operator*/data()"""
    return any(is_mem(y, n) for y in fn.walk(x, True))


def usedids(P, R):
    used, mark, free = (P.one('UsedIds::bits_' + n) for n in ('is_used', 'mark_used', 'mark_free'))
    R.saw(used.id, mark.id, free.id)
    tab = {}

    def cell(fn, word, mask, loc, key):
        """table id -> (word, mask), must be injective and the same everywhere"""
        if word is None or mask is None:
            R.bad('set', 'set|cell|' + key, 'cell of an identifier not recognised', loc); return
        t = []
        for v in range(65536):
            e = {fn.params[0]['id']: v}
            t.append((ceval(fn, word, e, P), ceval(fn, mask, e, P)))
        ok = all(a is not None and m is not None and bin(m).count('1') == 1 and a < 1024 for a, m in t) and len(set(t)) == 65536
        R.inst('set', ok, 'set|cell|' + key, 'every identifier has a bit of its own (65536 identifiers compared)', loc)
        tab[key] = t
    for b, i, y in used.nodes():
        if y['k'] == 'ret':
            x = strip(used, y['e'])
            while x is not None and x['k'] == 'bin' and x['op'] == '!=' and const_val(strip(used, x['b'])) == 0:
                x = strip(used, x['a'])
            ok = x is not None and x['k'] == 'bin' and x['op'] == '&'
            if ok:
                w = [(word_index(P, used, a), bb) for a, bb in ((x['a'], x['b']), (x['b'], x['a']))]
                w = [(a, m) for a, m in w if a is not None]
                ok = len(w) == 1
            if ok:
                cell(used, w[0][0], w[0][1], line_of(used, y), 'used')
            else:
                R.bad('set', 'set|used', 'membership of the bit set is not recognised', line_of(used, y))

    def bitop(fn, op, neg):
        for b, i, y in fn.nodes():
            ap = asg_parts(fn, y)
            if not ap:
                continue
            w = word_index(P, fn, y['a'] if y['k'] == 'asg' else y['o'])
            if w is None:
                continue
            v = strip(fn, ap[1]); o = ap[2]
            if o == '=' and v is not None and v['k'] == 'bin' and v['op'] in ('|', '&'):
                m = [z for z, w2 in ((v['b'], v['a']), (v['a'], v['b'])) if word_index(P, fn, w2) is not None]
                o = v['op'] + '='; v = strip(fn, m[0]) if m else None
            if o == op and v is not None:
                if neg:
                    v = strip(fn, v['e']) if v['k'] == 'un' and v['op'] == '~' else None
                if v is not None:
                    yield b.id, i, y, w, v
    for fn, op, neg, k in ((mark, '|=', False, 'mark'), (free, '&=', True, 'free')):
        ops = list(bitop(fn, op, neg))
        for bid, i, y, w, m in ops:
            cell(fn, w, m, line_of(fn, y), k)
        must(P, R, 'set', fn, lambda f, y, q: any(y is o[2] for o in ops), 'bit|' + k, 'the bit is changed')
        others = [y for b, i, y in fn.nodes() if asg_parts(fn, y) and word_index(P, fn, y['a'] if y['k'] == 'asg' else y['o']) is not None and not any(y is o[2] for o in ops)]
        R.inst('set', not others, 'set|otherbits|' + k, 'no other bits change', fn.loc)

    # counting: only when the bit changes
    def bit(pol):
        def c(q, fn, n, pt, ctx):
            x = strip(fn, n[1])
            if x is not None and x['k'] == 'bin' and x['op'] == '&' and const_val(n[2]) == 0:
                return any(word_index(P, fn, z) is not None for z in (x['a'], x['b'])) and ((n[0] in ('!=', '>')) == pol)
            if x is not None and x['k'] == 'call' and x.get('n') == used.q:
                return truth(lambda a, b, c2: True, pol)(q, fn, n, pt, ctx)
            return False
        return c
    for fn, d, was, k in ((mark, 1, False, 'mark'), (free, -1, True, 'free')):
        st = lambda f, y, q=None: steps(f, y, NB) == d
        for b, i, y in fn.nodes():
            if steps(fn, y, NB) is not None:
                R.inst('set', steps(fn, y, NB) == d and not reaches(P, fn, (fn.entry, -1), [(b.id, i)], cond=bit(was)), 'set|count|' + k, 'the number of members changes only when the bit does', line_of(fn, y))
        must(P, R, 'set', fn, st, 'counted|' + k, 'the number of members changes when the bit does', cond=bit(not was))
    if len(tab) == 3:
        R.inst('set', tab['used'] == tab['mark'] == tab['free'], 'set|samecell', 'the same bit is tested, set and cleared', used.loc)
    ins, er, con = P.one('UsedIds::insert'), P.one('UsedIds::erase'), P.one('UsedIds::contains')
    hasb = lambda pol: truth(lambda q, fn, x: is_mem(x, BITS), pol)
    pairs = ((ins, 'mark_used'), (er, 'mark_free'), (con, 'is_used'))
    for fn, w in pairs:
        R.saw(fn.id)
        for pre, pol in (('bits_', True), ('ids_', False)):
            nd = lambda f, y, q=None: is_call(y, 'UsedIds::' + pre + w) and param0(f, y['a'][0], None)
            opp = hasb(not pol)
            must(P, R, 'set', fn, nd, 'which|%s|%s' % (fn.q, pre), '%s works on the representation in use' % base_name(fn.q), cond=opp)
        if w == 'is_used':
            for b, i, y in fn.nodes():
                if y['k'] == 'ret':
                    R.inst('set', arg_is(P, fn, y['e'], (b.id, i), lambda f, s: is_call(s, 'UsedIds::bits_is_used', 'UsedIds::ids_is_used')), 'set|contains', 'membership is what the representation answers', line_of(fn, y))
    # conversion: all small members are marked before the small list is emptied
    emp = lambda fn, y, q=None: on_mem(BITS, 'emplace')(fn, y) or (asg_parts(fn, y) is not None and is_mem(asg_parts(fn, y)[0], BITS))
    z0 = lambda fn, y: steps(fn, y, NA) == 'set'
    for b, i, y in ins.nodes():
        if emp(ins, y):
            cp = [(b2.id, i2, z) for b2, i2, z in ins.nodes() if is_call(z, mark.q) and cycle_blocks(ins, b2.id)]
            R.inst('set', bool(cp) and all(full_scan(P, ins, p, NA) and any(has_mem2(ins, a, ARR) for a in z['a']) for *p, z in [(x[0], x[1], x[2]) for x in cp]), 'set|copy', 'members are copied when the representation changes', line_of(ins, y))
            for b2, i2, z in ins.nodes():
                if z0(ins, z):
                    R.inst('set', not any(Query(P)._plain_reach(ins, (b2.id, i2), (c[0], c[1]), ()) for c in cp), 'set|copyfirst', 'the list is emptied after copying', line_of(ins, z))
    rst = lambda fn, y: on_mem(BITS, 'reset')(fn, y) or (asg_parts(fn, y) is not None and is_mem(asg_parts(fn, y)[0], BITS))
    none = compares(NB, ('==', 0), ('<', 1), ('<=', 0))
    for f, b, i, y in sites_of(P, lambda fn, y: fn.cls == 'UsedIds' and rst(fn, y)):
        if f.id == ins.id and emp(f, y):
            continue
        R.inst('set', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=none), 'set|drop|' + f.q, 'the bits are dropped only when empty', line_of(f, y))
    # small list
    iu = P.one('UsedIds::ids_is_used'); imu = P.one('UsedIds::ids_mark_used'); imf = P.one('UsedIds::ids_mark_free')
    R.saw(iu.id, imu.id, imf.id)
    eq = lambda q, fn, n, pt, ctx: n[0] == '==' and any(has_mem2(fn, a, ARR) and param0(fn, b, None) for a, b in ((n[1], n[2]), (n[2], n[1])))
    ne = lambda q, fn, n, pt, ctx: n[0] == '!=' and any(has_mem2(fn, a, ARR) and param0(fn, b, None) for a, b in ((n[1], n[2]), (n[2], n[1])))
    for b, i, y in iu.nodes():
        if y['k'] == 'ret':
            cv = const_val(strip(iu, y['e']))
            if cv == 1:
                R.inst('set', not reaches(P, iu, (iu.entry, -1), [(b.id, i)], cond=eq), 'set|listtrue', 'found only when equal', line_of(iu, y))
            elif cv == 0:
                R.inst('set', loop_done(P, iu, (b.id, i), NA), 'set|listfalse', 'not found only after looking at all', line_of(iu, y))
                for b2, t2 in [(b2, b2.term) for b2 in iu.blocks.values() if b2.term and b2.term.get('c') is not None]:
                    for si, (t, k) in enumerate(b2.succ):
                        if k == 'n' and Query(P, cut_cond=eq).edge_cut(iu, b2, si, ROOT):
                            R.inst('set', not Query(P, eh=False)._plain_reach(iu, (t, -1), (b.id, i), ()), 'set|listhit', 'an equal member is found', line_of(iu, y))
    app = [(b.id, i, y) for b, i, y in imu.nodes() if asg_parts(imu, y) and has_mem2(imu, y['a'] if y['k'] == 'asg' else y['o'], ARR)]
    R.inst('set', len(app) == 1 and param0(imu, asg_parts(imu, app[0][2])[1], None), 'set|append', 'the identifier is appended', imu.loc)
    must(P, R, 'set', imu, lambda f, y, q: any(y is a[2] for a in app), 'appended', 'a new member is appended', cond=tcall(iu.q, True))
    must(P, R, 'set', imu, lambda f, y, q: steps(f, y, NA) == 1, 'appendcount', 'and counted', cond=tcall(iu.q, True))
    dec = [(b.id, i, y) for b, i, y in imf.nodes() if steps(imf, y, NA) == -1]
    R.inst('set', bool(dec) and not reaches(P, imf, (imf.entry, -1), [(d[0], d[1]) for d in dec], cond=eq), 'set|remove', 'a member is removed only when equal', imf.loc)
    mv = [(b.id, i, y) for b, i, y in imf.nodes() if y['k'] == 'call' and y.get('n') in ('memmove', 'std::memmove', 'std::copy', 'std::move', 'std::copy_n')] + [(b.id, i, y) for b, i, y in imf.nodes() if asg_parts(imf, y) and has_mem2(imf, y['a'] if y['k'] == 'asg' else y['o'], ARR)]
    R.inst('set', bool(mv), 'set|close', 'the gap is closed', imf.loc)
    for bid, i, y in mv:
        if y['k'] == 'call' and base_name(y['n']) == 'memmove':
            tail_ok(P, R, imf, bid, i, y, dec)


def tail_ok(P, R, fn, bid, i, y, dec):
    """memmove(p, p + 1, (used' - i) * 2) with used' counted after the removal"""
    a = y['a']; s = strip(fn, a[1]); d = strip(fn, a[0])
    ok = s is not None and s['k'] == 'bin' and s['op'] == '+' and const_val(strip(fn, s['b'])) == 1 and show(fn, strip(fn, s['a'])) == show(fn, d)
    ln = strip(fn, a[2])
    ok2 = ln is not None and ln['k'] == 'bin' and ln['op'] == '*'
    if ok2:
        f = [z for z in (ln['a'], ln['b']) if const_val(strip(fn, z)) == 2]
        g = [z for z in (ln['a'], ln['b']) if const_val(strip(fn, z)) is None]
        ok2 = len(f) == 1 and len(g) == 1
        if ok2:
            ok3 = False
            for ff, e, p, c in Query(P).sources(fn, g[0], (bid, i), ROOT):
                # used - i, read after the decrement (or used - i - 1 before)
                e = strip(fn, e)
                minus1 = False
                if e is not None and e['k'] == 'bin' and e['op'] == '-' and const_val(strip(fn, e['b'])) == 1:
                    minus1 = True; e = strip(fn, e['a'])
                if e is not None and e['k'] == 'bin' and e['op'] == '-' and is_mem(strip(fn, e['a']), NA) and strip(fn, e['b'])['k'] == 'var':
                    after = not reaches(P, fn, (fn.entry, -1), [p], node=lambda f2, z, q: any(z is x[2] for x in dec))
                    ok3 = after != minus1
            ok2 = ok3
    R.inst('set', ok and ok2, 'set|tail', 'the members after the removed one move down', line_of(fn, y))


def loop_done(P, fn, pt, limit):
    """pt is reached only when an index that started at 0 and was stepped by one has reached the limit field"""
    def done(q, f, n, p, ctx):
        x = strip(f, n[1])
        return n[0] in ('>=', '==') and x is not None and x['k'] == 'var' and is_mem(strip(f, n[2]), limit) and index_ok(P, f, x['id'])
    return not reaches(P, fn, (fn.entry, -1), [pt], cond=done)


def index_ok(P, f, v):
    ds = [d for d in f.defs().get(v, []) if d[2] in ('init', 'asg')]
    st = [y for b, i, y in f.nodes() if any(o is not None and o['k'] == 'var' and o['id'] == v for o in mutated(P, f, y))]
    return len(ds) == 1 and ds[0][3] is not None and const_val(strip(f, ds[0][3])) == 0 and len(st) == 1 and st[0]['k'] == 'un' and '++' in st[0]['op']


def full_scan(P, fn, pt, limit):
    """pt is passed in every round of a loop over 0 .. limit"""
    bid = pt[0]
    cyc = cycle_blocks(fn, bid)
    exits = [b for b in cyc if any(t not in cyc for t, k in fn.blocks[b].succ if k == 'n')]
    if len(exits) != 1:
        return False
    h = fn.blocks[exits[0]]
    if h.term is None or h.term.get('c') is None:
        return False
    n = stay(fn, h, cyc)
    if n and n[0] == '>':
        n = ('<', n[2], n[1])
    x = strip(fn, n[1]) if n else None
    if not (n and n[0] in ('<', '!=') and x is not None and x['k'] == 'var' and is_mem(strip(fn, n[2]), limit) and index_ok(P, fn, x['id'])):
        return False
    seen = set(); st = [t for t, k in h.succ if k == 'n' and t in cyc]
    while st:
        b = st.pop()
        if b == bid or b in seen:
            continue
        if b == h.id:
            return False
        seen.add(b); st += [t for t, k in fn.blocks[b].succ if k == 'n' and t in cyc]
    return True


def load(P, R):
    """what is loaded from disk counts as in use"""
    rd = [f for f in P.fns.values() if f.cls == 'SessionsAndSubscriptionsDB']
    ids = {f.id for f in rd}
    inuse = lambda fn, y, q=None: on_mem(IDS, 'insert')(fn, y)
    n = 0
    for f in rd:
        for b, i, y in f.nodes():
            q2 = is_call(y, Q + 'queuePublish', 'QoSPublishQueue::queuePublish')
            st = on_mem(Q + 'outgoingQoS2MessageIds', 'insert', 'emplace')(f, y)
            if not q2 and not st:
                continue
            n += 1
            x = y['a'][1] if q2 else y['a'][0]
            key = show(f, strip(f, x))

            def marks(fn, z, q=None):
                if z['k'] != 'call':
                    return False
                if on_mem(IDS, 'insert')(fn, z):
                    return True
                return any(same_var(f, a, x) for a in z.get('a', [])) and any(not normal_exit(P, t, cut_node=lambda g, w, q3: on_mem(IDS, 'insert')(g, w) and g is t and param0(g, w['a'][0], None), eh=False) for t in P.targets(z)) if fn is f else False
            pt = (b.id, i)
            before = reaches(P, f, (f.entry, -1), [pt], node=marks)
            qq = Query(P, cut_node=marks, eh=False)
            aft = qq.after(f, pt) or qq.reach_point(f, pt, pt, ROOT, None)
            R.inst('load', not before or not aft, 'load|%s|%s' % (f.q, 'queue' if q2 else 'pubrel'), 'the identifier of a loaded %s is in use' % ('message' if q2 else 'PUBREL'), line_of(f, y))
    if n < 2:
        raise AnalysisError('loading of queued messages not found')
    R.saw(*ids)


def same_var(f, a, b):
    a, b = strip(f, a), strip(f, b)
    return a is not None and b is not None and a['k'] == 'var' and b['k'] == 'var' and a['id'] == b['id']
