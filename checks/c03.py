"""Finite-domain path analysis of subscription handling: every value that can reach the subscription store is
tied to the outcome of the subscribe authorization check, and the reason codes are counted per filter."""
from core.envwalk import *
from checks.c01 import acl_call

FAMILY = frozenset({'AuthResult::success', 'AuthResult::success_without_retained_delivery', 'AuthResult::success_but_drop'})
PLAIN = frozenset({'AuthResult::success'})
ADD = 'SubscriptionStore::addSubscription'
GIVE = 'SubscriptionStore::giveClientRetainedMessages'
EXEMPT = {'flashmq_plugin_add_subscription': 'plugin API', 'MqttPacket::handleConnAck': 'subscriptions configured for a bridge',
          'SubscriptionStore::loadSessionsAndSubscriptions': 'saved subscriptions'}


def grows(fn, y):
    if y['k'] != 'call' or y.get('o') is None:
        return None
    if base_name(y.get('n', '')) not in ('emplace_front', 'emplace_back', 'push_back', 'push_front', 'emplace', 'insert', 'push', 'emplace_after', 'insert_after'):
        return None
    return strip(fn, y['o'])


def check(P, R):
    R.rule('granted', 'a filter is accepted only when the subscribe check for it answered with a granting result')
    R.rule('recorded-result', 'the result recorded for a filter is never more generous than the answer of the check')
    R.rule('dropped', 'a filter that was granted-but-dropped is not added')
    R.rule('retained-delivery', 'retained messages are given only for a plain grant, a non-shared filter and when the retain handling asks for it')
    R.rule('one-code-per-filter', 'exactly one reason code is produced for every filter')
    R.rule('denied-code', 'a refused filter is answered with an error code (except for protocol 3.1, which has none)')
    R.rule('granted-code', 'an accepted filter is answered with the QoS that the subscription gets')
    R.rule('order', 'filters take effect in the order they appear')
    R.rule('ack-first', 'the acknowledgement is sent for every accepted packet, before retained messages')
    R.rule('one-way-in', 'subscriptions are made only by the checked handler, plugins, bridge configuration and the saved state')
    hs = P.one('MqttPacket::handleSubscribe')
    sub = acl_call('AclAccess::subscribe')
    roots = tops(P, fns_with(P, calls_to(ADD)), stop=lambda f: f.q == 'MqttPacket::handleSubscribe' or f.q in EXEMPT)
    for r in roots:
        R.inst('one-way-in', r.id == hs.id or r.q in EXEMPT, 'one-way-in|' + r.q, 'subscriptions made by %s' % r.q, r.loc)
    reach = {i for i in P.reachable_fns([hs], how=('call', 'lambda'))}

    is_ins = lambda fn, y: (lambda c: c is not None and 'SubscriptionTuple' in c.get('t', ''))(grows(fn, y)) if fn.id in reach else False
    is_code = lambda fn, y: (lambda c: c is not None and 'ReasonCodes' in c.get('t', ''))(grows(fn, y)) if fn.id in reach else False
    ins_sites = [(f, y) for f in P.fns.values() if f.id in reach for b, i, y in f.nodes() if is_ins(f, y)]
    direct = not ins_sites

    def target(fn, y):
        return is_ins(fn, y) if not direct else is_call(y, ADD)
    seen = {}

    def mark(rule, ok, key, what, fn, y, tr):
        d = seen.setdefault((rule, key, what, line_of(fn, y)), [True, ()])
        if not ok:
            d[0] = False; d[1] = list(tr)

    # st: (number of codes for the current filter, filter open, outcome of this iteration)
    def event(fn, b, y, s, tr):
        if s is None:   # relevance probe
            return True if (target(fn, y) or is_code(fn, y) or is_call(y, 'isValidSubscribePath') or is_call(y, 'SubAck::SubAck')) and fn.id in reach else None
        if fn.id not in reach:
            return None
        codes, open_, grant = s.st
        if is_call(y, 'isValidSubscribePath'):
            mark('one-code-per-filter', not open_ or codes == 1, 'next', 'the previous filter got exactly one code', fn, y, tr)
            return (0, True, None)
        if is_code(fn, y):
            mark('one-code-per-filter', codes == 0 and open_, 'code', 'no second code for the same filter', fn, y, tr)
            dom = s.sym('acl')
            v = W.ev(fn, arg(y, 0), s, cur_frame(s))
            x = code_value(fn, y)
            err = x == 'error'
            if grant is None and (dom is None or not within(dom, FAMILY)):
                # refused (or not decided): must be an error code, unless the protocol is older than 3.1.1
                mark('denied-code', err or x == 'mixed', 'denied', 'error code for a refused filter', fn, y, tr)
            return (min(codes + 1, 2), open_, grant)
        if is_call(y, 'SubAck::SubAck'):
            mark('one-code-per-filter', not open_ or codes == 1, 'ack', 'the last filter got exactly one code', fn, y, tr)
            return s.st
        if target(fn, y):
            dom = s.sym('acl')
            mark('granted', dom is not None and within(dom, FAMILY), 'insert', 'filter accepted', fn, y, tr)
            # recorded result
            res = [a for a in y.get('a', []) if (strip(fn, a) or {}).get('t', '').replace('const ', '') == 'AuthResult' or (strip(fn, a) or {}).get('k') == 'enum' and strip(fn, a)['n'].startswith('AuthResult')]
            for a in res:
                v = W.ev(fn, a, s, cur_frame(s))
                ok = v == ('s', 'acl') or (v[0] == 'c' and (v[1] != 'AuthResult::success' or (dom is not None and within(dom, PLAIN))))
                mark('recorded-result', ok, 'result', 'recorded result follows the check', fn, y, tr)
            return (codes, open_, 'granted')
        return None

    frame = ['']

    def cur_frame(s):
        return W.cur

    def code_value(fn, y):
        """'error', 'grant' or 'mixed' (depends on the protocol version)"""
        q = Query(P)
        pt = [(b.id, i) for b, i, z in fn.nodes() if z is y]
        kinds = set()
        for (f, x, p, c) in q.sources(fn, arg(y, 0), pt[0], ROOT):
            if x is not None and x['k'] == 'enum':
                kinds.add('error' if (x.get('v') or 0) >= 0x80 else 'grant')
            else:
                kinds.add('grant')
        if kinds == {'error'}:
            return 'error'
        if kinds == {'grant'}:
            return 'grant'
        # mixed: the granting alternative must be guarded by an old protocol version
        a = strip(fn, arg(y, 0))
        return 'mixed' if version_guarded(fn, y) else 'grant'

    def version_guarded(fn, y):
        # no path on which the version is at least 3.1.1 may select the non-error alternative
        x = strip(fn, arg(y, 0))
        q = Query(P)
        pt = [(b.id, i) for b, i, z in fn.nodes() if z is y][0]
        conds = []
        if x['k'] == 'var':
            for d in q.reaching_defs(fn, x['id'], pt) or []:
                if d[3] is not None:
                    e = strip(fn, d[3])
                    if e['k'] == 'cond':
                        conds.append(e)
        elif x['k'] == 'cond':
            conds.append(x)
        if not conds:
            return True   # alternatives chosen by control flow: judged per path elsewhere
        for e in conds:
            n = norm(fn, e['c'], True)
            a, b = strip(fn, e['a']), strip(fn, e['b'])
            aerr = a['k'] == 'enum' and (a.get('v') or 0) >= 0x80
            berr = b['k'] == 'enum' and (b.get('v') or 0) >= 0x80
            ver = n[2] is not None and enum_name(n[2]) in ('ProtocolVersion::Mqtt311',)
            if not ver:
                return False
            if aerr and n[0] == '>=' or berr and n[0] == '<':
                continue
            return False
        return True

    class Walk(EnvWalk):
        cur = ''

        def elem(self, fn, b, x, states, fr, depth, trace):
            old = self.cur; self.cur = fr
            try:
                return super().elem(fn, b, x, states, fr, depth, trace)
            finally:
                self.cur = old
    W = Walk(P, watch=lambda fn, y: 'acl' if sub(fn, y) else None, event=event, st0=(0, False, None), inline=lambda t: t.id in reach)
    W.run([hs])
    R.saw(*W.explored)
    for (rule, key, what, loc), (ok, tr) in sorted(seen.items()):
        R.inst(rule, ok, '%s|%s' % (rule, key), what, loc, tr)
    if not any(k[0] == 'granted' for k in seen):
        raise AnalysisError('no place found where handleSubscribe accepts a filter')
    # what happens with the recorded results
    res = lambda q, fn, x: is_mem(x, 'SubscriptionTuple::authResult')

    def isres(op_ok):
        def cond(q, fn, n, pt, ctx):
            x = strip(fn, n[1])
            return res(q, fn, x) and op_ok(n[0], enum_name(n[2]))
        return cond
    if not direct:
        guarded(P, R, 'dropped', [hs], calls_to(ADD), cut_cond=isres(lambda op, e: (op == '!=' and e == 'AuthResult::success_but_drop') or (op == '==' and e in ('AuthResult::success', 'AuthResult::success_without_retained_delivery'))),
                what='not success_but_drop', key='dropped')
        guarded(P, R, 'retained-delivery', [hs], calls_to(GIVE), cut_cond=isres(lambda op, e: op == '==' and e == 'AuthResult::success'), what='plain success', key='plain')
    else:
        R.ok('dropped', 'subscriptions are added inside the checked loop')
    notshared = truth(lambda q, fn, x: is_call(x, 'std::basic_string::empty') and 'hareName' in show(fn, x['o']), True)

    def shared_empty(q, fn, n, pt, ctx):
        x = strip(fn, n[1])
        if x is not None and x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and x.get('o') is not None:
            o = strip(fn, x['o'])
            return (is_mem(o, 'SubscriptionTuple::shareName') or (o['k'] == 'var' and 'hare' in o['n'])) and n[0] == '!='
        return False
    guarded(P, R, 'retained-delivery', [hs], calls_to(GIVE), cut_cond=shared_empty, what='not a shared filter', key='shared')

    def handling(q, fn, n, pt, ctx):
        return n[0] == '==' and enum_name(n[2]) in ('RetainHandling::SendRetainedMessagesAtSubscribe', 'RetainHandling::SendRetainedMessagesAtNewSubscribeOnly')
    guarded(P, R, 'retained-delivery', [hs], calls_to(GIVE), cut_cond=handling, what='retain handling asks for it', key='handling')

    def handling_new(q, fn, n, pt, ctx):
        return n[0] == '==' and enum_name(n[2]) in ('RetainHandling::SendRetainedMessagesAtSubscribe', 'AddSubscriptionType::NewSubscription')
    guarded(P, R, 'retained-delivery', [hs], calls_to(GIVE), cut_cond=handling_new, what='existing subscriptions only with "send at subscribe"', key='existing')
    # the qos of the subscription is the qos that was answered
    for f, y in ins_sites:
        ins_qos = [strip(f, a) for a in y['a'] if (strip(f, a) or {}).get('t') in ('unsigned char', 'uint8_t')]
        names = {a['id'] for a in ins_qos if a['k'] == 'var'}
        for b, i, z in f.nodes():
            if is_code(f, z):
                x = strip(f, arg(z, 0))
                if x['k'] == 'var' and x.get('t') == 'unsigned char':
                    R.inst('granted-code', x['id'] in names, 'granted-code', 'granted code is the QoS of the subscription', line_of(f, z))
    for f, y in ins_sites:
        R.inst('order', base_name(y['n']).endswith('_back'), 'order|' + f.q, 'accepted filters are appended', line_of(f, y))
    if direct:
        R.ok('order', 'filters are applied as they are read'); R.ok('granted-code', 'n/a')
    acked = lambda fn, y, q: is_call(y, 'Client::writeMqttPacket')
    guarded(P, R, 'ack-first', [hs], calls_to(GIVE), cut_node=acked, what='SUBACK written', key='before')
    q = Query(P, cut_node=acked); R.inst('ack-first', not q.explore(hs), 'ack-first|exit', 'every handled SUBSCRIBE is acknowledged', hs.loc)
