"""The retained message store."""
from core.rules import *
from checks.c11 import must, reaches, param0, on_mem, each
from checks.c13 import base_is
from checks.c14 import is_call_base, one_exit
from checks.c15 import isnull, gather, timer

ST = 'SubscriptionStore::'
MODE = 'Settings::retainedMessagesMode'
TRY, SET = ST + 'trySetRetainedMessages', ST + 'setRetainedMessage'
NODE = 'RetainedMessageNode::'
MSG, CH = NODE + 'message', NODE + 'children'
RM = 'RetainedMessagesMode'
QRM = 'queuedRetainedMessages'
TD = 'ThreadData::'


def check(P, R):
    R.rule('set', 'an allowed PUBLISH with retain is handed to the store while retaining is enabled')
    R.rule('order', 'messages that could not be stored at once are stored in the order they came')
    R.rule('node', 'the message is stored under its own topic, unless a limit or the mode forbids it')
    R.rule('limit', 'a new node is made only below the configured limit')
    R.rule('payload', 'an empty payload clears, any other replaces')
    R.rule('data', 'what is stored is the message with retain set and a limited expiry')
    R.rule('expire', 'only expired messages and old empty nodes are removed')
    set_(P, R)
    order(P, R)
    node(P, R)
    payload(P, R)
    expire(P, R)


def mode(P, vals, deny=False):
    allv = set(enum_values(P, RM))
    v = {RM + '::' + x for x in vals}
    return in_set(P, {MODE}, RM, (allv - v) if deny else v)


def offs(P):
    """facts that exclude one retaining mode, for each of them"""
    allv = set(enum_values(P, RM))
    return [in_set(P, {MODE}, RM, allv - {RM + '::' + v}) for v in ('Enabled', 'EnabledWithoutPersistence')]


def set_(P, R):
    hp = P.one('MqttPacket::handlePublish'); R.saw(hp.id)
    AR = 'AuthResult'; allv = set(enum_values(P, AR))
    notok = in_set(P, {'Authentication::aclCheck'}, AR, allv - {'AuthResult::success'})
    noret = truth(lambda q, fn, x: is_mem(x, 'Publish::retain', 'PublishBase::retain') or (x['k'] == 'mem' and base_name(x['n']) == 'retain'), False)
    acl = [(b, i, y) for b, i, y in hp.nodes() if is_call(y, 'Authentication::aclCheck')]
    tr = lambda fn, y, q=None: is_call(y, TRY, SET)
    R.inst('set', bool(acl), 'set|acl', 'the decision of the ACL', hp.loc)
    for b, i, y in acl:
        for off in offs(P):
            q = Query(P, cut_cond=any_of(notok, noret, off), cut_node=tr, eh=False)
            R.inst('set', not q.after(hp, (b.id, i)), 'set|stored', 'an allowed retained PUBLISH is stored', line_of(hp, y))
    for b, i, y in hp.nodes():
        if tr(hp, y):
            on = mode(P, {'Enabled', 'EnabledWithoutPersistence'})
            R.inst('set', not reaches(P, hp, (hp.entry, -1), [(b.id, i)], cond=on), 'set|mode', 'only in the modes that retain', line_of(hp, y))
            R.inst('set', is_mem(strip(hp, y['a'][0]), 'MqttPacket::publishData') and arg_is(P, hp, y['a'][1], (b.id, i), lambda f, s: s['k'] == 'call' and base_name(s['n']) == 'getSubtopics' and has_mem(f, s['o'], 'MqttPacket::publishData')), 'set|what', 'the message that was published', line_of(hp, y))
            pay = lambda fn, z, q=None: asg_parts(fn, z) is not None and (lambda l: l is not None and l['k'] == 'mem' and base_name(l['n']) == 'payload' and has_mem(fn, l, 'MqttPacket::publishData'))(strip(fn, asg_parts(fn, z)[0])) and any(w['k'] == 'call' and base_name(w.get('n', '')) == 'getPayloadCopy' for w in fn.walk(asg_parts(fn, z)[1], True))
            R.inst('set', not reaches(P, hp, (hp.entry, -1), [(b.id, i)], node=pay), 'set|payload', 'with its payload', line_of(hp, y))
    # trySet: done now, or queued
    t = P.one(TRY); R.saw(t.id)
    isset = lambda fn, y, q=None: is_call(y, SET)
    que = lambda fn, y, q=None: is_call(y, TD + 'queueSettingRetainedMessage')
    istd = lambda fn, x: any(w.get('n') == 'ThreadGlobals::getThreadData' for w in gather_defs(fn, x)) and not any(is_call(w, SET) for w in fn.walk(x, True))
    notd = isnull(lambda q, fn, x, pt, ctx: istd(fn, x))
    notd2 = truth(lambda q, fn, x: x['k'] in ('var', 'call') and 'ThreadData' in ((var_type(fn, x['id']) if x['k'] == 'var' else '') or '') + ((x.get('n') or '') if x['k'] == 'call' and 'bool' in base_name(x.get('n', '')) else '') and istd(fn, x), False)
    done = truth(lambda q, fn, x: is_call(x, SET), True)
    must(P, R, 'set', t, que, 'queued', 'a message is stored or queued', cond=any_of(notd, notd2, done))
    qempty = any_of(tcall(TD + 'queuedRetainedMessagesEmpty', True))
    for b, i, y in t.nodes():
        if isset(t, y):
            R.inst('order', not reaches(P, t, (t.entry, -1), [(b.id, i)], cond=qempty), 'order|direct', 'stored at once only when none are waiting', line_of(t, y))
        if isset(t, y) or que(t, y):
            R.inst('set', param0(t, y['a'][0], None, 0) and param0(t, y['a'][1], None, 1), 'set|same', 'this message', line_of(t, y))


def order(P, R):
    q1 = P.one(TD + 'queueSettingRetainedMessage'); s = P.one(TD + 'setQueuedRetainedMessages'); e = P.one(TD + 'queuedRetainedMessagesEmpty'); c = P.one(TD + 'clearQueuedRetainedMessages')
    R.saw(q1.id, s.id, e.id, c.id)
    onq = lambda fn, x: x is not None and any(z['k'] == 'mem' and base_name(z['n']) == QRM for z in fn.walk(x, True))
    meth = lambda *m: (lambda fn, y, q=None: y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in m and onq(fn, y['o']))
    must(P, R, 'order', q1, meth('push_back', 'emplace_back'), 'append', 'queued after those that wait')
    for b, i, y in q1.nodes():
        if meth('push_back', 'emplace_back')(q1, y):
            zs = [z for a in y['a'] if a is not None for z in gather(P, q1, a, (b.id, i))]
            R.inst('order', all(any(z['k'] == 'var' and z['id'] == q1.params[j]['id'] for z in zs) for j in range(3)), 'order|what', 'with message, topic and time limit', line_of(q1, y))
    ch = ('push_front', 'emplace_front', 'insert', 'emplace', 'pop_front', 'pop_back', 'erase', 'clear', 'push_back', 'emplace_back', 'splice', 'swap', 'reverse', 'sort', 'resize', 'assign')
    owners = {q1.q: {'push_back', 'emplace_back'}, s.q: {'erase', 'pop_front'}, c.q: {'clear'}}
    for f, b, i, y in sites_of(P, meth(*ch)):
        t = owners.get(f.q)
        R.inst('order', t is not None and base_name(y['n']) in t, 'order|op|' + f.q, 'the queue is changed by %s in %s' % (base_name(y['n']), f.q), line_of(f, y))
    # emptiness
    for b, i, y in e.nodes():
        if y['k'] == 'ret':
            x = strip(e, y['e'])
            R.inst('order', x['k'] == 'call' and base_name(x['n']) == 'empty' and onq(e, x['o']) or (x['k'] == 'bin' and x['op'] == '==' and const_val(strip(e, x['b'])) == 0 and any(z['k'] == 'call' and base_name(z['n']) == 'size' and onq(e, z['o']) for z in e.walk(x['a'], True))), 'order|empty', 'whether any wait', line_of(e, y))
    # the walk: starts at the front, an entry leaves only when it was stored, stops at the first that was not
    er = [(b, i, y) for b, i, y in s.nodes() if meth('erase', 'pop_front')(s, y)]
    st = [(b, i, y) for b, i, y in s.nodes() if is_call(y, SET)]
    R.inst('order', bool(er) and bool(st), 'order|walk', 'waiting messages are stored', s.loc)
    okT, okF = tcall(SET, True), tcall(SET, False)
    for b, i, y in er:
        R.inst('order', not reaches(P, s, (s.entry, -1), [(b.id, i)], cond=okT) and not Query(P, cut_cond=okT, eh=False).reach_point(s, (b.id, i), (b.id, i), ROOT, None), 'order|stored', 'an entry leaves when it was stored', line_of(s, y))
    for b, i, y in st:
        q = Query(P, cut_node=lambda fn, z, qq: any(z is w[2] for w in er), eh=False)
        R.inst('order', not q.reach_point(s, (b.id, i), (b.id, i), ROOT, None), 'order|next', 'the next one only after this one left', line_of(s, y))
        beg = all(any(z['k'] == 'call' and base_name(z.get('n', '')) in ('begin', 'cbegin', 'front') and onq(s, z.get('o')) for z in gather(P, s, a, (b.id, i)) + gather_defs(s, a)) for a in y['a'][:2])
        R.inst('order', beg, 'order|front', 'from the oldest', line_of(s, y))
        # giving up the walk only at failure or at the end
    fail = okF
    endc = lambda q, fn, n, pt, ctx: n[0] == '==' and any(any(s2 is not None and s2['k'] == 'call' and base_name(s2.get('n', '')) in ('end', 'cend') and onq(f, s2.get('o')) for f, s2, _, _ in q.sources(fn, z, pt, ctx)) for z in n[1:])
    emp = truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and onq(fn, x.get('o')), True)
    nostore = isnull(lambda q, fn, x, pt, ctx: any(s2 is not None and (s2.get('n') or '').endswith('subscriptionStore') for _, s2, _, _ in q.sources(fn, x, pt, ctx)))
    nos2 = truth(lambda q, fn, x: (x.get('n') or '').endswith('subscriptionStore'), False)
    wake = lambda fn, z, qq=None: is_call(z, TD + 'wakeUpThread')
    R.inst('order', not normal_exit(P, s, cut_cond=any_of(emp, endc, nostore, nos2), cut_node=wake, eh=False), 'order|again', 'and it is tried again when one was not stored', s.loc)
    # emptied queue: wake at first
    noteq = truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and onq(fn, x.get('o')), False)
    for b, i, y in q1.nodes():
        if meth('push_back', 'emplace_back')(q1, y):
            q = Query(P, cut_cond=noteq, cut_node=wake, eh=False)
            R.inst('order', not q.after(q1, (b.id, i)), 'order|woken', 'the first one that waits wakes the thread', line_of(q1, y))
    # the lock is waited for when the time is up
    for b, i, y in st:
        if len(y['a']) > 2 and y['a'][2] is not None:
            late = lambda q, fn, n, pt, ctx: (n[0] in ('>', '>=') and lim(fn, n[1])) or (n[0] in ('<', '<=') and lim(fn, n[2]))
            lim = lambda fn, x: (lambda w: w is not None and w['k'] == 'mem' and base_name(w['n']) == 'limit')(strip(fn, x))
            R.inst('order', bvalued(P, s, y['a'][2], (b.id, i), True, late), 'order|forced', 'one whose time is up is stored in any case', line_of(s, y))
    # someone runs the walk
    n = 0
    for f, b, i, y in sites_of(P, calls_to(s.q)):
        n += 1
    R.inst('order', n >= 1, 'order|run', 'waiting messages are looked at', s.loc)
    # dropping the queue: only after an exception
    for f, b, i, y in sites_of(P, calls_to(c.q)):
        from checks.c06 import in_catch
        R.inst('order', in_catch(f, b), 'order|drop', 'waiting messages are dropped only after an internal error', line_of(f, y))


def gather_defs(fn, x, d=0, seen=None):
    """nodes of x and of everything assigned to the locals in it (flow-insensitive)"""
    out = []
    seen = seen if seen is not None else set()
    if x is None or d > 8:
        return out
    for z in fn.walk(x, True):
        out.append(z)
        if z['k'] == 'var' and z['id'] not in seen:
            seen.add(z['id'])
            for e in fn.defs().get(z['id'], []):
                if e[3] is not None:
                    out += gather_defs(fn, e[3], d + 1, seen)
    return out


def node(P, R):
    f = P.one(SET); lr = P.one(ST + 'setRetainedLimitReached'); R.saw(f.id, lr.id)
    pub, sub = f.params[0]['id'], f.params[1]['id']
    isp = lambda x, k: x is not None and x['k'] == 'var' and x['id'] == f.params[k]['id']
    full = tcall(lr.q, True); below = tcall(lr.q, False)
    big = lambda q, fn, n, pt, ctx: (n[0] in ('>',) and paysize(fn, n[1]) and is_mem(strip(fn, n[2]), 'Settings::retainedMessageMaxPayloadSize')) or (n[0] in ('<',) and paysize(fn, n[2]) and is_mem(strip(fn, n[1]), 'Settings::retainedMessageMaxPayloadSize'))
    paysize = lambda fn, x: (lambda w: w is not None and w['k'] == 'call' and base_name(w['n']) in ('size', 'length') and any(z['k'] == 'mem' and base_name(z['n']) == 'payload' for z in fn.walk(w['o'], True)))(strip(fn, x))
    add = lambda fn, y, q=None: is_call(y, NODE + 'addPayload') and param0(fn, y['a'][0], None, 0)
    sel = isnull(lambda q, fn, x, pt, ctx: 'RetainedMessageNode' in (var_type(fn, (strip(fn, x) or {}).get('id')) or ''))
    failed = any_of(tcall('RWLockGuard::tryrdlock', False), tcall('RWLockGuard::trywrlock', False))
    for b, i, y in f.nodes():
        if y['k'] == 'ret':
            v = const_val(strip(f, y['e']))
            if v == 0:
                R.inst('node', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=failed), 'node|false', 'not stored yet only when the lock was not free', line_of(f, y))
            elif v == 1:
                R.inst('node', not any(reaches(P, f, (f.entry, -1), [(b.id, i)], cond=any_of(off, full, big, sel), node=add) for off in offs(P)), 'node|true', 'done means stored, or forbidden by the mode or a limit', line_of(f, y))
            else:
                raise AnalysisError('setRetainedMessage returns a computed value')
    for b, i, y in f.nodes():
        if add(f, y):
            small = lambda q, fn, n, pt, ctx: (n[0] in ('<=',) and paysize(fn, n[1]) and is_mem(strip(fn, n[2]), 'Settings::retainedMessageMaxPayloadSize')) or (n[0] in ('>=',) and paysize(fn, n[2]) and is_mem(strip(fn, n[1]), 'Settings::retainedMessageMaxPayloadSize'))
            R.inst('node', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=small), 'node|size', 'only a payload within the limit', line_of(f, y))
            on = mode(P, {'Enabled', 'EnabledWithoutPersistence'})
            R.inst('node', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=on), 'node|mode', 'only in the modes that retain', line_of(f, y))
    R.inst('node', any(add(f, y) for _, _, y in f.nodes()), 'node|add', 'the message is stored', f.loc)
    for g, b, i, y in sites_of(P, calls_to(NODE + 'addPayload')):
        R.inst('node', g.id == f.id, 'node|site|' + g.q, 'messages are stored by %s' % g.q, line_of(g, y))
    # try only: a forced call waits for the lock
    tr = flag_p(f, 2)
    for b, i, y in f.nodes():
        if is_call(y, 'RWLockGuard::tryrdlock', 'RWLockGuard::trywrlock'):
            R.inst('node', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=tr(True)), 'node|force', 'a forced call waits for the lock', line_of(f, y))
    # descending: the step is by the subtopic at the position, the position moves by one, and the node is selected at the end
    pos = [v for v in {z['id'] for b, i, y in f.nodes() for z in f.walk(y) if z['k'] == 'var'} if 'iterator' in (var_type(f, v) or '') and any(e[3] is not None and any(w['k'] == 'call' and base_name(w.get('n', '')) in ('begin', 'cbegin') and isp(strip(f, w.get('o')), 1) for w in f.walk(e[3], True)) for e in f.defs().get(v, []))]
    R.inst('node', len(pos) == 1, 'node|pos', 'the topic is walked from its start', f.loc)
    if len(pos) == 1:
        p = pos[0]
        chops = [(b, i, y) for b, i, y in f.nodes() if y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in ('find', 'operator[]', 'at', 'try_emplace', 'emplace', 'insert', 'contains', 'count') and has_mem(f, y['o'], CH)]
        R.inst('node', bool(chops), 'node|children', 'the children are looked up', f.loc)
        inc = lambda fn, z, q=None: (z['k'] == 'un' and '++' in z['op'] and isv(fn, z['e'], p)) or (z['k'] == 'call' and z.get('op') in ('++', 'post++') and (isv(fn, z.get('o'), p) or any(isv(fn, a, p) for a in z.get('a', []) if a is not None))) or (z['k'] == 'call' and base_name(z.get('n', '')) == 'operator++' and (isv(fn, z.get('o'), p)))
        incs = [(b, i, y) for b, i, y in f.nodes() if inc(f, y)]
        R.inst('node', bool(incs), 'node|moves', 'the position moves', f.loc)
        for b, i, y in chops:
            R.inst('node', any(isv(f, z, p) for z in f.walk(y['a'][0], True)), 'node|step', 'the child is that of the subtopic', line_of(f, y))
        down = [(b, i, y) for b, i, y in f.nodes() if asg_parts(f, y) is not None and (lambda l: l is not None and l['k'] == 'var' and 'RetainedMessageNode' in (var_type(f, l['id']) or '') and '*' in (var_type(f, l['id']) or ''))(strip(f, asg_parts(f, y)[0]))]
        dirs = [(b.id, i) for b, i, y in down if any(any(has_mem(f, w, CH) for w in [z]) for z in gather_defs(f, asg_parts(f, y)[1]))]
        for b, i, y in incs:
            q = Query(P, cut_node=lambda fn, z, qq: any(z is w[2] for w in down), eh=False)
            R.inst('node', not any(q.reach_point(f, (bb.id, ii), (b.id, i), ROOT, None) for bb, ii, z in incs), 'node|down', 'a step of the topic is a step down', line_of(f, y))
        for b, i, y in down:
            q = Query(P, cut_node=inc, eh=False)
            again = [w for w in down if any(z['k'] == 'var' for z in f.walk(asg_parts(f, w[2])[1], True)) and not any(z['k'] == 'var' and '&' not in (var_type(f, z['id']) or '') and '*' not in (var_type(f, z['id']) or '') and 'iterator' not in (var_type(f, z['id']) or '') for z in f.walk(asg_parts(f, w[2])[1], True))]
            R.inst('node', not any(q.reach_point(f, (b.id, i), (w[0].id, w[1]), ROOT, None) for w in again) or y not in [w[2] for w in again], 'node|once', 'and the other way round', line_of(f, y))
        # selecting: only at the end of the topic
        selv = [(b, i, y) for b, i, y in f.nodes() if asg_parts(f, y) is not None and (lambda l: l is not None and l['k'] == 'var' and any(is_call(z, NODE + 'addPayload') and isv(f, strip_ptr(f, z['o']), l['id']) for _, _, z in f.nodes()))(strip(f, asg_parts(f, y)[0]))]
        atend = lambda q, fn, n, pt, ctx: n[0] == '==' and any(isv(fn, z, p) for z in n[1:]) and any((lambda w: w is not None and w['k'] == 'call' and base_name(w.get('n', '')) in ('end', 'cend') and isp(strip(fn, w.get('o')), 1))(strip(fn, z)) for z in n[1:])
        for b, i, y in selv:
            R.inst('node', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=atend), 'node|end', 'the node is the one at the end of the topic', line_of(f, y))
        R.inst('node', bool(selv), 'node|sel', 'a node is selected', f.loc)
        # limit: creating a child
        mk = [(b, i, y) for b, i, y in f.nodes() if y['k'] == 'call' and base_name(y.get('n', '')) in ('make_shared',) and 'RetainedMessageNode' in y.get('t', '') or y['k'] == 'new' and 'RetainedMessageNode' in y.get('t', '')]
        R.inst('limit', bool(mk), 'limit|make', 'nodes are made', f.loc)
        noenf = isnull(lambda q, fn, x, pt, ctx: (lambda w: w is not None and w['k'] == 'var' and any(is_call(z, lr.q) and any(isv(f, u, w['id']) for u in f.walk(z['a'][1], True)) for _, _, z in f.nodes()))(strip(fn, x)))
        noenf2 = truth(lambda q, fn, x: x['k'] == 'var' and any(is_call(z, lr.q) and any(isv(f, u, x['id']) for u in f.walk(z['a'][1], True)) for _, _, z in f.nodes()), False)
        shallow = lambda q, fn, n, pt, ctx: (n[0] == '<' and is_mem(strip(fn, n[2]), 'Settings::retainedMessagesNodeCreationLimitEnforcementDepth')) or (n[0] == '>' and is_mem(strip(fn, n[1]), 'Settings::retainedMessagesNodeCreationLimitEnforcementDepth'))
        for b, i, y in mk:
            q = Query(P, cut_cond=any_of(below, noenf, noenf2), eh=False)
            R.inst('limit', not q.reach_point(f, (f.entry, -1), (b.id, i), ROOT, None) and not q.reach_point(f, (b.id, i), (b.id, i), ROOT, None), 'limit|check', 'each new node passed the limit', line_of(f, y))
            # below the depth of enforcement the node is set
            enfset = lambda fn, z, qq=None: asg_parts(fn, z) is not None and (lambda l: l is not None and l['k'] == 'var' and any(is_call(c, lr.q) and any(isv(f, u, l['id']) for u in f.walk(c['a'][1], True)) for _, _, c in f.nodes()))(strip(fn, asg_parts(fn, z)[0]))
            q2 = Query(P, cut_cond=any_of(shallow, noenf_pos(f, lr)), cut_node=enfset, eh=False)
            R.inst('limit', not q2.reach_point(f, (f.entry, -1), (b.id, i), ROOT, None) and not q2.reach_point(f, (b.id, i), (b.id, i), ROOT, None), 'limit|depth', 'from the configured depth on', line_of(f, y))
    # the limit itself
    cnt = lambda fn, x: (lambda w: w is not None and any(z['k'] == 'mem' and z['n'] == NODE + 'recursiveChildCount' for z in fn.walk(w, True)))(strip(fn, x))
    lim = lambda fn, x: any(is_mem(z, 'Settings::retainedMessagesNodeCreationLimit') for z in fn.walk(x, True))
    under = lambda q, fn, n, pt, ctx: (n[0] == '<' and cnt(fn, n[1]) and lim(fn, n[2])) or (n[0] == '>' and cnt(fn, n[2]) and lim(fn, n[1]))
    over = lambda q, fn, n, pt, ctx: (n[0] in ('>=', '>') and cnt(fn, n[1]) and lim(fn, n[2])) or (n[0] in ('<=', '<') and cnt(fn, n[2]) and lim(fn, n[1]))
    EM = 'Settings::retainedMessagesNodeCreationLimitEnforcementMode'
    E = 'RetainedMessagesNodeCreationLimitEnforcementMode'
    rej = in_set(P, {EM}, E, {E + '::Reject'}); nrej = in_set(P, {EM}, E, set(enum_values(P, E)) - {E + '::Reject'})
    nul = isnull(lambda q, fn, x, pt, ctx: param0(fn, x, pt, 1))
    sys = lambda q, fn, n, pt, ctx: n[0] == '==' and any((w.get('v') == '$SYS' or w.get('s') == '$SYS') for z in n[1:] for w in fn.walk(z, True))
    for b, i, y in lr.nodes():
        if y['k'] == 'ret':
            pt = (b.id, i)
            R.inst('limit', bvalued(P, lr, y['e'], pt, False, any_of(under, nul, sys, nrej)), 'limit|allows', 'a node is allowed only below the limit (or when the mode only logs)', line_of(lr, y))
            R.inst('limit', bvalued(P, lr, y['e'], pt, True, over), 'limit|rejects', 'and refused only at the limit', line_of(lr, y))
            R.inst('limit', bvalued(P, lr, y['e'], pt, True, rej), 'limit|mode', 'in the mode that rejects', line_of(lr, y))


def noenf_pos(f, lr):
    return truth(lambda q, fn, x: x['k'] == 'var' and any(is_call(z, lr.q) and any(isv(f, u, x['id']) for u in f.walk(z['a'][1], True)) for _, _, z in f.nodes()), True)


def flag_p(f, k):
    return lambda pol: truth(lambda q, fn, x: x['k'] == 'var' and fn.id == f.id and x['id'] == f.params[k]['id'], pol)


def isv(fn, x, v):
    x = strip(fn, x)
    return x is not None and x['k'] == 'var' and x['id'] == v


def payload(P, R):
    a = P.one(NODE + 'addPayload'); R.saw(a.id)
    empty = lambda pol: truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and x.get('o') is not None and any(z['k'] == 'mem' and base_name(z['n']) == 'payload' for z in fn.walk(x['o'], True)), pol)
    size = lambda pol: lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) in ((('==', 0), ('<=', 0), ('<', 1)) if pol else (('!=', 0), ('>', 0), ('>=', 1))) and any(z['k'] == 'call' and base_name(z.get('n', '')) in ('size', 'length') and any(w['k'] == 'mem' and base_name(w['n']) == 'payload' for w in fn.walk(z.get('o') or {}, True)) for z in fn.walk(n[1], True))
    E, NE = any_of(empty(True), size(True)), any_of(empty(False), size(False))
    has = lambda pol: any_of(truth(lambda q, fn, x: is_mem(x, MSG) or (x['k'] == 'call' and x.get('o') is not None and is_mem(strip(fn, x['o']), MSG) and 'bool' in base_name(x.get('n', ''))), pol), lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) == (('!=' if pol else '=='), 0) and has_mem(fn, n[1], MSG))
    src = lambda fn, x: any(z['k'] == 'var' and z['id'] == a.params[0]['id'] for z in fn.walk(x, True))
    clr = lambda fn, y, q=None: (y['k'] == 'call' and y.get('o') is not None and base_name(y['n']) == 'reset' and is_mem(strip(fn, y['o']), MSG) and not any(src(fn, z) for z in y['a'] if z is not None)) or (asg_parts(fn, y) is not None and is_mem(strip(fn, asg_parts(fn, y)[0]), MSG) and strip(fn, asg_parts(fn, y)[1])['k'] == 'null')

    def st(fn, y, q=None):
        ap = asg_parts(fn, y)
        if ap is not None and has_mem(fn, ap[0], MSG) and src(fn, ap[1]):
            return True
        if y['k'] == 'call' and y.get('op') == '=' and y.get('a') and (y.get('o') is not None and has_mem(fn, y['o'], MSG) and src(fn, y['a'][0]) or len(y['a']) > 1 and has_mem(fn, y['a'][0], MSG) and src(fn, y['a'][1])):
            return True
        return y['k'] == 'call' and y.get('o') is not None and base_name(y['n']) == 'reset' and is_mem(strip(fn, y['o']), MSG) and any(src(fn, z) for z in y['a'] if z is not None)
    must(P, R, 'payload', a, clr, 'clear', 'an empty payload clears', cond=any_of(NE, has(False)))
    must(P, R, 'payload', a, st, 'replace', 'any other replaces', cond=E)
    for b, i, y in a.nodes():
        if clr(a, y):
            R.inst('payload', not reaches(P, a, (a.entry, -1), [(b.id, i)], cond=E), 'payload|clear', 'cleared only by an empty payload', line_of(a, y))
        if st(a, y):
            R.inst('payload', not reaches(P, a, (a.entry, -1), [(b.id, i)], cond=NE), 'payload|empty', 'an empty payload is not stored', line_of(a, y))
    # all other writers of the message
    ok = {a.q, ST + 'expireRetainedMessages'}
    for f, b, i, y in sites_of(P, lambda fn, y: clr(fn, y) or (asg_parts(fn, y) is not None and is_mem(strip(fn, asg_parts(fn, y)[0]), MSG)) or (y['k'] == 'call' and y.get('o') is not None and is_mem(strip(fn, y['o']), MSG) and base_name(y['n']) in ('reset', 'release', 'swap', 'operator='))):
        R.inst('payload', f.q in ok, 'payload|writer|' + f.q, 'the message of a node is changed by %s' % f.q, line_of(f, y))
    # the stored data
    srd = P.one('RetainedMessage::setRetainData'); R.saw(srd.id)
    must(P, R, 'data', srd, lambda fn, y, q: asg_parts(fn, y) is not None and (lambda l: l is not None and l['k'] == 'mem' and base_name(l['n']) == 'retain')(strip(fn, asg_parts(fn, y)[0])) and const_val(strip(fn, asg_parts(fn, y)[1])) == 1, 'retain', 'retain is set')
    must(P, R, 'data', srd, lambda fn, y, q: y['k'] == 'call' and base_name(y.get('n', '')) == 'setExpireAfterToCeiling' and arg_is(P, fn, y['a'][0], points(fn)[id(y)], lambda f, s: is_mem(s, 'Settings::expireRetainedMessagesAfterSeconds')), 'ceiling', 'the expiry is limited')
    callsrd = lambda fn, y, q=None: is_call(y, srd.q)
    for f in P.byq.get('RetainedMessage::RetainedMessage', []) + P.byq.get('RetainedMessage::operator=', []):
        if not f.params or 'Publish' not in f.params[0]['t']:
            continue
        must(P, R, 'data', f, callsrd, 'made', 'by every way to store a message')
        ini = any((y['k'] == 'minit' and base_name(y['n']) == 'publish' and y.get('e') is not None and any(z['k'] == 'var' and z['id'] == f.params[0]['id'] for z in f.walk(y['e'], True))) or (asg_parts(f, y) is not None and is_mem(strip(f, asg_parts(f, y)[0]), 'RetainedMessage::publish') and param0(f, asg_parts(f, y)[1], None, 0)) or (y['k'] == 'call' and y.get('op') == '=' and has_mem(f, y.get('o') or y['a'][0], 'RetainedMessage::publish') and any(z['k'] == 'var' and z['id'] == f.params[0]['id'] for z in f.walk(y, True))) for _, _, y in f.nodes())
        R.inst('data', ini, 'data|copy', 'the message itself', f.loc)
    hx = P.one('RetainedMessage::hasExpired'); R.saw(hx.id)
    exp = lambda pol: truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'hasExpired' and x.get('n') != hx.q, pol)
    age = lambda pol: lambda q, fn, n, pt, ctx: (lambda op: op in ((('>', '>=') if pol else ('<', '<='))))(n[0]) and agecall(fn, n[1]) or (lambda op: op in ((('<', '<=') if pol else ('>', '>='))))(n[0]) and agecall(fn, n[2])
    agecall = lambda fn, x: any(z['k'] == 'call' and base_name(z.get('n', '')) == 'getAge' for z in fn.walk(x, True))
    for b, i, y in hx.nodes():
        if y['k'] == 'ret':
            R.inst('expire', bvalued(P, hx, y['e'], (b.id, i), True, any_of(exp(True), age(True))), 'expire|true', 'expired by its interval or the configured age', line_of(hx, y))
            R.inst('expire', bvalued(P, hx, y['e'], (b.id, i), False, exp(False)), 'expire|own', 'not before its own interval', line_of(hx, y))
            R.inst('expire', bvalued(P, hx, y['e'], (b.id, i), False, age(False)), 'expire|age', 'nor the configured age', line_of(hx, y))


def expire(P, R):
    fs = [f for f in P.byq.get(ST + 'expireRetainedMessages', []) if f.params]
    tops_ = [f for f in P.byq.get(ST + 'expireRetainedMessages', []) if not f.params]
    if len(fs) != 1 or len(tops_) != 1:
        raise AnalysisError('expireRetainedMessages')
    f = fs[0]; t = tops_[0]; R.saw(f.id, t.id)
    exp = tcall('RetainedMessage::hasExpired', True); nexp = tcall('RetainedMessage::hasExpired', False)
    clr = lambda fn, y, q=None: (y['k'] == 'call' and y.get('o') is not None and base_name(y['n']) in ('reset', 'release') and is_mem(strip(fn, y['o']), MSG)) or (asg_parts(fn, y) is not None and is_mem(strip(fn, asg_parts(fn, y)[0]), MSG))
    n = 0
    for b, i, y in f.nodes():
        if clr(f, y):
            n += 1
            R.inst('expire', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=exp), 'expire|only', 'only expired messages are removed', line_of(f, y))
    R.inst('expire', n > 0, 'expire|removed', 'expired messages are removed', f.loc)
    ismsg = lambda fn, x: x is not None and (is_mem(x, MSG) or (x['k'] == 'var' and '&' in (var_type(fn, x['id']) or '') and any(e[3] is not None and is_mem(strip(fn, e[3]), MSG) for e in fn.defs().get(x['id'], []))))
    nomsg = any_of(truth(lambda q, fn, x: ismsg(fn, x) or (x['k'] == 'call' and x.get('o') is not None and ismsg(fn, strip(fn, x['o'])) and 'bool' in base_name(x.get('n', ''))), False), isnull(lambda q, fn, x, pt, ctx: has_mem(fn, x, MSG)))
    must(P, R, 'expire', f, clr, 'all', 'every one that is looked at', cond=any_of(nexp, nomsg))
    orph = tcall(NODE + 'isOrphaned', True)
    unused = lambda q, fn, n, pt, ctx: (n[0], const_val(n[2])) in (('<=', 1), ('<', 2), ('==', 1)) and any(z['k'] == 'call' and base_name(z.get('n', '')) == 'use_count' for z in fn.walk(n[1], True))
    old = lambda q, fn, n, pt, ctx: n[0] in ('<', '<=', '>', '>=') and any(is_call(z, NODE + 'getMessageSetAt') or is_mem(z, NODE + 'messageSetAt') for z in fn.walk(n[1 if n[0] in ('<', '<=') else 2], True)) and any(is_mem(z, 'Settings::retainedMessageNodeLifetime') for w in n[1:] for z in fn.walk(w, True))
    ers = [(b, i, y) for b, i, y in f.nodes() if y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in ('erase', 'clear', 'extract') and has_mem(f, y['o'], CH)]
    for b, i, y in ers:
        for c, k, w in ((orph, 'orphan', 'that is empty'), (unused, 'unused', 'that nobody holds'), (old, 'old', 'that is old')):
            q = Query(P, cut_cond=c, eh=False)
            R.inst('expire', not q.reach_point(f, (f.entry, -1), (b.id, i), ROOT, None) and not q.reach_point(f, (b.id, i), (b.id, i), ROOT, None), 'expire|node|' + k, 'a node is removed only ' + w, line_of(f, y))
    R.inst('expire', bool(ers), 'expire|nodes', 'empty nodes are removed', f.loc)
    for g, b, i, y in sites_of(P, lambda fn, y: y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in ('erase', 'clear', 'extract') and has_mem(fn, y['o'], CH)):
        R.inst('expire', g.id == f.id or base_name(g.q).startswith('test'), 'expire|site|' + g.q, 'nodes are removed by %s' % g.q, line_of(g, y))
    io = P.one(NODE + 'isOrphaned'); R.saw(io.id)
    noch = any_of(truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and has_mem(fn, x['o'], CH), True))
    for b, i, y in io.nodes():
        if y['k'] == 'ret':
            for c, k in ((noch, 'children'), (nomsg, 'message')):
                R.inst('expire', bvalued(P, io, y['e'], (b.id, i), True, c), 'expire|orphan|' + k, 'empty means no %s' % k, line_of(io, y))
    # walk over the children: each is descended into, or put off
    rec = [(b, i, y) for b, i, y in f.nodes() if is_call(y, f.q)]
    R.inst('expire', bool(rec), 'expire|down', 'the whole tree is looked at', f.loc)
    late = lambda q, fn, n, pt, ctx: n[0] in ('>', '>=', '<', '<=') and any(z['k'] == 'call' and base_name(z.get('n', '')) == 'now' for w in n[1:] for z in fn.walk(w, True)) and any(z['k'] == 'var' and z['id'] in [p['id'] for p in f.params] for w in n[1:] for z in fn.walk(w, True))
    for b, i, y in rec:
        R.inst('expire', one_exit(f, b.id, set()), 'expire|every', 'every child is looked at or put off', line_of(f, y))
    put = lambda fn, y, q=None: y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in ('push_back', 'emplace_back')
    R.inst('expire', any(put(f, y) for _, _, y in f.nodes()), 'expire|deferred', 'what there was no time for is put off', f.loc)
    # deferred ones are taken up: each one popped was looked at
    DQ = ST + 'deferredRetainedMessageNodeToPurge'
    pops = [(b, i, y) for b, i, y in t.nodes() if on_mem(DQ, 'pop_front', 'erase')(t, y)]
    gone = isnull(lambda q, fn, x, pt, ctx: any(s is not None and s['k'] == 'call' and base_name(s.get('n', '')) == 'lock' for _, s, _, _ in q.sources(fn, x, pt, ctx)))
    for b, i, y in pops:
        q = Query(P, cut_cond=gone, cut_node=lambda fn, z, qq: is_call(z, f.q), eh=False)
        R.inst('expire', not q.reach_point(t, (t.entry, -1), (b.id, i), ROOT, None) and not q.reach_point(t, (b.id, i), (b.id, i), ROOT, None), 'expire|taken', 'what was put off is looked at before it is forgotten', line_of(t, y))
    root = [y for b, i, y in t.nodes() if is_call(y, f.q) and any(is_mem(z, ST + 'retainedMessagesRoot') for z in t.walk(y['a'][0], True))]
    R.inst('expire', bool(root), 'expire|root', 'the walk starts at the root', t.loc)
    timer(P, R, 'expire', t)
