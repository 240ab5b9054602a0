"""Path-sensitive guard analysis: every route from a client publish, a will or an AUTH continuation to the
delivery and retain operations must carry the outcome of the write authorization check for that message, and
nothing may change the checked message in between."""
from core.rules import *

OKDELIVER = {'AuthResult::success', 'AuthResult::success_without_setting_retained'}
DELIVER = 'SubscriptionStore::queuePacketAtSubscribers'
RETAIN = ('SubscriptionStore::trySetRetainedMessages', 'SubscriptionStore::setRetainedMessage')
CHECKED = ('Publish::topic', 'Publish::client_id', 'Publish::username', 'Publish::qos')
# broker-internal producers: plugins publish through the public API, $SYS topics, retained messages that were
# admitted earlier (deferred queue) or come from the broker's own database
EXEMPT_FN = {'flashmq_publish_message', 'ThreadData::setQueuedRetainedMessages', 'SubscriptionStore::loadRetainedMessages', 'ThreadData::publishWithAcl'}


def exempt(P):
    ids = set()
    for q in EXEMPT_FN:
        for f in P.fn(q):
            ids.add(f.id)
    for f in P.fns.values():
        if f.is_lambda and f.parent in ids:
            ids.add(f.id)
    for f in P.fns.values():
        if f.is_lambda and f.parent in ids:
            ids.add(f.id)
    return ids


def acl_call(access):
    def pred(fn, y):
        if not is_call(y, 'Authentication::aclCheck'):
            return False
        acc = [a for a in map(lambda a: strip(fn, a), y.get('a', [])) if a is not None and a['k'] == 'enum' and a['n'].startswith('AclAccess::')]
        if len(acc) == 1:
            return acc[0]['n'] == access
        return False
    return pred


def arg_type(fn, y, i):
    a = strip(fn, arg(y, i))
    return (a or {}).get('t', '')


def check(P, R):
    R.rule('deliver', 'a publish or will reaches subscribers only after the write check answered success (with or without retaining)')
    R.rule('retain', 'a publish or will sets or clears a retained message only after the write check answered plain success')
    R.rule('checked-message', 'the topic, sender and QoS that were checked are not changed between the check and its use')
    R.rule('identity', 'the check is made with the identity of the connected client, taken from the connection')
    R.rule('will-registration', 'a will is attached to a connection only after the will registration check answered success')
    R.rule('internal', 'the unchecked internal publish path is used only for messages the broker makes itself')
    ex = exempt(P)
    write = acl_call('AclAccess::write')
    dl = calls_to(DELIVER); rt = calls_to(*RETAIN)

    starts = [f for f in fns_with(P, lambda fn, y: dl(fn, y) or rt(fn, y)) if f.id not in ex and f.q not in RETAIN]
    # climb to where the message enters: stop at packet handlers and at the will entry points
    roots = tops(P, starts, stop=lambda f: f.q in ('MqttPacket::handlePublish', 'SubscriptionStore::sendWill'), skip=lambda f: f.id in ex)
    if not any(r.q == 'MqttPacket::handlePublish' for r in roots):
        R.bad('deliver', 'deliver|handlePublish', 'a received publish no longer reaches the subscribers', P.one('MqttPacket::handlePublish').loc)
    R.notes.append('roots: %s' % sorted(r.q for r in roots))

    def resets(fn, y):
        if is_call(y, 'Authentication::alterPublish'):
            return True
        if y['k'] == 'call' and not is_call(y, 'Authentication::aclCheck'):
            pass
        for m in mutated(P, fn, y):
            if any(has_mem(fn, m, c) for c in CHECKED[:3]) and message_object(fn, m):
                return True
        return False

    def message_object(fn, m):
        # the message under check: MqttPacket::publishData or a publish received by reference/pointer
        x = m; n = 0
        while x is not None and n < 10:
            n += 1
            x = strip_ptr(fn, x)
            if x is None:
                return False
            if x['k'] == 'mem':
                if x['n'] == 'MqttPacket::publishData':
                    return True
                x = x['b']; continue
            return x['k'] == 'var' and ('Publish' in x.get('t', ''))
        return False

    ok_deliver = result_in(write, OKDELIVER)
    ok_retain = result_in(write, {'AuthResult::success'})
    never = lambda fn, y: False
    for nm, res in (('deliver', None), ('checked-message', resets)):
        state_guard(P, R, nm, roots, [(lambda fn, y: dl(fn, y) and fn.id not in ex, {1}, 'delivery to subscribers')],
                    [(ok_deliver, 1)], res, what='write check before')
    state_guard(P, R, 'retain', roots, [(lambda fn, y: rt(fn, y) and fn.id not in ex, {1}, 'storing the retained message')],
                [(ok_retain, 1)], resets, what='plain success before')

    # the object that was checked is the object that is delivered/retained
    for r in roots:
        for b, i, y in r.nodes():
            if write(r, y):
                o = strip_ptr(r, arg(y, 0))
                good = o is not None and ((o['k'] == 'mem' and o['n'] == 'MqttPacket::publishData') or (o['k'] == 'var' and 'Publish' in o.get('t', '')))
                R.inst('checked-message', good, 'checked-message|%s|object' % r.q, 'the write check of %s is about the message itself' % r.q, line_of(r, y))

    # identity: the client id and user name of a received publish come from the connection
    hp = P.one('MqttPacket::handlePublish')
    for fieldname, getter in (('Publish::client_id', 'Client::getClientId'), ('Publish::username', 'Client::getUsername')):
        def setid(fn, y, q, fieldname=fieldname, getter=getter):
            ap = asg_parts(fn, y)
            if ap and is_mem(ap[0], fieldname) and is_mem(strip_ptr(fn, ap[0]['b']), 'MqttPacket::publishData'):
                v = strip(fn, ap[1])
                return is_call(v, getter)
            return False
        guarded(P, R, 'identity', [hp], lambda fn, y: write(fn, y), cut_node=setid, what='%s taken from the connection' % fieldname.split('::')[1],
                key=fieldname)
    st = P.one('Client::stageWill')
    for fieldname, src in (('Publish::client_id', 'Client::clientid'), ('Publish::username', 'Client::username')):
        ok = False
        for b, i, y in st.nodes():
            ap = asg_parts(st, y)
            if ap and is_mem(ap[0], fieldname) and is_mem(strip(st, ap[1]), src):
                ok = True
        R.inst('identity', ok, 'identity|will|' + fieldname, 'will carries the %s of the connection' % fieldname.split('::')[1], st.loc)

    # will registration
    reg = result_in(acl_call('AclAccess::register_will'), {'AuthResult::success'})

    def sets_will(fn, y):
        if is_call(y, 'Client::setWillFromStaged'):
            return True
        ap = asg_parts(fn, y)
        return bool(ap) and is_mem(ap[0], 'Client::willPublish') and fn.q != 'Client::setWillFromStaged' and not is_null(fn, ap[1])
    wroots = tops(P, fns_with(P, sets_will), stop=lambda f: f.q in ('ThreadData::continuationOfAuthentication',) or f.q.startswith('MqttPacket::handle'))
    guarded(P, R, 'will-registration', wroots, sets_will, cut_cond=reg, what='register_will check before', key='will')

    # internal publishing
    pw = P.one('ThreadData::publishWithAcl')
    for f, y, how in P.callers(pw):
        o = strip(f, arg(y, 0))
        local = o is not None and o['k'] == 'var' and f.defs().get(o['id']) and all(d[2] != 'param' for d in f.defs()[o['id']])
        R.inst('internal', bool(local) and f.cls == 'ThreadData', 'internal|%s' % f.q, '%s publishes a message it made itself' % f.q, line_of(f, y))
    for f in P.fns.values():
        for b, i, y in f.nodes():
            if dl(f, y):
                d = strip(f, arg(y, 3))
                dv = const_val(d)
                good = dv == 0 or f.q == 'ThreadData::publishWithAcl'
                R.inst('internal', good, 'internal|dollar|%s' % f.q, '%s: only broker messages are published below $' % f.q, line_of(f, y))


def is_null(fn, e):
    x = strip(fn, e)
    return x is None or x['k'] in ('null', 'zero') or (x['k'] == 'ctor' and not x.get('a')) or (x['k'] == 'init' and not x.get('a'))
