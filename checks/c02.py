"""Guard analysis of the delivery side: sending or queueing a message for a subscriber is dominated by a read
authorization check made for that subscriber and that message; resending after a reconnect is dominated by a
renewed check."""
from core.rules import *
from checks.c01 import acl_call

SUCC = {'AuthResult::success'}


def is_publish_send(fn, y):
    return is_call(y, 'Client::writeMqttPacketAndBlameThisClient') and len(y.get('a', [])) > 2


def check(P, R):
    R.rule('deliver', 'a message is written to a subscriber only after the read check for it answered success')
    R.rule('queue', 'a message is queued for an (offline) subscriber only after the read check answered success')
    R.rule('checked-args', 'the read check names the receiving session and the message about to be delivered')
    R.rule('resend', 'a queued message is sent again only after it was authorized again and found not expired')
    R.rule('one-way-in', 'messages reach subscribers only through the checked delivery operation')
    wp = P.one('Session::writePacket')
    read = acl_call('AclAccess::read')
    granted = result_in(read, SUCC)
    roots = tops(P, fns_with(P, is_publish_send), stop=lambda f: f.q in ('Session::writePacket', 'Session::sendAllPendingQosData'))
    qroots = tops(P, fns_with(P, calls_to('Session::QoSData::queuePublish')), stop=lambda f: f.q == 'Session::writePacket' or f.q == 'SessionsAndSubscriptionsDB::loadData' or f.q.startswith('SessionsAndSubscriptionsDB::readData'))
    for r in roots:
        if r.q == 'Session::sendAllPendingQosData':
            continue
        R.inst('one-way-in', r.q == 'Session::writePacket', 'one-way-in|' + r.q, 'messages are sent by %s' % r.q, r.loc)
        guarded(P, R, 'deliver', [r], is_publish_send, cut_cond=granted, what='read check before', key='send')
    for r in qroots:
        if r.q.startswith('SessionsAndSubscriptionsDB'):
            R.ok('one-way-in', 'queued messages are restored from the session database by %s' % r.q, r.loc)
            continue
        R.inst('one-way-in', r.q == 'Session::writePacket', 'one-way-in|queue|' + r.q, 'messages are queued by %s' % r.q, r.loc)
        guarded(P, R, 'queue', [r], calls_to('Session::QoSData::queuePublish'), cut_cond=granted, what='read check before', key='queue')
    # arguments of the read check
    n = 0
    for f in P.fns.values():
        for b, i, y in f.nodes():
            if not (is_call(y, 'Authentication::aclCheck') and read(f, y) and len(y['a']) > 4):
                continue
            n += 1
            src = lambda k: [s for _, s in up_sources(P, f, arg(y, k), (b.id, i))]
            allm = lambda k, pred: bool(src(k)) and all(s is not None and pred(s) for s in src(k))
            R.inst('checked-args', allm(0, lambda s: is_mem(s, 'Session::client_id') or is_call(s, 'Session::getClientId')), 'checked-args|%s|client' % f.q, 'client id of the receiving session', line_of(f, y))
            R.inst('checked-args', allm(1, lambda s: is_mem(s, 'Session::username') or is_call(s, 'Session::getUsername')), 'checked-args|%s|user' % f.q, 'user name of the receiving session', line_of(f, y))
            R.inst('checked-args', allm(2, lambda s: is_call(s, 'PublishCopyFactory::getTopic')), 'checked-args|%s|topic' % f.q, 'topic of the message', line_of(f, y))
            R.inst('checked-args', allm(3, lambda s: is_call(s, 'PublishCopyFactory::getSubtopics')), 'checked-args|%s|subtopics' % f.q, 'subtopics of the message', line_of(f, y))
            R.inst('checked-args', any(is_call(s, 'PublishCopyFactory::getPayload') for k in range(len(y['a'])) for s in src(k)), 'checked-args|%s|payload' % f.q, 'payload of the message', line_of(f, y))
    # resend path
    sp = P.one('Session::sendAllPendingQosData')
    R.inst('one-way-in', any(r.id == sp.id for r in roots), 'one-way-in|resend', 'queued messages are resent by sendAllPendingQosData', sp.loc)
    takes = lambda fn, y: is_call(y, 'Session::QoSData::decreaseFlowControlQuotaAgain') or (y['k'] == 'call' and base_name(y.get('n', '')) in ('emplace_back', 'push_back') and any(has_publish(fn, a) for a in y.get('a', [])))
    again = result_in(lambda fn, y: is_call(y, 'Authentication::aclCheck'), SUCC)
    notexp = truth(lambda q, fn, x: is_call(x, 'Publish::hasExpired'), False)
    guarded(P, R, 'resend', [sp], takes, cut_cond=again, what='renewed authorization before', key='acl')
    guarded(P, R, 'resend', [sp], takes, cut_cond=notexp, what='not expired before', key='expiry')


def has_publish(fn, a):
    a = strip(fn, a)
    return a is not None and (a.get('t', '').replace('const ', '').rstrip(' &') == 'Publish')
