"""An error while handling one thing does not end anything else."""
from core.rules import *
from core.exc import Escapes, has_value, norm_t, reachable
from core.loops import natural
from core.boolpath import reach

THREADS = ['do_thread_work', 'Logger::writeLog', 'BackgroundWorker::doWork']
PROTO = ('ProtocolError', 'BadClientException', 'BadHttpRequest', 'BadWebsocketVersionException')


def check(P, R):
    R.rule('threads', 'no exception leaves the function a thread runs')
    R.rule('nothrow', 'no exception leaves a destructor, a function declared not to throw, or one called by a C library')
    R.rule('main', 'while the broker runs, no exception leaves the main loop')
    R.rule('items', 'a failing task, timer or connection does not keep the next of the round from being handled')
    R.rule('client', 'a client whose data could not be handled is removed or told to go')
    E = Escapes(P, has_value(P))
    R.notes.append('%d functions can be left by an exception' % len(E.esc))
    R.saw(*[f.id for f in P.fns.values() if f.blocks])
    if len(E.esc) < 150:
        raise AnalysisError('only %d functions found that can be left by an exception' % len(E.esc))
    roots = [(P.one(q), 'threads') for q in THREADS] + [(f, 'threads') for f in started(P) if f.q not in THREADS]
    for f in P.fns.values():
        if (f.is_dtor or f.noexcept) and not f.nocfg and f.blocks:
            roots.append((f, 'nothrow'))
    roots += [(f, 'nothrow') for f in c_callbacks(P)]
    for f, rule in roots:
        e = E.esc.get(f.id) or {}
        for t, tr in sorted(e.items()):
            R.bad(rule, '%s|%s|%s' % (rule, f.q, t), '%s can leave %s' % (t, f.q), tr[0], tr)
        if not e:
            R.ok(rule, 'nothing leaves %s' % f.q, f.loc)
    main(P, R, E)
    items(P, R, E)
    client(P, R, E)


def started(P):
    """functions that are given to std::thread"""
    out = []
    for f in P.fns.values():
        for b, i, y in f.nodes():
            if y['k'] == 'ctor' and (y.get('n') or '') == 'std::thread::thread':
                for a in y.get('a', []):
                    for z in (f.walk(a, True) if a is not None else []):
                        if z['k'] in ('fn', 'fnref') or z['k'] == 'lambda':
                            out += [g for g in P.fns.values() if g.id == z.get('id')]
    return out


def c_callbacks(P):
    out = []
    for f in P.fns.values():
        for b, i, y in f.nodes():
            if y['k'] == 'call' and '::' not in (y.get('n') or '') and (y.get('n') or '').split('_')[0] in ('ERR', 'SSL', 'signal', 'pthread', 'CRYPTO', 'qsort', 'X509'):
                for a in y.get('a', []):
                    s = strip(f, a) if a is not None else None
                    if s is not None and s['k'] == 'un':
                        s = strip(f, s['e'])
                    if s is not None and s['k'] in ('fn', 'fnref'):
                        out += [g for g in P.fns.values() if g.q == s.get('n') or g.id == s.get('id')]
    return list({g.id: g for g in out}.values())


def main(P, R, E):
    f = P.one('MainApp::start')
    waits = [b.id for b, i, y in f.nodes() if y['k'] == 'call' and y.get('n') == 'epoll_wait']
    if not waits:
        raise AnalysisError('the main loop was not found')
    fwd = set(); st = list(waits)
    while st:
        for t, k in f.blocks[st.pop()].succ:
            if t is not None and t not in fwd:
                fwd.add(t); st.append(t)
    back = set(waits); st = list(waits)
    while st:
        for p, k in f.blocks[st.pop()].preds:
            if p not in back:
                back.add(p); st.append(p)
    loop = fwd & back
    n = 0
    for b, i, y in f.nodes():
        if b.id not in loop or y['k'] not in ('throw', 'call', 'ctor'):
            continue
        ts = {t: [line_of(f, y)] for t in E.own(f, y)} if not E.safe(f, b, i, y) else {}
        for g in (P.targets(y) if y['k'] in ('call', 'ctor') else []):
            for t, tr in (E.esc.get(g.id) or {}).items():
                ts.setdefault(t, [line_of(f, y)] + tr)
        for t, tr in ts.items():
            n += 1
            R.inst('main', not E.leaves(f, b.id, t), 'main|%s' % t, '%s stays in the main loop' % t, line_of(f, y), tr)
    if n < 5:
        raise AnalysisError('only %d exceptions found in the main loop' % n)
    for q in ('fmqmain',):
        g = P.one(q)
        e = E.esc.get(g.id) or {}
        R.inst('main', not e, 'main|' + q, 'what ends the broker is reported', g.loc)


def inner(f, bid):
    """the innermost loop of the block"""
    c = [L for L in natural(f) if bid in L[1]]
    return min(c, key=lambda L: len(L[1])) if c else None


def handlers(f, bid, types=None, E=None):
    """the handlers of this function that an exception from the block can reach"""
    out = []
    x = next((s for s, k in f.blocks[bid].succ if k == 'eh'), f.blocks[bid].eh_hint)
    n = 0
    while x is not None and x != f.exit and n < 30:
        n += 1
        b = f.blocks[x]
        out += [s for s, k in b.succ if k == 'catch' and s is not None]
        x = next((s for s, k in b.succ if k == 'eh'), None)
    return out


def goes_on(f, bid, L):
    """after the handlers of the block its loop goes on"""
    hs = handlers(f, bid)
    st, seen = list(hs), set()
    while st:
        x = st.pop()
        if x in seen or x in L[1]:
            continue
        seen.add(x)
        if x == f.exit:
            return False
        for t, k in f.blocks[x].succ:
            if t is not None and k == 'n':
                st.append(t)
    return bool(hs)


def items(P, R, E):
    n = 0
    for f in P.fns.values():
        if f.nocfg or not f.blocks:
            continue
        live = reachable(f)
        for b, i, y in f.nodes():
            if y['k'] != 'call' or y.get('n') != 'std::function::operator()' or b.id not in live:
                continue
            n += 1
            R.saw(f.id)
            one(P, R, E, f, b.id, y, 'a task')
    if n < 4:
        raise AnalysisError('only %d places found where tasks are run' % n)
    # connections of a round
    for q, names in (('ThreadData::acceptPendingClients', ('Client::addToEpoll',)), ('MainApp::start', ('accept', 'accept4'))):
        f = P.one(q)
        m = 0
        for b, i, y in f.nodes():
            if y['k'] == 'call' and y.get('n') in names:
                m += 1
                one(P, R, E, f, b.id, y, 'a new connection')
        if not m:
            raise AnalysisError('%s: nothing found that accepts' % q)


def one(P, R, E, f, bid, y, what):
    L = inner(f, bid)
    if L is None and f.is_lambda:
        R.inst('items', not E.leaves(f, bid, 'std::exception'), 'items|%s' % f.q, 'an exception of %s is caught' % what, line_of(f, y)); return
    if L is None:
        # one at a time: its callers loop, or it is the whole round
        ok = not E.leaves(f, bid, 'std::exception') or all(inner(g, pt[0]) is not None and not E.leaves(g, pt[0], 'std::exception') and goes_on(g, pt[0], inner(g, pt[0])) for g, pt, z in P.call_sites(f)) and bool(P.call_sites(f))
        R.inst('items', ok, 'items|%s' % f.q, 'an exception of %s is caught' % what, line_of(f, y)); return
    ok = not E.leaves(f, bid, 'std::exception') and goes_on(f, bid, L)
    R.inst('items', ok, 'items|%s' % f.q, 'after an exception of %s the next is handled' % what, line_of(f, y))


def client(P, R, E):
    f = P.one('do_thread_work')
    sites = []
    for b, i, y in f.nodes():
        if y['k'] != 'call':
            continue
        ts = {t for g in P.targets(y) for t in E.esc.get(g.id) or {}}
        if any(t in ts for t in PROTO) and y.get('o') is not None:
            sites.append((b, i, y))
    if not sites:
        raise AnalysisError('nothing found that handles the data of clients')
    gone = lambda fn, y: y['k'] == 'call' and base_name(y.get('n') or '') in ('removeClient', 'removeClientQueued', 'setDisconnectStage')
    waits = {b.id for b, i, y in f.nodes() if y['k'] == 'call' and y.get('n') == 'epoll_wait'}
    allsucc = {b: [t for t, k in f.blocks[b].succ if t is not None and t != f.exit] for b in f.blocks}
    loops = [L for L in natural(f, succ=allsucc) if not (waits & set(L[1]))]
    done = set()
    for b, i, y in sites:
        Ls = [L for L in loops if b.id in L[1]]
        good = [L for L in Ls if goes_on(f, b.id, L)]
        ok = bool(good) and not E.leaves(f, b.id, 'std::exception')
        R.inst('client', ok, 'client|next|%s' % base_name(y['n']), 'an error in the data of one client does not keep that of the next from being handled', line_of(f, y))
        if not ok:
            continue
        L = max(good, key=lambda L: len(L[1]))
        for h in handlers(f, b.id):
            if h in done:
                continue
            done.add(h); R.saw(f.id)
            stay = reach(f, (h, -1), {L[0]}, gone)
            R.inst('client', not stay, 'client|gone|%s' % (f.blocks[h].label.get('t') or '...'), 'a client whose data raised an error is removed, or told and then disconnected', '%s:%s' % (f.file, next((x.get('l') for _, x in f.blocks[h].elems), f.line)))

