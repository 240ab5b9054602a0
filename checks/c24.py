"""No set of threads can block each other forever: locks are taken in one order."""
from core.rules import *
from core.locks import Held, SHARED, EXCL, lock_of, objtext, guard_type, owned

ALGO = {'for_each', 'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'copy_if', 'remove_if', 'transform', 'sort', 'erase_if', 'accumulate', 'partition', 'stable_sort', 'max_element', 'min_element', 'invoke', 'call_once'}


class Graph:
    def __init__(self, P, R):
        self.P, self.R = P, R
        self.acq = {}        # fn id -> {lock: (mode, obj, loc)}
        self.sites = {}      # fn id -> [(frozenset held, callee ids, loc)]
        self.direct = []     # (held lock, obj, mode, lock, obj, mode, loc)
        self.taken = 0
        self.api = [f for f in P.fns.values() if base_name(f.q).startswith('flashmq_') and '::' not in f.q and not f.is_lambda]
        self.dtors = {f.q.rsplit('::', 1)[0]: f for f in P.fns.values() if f.is_dtor}
        for f in P.fns.values():
            if not f.nocfg and f.blocks and f.entry is not None:
                self.fn(f)

    def callees(self, f, y):
        P = self.P
        out = [t.id for t in P.targets(y)] if y['k'] in ('call', 'ctor') else []
        if y['k'] == 'call' and base_name(y.get('n') or '') in ('make_shared', 'make_unique'):
            for c in (y.get('ta') or [])[:1]:
                out += [g.id for g in P.fns.values() if g.is_ctor and g.q.rsplit('::', 1)[0] == c]
        if y['k'] in ('dtor', 'tdtor'):
            t = (y.get('t') or '').replace('const ', '')
            m = self.dtors.get(t)
            if m is None and 'weak_ptr' not in t:
                for p in ('std::shared_ptr<', 'std::unique_ptr<'):
                    if t.startswith(p):
                        m = self.dtors.get(t[len(p):].rstrip('>').replace('const ', '').split(',')[0])
            if m is not None:
                out.append(m.id)
        if y['k'] == 'delete':
            pass
        # lambdas that are run on the spot
        if y['k'] in ('call', 'ctor') and (y.get('n') or '').startswith('std::') and base_name(y['n']) in ALGO:
            for a in y.get('a', []):
                if a is None:
                    continue
                for z in f.walk(a, True):
                    if z['k'] == 'lambda' and z.get('id') in P.fns:
                        out.append(z['id'])
        return out

    def fn(self, f):
        H = Held(self.P, f)
        nd = {}
        for b, i, y in f.nodes():
            nd.setdefault((b.id, i), []).append(y)
        ac = self.acq.setdefault(f.id, {})
        st = self.sites.setdefault(f.id, [])
        interesting = bool(H.bind) or any(y['k'] == 'call' and owned(y) for ys in nd.values() for y in ys)
        for pt, ys in nd.items():
            states = H.states.get(pt)
            if states is None:
                continue
            b = f.blocks[pt[0]]
            if interesting and pt[1] < len(b.elems):
                for s in states:
                    n, _ = H.prims(ys[0], (s, frozenset()))
                    new = n - s
                    old = {z[1] for z in s}
                    for v, l, m in new:
                        if v != 'temp' and any(z[0] == 'temp' and z[1] == l for z in s):
                            continue        # moved from the temporary
                        self.taken += 1
                        ac.setdefault((l[0], m), (l[1], line_of(f, ys[0])))
                        for v2, l2, m2 in s:
                            self.direct.append((l2, m2, l, m, line_of(f, ys[0]), f))
            heldset = frozenset((l, m) for s in states for v, l, m in s)
            for y in ys:
                if y['k'] in ('call', 'ctor', 'dtor', 'tdtor'):
                    c = self.callees(f, y)
                    if c:
                        st.append((heldset, c, line_of(f, y), y))

    def close(self):
        self.star = {k: dict(v) for k, v in self.acq.items()}
        self.why = {k: {l: [v[1]] for l, v in d.items()} for k, d in self.acq.items()}
        rev = {}
        for k, ss in self.sites.items():
            for h, cs, loc, y in ss:
                for c in cs:
                    rev.setdefault(c, []).append((k, loc))
        wl = [k for k in self.star if self.star[k]]
        while wl:
            k = wl.pop()
            for p, loc in rev.get(k, []):
                ch = False
                for l, v in self.star[k].items():
                    if l not in self.star.setdefault(p, {}):
                        self.star[p][l] = (None, v[1]); self.why.setdefault(p, {})[l] = [loc] + self.why[k][l][:8]; ch = True
                if ch:
                    wl.append(p)


def plugin_pointer(f, y):
    """the function of a plugin that is called through a pointer"""
    if y.get('n') not in (None, '', '<indirect>'):
        return None
    for key in ('fn', 'e', 'c', 'f'):
        v = y.get(key)
        if isinstance(v, dict):
            s = strip(f, v)
            if s is not None and s['k'] == 'mem' and s['n'].startswith('Authentication::') :
                return s['n']
    return None


WAITS = {'join', 'wait', 'wait_for', 'wait_until', 'sem_wait', 'sem_timedwait', 'sleep_for', 'sleep_until', 'usleep', 'sleep', 'nanosleep', 'epoll_wait', 'poll', 'select', 'pthread_join', 'getaddrinfo', 'fsync', 'waitpid'}
DATA = ('SubscriptionStore::sessions_lock', 'SubscriptionStore::subscriptions_lock', 'SubscriptionNode::lock', 'SubscriptionStore::queuedSessionRemovalsMutex',
        'Client::writebuf', 'Client::outgoingTopicAliases', 'Globals::GlobalsData::threadDatas', 'ThreadData::PublicData::taskQueue', 'MainApp::taskQueue', 'Logger::logMutex', 'Logger::startStopMutex')


def check(P, R):
    R.rule('order', 'locks are taken in one order, and never while the same one is held already')
    R.rule('callbacks', 'plugins are called without the locks of the broker')
    R.rule('waiting', 'no lock is held while waiting')
    G = Graph(P, R)
    G.close()
    R.saw(*[k for k, v in G.acq.items() if v]); R.saw(*[k for k, v in G.sites.items() if any(x[0] for x in v)])
    if G.taken < 80:
        raise AnalysisError('only %d places found where a lock is taken' % G.taken)
    R.notes.append('%d places take a lock' % G.taken)
    edges = {}
    for l2, m2, l, m, loc, f in G.direct:
        edges.setdefault((l2[0], l[0]), []).append([loc])
    for k, ss in G.sites.items():
        for h, cs, loc, y in ss:
            for (l, m) in h:
                for c in cs:
                    for (l3, m3), v in G.star.get(c, {}).items():
                        if l[0] == l3 and child_of(P.fns[k], y, l):
                            R.ok('order', 'the lock of a child is taken under that of its parent', loc)
                            continue
                        edges.setdefault((l[0], l3), []).append([loc] + G.why[c][(l3, m3)])
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)

    def reach(x):
        seen = set(); st = [x]
        while st:
            for t in succ.get(st.pop(), ()):
                if t not in seen:
                    seen.add(t); st.append(t)
        return seen
    for (a, b), ts in sorted(edges.items()):
        cyc = a == b or a in reach(b)
        for t in ts[:3] if cyc else ts[:1]:
            loc = t[0]
            R.inst('order', not cyc, 'order|%s|%s' % (a, b), '%s is taken while %s is held%s' % (b, a, ', which is also taken while the former is held' if cyc and a != b else ''), loc, t)
    # what is held when a function is entered
    ent = {}
    wl = list(G.sites)
    while wl:
        k = wl.pop()
        for h, cs, loc, y in G.sites.get(k, []):
            s = {l[0]: [loc] for l, m in h}
            for l, t in ent.get(k, {}).items():
                s.setdefault(l, [loc] + t)
            for c in cs:
                e = ent.setdefault(c, {})
                new = {l: t for l, t in s.items() if l not in e}
                if new:
                    e.update({l: t[:12] for l, t in new.items()}); wl.append(c)
    cb = w = 0
    for f in P.fns.values():
        if f.nocfg or not f.blocks:
            continue
        H = None
        for b, i, y in f.nodes():
            if y['k'] != 'call':
                continue
            isw = base_name(y.get('n') or '') in WAITS and not (y.get('n') or '').startswith('std::condition')
            iscb = plugin_pointer(f, y)
            if not isw and not iscb:
                continue
            H = H or Held(P, f)
            here = {l[0] for l, m in H.any_held((b.id, i))}
            held = dict(ent.get(f.id, {})); held.update({l: [] for l in here})
            if iscb:
                cb += 1
                acl = 'acl' in iscb.lower()
                bad = [l for l in held if l in DATA or not acl and not l.startswith('Authentication::')]
                R.inst('callbacks', not bad, 'callbacks|%s|%s' % (f.q, ','.join(sorted(bad))), 'a plugin is called while %s is held' % ', '.join(sorted(bad)) if bad else 'a plugin is called without locks that it could need', line_of(f, y), held.get(bad[0]) if bad else None)
            else:
                w += 1
                bad = [l for l in held if not thread_free(P, G, f, y, l)]
                R.inst('waiting', not bad, 'waiting|%s|%s' % (f.q, ','.join(sorted(bad))), '%s waits while %s is held' % (f.q, ', '.join(sorted(bad))) if bad else 'waiting without a lock', line_of(f, y), held.get(bad[0]) if bad else None)
    if cb < 20 or w < 5:
        raise AnalysisError('%d plugin calls and %d waits found' % (cb, w))


THREADS = {'Logger::startStopMutex': 'Logger::writeLog'}


def thread_free(P, G, f, y, l):
    """waiting for the end of a thread that never takes this lock"""
    if base_name(y.get('n') or '') != 'join' or l not in THREADS:
        return False
    t = P.one(THREADS[l])
    return not any(x[0] == l for x in G.star.get(t.id, {}))


def child_of(f, y, lock):
    """the call is about an object among the children of the one whose lock is held"""
    name, obj = lock
    if name != 'RetainedMessageNode::messageSetMutex':
        return False
    for a in y.get('a', []):
        if a is not None and from_children(f, a, obj):
            return True
    return False


def from_children(f, x, obj, d=0):
    for z in f.walk(x, True):
        if z['k'] == 'mem' and z['n'] == 'RetainedMessageNode::children' and objtext(f, z.get('b')) == obj:
            return True
        if z['k'] == 'var' and d < 6:
            for e in f.defs().get(z['id'], []):
                if e[3] is not None and e[2] in ('init', 'asg', 'bind', 'range') and from_children(f, e[3], obj, d + 1):
                    return True
    return False
