"""Retained delivery: a new subscription gets exactly the retained messages it matches, now or when there is room."""
from core.rules import *
from checks.c11 import must, reaches, param0, never
from checks.c15 import isnull, gather
from checks.c16 import gather_defs, isv
from checks.c17 import Offsets, root_ok
from checks.c18 import streq, resolved

ST = 'SubscriptionStore::'
RN = 'RetainedMessageNode::'
D = 'DeferredRetainedMessageNodeDelivery::'
WALK, INIT, GIVE = ST + 'giveClientRetainedMessagesRecursively', ST + 'giveClientRetainedMessagesInitiateDeferred', ST + 'giveClientRetainedMessages'
FIELDS = ('node', 'cur', 'end', 'poundMode')


def check(P, R):
    R.rule('start', 'the walk starts at the root for the filter, unless retained messages are off')
    R.rule('walk', 'at every level the filter decides which nodes are visited, each once')
    R.rule('deliver', 'a visited node gives its message, unless there is none, it has expired or its publisher may not publish it')
    R.rule('defer', 'what is put off is noted with its position, and nothing else is')
    R.rule('resume', 'everything put off is walked later, or put off again')
    V = walk(P, R)
    deliver(P, R, V)
    resume(P, R)
    start(P, R)


# ---- records

def is_record(f, v):
    return 'DeferredRetainedMessageNodeDelivery' in (var_type(f, v) or '')


def record(P, f, x, pt):
    """field -> [(expression, point)] of a record value handed over at pt; None if unknown"""
    s = strip(f, x)
    n = 0
    while s is not None and s['k'] in ('ctor', 'init', 'call') and len(s.get('a', [])) == 1 and s.get('k') != 'call' and n < 8:
        n += 1
        t = strip(f, s['a'][0])
        if t is None:
            break
        s = t
    if s is None:
        return None
    if s['k'] == 'call' and base_name(s.get('n', '')) == 'move' and s.get('a'):
        return record(P, f, s['a'][0], pt)
    if s['k'] in ('init', 'ctor') and len(s.get('a', [])) in (3, 4):
        out = {k: [(a, pt)] for k, a in zip(FIELDS, s['a'])}
        out.setdefault('poundMode', [])
        return out
    if s['k'] != 'var':
        return None
    v = s['id']
    out = {k: [] for k in FIELDS}
    decl = None
    for e in f.defs().get(v, []):
        if e[2] == 'init' or e[3] is not None:
            decl = (e[0], e[1])
            if e[3] is not None:
                r = record(P, f, e[3], decl)
                if r:
                    for k in FIELDS:
                        out[k] += r[k]
    for b, i, y in f.nodes():
        if y['k'] == 'decl' and any(d.get('id') == v for d in y['d']):
            decl = (b.id, i)
    stores = {k: [] for k in FIELDS}
    for b, i, y in f.nodes():
        ap = asg_parts(f, y)
        if ap is None:
            continue
        l = strip(f, ap[0])
        if l is not None and l['k'] == 'mem' and base_name(l['n']) in FIELDS and l['n'].startswith(D) and isv(f, l['b'], v):
            if ap[2] != '=':
                return None
            stores[base_name(l['n'])].append((b.id, i, ap[1]))
    for k in FIELDS:
        live = []
        for b, i, e in stores[k]:
            oth = {(b2, i2) for b2, i2, _ in stores[k] if (b2, i2) != (b, i)} | ({decl} if decl else set())
            if Query(P, eh=False, cut_cond=never).reach_point(f, (b, i), pt, ROOT, oth):
                live.append((e, (b, i)))
        sp = {(b, i) for b, i, _ in stores[k]}
        unset = Query(P, eh=False, cut_cond=never).reach_point(f, decl or (f.entry, -1), pt, ROOT, sp)
        if not unset:
            out[k] = live
        elif live and out[k]:
            out[k] += live
        elif live:
            return None
    return out


class Visit:
    pass


def visits(P, f):
    """every recursive call and every record pushed to the list of what is put off"""
    me, dq = f.params[2]['id'], f.params[8]['id']
    out = []
    for b, i, y in f.nodes():
        if y['k'] != 'call':
            continue
        pt = (b.id, i)
        v = Visit(); v.pt, v.y = pt, y
        if is_call(y, WALK):
            v.rec = False
            a = y['a']
            v.f = {'cur': [(a[0], pt)], 'end': [(a[1], pt)], 'node': [(a[2], pt)], 'poundMode': [(a[3], pt)]}
        elif y.get('o') is not None and isv(f, y['o'], dq) and base_name(y['n']) in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert'):
            v.rec = True
            v.f = None
            if base_name(y['n']) in ('emplace_back', 'emplace_front') and len(y['a']) == 4:
                v.f = {k: [(a, pt)] for k, a in zip(FIELDS, y['a'])}
            elif base_name(y['n']) in ('push_back', 'emplace_back', 'push_front') and len(y['a']) == 1:
                v.f = record(P, f, y['a'][0], pt)
            if v.f is None:
                raise AnalysisError('%s: what is put off is not understood' % line_of(f, y))
        else:
            continue
        out.append(v)
    return out


def kind(P, f, x, pt, me):
    """'this', 'all' (element of the children) or 'named' (child looked up by name)"""
    s = strip_ptr(f, x)
    if s is not None and s['k'] == 'var' and s['id'] == me:
        return 'this'
    zs = gather(P, f, x, pt) + list(gather_defs(f, x))
    if any(z['k'] == 'call' and z.get('n') == RN + 'getChildren' and isv_ptr(f, z['o'], me) for z in zs):
        return 'named'
    if any(z['k'] == 'mem' and z['n'] == RN + 'children' and isv_ptr(f, z['b'], me) for z in zs):
        if any(z['k'] == 'call' and base_name(z.get('n', '')) in ('find', 'at') for z in zs):
            return 'named'
        if not any(z['k'] == 'call' and base_name(z.get('n', '')) in ('rbegin', 'next', 'prev', 'advance') for z in zs):
            return 'all'
    return None


def isv_ptr(f, x, v):
    s = strip_ptr(f, x)
    return s is not None and s['k'] == 'var' and s['id'] == v


def nameargs(P, f, x, pt):
    return [z['a'][0] for z in gather(P, f, x, pt) + list(gather_defs(f, x)) if z['k'] == 'call' and base_name(z.get('n', '')) in ('getChildren', 'find', 'at') and z.get('a')]


def walk(P, R):
    f = P.one(WALK); R.saw(f.id)
    cur, end, me, pound = (f.params[k]['id'] for k in range(4))
    O = Offsets(P, f, cur)
    V = visits(P, f)
    P3 = lambda x: isv(f, x, pound)

    def ends(op):
        def c(q, fn, n, pt, ctx):
            if fn.id != f.id or n[0] != op:
                return False
            for a, b in ((n[1], n[2]), (n[2], n[1])):
                if isv(f, b, end) and O.off(a, pt) == {0}:
                    return True
            return False
        return c
    atend, notend = ends('=='), ends('!=')
    level = lambda fn, a: fn.id == f.id and any(O.derefs(a, p) == {0} for p in [points(f).get(id(a), None)] if p is not None) or derefd(f, O, a)
    is_ = lambda t: streq(f, level, t, '==')
    isnt = lambda t: streq(f, level, t, '!=')
    nul = isnull(lambda q, fn, x, pt, ctx: fn.id == f.id and isv_ptr(fn, x, me))
    childnull = isnull(lambda q, fn, x, pt, ctx: fn.id == f.id and x is not None and strip_ptr(fn, x) is not None and strip_ptr(fn, x)['k'] in ('var', 'call') and kind(P, f, x, pt, me) == 'named')
    def nochild(q, fn, n, pt, ctx):
        if fn.id != f.id or n[0] != '==':
            return False
        g = [list(gather_defs(f, z)) if z is not None else [] for z in n[1:]]
        fi = lambda l: any(z['k'] == 'call' and base_name(z.get('n', '')) in ('find', 'count', 'contains') and has_mem(f, z['o'], RN + 'children') for z in l)
        en = lambda l: any(z['k'] == 'call' and base_name(z.get('n', '')) in ('end', 'cend') for z in l)
        return fi(g[0]) and en(g[1]) or fi(g[1]) and en(g[0]) or fi(g[0]) and const_val(n[2]) == 0
    ispound = truth(lambda q, fn, x: fn.id == f.id and isv(fn, x, pound), True)
    notpound = truth(lambda q, fn, x: fn.id == f.id and isv(fn, x, pound), False)
    for v in V:
        v.kind = {kind(P, f, e, p, me) for e, p in v.f['node']}
        v.off = set().union(*[O.off(e, p) for e, p in v.f['cur']]) if v.f['cur'] else {None}
        v.end = all(isv(f, e, end) for e, p in v.f['end']) and v.f['end']
        v.pound = {'same' if P3(e) else const_val(strip(f, e)) for e, p in v.f['poundMode']} or {0}
        v.ok = len(v.kind) == 1 and len(v.off) == 1 and len(v.pound) == 1
        v.k, v.o, v.p = (list(z)[0] for z in (v.kind, v.off, v.pound))
    for v in V:
        where = line_of(f, v.y)
        rule = 'defer' if v.rec else 'walk'
        R.inst(rule, v.ok and v.k is not None and v.o in (0, 1), rule + '|known', 'a visit is of this node or a child of it, here or one level on', where)
        R.inst(rule, bool(v.end), rule + '|end', 'with the end of the filter', where)
        need = []
        if v.k == 'this' and v.o == 1:
            need = [('only for #', is_('#')), ('before the end', notend)]
            R.inst(rule, v.p == 1, rule + '|pound', 'everything below is walked too', where)
        elif v.k == 'this':
            R.inst(rule, v.rec and v.p == 'same', rule + '|again', 'a node itself is only put off, as it is', where)
        elif v.k == 'all' and v.o == 1:
            need = [('all children only for +', is_('+')), ('before the end', notend)]
            R.inst(rule, v.p in (0, 'same'), rule + '|nopound', 'not everything below', where)
        elif v.k == 'all':
            need = [('all children at the end only below #', ispound), ('at the end', atend)]
            R.inst(rule, v.p in (1, 'same'), rule + '|below', 'everything below', where)
        elif v.k == 'named':
            R.inst(rule, v.o == 1, rule + '|next', 'a named child is for the next level', where)
            need = [('a named child not for +', isnt('+')), ('a named child not for #', isnt('#')), ('before the end', notend)]
            R.inst(rule, v.p in (0, 'same'), rule + '|nopound', 'not everything below', where)
            at = [a for e, p in v.f['node'] for a in nameargs(P, f, e, p)]
            R.inst(rule, bool(at) and all(derefd(f, O, a) for a in at), rule + '|name', 'of the name of this level', where)
        for what, c in need:
            R.inst(rule, not reaches(P, f, (f.entry, -1), [v.pt], cond=c), rule + '|' + what, what, where)
        if not v.rec:
            a = v.y['a']
            R.inst('walk', all(isv(f, a[k], f.params[k]['id']) for k in (4, 5, 6, 8, 9)), 'walk|same', 'for the same session, QoS and identifier', where)
        for w in V:
            # not twice in a round
            hs = heads(f, v.pt[0])
            if w.k == v.k and w.o == v.o:
                R.inst('walk', not Query(P, eh=False, cut_cond=never).reach_point(f, v.pt, w.pt, ROOT, {(h, 0) for h in hs}), 'walk|once|%s%s' % (v.k, v.o), 'each node once', where)
    at = lambda k, o: (lambda fn, y, q=None: fn.id == f.id and any(v.y is y and v.k == k and v.o == o for v in V))
    must(P, R, 'walk', f, at('this', 1), 'pound', '# starts at the node itself', cond=any_of(nul, atend, isnt('#')))
    must(P, R, 'walk', f, at('named', 1), 'exact', 'the child of that name is followed', cond=any_of(nul, atend, is_('#'), is_('+'), childnull, nochild))
    empty = truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and has_mem(fn, x['o'], RN + 'children'), True)
    for k, o, skip, what in (('all', 1, any_of(nul, atend, is_('#'), isnt('+')), '+ follows every child'), ('all', 0, any_of(nul, notend, notpound), 'below # every child is followed')):
        loops(P, R, f, V, k, o, skip, what, at(k, o), empty)
    f2 = [v for v in V if v.k == 'this' and v.o == 0]
    R.inst('defer', len(f2) >= 1, 'defer|full', 'a message that does not fit is put off', f.loc)
    # name lookup
    g = P.byq.get(RN + 'getChildren', [])
    for h in g:
        R.saw(h.id)
        for b, i, y in h.nodes():
            if y['k'] == 'call' and base_name(y.get('n', '')) in ('find', 'at') and has_mem(h, y['o'], RN + 'children'):
                R.inst('walk', isv(h, y['a'][0], h.params[0]['id']), 'walk|lookup', 'the child of that name', line_of(h, y))
    return V, O, atend, notend, nul


def heads(f, bid):
    """blocks of the loop around a block that are entered from outside"""
    cyc = cycle_blocks(f, bid)
    return [c for c in cyc if any(p not in cyc for p, k in f.blocks[c].preds if k == 'n')] if cyc else []


def derefd(f, O, a):
    p = f.where.get(a.get('i')) if a is not None and a.get('k') == 'ref' else points(f).get(id(a))
    if p is None:
        for z in f.walk(a, True):
            p = points(f).get(id(z))
            if p is not None:
                break
    return p is not None and O.derefs(a, p) == {0}


def loops(P, R, f, V, k, o, skip, what, at, empty):
    """every path goes through a loop over all children, and every round of it visits the child"""
    hs = {h for v in V if v.k == k and v.o == o for h in heads(f, v.pt[0])}
    key = 'all%d' % o
    R.inst('walk', len(hs) >= 1, 'walk|%s|loop' % key, what, f.loc)
    inhead = lambda fn, y, q=None: fn.id == f.id and any(points(f).get(id(y), (None,))[0] == h for h in hs)
    must(P, R, 'walk', f, lambda fn, y, q=None: inhead(fn, y) or fn.id == f.id and any(v.y is y and v.k == 'this' and v.o == 0 for v in V), key + '|reached', what, cond=any_of(skip, empty))
    for h in hs:
        cyc = cycle_blocks(f, h)
        xs = [c for c in cyc if any(k2 == 'n' and t2 is not None and t2 not in cyc for t2, k2 in f.blocks[c].succ)]
        ok = len(xs) == 1
        # from the loop's test into the loop and back to it without a visit
        for x in xs[:1]:
            for t, kk in f.blocks[x].succ:
                if kk == 'n' and t in cyc:
                    goals = [(x, 0), (x, len(f.blocks[x].elems))] + [(b.id, i) for b, i, y in f.nodes() if y['k'] == 'ret' and b.id in cyc]
                    q = Query(P, cut_cond=never, cut_node=at, eh=False)
                    ok &= not any(q.reach_point(f, (t, -1), g, ROOT, None) for g in goals)
        R.inst('walk', ok, 'walk|%s|each' % key, what, f.loc)
        c = f.blocks[xs[0]].term.get('c') if xs and f.blocks[xs[0]].term else None
        full = c is not None and any(z['k'] == 'call' and base_name(z.get('n', '')) in ('begin', 'cbegin') for z in gather_defs(f, c)) and any(z['k'] == 'mem' and z['n'] == RN + 'children' for z in gather_defs(f, c)) and not any(z['k'] == 'call' and base_name(z.get('n', '')) in ('next', 'advance', 'prev') or z['k'] == 'bin' and z['op'] in ('&&', '||') for z in gather_defs(f, c))
        R.inst('walk', full, 'walk|%s|full' % key, what + ', from the first to the last', f.loc)


# ---- delivery

def drops(f, v=None):
    """conditions: the write was refused for lack of room / was not"""
    full = {'PacketDropReason::BufferFull', 'PacketDropReason::QoSTODOSomethingSomething'}
    isw = lambda fn, x: any(z['k'] == 'call' and z.get('n') == 'Session::writePacket' for z in gather_defs(fn, x))
    def c(name, op):
        def g(q, fn, n, pt, ctx):
            if fn.id != f.id or n[0] != op:
                return False
            return any(b is not None and a is not None and enum_is(fn, b, name) and isw(fn, a) for a, b in ((n[1], n[2]), (n[2], n[1])))
        return g
    return {k: (c(k, '=='), c(k, '!=')) for k in full}


def enum_is(f, x, name):
    s = strip(f, x)
    return s is not None and s.get('n') is not None and ('PacketDropReason::' + base_name(s['n']) == name or s['n'] == name)


def deliver(P, R, ctx):
    V, O, atend, notend, nul = ctx
    f = P.one(WALK)
    me = f.params[2]['id']
    msg = lambda fn, x: any(z['k'] == 'mem' and z['n'] == RN + 'message' and isv_ptr(fn, z['b'], me) for z in gather_defs(fn, x))
    nomsg = isnull(lambda q, fn, x, pt, c: fn.id == f.id and x is not None and (lambda s: s is not None and s['k'] == 'mem' and s['n'] == RN + 'message')(strip_ptr(fn, x)))
    exp = lambda pol: truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'hasExpired' and x.get('o') is not None and msg(fn, x['o']), pol)
    W = [(b, i, y) for b, i, y in f.nodes() if y['k'] == 'call' and y.get('n') == 'Session::writePacket']
    R.inst('deliver', len(W) >= 1, 'deliver|there', 'retained messages are written', f.loc)
    pub = set()
    acl = [(b, i, y) for b, i, y in f.nodes() if y['k'] == 'call' and y.get('n') == 'Authentication::aclCheck']
    def checked(pol):
        def c(q, fn, n, pt, cx):
            if fn.id != f.id or n[0] not in ('==', '!='):
                return False
            for a, b in ((n[1], n[2]), (n[2], n[1])):
                s, o = strip(fn, a), strip(fn, b)
                ac = any(z['k'] == 'call' and z.get('n') == 'Authentication::aclCheck' for z in gather_defs(fn, a)) if a is not None else False
                if ac and o is not None and o.get('n') and base_name(o['n']) == 'success':
                    return (n[0] == '==') == pol
            return False
        return c
    must(P, R, 'deliver', f, lambda fn, y, q=None: fn.id == f.id and y['k'] == 'call' and y.get('n') == 'Session::writePacket', 'always', 'the message of a node at the end of the filter is written', cond=any_of(nul, notend, nomsg, exp(True), checked(False)))
    dr = drops(f)
    for b, i, y in W:
        pt = (b.id, i); where = line_of(f, y)
        for what, c in (('only at the end of the filter', atend), ('only when it has not expired', exp(False)), ('only when its publisher may still publish it', checked(True))):
            R.inst('deliver', not reaches(P, f, (f.entry, -1), [pt], cond=c), 'deliver|' + what, what, where)
        a = y['a']
        R.inst('deliver', isv_ptr(f, y['o'], f.params[4]['id']) and len(a) >= 4 and isv(f, a[1], f.params[5]['id']) and const_val(strip(f, a[2])) == 1 and isv(f, a[3], f.params[6]['id']), 'deliver|args', 'to the session, with QoS and identifier of the subscription, as retained', where)
        zs = gather(P, f, a[0], pt) + list(gather_defs(f, a[0]))
        src = {z['id'] for z in zs if z['k'] == 'var' and 'Publish' in (var_type(f, z['id']) or '') and 'Factory' not in (var_type(f, z['id']) or '')}
        R.inst('deliver', any(z['k'] == 'mem' and z['n'] == RN + 'message' and isv_ptr(f, z['b'], me) for z in zs), 'deliver|message', 'the message is the one of the node', where)
        for b2, i2, c in acl:
            za = list(gather_defs(f, c['a'][0]))
            R.inst('deliver', any(z['k'] == 'mem' and z['n'] == RN + 'message' for z in za) and (not src or any(z['k'] == 'var' and z['id'] in src for z in f.walk(c['a'][0], True)) or any(z['k'] == 'mem' for z in f.walk(c['a'][0], True))), 'deliver|same', 'what was checked is what is written', line_of(f, c))
        # refused for lack of room -> put off, and nothing below; otherwise not put off
        again = [v for v in V if v.k == 'this' and v.o == 0]
        isag = lambda fn, z, q=None: fn.id == f.id and any(v.y is z for v in again)
        fullset = list(dr)
        for nm in fullset:
            others = [dr[m][0] for m in fullset if m != nm]
            bad = normal_exit(P, f, cut_cond=any_of(dr[nm][1]), cut_node=isag, eh=False, start=pt)
            R.inst('defer', not bad or not normal_exit(P, f, cut_cond=any_of(dr[nm][1], *others), cut_node=isag, eh=False, start=pt), 'defer|put off|' + base_name(nm), 'a message that does not fit is put off', where)
        for v in again:
            R.inst('defer', not reaches(P, f, (f.entry, -1), [v.pt], cond=any_of(*[dr[m][0] for m in fullset])), 'defer|only full', 'a message is put off only when it did not fit', line_of(f, v.y))
            below = [w for w in V if w.k != 'this']
            R.inst('defer', not any(reaches(P, f, v.pt, [w.pt]) for w in below), 'defer|below', 'nothing below a node is walked when it was put off', line_of(f, v.y))
            dc = f.params[9]['id']
            inc = lambda fn, z, q=None: fn.id == f.id and (z['k'] == 'un' and '++' in z['op'] and isv(fn, z['e'], dc) or asg_parts(fn, z) is not None and isv(fn, asg_parts(fn, z)[0], dc) and asg_parts(fn, z)[2] == '+=')
            before = not reaches(P, f, (f.entry, -1), [v.pt], node=inc)
            R.inst('defer', before or not normal_exit(P, f, cut_cond=never, cut_node=inc, eh=False, start=v.pt), 'defer|count', 'running out of room is told to the caller', line_of(f, v.y))
        R.inst('deliver', not any(reaches(P, f, pt, [(b2.id, i2)]) for b2, i2, z in W), 'deliver|once', 'once', where)


# ---- resuming

def resume(P, R):
    f = P.one(INIT); R.saw(f.id)
    ses, tops_, dq, tries, total, qos, sid = (f.params[k]['id'] for k in range(7))
    call = [(b, i, y) for b, i, y in f.nodes() if is_call(y, WALK)]
    pops = [(b, i, y) for b, i, y in f.nodes() if y['k'] == 'call' and y.get('o') is not None and isv_ptr(f, y['o'], dq) and base_name(y['n']) in ('pop_front', 'pop_back', 'erase', 'clear', 'swap', 'resize')]
    R.inst('resume', len(call) >= 1 and len(pops) >= 1, 'resume|there', 'what was put off is walked', f.loc)
    front = lambda fn, x, fld: any(z['k'] == 'mem' and z['n'] == D + fld for z in gather_defs(fn, x)) and any(z['k'] == 'call' and base_name(z.get('n', '')) in ('front', 'begin', 'at', 'operator[]') and any(w['k'] == 'var' and w['id'] == dq for w in fn.walk(z['o'], True)) for z in gather_defs(fn, x))
    gone = isnull(lambda q, fn, x, pt, c: fn.id == f.id and x is not None and strip_ptr(fn, x) is not None and strip_ptr(fn, x)['k'] in ('var', 'call') and front(fn, x, 'node'))
    isw = lambda fn, y, q=None: fn.id == f.id and is_call(y, WALK)
    for b, i, y in pops:
        pt = (b.id, i)
        R.inst('resume', base_name(y['n']) == 'pop_front', 'resume|op', 'only the first is taken off', line_of(f, y))
        bad = reaches(P, f, (f.entry, -1), [pt], cond=gone, node=isw) or reaches(P, f, pt, [pt], cond=gone, node=isw)
        R.inst('resume', not bad, 'resume|walked', 'what is taken off was walked, or its node is gone', line_of(f, y))
        for b2, i2, z in call:
            pass
    for b, i, y in call:
        pt = (b.id, i); a = y['a']; where = line_of(f, y)
        ok = front(f, a[0], 'cur') and front(f, a[1], 'end') and front(f, a[2], 'node') and front(f, a[3], 'poundMode')
        R.inst('resume', ok, 'resume|position', 'at the position that was noted', where)
        R.inst('resume', isv(f, a[5], qos) and isv(f, a[6], sid) and any(z['k'] == 'var' and z['id'] == ses for z in gather_defs(f, a[4])) and any(z['k'] == 'var' and z['id'] == dq for z in f.walk(a[8], True)), 'resume|same', 'for the same subscription', where)
        poped = lambda fn, z, q=None: fn.id == f.id and any(z is p for _, _, p in pops)
        goals = [pt]
        R.inst('resume', not reaches(P, f, pt, goals, node=poped), 'resume|taken', 'and is taken off before the next', where)
        R.inst('resume', not normal_exit(P, f, cut_cond=never, cut_node=poped, eh=False, start=pt), 'resume|off', 'and is taken off', where)
    # again
    nolist = truth(lambda q, fn, x: fn.id == f.id and x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and isv_ptr(fn, x['o'], dq), True)
    noses = isnull(lambda q, fn, x, pt, c: fn.id == f.id and x is not None and strip_ptr(fn, x) is not None and strip_ptr(fn, x)['k'] in ('var', 'call') and any(z['k'] == 'var' and z['id'] == ses for z in gather_defs(fn, x)))
    def tried(q, fn, n, pt, c):
        return fn.id == f.id and n[0] in ('>=', '>') and n[1] is not None and any(z['k'] == 'var' and z['id'] == tries for z in fn.walk(n[1], True)) and (const_val(n[2]) or 0) >= 99
    def much(q, fn, n, pt, c):
        return fn.id == f.id and n[0] in ('>=', '>') and n[1] is not None and any(z['k'] == 'var' and z['id'] == total for z in fn.walk(n[1], True)) and n[2] is not None and any(z['k'] == 'mem' and z['n'] == 'Settings::retainedMessagesNodeLimit' for z in gather_defs(fn, n[2]))
    nothread = isnull(lambda q, fn, x, pt, c: fn.id == f.id and x is not None and any(z['k'] == 'call' and base_name(z.get('n', '')) == 'getThreadData' for z in gather_defs(fn, x)))
    task = lambda fn, y, q=None: fn.id == f.id and y['k'] == 'call' and y.get('n') in ('ThreadData::addDelayedTask', 'ThreadData::addImmediateTask')
    must(P, R, 'resume', f, task, 'again', 'what is left is tried again', cond=any_of(nolist, noses, tried, much, nothread))
    n = 0
    for b, i, y in f.nodes():
        if not task(f, y):
            continue
        n += 1
        zs = list(gather_defs(f, y['a'][0]))
        bind = [z for z in zs if z['k'] == 'call' and base_name(z.get('n', '')) == 'bind' and any(w['k'] in ('fn', 'var', 'mem', 'fref', 'un') and (w.get('n') or '') == INIT for w in f.walk(z, True))]
        ok = False
        if bind:
            got = [strip(f, a) for a in bind[0]['a'][-7:]]
            ok = len(bind[0]['a']) == 9 and [g.get('id') if g is not None else None for g in got] == [ses, tops_, dq, tries, total, qos, sid]
        else:
            for z in zs:
                if z['k'] == 'lambda':
                    g = P.fns.get(z.get('f') or z.get('id'))
                    for _, _, w in (g.nodes() if g is not None else ()):
                        if is_call(w, INIT):
                            got = [strip(g, a) for a in w['a']]
                            ok = all(h is not None and h.get('k') == 'var' for h in got) and [base_name(h['n']) for h in got] == [p['n'] for p in f.params]
        R.inst('resume', ok, 'resume|args', 'with the same session, filter, list, QoS and identifier', line_of(f, y))
    R.inst('resume', n >= 1, 'resume|task', 'as a later task', f.loc)
    # a pass is not without end: the tries and the total go on
    incs = [(b, i, y) for b, i, y in f.nodes() if y['k'] == 'un' and '++' in y['op'] and isv(f, y['e'], tries) or asg_parts(f, y) is not None and isv(f, asg_parts(f, y)[0], tries) and asg_parts(f, y)[2] == '+=']
    tasks = [(b.id, i) for b, i, y in f.nodes() if task(f, y)]
    isinc = lambda fn, z, q=None: fn.id == f.id and any(z is w for _, _, w in incs)
    counted = lambda q, fn, n, pt, c: fn.id == f.id and any(x is not None and any(w['k'] == 'un' and '++' in w['op'] and isv(fn, w['e'], tries) for w in fn.walk(x, True)) for x in n[1:])
    R.inst('resume', bool(incs) and not reaches(P, f, (f.entry, -1), tasks, cond=counted, node=isinc), 'resume|tries', 'each try is counted', f.loc)


# ---- start

def start(P, R):
    f = P.one(GIVE); R.saw(f.id)
    ses, tops_, qos, sid = (f.params[k]['id'] for k in range(4))
    call = [(b, i, y) for b, i, y in f.nodes() if is_call(y, INIT)]
    R.inst('start', len(call) >= 1, 'start|there', 'the walk is started', f.loc)
    mode = lambda fn, x: x is not None and any(z['k'] == 'mem' and z['n'] == 'Settings::retainedMessagesMode' for z in gather_defs(fn, x))
    EV = {base_name(k): v for k, v in enum_values(P, 'RetainedMessagesMode').items()}
    lim = EV['EnabledWithoutRetaining']
    def modes(n):
        """values of the mode the fact leaves possible"""
        c = None
        for a, b, op in ((n[1], n[2], n[0]), (n[2], n[1], {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(n[0], n[0]))):
            if a is not None and b is not None and mode(f, a):
                v = enumc_(f, b, EV)
                if v is not None:
                    return {k for k in EV.values() if {'==': k == v, '!=': k != v, '<': k < v, '<=': k <= v, '>': k > v, '>=': k >= v}.get(op, True)}
        return None
    ison = lambda k: lambda q, fn, n, pt, c: fn.id == f.id and (lambda m: m is not None and k not in m)(modes(n))
    noses = isnull(lambda q, fn, x, pt, c: fn.id == f.id and isv_ptr(fn, x, ses))
    avail = lambda pol: truth(lambda q, fn, x: x['k'] == 'call' and x.get('n') == 'Client::isRetainedAvailable', pol)
    noclient = isnull(lambda q, fn, x, pt, c: fn.id == f.id and x is not None and any(z['k'] == 'call' and z.get('n') == 'Session::makeSharedClient' for z in gather_defs(fn, x)) and strip_ptr(fn, x) is not None and strip_ptr(fn, x)['k'] in ('var', 'call'))
    for nm, v in sorted(EV.items()):
        if v < lim:
            must(P, R, 'start', f, lambda fn, y, q=None: fn.id == f.id and is_call(y, INIT), 'always|' + nm, 'every subscription starts the walk (%s)' % nm, cond=any_of(ison(v), noses, avail(False)))
    recs = []
    for b, i, y in call:
        pt = (b.id, i); where = line_of(f, y); a = y['a']
        for nm, v in sorted(EV.items()):
            if v >= lim:
                R.inst('start', not reaches(P, f, (f.entry, -1), [pt], cond=ison(v)), 'start|off|' + base_name(nm), 'not when retaining is off (%s)' % base_name(nm), where)
        R.inst('start', not reaches(P, f, (f.entry, -1), [pt], cond=any_of(avail(True), noclient)), 'start|available', 'not to a client without retained messages', where)
        R.inst('start', any(z['k'] == 'var' and z['id'] == ses for z in f.walk(a[0], True)) and isv(f, a[5], qos) and isv(f, a[6], sid), 'start|args', 'for the session, QoS and identifier of the subscription', where)
        R.inst('start', all((lambda s: s is not None and s['k'] == 'var' and any(e[3] is not None and const_val(strip(f, e[3])) == 0 for e in f.defs().get(s['id'], [])))(strip(f, a[k])) for k in (3, 4)), 'start|zero', 'with no tries used', where)
        dq = strip(f, a[2]); cp = strip(f, a[1])
        pushes = [(b2, i2, z) for b2, i2, z in f.nodes() if z['k'] == 'call' and z.get('o') is not None and dq is not None and isv_ptr(f, z['o'], dq.get('id')) and base_name(z['n']) in ('push_back', 'emplace_back', 'push_front')]
        R.inst('start', len(pushes) == 1 and not reaches(P, f, (f.entry, -1), [pt], node=lambda fn, z, q=None: any(z is p for _, _, p in pushes)), 'start|one', 'from one position', where)
        first = lambda fn, x: any(z['k'] == 'var' and z['id'] == tops_ for z in gather_defs(fn, x)) and any(z['k'] == 'call' and (base_name(z.get('n', '')) in ('front', 'at', 'begin') or z.get('op') == '[]') for z in gather_defs(fn, x))
        def dollar(pol):
            def c(q, fn, n, p, cx):
                if fn.id != f.id:
                    return False
                if const_val(n[2]) == 36 and n[1] is not None and first(fn, n[1]):
                    return (n[0] == '==') == pol and n[0] in ('==', '!=')
                s = strip(fn, n[1]) if n[1] is not None else None
                if s is not None and s['k'] == 'call' and base_name(s.get('n', '')) in ('starts_with', 'startsWith') and first(fn, s):
                    return (n[0], const_val(n[2])) in ((('!=', 0),) if pol else (('==', 0),))
                if not pol and s is not None:
                    if s['k'] == 'call' and base_name(s.get('n', '')) == 'empty':
                        return n[0] == '!=' and const_val(n[2]) == 0 and any(z['k'] == 'var' and z['id'] == tops_ for z in gather_defs(fn, s))
                    if any(z['k'] == 'call' and base_name(z.get('n', '')) in ('empty', 'size', 'length') for z in fn.walk(s, True)):
                        return any(z['k'] == 'var' and z['id'] == tops_ for z in gather_defs(fn, s))
                return False
            return c
        for b2, i2, z in pushes:
            pz = (b2.id, i2)
            r = record(P, f, z['a'][0], pz) if len(z['a']) == 1 else {k: [(e, pz)] for k, e in zip(FIELDS, z['a'])}
            if r is None:
                raise AnalysisError('%s: first position not understood' % line_of(f, z))
            w2 = line_of(f, z)
            copy = lambda e: any(u['k'] == 'var' and cp is not None and u['id'] == cp.get('id') for u in gather_defs(f, e))
            be = lambda e, m: (lambda s: s is not None and s['k'] == 'call' and base_name(s.get('n', '')) in m)(resolved(f, e))
            R.inst('start', bool(r['cur']) and all(be(e, ('begin', 'cbegin')) and copy(e) for e, p in r['cur']), 'start|begin', 'from the first level', w2)
            R.inst('start', bool(r['end']) and all(be(e, ('end', 'cend')) and copy(e) for e, p in r['end']), 'start|end', 'to the last level', w2)
            R.inst('start', all(const_val(strip(f, e)) == 0 for e, p in r['poundMode']), 'start|pound', 'not below anything yet', w2)
            for root, pol in (('retainedMessagesRoot', False), ('retainedMessagesRootDollar', True)):
                R.inst('start', bool(r['node']) and all(root_ok(P, f, e, p, root, dollar(pol)) for e, p in r['node']), 'start|' + root, 'at the root for that kind of filter', w2)
        R.inst('start', cp is not None and cp['k'] == 'var' and any(z['k'] == 'var' and z['id'] == tops_ for z in gather_defs(f, cp)), 'start|copy', 'of a copy of the filter kept while it is walked', where)


def enumc_(f, x, EV):
    s = strip(f, x)
    if s is None:
        return None
    v = const_val(s)
    if v is not None:
        return v
    n = base_name(s.get('n') or '')
    return EV.get(n)
