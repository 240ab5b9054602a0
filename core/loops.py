"""Natural loops and loops over all elements of a container."""
from .rules import *


def natural(f, succ=None, reach=None):
    """[(head, blocks, parent loop)] of the loops of f, innermost last; succ: block -> [target]"""
    if succ is None:
        succ = {b: [t for t, k in f.blocks[b].succ if t is not None and k == 'n'] for b in f.blocks}
    if reach is None:
        reach, st = {f.entry}, [f.entry]
        while st:
            for t in succ[st.pop()]:
                if t not in reach:
                    reach.add(t); st.append(t)
    out = []

    def scc(nodes):
        idx, low, st, on, res, n = {}, {}, [], set(), [], [0]
        for r in sorted(nodes, reverse=True):
            if r in idx:
                continue
            work = [(r, iter([t for t in succ[r] if t in nodes]))]
            idx[r] = low[r] = n[0]; n[0] += 1; st.append(r); on.add(r)
            while work:
                u, it = work[-1]
                adv = False
                for t in it:
                    if t not in idx:
                        idx[t] = low[t] = n[0]; n[0] += 1; st.append(t); on.add(t)
                        work.append((t, iter([z for z in succ[t] if z in nodes]))); adv = True
                        break
                    elif t in on:
                        low[u] = min(low[u], idx[t])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    c = set()
                    while True:
                        z = st.pop(); on.discard(z); c.add(z)
                        if z == u:
                            break
                    if len(c) > 1 or any(t == u for t in succ[u]):
                        res.append(c)
        return res

    def rec(nodes, parent):
        for c in scc(nodes):
            hd = [v for v in c if any(v in succ[p] for p in reach if p not in c)]
            if len(hd) != 1:
                raise AnalysisError('%s: loop with %d entries' % (f.loc, len(hd)))
            L = (hd[0], frozenset(c), parent)
            out.append(L)
            rec(c - {hd[0]}, L)
    rec(set(reach), None)
    return out


def exits(f, L):
    return [b for b in L[1] if any(k == 'n' and t is not None and t not in L[1] for t, k in f.blocks[b].succ)]


def defs_of(f, x):
    from checks.c16 import gather_defs
    return gather_defs(f, x)


def over(f, cont):
    """loops that go over a container, from its begin to its end: [(loop, test block)]; cont(node) recognises it"""
    out = []
    for L in natural(f):
        for x in exits(f, L):
            c = (f.blocks[x].term or {}).get('c')
            if c is None:
                continue
            zs = defs_of(f, c)
            # the test's own values, not what the loop's element leads to
            if any(cont(z) for z in zs) and any(z['k'] == 'call' and base_name(z.get('n', '')) in ('begin', 'cbegin') for z in zs) and any(z['k'] == 'call' and base_name(z.get('n', '')) in ('end', 'cend') for z in zs):
                if any(z['k'] == 'call' and base_name(z.get('n', '')) in ('next', 'advance', 'prev') for z in zs):
                    continue
                out.append((L, x))
    return out


def _outer(f, res):
    return [(L, x) for L, x in res if not any(M is not L and x2 == x and M[1] < L[1] for M, x2 in res)]


def each_of(P, R, f, rule, key, what, cont, act, skip=None, reached=None):
    """a loop over all of cont is passed on every path (except under `reached`), and every round does act (except under `skip`)"""
    never = lambda *a: False
    res = _outer(f, over(f, cont))
    R.saw(f.id)
    acts = [(b.id, i) for b, i, y in f.nodes() if act(f, y)]
    res = [(L, x) for L, x in res if any(a[0] in L[1] for a in acts)] or res
    R.inst(rule, bool(res), key + '|loop', what, f.loc)
    if not res:
        return []
    heads = {x for _, x in res}
    inhead = lambda fn, y, q=None: fn.id == f.id and points(f).get(id(y), (None,))[0] in heads
    if reached is not False:
        R.inst(rule, not normal_exit(P, f, cut_cond=reached or never, cut_node=inhead, eh=False), key + '|reached', what, f.loc)
    for L, x in res:
        for t, k in f.blocks[x].succ:
            if k != 'n' or t not in L[1]:
                continue
            inner = {x2 for M, x2 in res if M[1] < L[1] and x2 != x}
            q = Query(P, cut_cond=skip or never, cut_node=lambda fn, y, qq=None: act(fn, y) or fn.id == f.id and points(f).get(id(y), (None,))[0] in inner, eh=False)
            goals = [(x, 0), (x, len(f.blocks[x].elems))]
            # leaving the loop elsewhere
            for b in exits(f, L):
                if b != x:
                    for u, kk in f.blocks[b].succ:
                        if kk == 'n' and u is not None and u not in L[1]:
                            goals.append((u, 0 if f.blocks[u].elems else len(f.blocks[u].elems)))
            bad = any(q.reach_point(f, (t, -1), g, ROOT, None) for g in goals[:2])
            R.inst(rule, not bad, key + '|each', what, '%s:%d' % (f.file, min([y.get('l') for b in L[1] for _, e in f.blocks[b].elems for y in f.walk(e) if y.get('l')] or [f.line])))
            q2 = Query(P, cut_cond=never, eh=False)
            early = []
            for b in exits(f, L):
                if b != x:
                    early.append(b)
            R.inst(rule, not [b for b in early if not (skip is not None and leaves_by(P, f, b, L, skip))], key + '|all', what + ', to the last', f.loc)
    return res


def leaves_by(P, f, b, L, skip):
    for si, (t, k) in enumerate(f.blocks[b].succ):
        if k == 'n' and t is not None and t not in L[1]:
            q = Query(P, cut_cond=skip, eh=False)
            if not q.edge_cut(f, f.blocks[b], si, ROOT):
                if q.reach_point(f, (f.entry, -1), (b, len(f.blocks[b].elems)), ROOT, None):
                    return False
    return True
