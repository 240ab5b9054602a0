"""Reachability inside a function that keeps track of what plain boolean locals hold."""
from .rules import *
from .query import edge_facts


def reach(f, start, goals, cut, eh=False, kinds=('n', 'catch'), facts=frozenset(), via=None):
    """can a path from the point (block, idx; exclusive) come to one of the goal blocks without passing a cut node"""
    nd = {}
    for b, i, y in f.nodes():
        nd.setdefault((b.id, i), []).append(y)
    isb = {}

    def boolean(v):
        if v not in isb:
            isb[v] = (var_type(f, v) or '').replace('const ', '') == 'bool'
        return isb[v]
    st = [(start[0], start[1] + 1, facts)]
    seen = set()
    while st:
        bid, i0, facts = st.pop()
        if (bid, i0, facts) in seen:
            continue
        seen.add((bid, i0, facts))
        b = f.blocks[bid]
        dead = False
        for i in range(i0, len(b.elems)):
            for y in nd.get((bid, i), []):
                if cut(f, y):
                    dead = True
                    break
            if dead:
                break
            if via == (bid, i):
                facts = facts | {('#via', True)}
            y = (nd.get((bid, i)) or [None])[0]
            if y is None:
                continue
            new = []
            if y['k'] == 'decl':
                new = [(v['id'], v.get('e')) for v in y['d']]
            else:
                a = asg_parts(f, y)
                if a is not None:
                    t = strip(f, a[0])
                    if t is not None and t['k'] == 'var':
                        new = [(t['id'], a[1] if y.get('op', '=') == '=' else None)]
            for vid, e in new:
                if boolean(vid):
                    facts = frozenset(z for z in facts if z[0] != vid)
                    c = const_val(strip(f, e)) if e is not None else None
                    if c is not None:
                        facts = facts | {(vid, bool(c))}
        if dead:
            continue
        for si, (t, k) in enumerate(b.succ):
            if t is None or (k not in kinds and not (eh and k == 'eh')):
                continue
            n = facts
            ok = True
            for x, pol in edge_facts(f, b, si):
                x = strip(f, x)
                while x is not None and x['k'] == 'un' and x['op'] == '!':
                    x = strip(f, x['e']); pol = not pol
                if x is not None and x['k'] == 'var' and boolean(x['id']):
                    if (x['id'], not pol) in n:
                        ok = False
                    n = n | {(x['id'], pol)}
            if not ok:
                continue
            if t in goals and (via is None or ('#via', True) in n):
                return True
            st.append((t, 0, n))
    return False
