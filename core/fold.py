"""Puts the value of a local that was introduced only to name it back into the one place that uses it, so that a
value moved into a local is judged like the expression itself. Folded are locals that did not exist when the rules
were written (core/base_locals.txt), that have one definition and one use, when nothing between the two can change
what the expression denotes. Evaluated calls stay where they are; only the reference to their value moves."""
import os
from .prog import strip, base_name, children

LIST = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'base_locals.txt')
PURE = {'operator->', 'operator*', 'operator[]', 'get', 'begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'length', 'front', 'back', 'at', 'find', 'now', 'move', 'forward', 'min', 'max', 'operator bool', 'value', 'has_value', 'c_str', 'data', 'what', 'operator==', 'operator!=', 'operator<', 'operator+', 'operator-', 'to_string', 'lock', 'use_count', 'expired'}


def owner(f):
    return f.q if not f.is_lambda else 'lambda'


def names(P):
    r = {}
    for f in P.fns.values():
        s = r.setdefault(owner(f), set())
        for b, i, y in f.nodes():
            if y['k'] == 'decl':
                s.update(v.get('n') or '' for v in y['d'])
    return r


def write():
    from .prog import Program
    r = names(Program(raw=True))
    with open(LIST, 'w') as o:
        for q in sorted(r):
            n = sorted(x for x in r[q] if x)
            if n:
                o.write(q + '\t' + ' '.join(n) + '\n')


def base():
    r = {}
    for l in open(LIST):
        q, n = l.rstrip('\n').split('\t')
        r[q] = set(n.split())
    return r


def effect(f, y):
    k = y['k']
    if k == 'asg' or (k == 'un' and y['op'] in ('++', '--', 'post++', 'post--')):
        return True
    if k == 'call':
        return not (y.get('const') or base_name(y.get('n', '') or '') in PURE)
    return k in ('delete', 'throw')


def stable(f, x, d=0):
    """the expression denotes the same whenever it is evaluated (locals that are never changed, constants, this)"""
    if x is None or d > 12:
        return False
    k = x.get('k')
    if k == 'ref':
        return True             # a value that was computed at its own place
    if k in ('int', 'bool', 'enum', 'null', 'str', 'this', 'zero', 'float', 'char', 'lambda'):
        return True
    if k == 'var':
        return len(f.defs().get(x['id'], [])) == 1 and f.defs()[x['id']][0][2] in ('init', 'param')
    if k in ('cast', 'ctor', 'initlist', 'temp', 'bind') or (k == 'un' and x['op'] in ('!', '-', '+', '~')) or k == 'bin':
        return all(stable(f, c, d + 1) for c in children(x))
    return False


def reachable(f):
    if getattr(f, '_live', None) is None:
        seen = {f.entry}; st = [f.entry]
        while st:
            for t, k in f.blocks[st.pop()].succ:
                if t is not None and k != 'dead' and t not in seen:
                    seen.add(t); st.append(t)
        f._live = seen
    return f._live


def between(f, d, u):
    """elements between two points when the way is straight, else None"""
    b, i = d
    out = []
    i += 1
    live = reachable(f)
    for _ in range(24):
        blk = f.blocks[b]
        if b == u[0]:
            if u[1] < i - 1:
                return None
            out += [x for _, x in blk.elems[i:u[1]]]
            return out
        out += [x for _, x in blk.elems[i:]]
        if blk.term and blk.term.get('c') is not None:
            return None
        n = [t for t, k in blk.succ if k == 'n' and t is not None]
        if len(n) != 1:
            return None
        if len([p for p, k in f.blocks[n[0]].preds if k == 'n' and p in live]) != 1:
            return None
        b, i = n[0], 0
    return None


SCOPED = ('std::unique_lock', 'std::lock_guard', 'std::shared_lock', 'std::scoped_lock', 'RWLockGuard', 'UnscopedLock', 'MutexLocked', 'CheckNestedness')


def scoped(v):
    """a variable whose lifetime matters, not its value"""
    t = (v.get('t') or '').replace('const ', '')
    return t.startswith(SCOPED)


def run(P):
    bl = base()
    inlam = set()
    for f in P.fns.values():
        if f.is_lambda:
            for b, i, y in f.nodes():
                if y['k'] == 'var':
                    inlam.add(y['id'])
    count = 0
    for f in P.fns.values():
        if f.nocfg or not f.blocks or f.entry is None:
            continue
        known = bl.get(owner(f), set())
        for _ in range(60):
            new = {}
            for b, i, y in f.nodes():
                if y['k'] == 'decl':
                    for v in y['d']:
                        if v.get('n') and v['n'] not in known and v.get('e') is not None and not v.get('bind') and v['id'] not in inlam and not v['n'].startswith('__') and not scoped(v):
                            new[v['id']] = (b.id, i, y, v)
            if not new:
                break
            uses = {}
            for b, i, y in f.nodes():
                if y['k'] == 'var' and y['id'] in new:
                    uses.setdefault(y['id'], []).append((b.id, i, y))
            done = False
            for vid, (b, i, y, v) in new.items():
                us = uses.get(vid, [])
                ds = f.defs().get(vid, [])
                if len(us) != 1 or len(ds) != 1 or ds[0][2] != 'init':
                    continue
                ub, ui, u = us[0]
                el = between(f, (b, i), (ub, ui))
                if el is None:
                    continue
                if not stable(f, v['e']) and any(effect(f, z) for x in el for z in f.walk(x)):
                    continue
                # the use must not be inside the rest of the same declaration's own initialiser
                e = v['e']
                if any(z is u for z in f.walk(e)):
                    continue
                y['d'] = [w for w in y['d'] if w is not v]
                u.clear(); u.update(e)
                f._defs = None
                for a in ('_vtypes', '_pts', '_callees'):
                    if hasattr(f, a):
                        delattr(f, a)
                count += 1
                done = True
                break
            if not done:
                break
    return count


if __name__ == '__main__':
    write()
