"""Splices helpers into their callers, so that a function that was split, or a condition that was moved into a
lambda, is judged like the unsplit code. Inlined are: lambdas that are only ever called directly, and functions
that did not exist when the rules were written (core/base_functions.txt). Nothing else changes: the spliced graph
has exactly the paths of caller and helper together."""
import os
from .prog import Block, children, strip, base_name

LIST = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'base_functions.txt')
MAXBLOCKS = 4000
SIMPLE = {'var', 'this', 'mem', 'gvar', 'int', 'bool', 'enum', 'null', 'str'}


def base_list():
    return set(l.rstrip('\n') for l in open(LIST) if l.strip())


def names(P):
    return sorted({f.q for f in P.fns.values() if not f.is_lambda})


def lambda_uses(P):
    """ids of lambdas that are used in any other way than by a direct call"""
    direct = set(); other = set(); created = set()
    for f in P.fns.values():
        nodes = [(b, i, y) for b, i, y in f.nodes()]
        holder = {}      # var id -> lambda id
        callee_o = set()
        for b, i, y in nodes:
            if y['k'] == 'decl':
                for v in y['d']:
                    e = v.get('e')
                    s = strip(f, e) if e is not None else None
                    if s is not None and s['k'] == 'lambda' and s.get('id') and '&' not in v['t']:
                        holder[v['id']] = s['id']; callee_o.add(id(s))
            elif y['k'] == 'call' and y.get('op') == '()' and y.get('o') is not None and str(y.get('id', '')).startswith('lambda@'):
                o = y['o']
                s = strip(f, o)
                if s is not None:
                    callee_o.add(id(s))
                    if s['k'] == 'lambda':
                        direct.add(s['id'])
        for b, i, y in nodes:
            if y['k'] == 'lambda':
                for l in ([y['id']] if y.get('id') else y.get('ids', [])):
                    created.add(l)
                    if id(y) not in callee_o or not y.get('id'):
                        other.add(l)
            elif y['k'] == 'var' and id(y) not in callee_o:
                if y['id'] in holder:
                    other.add(holder[y['id']])
                # captured elsewhere
    return created - other


def map_expr(x, var, off, this):
    """copy of an expression with variables renamed, element references moved and `this` replaced"""
    if isinstance(x, list):
        return [map_expr(y, var, off, this) for y in x]
    if not isinstance(x, dict):
        return x
    k = x.get('k')
    if k == 'ref':
        return dict(x, i=x['i'] + off)
    if k == 'this' and this is not None:
        return this
    if k == 'var':
        v = var.get(x['id'])
        if v is None:
            return dict(x)
        if isinstance(v, dict):
            return v
        r = dict(x, id=v); r.pop('parm', None)
        return r
    r = {}
    for n, y in x.items():
        if n in ('id', 'bind') and k in ('dtor', None) or (n == 'id' and k == 'catch'):
            if n == 'bind':
                r[n] = [var.get(z, z) if not isinstance(var.get(z), dict) else z for z in y]
            else:
                v = var.get(y)
                r[n] = v if isinstance(v, str) else y
        elif isinstance(y, (dict, list)):
            r[n] = map_expr(y, var, off, this)
        else:
            r[n] = y
    return r


def local_ids(h):
    out = set(p['id'] for p in h.params)
    for b in h.blocks.values():
        if b.label and b.label.get('k') == 'catch' and b.label.get('id'):
            out.add(b.label['id'])
    for b, i, y in h.nodes():
        if y['k'] == 'decl':
            for v in y['d']:
                out.add(v['id']); out.update(v.get('bind', []))
    return out


def lvalue_like(fn, x, d=0):
    if x is None or d > 10:
        return False
    k = x.get('k')
    if k == 'ref':
        return lvalue_like(fn, fn.deref(x), d + 1)
    if k in ('var', 'this', 'gvar'):
        return True
    if k == 'mem':
        return x.get('b') is not None and lvalue_like(fn, x['b'], d + 1)
    if k == 'un' and x['op'] in ('*', '&'):
        return lvalue_like(fn, x['e'], d + 1)
    if k == 'cast':
        return lvalue_like(fn, x['e'], d + 1)
    if k == 'call' and x.get('o') is not None and base_name(x.get('n', '')) in ('operator->', 'operator*', 'get', 'value') and not x.get('a'):
        return lvalue_like(fn, x['o'], d + 1)
    return False


def splice(P, f, bid, idx, call, h, serial, first):
    b = f.blocks[bid]
    loc = local_ids(h)
    tag = '' if first else '~%d' % serial
    nested = any(y['k'] == 'lambda' for _, _, y in h.nodes())
    off = (max(f.el) + 1 if f.el else 0)
    nb = max(f.blocks) + 1
    var = {}
    pre = []
    changed = set()
    for hb, hi, y in h.nodes():
        t = None
        if y['k'] == 'asg':
            t = strip(h, y['a'])
        elif y['k'] == 'un' and y['op'] in ('++', '--', 'post++', 'post--', '&'):
            t = strip(h, y['e'])
        elif y['k'] == 'call' and y.get('op') in ('=', '+=', '-=', '++', '--') and y.get('o') is not None:
            t = strip(h, y['o'])
        if t is not None and t['k'] == 'var':
            changed.add(t['id'])
        if y['k'] == 'call':
            for a in y.get('a', []):
                s = strip(h, a)
                if s is not None and s['k'] == 'var' and s['id'] in loc and y.get('id') in P.fns:
                    for p, q in zip(P.fns[y['id']].params, y['a']):
                        if q is a and p['t'].endswith('&') and not p['t'].startswith('const '):
                            changed.add(s['id'])
            if y.get('o') is not None and not y.get('const'):
                s = strip(h, y['o'])
                if s is not None and s['k'] == 'var':
                    changed.add(s['id'])
    maxel = [off + (max(h.el) + 1 if h.el else 0)]

    def fresh_el():
        maxel[0] += 1
        return maxel[0]
    args = call.get('a', [])
    for v in loc:
        if tag:
            var[v] = v + tag
    for i, p in enumerate(h.params):
        a = args[i] if i < len(args) else None
        if a is None:
            continue
        s = strip(f, a)
        isref = p['t'].endswith('&') or p['t'].endswith('*')
        if not nested and s is not None and ((s['k'] in SIMPLE - {'mem'} and p['id'] not in changed) or (p['t'].endswith('&') and lvalue_like(f, a)) or (p['t'].endswith('*') and p['id'] not in changed and lvalue_like(f, a))):
            var[p['id']] = a if s['k'] == 'mem' or s['k'] not in SIMPLE else s
            continue
        pre.append({'k': 'decl', 'l': call.get('l'), 'd': [{'id': p['id'] + tag, 'n': p.get('n', 'p'), 't': p['t'], 'e': a, 'l': call.get('l')}]})
    this = None
    if not h.is_lambda and call.get('o') is not None:
        o = call['o']; s = strip(f, o)
        ptr = str(call.get('ot', '')).endswith('*')
        if s is not None and s['k'] == 'this':
            this = None
        elif ptr and lvalue_like(f, o):
            this = o
        elif lvalue_like(f, o):
            this = {'k': 'un', 'op': '&', 'e': o, 'l': call.get('l')}
        else:
            tv = 'this~%d' % serial
            pre.append({'k': 'decl', 'l': call.get('l'), 'd': [{'id': tv, 'n': 'self', 't': call.get('ot', '') if ptr else call.get('ot', '') + ' &', 'e': o, 'l': call.get('l')}]})
            vv = {'k': 'var', 'id': tv, 'n': 'self', 'l': call.get('l'), 't': call.get('ot', '')}
            this = vv if ptr else {'k': 'un', 'op': '&', 'e': vv, 'l': call.get('l')}
    # continuation
    rets = [(hb, hi, y) for hb, hi, y in h.nodes() if y['k'] == 'ret' and y.get('e') is not None]
    rv = 'ret~%d' % serial
    cont = Block(); cont.id = nb; cont.fn = f; cont.label = None; cont.term = b.term; cont.succ = []; cont.preds = []
    nb += 1
    callel = b.elems[idx][0]
    value = {'k': 'var', 'id': rv, 'n': 'ret_' + base_name(h.q).strip('<>'), 't': call.get('t', ''), 'l': call.get('l')} if rets else {'k': 'other', 's': [], 'c': 'void', 'l': call.get('l')}
    top = b.elems[idx][1]
    if top is call:
        newtop = value
    else:
        def rep(x):
            if x is call:
                return value
            if isinstance(x, list):
                return [rep(y) for y in x]
            if isinstance(x, dict):
                return {k: rep(y) for k, y in x.items()}
            return x
        newtop = rep(top)
    cont.elems = [(callel, newtop)] + b.elems[idx + 1:]
    ehs = [(t, k) for t, k in b.succ if k in ('eh', 'catch')] if (idx == len(b.elems) - 1 and not b.term) else []
    ends = idx == len(b.elems) - 1
    hint = next((t for t, k in b.succ if k == 'eh'), b.eh_hint)
    b.eh_hint = cont.eh_hint = hint      # what a constructor in the two halves throws goes where it went
    if ends and not b.term:
        cont.succ = [(t, k) for t, k in b.succ if k not in ('eh', 'catch')]
    else:
        cont.succ = list(b.succ)
    b.term = None
    b.elems = b.elems[:idx] + [(fresh_el(), x) for x in pre]
    bmap = {hb: nb + n for n, hb in enumerate(sorted(h.blocks))}
    b.succ = [(bmap[h.entry], 'n')]
    single = len(rets) == 1
    for hb in h.blocks.values():
        c = Block(); c.id = bmap[hb.id]; c.fn = f; c.preds = []
        c.eh_hint = bmap[hb.eh_hint] if hb.eh_hint is not None and hb.eh_hint != h.exit else hint
        c.label = map_expr(hb.label, var, off, this) if hb.label else None
        c.term = map_expr(hb.term, var, off, this) if hb.term else None
        c.elems = []
        for i, x in hb.elems:
            m = map_expr(x, var, off, this)
            if m.get('k') == 'ret':
                if m.get('e') is None:
                    continue
                if single:
                    m = {'k': 'decl', 'l': m.get('l'), 'd': [{'id': rv, 'n': value['n'], 't': call.get('t', h.ret or ''), 'e': m['e'], 'l': m.get('l')}]}
                else:
                    m = {'k': 'asg', 'op': '=', 'l': m.get('l'), 'a': dict(value), 'b': m['e'], 't': call.get('t', '')}
            c.elems.append((i + off, m))
        c.succ = []
        for t, k in hb.succ:
            if t == h.exit:
                if k == 'n':
                    c.succ.append((cont.id, 'n'))
                elif k in ('eh', 'catch'):
                    c.succ.append(ehs[0] if ehs else (None, 'dead'))
                elif k == 'abort':
                    c.succ.append((f.exit, 'abort'))
                else:
                    c.succ.append((None, 'dead'))
            else:
                c.succ.append((bmap[t] if t is not None else None, k))
        f.blocks[c.id] = c
    ex = f.blocks[bmap[h.exit]]
    ex.succ = [(cont.id, 'n')]
    f.blocks[cont.id] = cont
    # elements
    for i, x in h.el.items():
        if i not in h.where:
            f.el[i + off] = map_expr(x, var, off, this)
    reindex(f)


def reindex(f):
    f.where = {}
    for b in f.blocks.values():
        b.preds = []
        for n, (i, x) in enumerate(b.elems):
            f.el[i] = x; f.where[i] = (b.id, n)
    live = {f.entry}; st = [f.entry]
    while st:
        for t, k in f.blocks[st.pop()].succ:
            if t is not None and k != 'dead' and t not in live:
                live.add(t); st.append(t)
    for b in f.blocks.values():
        for t, k in b.succ:
            if t is not None and k != 'dead' and (b.id in live or t not in live):
                f.blocks[t].preds.append((b.id, k))
    f._defs = None
    for a in ('_vtypes', '_pts', '_callees', '_live'):
        if hasattr(f, a):
            delattr(f, a)


def run(P, base=None):
    base = base if base is not None else base_list()
    direct = lambda_uses(P)
    cand = {}
    for f in P.fns.values():
        if f.nocfg or not f.blocks or f.entry is None:
            continue
        if f.is_lambda:
            if f.id in direct:
                cand[f.id] = f
        elif f.q not in base and not f.is_ctor and not f.is_dtor and not f.d.get('over') and not P.over.get(f.id) and base_name(f.q) != 'main' and not base_name(f.q).startswith('operator'):
            cand[f.id] = f
    if not cand:
        return 0

    def target(y):
        if y['k'] != 'call' or y.get('id') not in cand:
            return None
        if y.get('virt') and not y.get('nonvirt'):
            return None
        h = cand[y['id']]
        if len([a for a in y.get('a', [])]) < len(h.params):
            return None
        return h
    # recursion
    succ = {i: {target(y).id for _, _, y in f.nodes() if target(y) is not None} for i, f in cand.items()}

    def rec(i):
        seen = set(); st = list(succ[i])
        while st:
            j = st.pop()
            if j == i:
                return True
            if j not in seen:
                seen.add(j); st += list(succ[j])
        return False
    for i in list(cand):
        if rec(i):
            cand.pop(i)
    done = set(); serial = [0]; count = 0; once = {}

    def process(f):
        nonlocal count
        if f.id in done:
            return
        done.add(f.id)
        for _ in range(400):
            hit = None
            for b in f.blocks.values():
                for idx, (i, x) in enumerate(b.elems):
                    for y in f.walk(x):
                        h = target(y)
                        if h is not None and h.id != f.id:
                            hit = (b.id, idx, y, h); break
                    if hit:
                        break
                if hit:
                    break
            if not hit or len(f.blocks) > MAXBLOCKS:
                return
            bid, idx, y, h = hit
            process(h)
            serial[0] += 1; count += 1
            splice(P, f, bid, idx, y, h, serial[0], h.id not in once)
            once.setdefault(h.id, f.id)
    for f in list(P.fns.values()):
        if any(target(y) is not None for _, _, y in f.nodes()):
            process(f)
    # what is no longer used anywhere disappears
    used = set()
    for f in P.fns.values():
        for b, i, y in f.nodes():
            if y['k'] in ('call', 'fn', 'ctor') and y.get('id') in cand and y.get('id') != f.id:
                used.add(y['id'])
    gone = [i for i in cand if i not in used]
    for f in P.fns.values():
        for b in f.blocks.values():
            for n, (i, x) in enumerate(b.elems):
                for y in f.walk(x):
                    if y['k'] == 'lambda' and y.get('id') in gone:
                        y['k'] = 'other'; y['c'] = 'LambdaExpr'; y['s'] = []; y.pop('id', None)
    for i in gone:
        P.fns.pop(i, None)
    for f in P.fns.values():
        n = 0
        while f.parent in gone and f.parent in once and n < 10:
            f.parent = once[f.parent]; n += 1
    return count
