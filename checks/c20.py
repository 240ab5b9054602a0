"""State files: what is read back has the layout, the meaning and the ages of what was written."""
from core.rules import *
from checks.c11 import must, reaches, never
from checks.c16 import gather_defs, isv

PF = 'PersistenceFile::'
WR = {'writeInt64': 'i64', 'writeUint32': 'u32', 'writeUint16': 'u16', 'writeUint8': 'u8', 'writeString': 'str', 'writeOptionalString': 'opt', 'writeCheck': 'raw'}
RD = {'readInt64': 'i64', 'readUint32': 'u32', 'readUint16': 'u16', 'readUint8': 'u8', 'readString': 'str', 'readOptionalString': 'opt', 'readCheck': 'raw'}
S, RM, BR = 'SessionsAndSubscriptionsDB::', 'RetainedMessagesDB::', 'BridgeInfoDb::'


def check(P, R):
    R.rule('layout', 'what is read back has the fields, the order and the repetitions of what was written')
    R.rule('meaning', 'every field read goes where the field written came from')
    R.rule('age', 'times are restored with the time that has passed meanwhile')
    R.rule('number', 'numbers and strings are read with the bytes they were written with')
    primitives(P, R)
    sessions(P, R)
    retained(P, R)
    bridges(P, R)


# ---- tokens and their order

def facts(f, b, si):
    return [n for n in (norm(f, x, pol) for x, pol in edge_facts(f, b, si)) if n is not None]


def tr_(f, n):
    """truth of n[1], when n says that"""
    if n[0] not in ('==', '!=') or not isinstance(n[2], dict):
        return None
    c = const_val(n[2])
    if c == 0:
        return n[0] == '!='
    if c == 1 and n[2].get('k') == 'bool':
        return n[0] == '=='
    return None


class Side:
    """the tokens of one function and how they follow each other"""

    def __init__(self, P, f, names, latest=None, eof=True, prims=PF):
        self.P, self.f, self.names = P, f, names
        self.toks = {}
        for b, i, y in f.nodes():
            if y['k'] != 'call':
                continue
            k = self.kind(y)
            if k:
                self.toks.setdefault(b.id, []).append((i, y, k))
        for v in self.toks.values():
            v.sort(key=lambda t: t[0])
        self.latest = latest
        self.loops = self.find_loops()

    def kind(self, y):
        n = y.get('n') or ''
        b = base_name(n)
        if n.startswith(PF) and b in self.names:
            return self.names[b]
        if b == 'fseek' and self.names is RD and len(y.get('a', [])) == 3:
            w = strip(self.f, y['a'][2])
            if const_val(w) == 1:
                return 'raw'
        return None

    def dead(self, bid, si):
        """edges that are not taken for a complete file of the current version"""
        q = Query(self.P)
        for n in facts(self.f, self.f.blocks[bid], si):
            x, t = strip(self.f, n[1]), tr_(self.f, n)
            if t is not None and x is not None and x['k'] == 'var' and t and self.is_eof(x['id']):
                return True
            if t is False and x is not None and x['k'] == 'mem' and base_name(x['n']) == 'f':
                return True
            if self.latest is not None and n[0] in ('<', '<=', '>', '>=', '==', '!='):
                a, b = strip(self.f, n[1]), strip(self.f, n[2])
                op = n[0]
                if is_mem(b, *self.latest[0]):
                    a, b, op = b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
                if is_mem(a, *self.latest[0]):
                    v = const_val(b)
                    if v is None:
                        v = self.latest[2].get(enum_name(b))
                    if v is None:
                        raise AnalysisError('%s: version test not understood' % line_of(self.f, n[1] if n[1].get('l') else self.f.blocks[bid].term or {}))
                    L = self.latest[1]
                    if not {'<': L < v, '<=': L <= v, '>': L > v, '>=': L >= v, '==': L == v, '!=': L != v}[op]:
                        return True
        return False

    def is_eof(self, v):
        return self.names is RD and any(t[2] not in ('raw',) and any((strip(self.f, a) or {}).get('id') == v and (strip(self.f, a) or {}).get('k') == 'var' for a in t[1].get('a', [])) for ts in self.toks.values() for t in ts)

    def succ(self, bid):
        return [(t, si) for si, (t, k) in enumerate(self.f.blocks[bid].succ) if t is not None and k == 'n' and not self.dead(bid, si)]

    def find_loops(self):
        """loops holding tokens: head -> blocks (by back edges of a depth-first walk)"""
        f = self.f
        self.S = {b: self.succ(b) for b in f.blocks}
        # strongly connected components, nested
        out = []

        def scc(nodes, cut):
            idx, low, st, on, res, n = {}, {}, [], set(), [], [0]

            def go(v):
                work = [(v, iter([t for t, _ in self.S[v] if t in nodes and t not in cut]))]
                idx[v] = low[v] = n[0]; n[0] += 1; st.append(v); on.add(v)
                while work:
                    u, it = work[-1]
                    adv = False
                    for t in it:
                        if t not in idx:
                            idx[t] = low[t] = n[0]; n[0] += 1; st.append(t); on.add(t)
                            work.append((t, iter([z for z, _ in self.S[t] if z in nodes and z not in cut]))); adv = True
                            break
                        elif t in on:
                            low[u] = min(low[u], idx[t])
                    if adv:
                        continue
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[u])
                    if low[u] == idx[u]:
                        c = set()
                        while True:
                            z = st.pop(); on.discard(z); c.add(z)
                            if z == u:
                                break
                        if len(c) > 1 or any(t == u for t, _ in self.S[u]):
                            res.append(c)
            for v in sorted(nodes, reverse=True):
                if v not in idx and v not in cut:
                    go(v)
            return res

        def rec(nodes, cut, parent):
            for c in scc(nodes, cut):
                hd = [v for v in c if any(p not in c and (t == v) for p in nodes0 for t, _ in self.S[p])]
                if len(hd) != 1:
                    raise AnalysisError('%s: loop with %d entries' % (f.loc, len(hd)))
                L = (hd[0], frozenset(c), parent)
                if any(b in self.toks for b in c):
                    out.append(L)
                rec2 = c - {hd[0]}
                rec(rec2, cut | {hd[0]}, L)
        # only what is reachable
        reach, st = {f.entry}, [f.entry]
        while st:
            for t, _ in self.S[st.pop()]:
                if t not in reach:
                    reach.add(t); st.append(t)
        self.reach = reach
        nodes0 = reach
        rec(set(reach), set(), None)
        out = [L for L in out if not self.feof_loop(L)]
        return out

    def exits(self, L):
        return [b for b in L[1] if any(t not in L[1] for t, _ in self.S[b])]

    def feof_loop(self, L):
        for b in self.exits(L):
            c = (self.f.blocks[b].term or {}).get('c')
            if c is not None and any(z['k'] == 'call' and base_name(z.get('n', '')) == 'feof' for z in gather_defs(self.f, c)):
                return True
        return False

    def markers(self, b, t):
        out = []
        for L in sorted(self.loops, key=lambda L: len(L[1])):
            if b in L[1] and t not in L[1]:
                out.append(('end', L))
        for L in sorted(self.loops, key=lambda L: -len(L[1])):
            if b in L[1] and t in L[1] and b in self.exits(L):
                out.append(('it', L))
        return out

    def next(self, pos):
        """symbols that may come next: set of (symbol, position, token or loop)"""
        out, seen, st = {}, set(), [pos]
        while st:
            p = st.pop()
            if p in seen:
                continue
            seen.add(p)
            if p[0] == 'edge':
                b, t, k = p[1], p[2], p[3]
                ms = self.markers(b, t)
                if k < len(ms):
                    out[('edge', b, t, k + 1)] = (ms[k][0], ms[k][1])
                    continue
                st.append(('at', t, -1))
                continue
            b, i = p[1], p[2]
            # i counts tokens passed in this block
            ts = self.toks.get(b, [])
            if i + 1 < len(ts):
                out[('at', b, i + 1)] = (ts[i + 1][2], ts[i + 1][1])
                continue
            if b == self.f.exit:
                out[('end',)] = ('eof', None)
                continue
            for t, _ in self.S[b]:
                st.append(('edge', b, t, 0))
        return out

    def start(self):
        return ('at', self.f.entry, -1)


class Pairing:
    def __init__(self, P, R, w, r, name, what):
        self.w, self.r = w, r
        self.tok, self.loops, self.bad = [], [], None
        seen, st = set(), [(w.start(), r.start())]
        while st:
            pw, pr = st.pop()
            if (pw, pr) in seen:
                continue
            seen.add((pw, pr))
            if pw == ('end',):
                continue
            nw, nr = w.next(pw), r.next(pr)
            # a reader that may stop at the end of the file need not stop there
            for qw, (sym, x) in nw.items():
                m = [(qr, z) for qr, (s2, z) in nr.items() if s2 == sym]
                if not m:
                    if self.bad is None:
                        exp = sorted({s2 for s2, _ in nr.values()})
                        self.bad = (x, '%s written, %s read' % (word(sym), ' or '.join(word(e) for e in exp) or 'nothing'), pr)
                    continue
                for qr, z in m:
                    st.append((qw, qr))
                    if x is not None:
                        if sym in ('it', 'end'):
                            if (x, z) not in self.loops:
                                self.loops.append((x, z))
                        elif not any(a is x and b is z for a, b in self.tok):
                            self.tok.append((x, z))
        at = w.f.loc
        if self.bad:
            x = self.bad[0]
            at = line_of(w.f, x) if isinstance(x, dict) else (w.f.loc if x is None else w.f.loc)
        R.inst('layout', self.bad is None, 'layout|' + name, what + ('' if not self.bad else ': ' + self.bad[1]), at)
        R.saw(w.f.id, r.f.id)


def word(s):
    return {'i64': '64 bits', 'u32': '32 bits', 'u16': '16 bits', 'u8': 'a byte', 'str': 'a string', 'opt': 'an optional string', 'raw': 'bytes', 'it': 'one more element', 'end': 'the end of a list', 'eof': 'the end'}.get(s, s)


# ---- what a written field is, what a field read becomes

def names_of(f, x):
    """what a value is made of: base names of members and methods"""
    out = set()
    for z in gather_defs(f, x):
        if z['k'] in ('mem', 'call', 'var') and z.get('n'):
            out.add(base_name(z['n']))
    return out


def value_arg(y):
    return y['a'][0] if y.get('a') else None


def holds(f, x, tok, seen=None, thr=()):
    """is the value of x made from what tok read (not: through another call named in thr)"""
    return any(z is tok for z in gather_defs(f, x))


def raw_target(f, tok):
    """the root variable bytes are read into"""
    for z in f.walk(tok['a'][0], True):
        if z['k'] == 'var':
            return z['id']
    return None


def sinks(f, tok, reads):
    """where what tok read goes: 'callee#i', '=member', 'if', 'bound'"""
    out = set()
    tset = {id(t) for t in reads}

    def has(x):
        return any(z is tok for z in gather_defs(f, x))
    for b, i, y in f.nodes():
        if y['k'] in ('call', 'ctor'):
            if y is tok:
                continue
            nm = base_name(y.get('n') or y.get('t') or '')
            if nm in ('make_shared', 'make_unique') and y.get('ta'):
                nm = base_name(y['ta'][0])
            for k, a in enumerate(y.get('a', [])):
                if a is not None and has(a):
                    out.add('%s#%d' % (nm, k))
            # operator[] and methods used on a member
            if y.get('o') is not None:
                o = strip(f, y['o'])
                if o is not None and o['k'] == 'mem':
                    for k, a in enumerate(y.get('a', [])):
                        if a is not None and has(a):
                            out.add('%s.%s#%d' % (base_name(o['n']), nm, k))
        ap = asg_parts(f, y)
        if ap is not None and has(ap[1]):
            l = strip(f, ap[0])
            if l is not None and l['k'] == 'mem':
                out.add('=' + base_name(l['n']))
    for b in f.blocks.values():
        c = (b.term or {}).get('c')
        if c is not None:
            x = strip(f, c)
            while x is not None and x['k'] == 'un' and x['op'] == '!':
                x = strip(f, x['a'] if 'a' in x else x['e'])
            if x is not None and x['k'] == 'bin' and x['op'] in ('==', '!='):
                k = [s for s in (strip(f, x['a']), strip(f, x['b'])) if const_val(s) is None]
                x = k[0] if len(k) == 1 else x
            if x is not None and x['k'] == 'var' and any(z is tok for z in gather_defs(f, x)):
                out.add('if')
            if x is not None and x is tok:
                out.add('if')
    return out


def roles(P, R, pr, table, name):
    """table: (what, test on the names of the written value, sinks required)"""
    reads = [z for _, z in pr.tok]
    cache = {}
    for what, want, req in table:
        hits = [(w, z) for w, z in pr.tok if w.get('a') and want(names_of(pr.w.f, value_arg(w)), w)]
        R.inst('meaning', bool(hits), 'meaning|%s|%s|saved' % (name, what), '%s is saved' % what, pr.w.f.loc)
        for w, z in hits:
            if id(z) not in cache:
                cache[id(z)] = sinks(pr.r.f, z, reads)
            miss = [q for q in req if not any(s == q or s.endswith('.' + q) for s in cache[id(z)])]
            R.inst('meaning', not miss, 'meaning|%s|%s' % (name, what), '%s is restored from what was saved as that' % what + ('' if not miss else ' (missing: %s)' % ', '.join(miss)), line_of(pr.r.f, z))


# ---- loops

def loop_bound(f, side, L):
    """the nodes that decide how often the loop is run"""
    xs = side.exits(L)
    out = []
    for b in xs:
        c = (f.blocks[b].term or {}).get('c')
        if c is not None:
            out.append((b, c))
    return out


def counted(P, f, side, L):
    """(bound expression) of a loop running from 0 up by one, or None"""
    bs = loop_bound(f, side, L)
    if len(bs) != 1:
        return None
    b, c = bs[0]
    for si in range(len(f.blocks[b].succ)):
        t = f.blocks[b].succ[si][0]
        if t not in L[1]:
            continue
        for n in facts(f, f.blocks[b], si):
            op = n[0]
            if op in ('<', '!=', '>'):
                a, z = (n[1], n[2]) if op != '>' else (n[2], n[1])
                for v, bound in ((a, z), (z, a)) if op == '!=' else ((a, z),):
                    v = strip(f, v)
                    if v is None or v['k'] != 'var':
                        continue
                    ds = f.defs().get(v['id'], [])
                    ini = [d for d in ds if d[2] == 'init' and const_val(strip(f, d[3])) == 0]
                    inc = [d for d in ds if d not in ini]
                    if len(ini) == 1 and inc and ini[0][0] not in L[1]:
                        if step_one(P, f, L, v['id'], inc, b):
                            return bound
    return None


def step_one(P, f, L, v, inc, b):
    pts = []
    for bb, i, y in f.nodes():
        if y['k'] == 'un' and y['op'] in ('++', '++pre', 'post++', '++post', 'pre++') or y['k'] == 'un' and '++' in y['op']:
            if isv(f, y.get('a') or y.get('e'), v):
                pts.append((bb.id, i))
        else:
            ap = asg_parts(f, y)
            if ap is not None and isv(f, ap[0], v):
                if ap[2] == '+=' and const_val(strip(f, ap[1])) == 1:
                    pts.append((bb.id, i))
                elif ap[2] == '=':
                    e = strip(f, ap[1])
                    if e is not None and e['k'] == 'bin' and e['op'] == '+' and {True} == {True} and ((isv(f, e['a'], v) and const_val(strip(f, e['b'])) == 1) or (isv(f, e['b'], v) and const_val(strip(f, e['a'])) == 1)):
                        pts.append((bb.id, i))
    if {(d[0], d[1]) for d in inc} - set(pts):
        return False
    q = Query(P, eh=False, cut_cond=never)
    if len(set(pts)) != 1 or pts[0][0] not in L[1]:
        return False
    end = (b, len(f.blocks[b].elems))
    return not q.reach_point(f, end, end, ROOT, set(pts)) or not again(f, L, b, set(pts))


def again(f, L, b, avoid):
    """can the test block be reached again inside the loop without passing avoid"""
    ab = {p[0] for p in avoid}
    st = [t for t, k in f.blocks[b].succ if k == 'n' and t in L[1]]
    seen = set()
    while st:
        u = st.pop()
        if u in seen or u in ab:
            continue
        seen.add(u)
        if u == b:
            return True
        st += [t for t, k in f.blocks[u].succ if k == 'n' and t in L[1]]
    return False


def container_roots(f, x):
    out = set()
    for z in gather_defs(f, x):
        if z['k'] == 'var':
            out.add(('v', z['id']))
        elif z['k'] == 'mem':
            out.add(('m', z['n']))
    return out


def counts(P, R, pr, name, special=None):
    """the reader repeats as often as the number read in the place of the count, the writer writes the size of what it goes through"""
    for L, M in pr.loops:
        wf, rf = pr.w.f, pr.r.f
        bd = counted(P, rf, pr.r, M)
        rt = [z for _, z in pr.tok if bd is not None and any(n is z for n in gather_defs(rf, bd))]
        line = '%s:%s' % (rf.file, lineno(rf, M))
        key = 'count|%s|%d' % (name, pr.loops.index((L, M)))
        if bd is None or len(rt) != 1:
            R.inst('layout', False, key, 'a list is read element by element, as many as the count read before', line)
            continue
        pure = all(z['k'] in ('var', 'call') for z in gather_defs(rf, strip(rf, bd))) or True
        e = strip(rf, bd)
        direct = e is rt[0] or (e is not None and e['k'] == 'var' and all(d[3] is not None and strip(rf, d[3]) is rt[0] for d in rf.defs().get(e['id'], [])))
        R.inst('layout', direct, key, 'a list is read element by element, as many as the count read before', line)
        ws = [w for w, z in pr.tok if z is rt[0]]
        for w in ws:
            ok = special is not None and special(wf, w, L, pr.w)
            e = value_arg(w)
            sz = [z for z in gather_defs(wf, e) if z['k'] == 'call' and base_name(z['n']) in ('size',)]
            s = strip(wf, e)
            if s is not None and s['k'] == 'var':
                ds = wf.defs().get(s['id'], [])
                if len(ds) == 1 and ds[0][3] is not None:
                    s = strip(wf, ds[0][3])
            if sz and s is not None and s['k'] == 'call' and base_name(s['n']) == 'size':
                o = strip_ptr(wf, s['o'])
                root = None
                if o is not None and o['k'] in ('var', 'mem'):
                    root = ('v', o['id']) if o['k'] == 'var' else ('m', o['n'])
                # the loop goes over the same container
                over = set()
                for b, c in loop_bound(wf, pr.w, L):
                    over |= container_roots(wf, c)
                ok |= root in over
            R.inst('layout', ok, key + '|size', 'the count written is the size of the list that follows', line_of(wf, w))


def lineno(f, L):
    ls = [y.get('l') for b in L[1] for _, x in f.blocks[b].elems for y in f.walk(x) if y.get('l')]
    return min(ls) if ls else f.line


# ---- the three files

def latest(P, enum):
    vs = enum_values(P, enum)
    ev = {k: v for k, v in vs.items()} if isinstance(vs, dict) else None
    return ev


def version(P, enum, member):
    ev = {}
    for k, v in enum_values(P, enum).items():
        ev[k] = v; ev[base_name(k)] = v; ev[enum + '::' + base_name(k)] = v
    return ((member,), max(ev.values()), ev)


def has(*ns):
    return lambda names, w: all(n in names for n in ns)


def raw_from(n):
    return lambda names, w: base_name(w['n']) == 'writeCheck' and n in names


def age_names(names):
    return 'ageFromTimePoint' in names or 'getAge' in names


def prod(P, f, x, pred, d=0):
    """does pred hold for a call the value x is made by"""
    return any(z['k'] == 'call' and pred(z) for z in gather_defs(f, x))


def sign_of(f, x, tok, d=0, seen=None):
    """signs with which what tok gave goes into the value of x"""
    seen = seen or set()
    s = strip(f, x)
    if s is None or d > 14:
        return set()
    if s is tok:
        return {'+'}
    k = s['k']
    neg = lambda v: {{'+': '-', '-': '+'}.get(c, c) for c in v}
    if k == 'bin':
        a, b = sign_of(f, s['a'], tok, d + 1, seen), sign_of(f, s['b'], tok, d + 1, seen)
        if s['op'] == '+':
            return a | b
        if s['op'] == '-':
            return a | neg(b)
        if s['op'] in ('<', '>', '<=', '>=', '==', '!='):
            return set()
        return {'?'} if a | b else set()
    if k == 'cond':
        return sign_of(f, s['a'], tok, d + 1, seen) | sign_of(f, s['b'], tok, d + 1, seen)
    if k == 'var':
        if s['id'] in seen:
            return set()
        out = set()
        for e in f.defs().get(s['id'], []):
            if e[3] is not None:
                out |= sign_of(f, e[3], tok, d + 1, seen | {s['id']})
        for b, i, y in f.nodes():
            ap = asg_parts(f, y)
            if ap is not None and ap[2] in ('+=', '-=') and isv(f, ap[0], s['id']):
                v = sign_of(f, ap[1], tok, d + 1, seen | {s['id']})
                out |= v if ap[2] == '+=' else neg(v)
        return out
    if k == 'call' and base_name(s['n']) in ('min', 'max', 'seconds', 'move', 'count', 'duration_cast') or k in ('ctor', 'init'):
        out = set()
        for a in s.get('a', []):
            if a is not None:
                out |= sign_of(f, a, tok, d + 1, seen)
        if k == 'call' and s.get('o') is not None:
            out |= sign_of(f, s['o'], tok, d + 1, seen)
        return out
    if k == 'mem':
        # members of the same object: followed to what is assigned to them in this function
        key = ('m', s['n'])
        if key in seen:
            return set()
        out = set()
        for b, i, y in f.nodes():
            ap = asg_parts(f, y)
            if ap is not None:
                l = strip(f, ap[0])
                if l is not None and l['k'] == 'mem' and l['n'] == s['n']:
                    out |= sign_of(f, ap[1], tok, d + 1, seen | {key})
        return out
    return {'?'} if any(z is tok for z in gather_defs(f, s)) else set()


def no_wrap(P, R, f, key, what):
    """an unsigned difference is only taken when the first is not less than the second"""
    for b, i, y in f.nodes():
        if not (y['k'] == 'bin' and y['op'] == '-'):
            continue
        a, c = strip(f, y['a']), strip(f, y['b'])
        if a is None or c is None or a['k'] not in ('var', 'mem') or c['k'] not in ('var', 'mem'):
            continue
        same = lambda p, q_: p is not None and p['k'] == q_['k'] and (p.get('id') == q_.get('id') if p['k'] == 'var' else p['n'] == q_['n'])

        def cond(q, fn, n, pt, ctx):
            if n[0] not in ('<', '<=', '>', '>=') or not isinstance(n[2], dict):
                return False
            l, r = strip(fn, n[1]), strip(fn, n[2])
            if n[0] in ('>', '>='):
                return same(l, a) and same(r, c)
            return same(l, c) and same(r, a)
        R.inst('age', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=cond), 'age|%s|%s' % (key, names2(f, y)), what, line_of(f, y))


def names2(f, y):
    return '-'.join(base_name((strip(f, y[k]) or {}).get('n') or '?') for k in ('a', 'b'))


def arg_signs(f, callee, k, tok):
    out = []
    for b, i, y in f.nodes():
        if y['k'] in ('call', 'ctor') and base_name(y.get('n') or '') == callee and len(y.get('a', [])) > k:
            out.append((y, sign_of(f, y['a'][k], tok)))
    return out


def tok_of(pr, want):
    return [z for w, z in pr.tok if w.get('a') and want(names_of(pr.w.f, value_arg(w)), w)]


def aged(P, R, pr, name, now, what, want, callee, k, sgn_now, sgn, extra=None):
    f = pr.r.f
    nows = [now] if isinstance(now, dict) else now
    for z in tok_of(pr, want):
        if callee.startswith('='):
            us = [(y, f2) for b, i, y in f.nodes() for f2 in [asg_parts(f, y)] if f2 is not None and (lambda l: l is not None and l['k'] == 'mem' and base_name(l['n']) == callee[1:])(strip(f, f2[0])) and any(n is z for n in gather_defs(f, f2[1]))]
            us = [(y, ap[1]) for y, ap in us]
        else:
            us = [(y, y['a'][k]) for b, i, y in f.nodes() if y['k'] in ('call', 'ctor') and base_name(y.get('n') or '') == callee and len(y.get('a', [])) > k and y['a'][k] is not None and any(n is z for n in gather_defs(f, y['a'][k]))]
        R.inst('age', bool(us), 'age|%s|%s' % (name, what), '%s is restored' % what, line_of(f, z))
        for y, e in us:
            R.inst('age', sign_of(f, e, z) == {sgn}, 'age|%s|%s|own' % (name, what), '%s starts from what was saved' % what, line_of(f, y))
            a = set()
            for n in nows:
                a |= sign_of(f, e, n) if isinstance(n, dict) else n(f, e)
            R.inst('age', a == {sgn_now}, 'age|%s|%s|state' % (name, what), '%s counts the time since the file was saved' % what, line_of(f, y))


def now_value(names, w):
    return base_name(w['n']) == 'writeInt64' and 'now' in names


def raws(P, R, pr, name):
    """as many bytes are read as were written"""
    wf, rf = pr.w.f, pr.r.f
    for w, z in pr.tok:
        if pr.w.kind(w) != 'raw':
            continue
        wa = [const_val(strip(wf, a)) for a in w['a'][1:3]]
        if base_name(z['n']) == 'fseek':
            ra = [1, const_val(strip(rf, z['a'][1]))]
        else:
            ra = [const_val(strip(rf, a)) for a in z['a'][1:3]]
        if None not in wa:
            ok = None not in ra and wa[0] * wa[1] == ra[0] * ra[1]
        else:
            # the number of bytes was written before
            rd = [t for _, t in pr.tok if base_name(z['n']) != 'fseek' and (lambda e: e is t or e is not None and e['k'] == 'var' and all(d[3] is not None and strip(rf, d[3]) is t for d in rf.defs().get(e['id'], [])) and rf.defs().get(e['id']))(strip(rf, z['a'][2]))]
            ws = [w2 for w2, t in pr.tok if any(t is x for x in rd)]
            cir = {y for y in container_roots(wf, w['a'][0])}
            ok = bool(ws) and all('getSizeIncludingNonPresentHeader' in names_of(wf, value_arg(w2)) or 'usedBytes' in names_of(wf, value_arg(w2)) for w2 in ws)
            ok &= bool(names_of(wf, w['a'][2]) & {'usedBytes', 'getSizeIncludingNonPresentHeader'})
            # of the same packet
            pk = lambda e: {y['id'] for y in gather_defs(wf, e) if y['k'] == 'var' and 'MqttPacket' in (var_type(wf, y['id']) or '')}
            for w2 in ws:
                sz = pk(value_arg(w2))
                fill = [(b.id, i, y) for b, i, y in wf.nodes() if is_call(y, 'MqttPacket::readIntoBuf') and container_roots(wf, y['a'][0]) & container_roots(wf, w['a'][0])]
                pw = next(((b.id, i) for b, i, y in wf.nodes() if y is w), None)
                near = [y for b, i, y in fill if Query(P, eh=False, cut_cond=never).reach_point(wf, (b, i), pw, ROOT, {(b2, i2) for b2, i2, _ in fill if (b2, i2) != (b, i)})]
                ok &= bool(near) and all({q_['id'] for q_ in gather_defs(wf, y['o']) if q_['k'] == 'var'} & sz for y in near)
        R.inst('layout', ok, 'raw|%s|%d' % (name, sum(1 for w2, _ in pr.tok[:[t[0] for t in pr.tok].index(w)] if pr.w.kind(w2) == 'raw')), 'as many bytes are read as were written', line_of(rf, z))


def qp_list(f, w, L, side):
    """the number written is that of the queue gone through from its tail"""
    if 'getQueuedCount' not in names_of(f, value_arg(w)):
        return False
    ns = set()
    for b, c in loop_bound(f, side, L):
        for z in gather_defs(f, c):
            if z['k'] in ('call', 'mem'):
                ns.add(base_name(z['n']))
    return 'getQoSQueueTail' in ns and 'next' in ns


def sessions(P, R):
    w = P.one(S + 'saveData'); r = P.one(S + 'readDataV3V4V5V6V7')
    ver = version(P, S + 'ReadVersion', S + 'readVersion')
    pr = Pairing(P, R, Side(P, w, WR), Side(P, r, RD, ver), 'sessions', 'the file of sessions and subscriptions')
    if pr.bad:
        return
    counts(P, R, pr, 'sessions', qp_list)
    raws(P, R, pr, 'sessions')
    T = [('the time of saving', now_value, []),
         ('the user of a session', lambda n, w: 'Session::username' in full(pr.w.f, w), ['Session#1']),
         ('the client ID of a session', lambda n, w: 'Session::client_id' in full(pr.w.f, w), ['Session#0']),
         ('the group of a session', has('fmq_client_group_id'), ['Session#2']),
         ('the fixed header of a queued packet', lambda n, w: 'getFixedHeaderLength' in n, ['MqttPacket#1']),
         ('the packet ID of a queued packet', lambda n, w: is_val(pr.w.f, w, 'getPacketId'), ['queuePublish#1', 'loadUsedPacketId#0']),
         ('the age of a queued packet', has('ageFromTimePoint'), ['timepointFromAge#0']),
         ('the publisher of a queued packet', lambda n, w: 'Publish::client_id' in full(pr.w.f, w), ['=client_id']),
         ('the user of the publisher of a queued packet', lambda n, w: 'Publish::username' in full(pr.w.f, w), ['=username']),
         ('the topic a packet was queued under', has('getTopicOverride'), ['queuePublish#2']),
         ('the bytes of a packet', lambda n, w: base_name(w['n']) == 'writeCheck' and 'tailPtr' in n, []),
         ('an ID received with QoS 2', lambda n, w: elem_of(pr.w.f, w, 'incomingQoS2MessageIds') and base_name(w['n']) == 'writeUint16', ['incomingQoS2MessageIds.insert#0']),
         ('an ID sent with QoS 2', lambda n, w: elem_of(pr.w.f, w, 'outgoingQoS2MessageIds') and base_name(w['n']) == 'writeUint16', ['outgoingQoS2MessageIds.insert#0', 'loadUsedPacketId#0']),
         ('the next packet ID', has('getInternalNextPacketId'), ['loadNextPacketId#0']),
         ('the expiry of a session', has('getCurrentSessionExpiryInterval'), ['setSessionProperties#1']),
         ('the presence of a will', lambda n, w: base_name(w['n']) == 'writeUint16' and 'getWill' in n and 'getFixedHeaderLength' not in n, ['if']),
         ('the delay of a will', lambda n, w: 'will_delay' in n and base_name(w['n']) == 'writeUint32', ['=will_delay']),
         ('the time a will has waited', has('getQueuedAtAge'), ['=will_delay']),
         ('the size of a packet', has('getSizeIncludingNonPresentHeader'), ['readCheck#2']),
         ('the filter of a subscription', lambda n, w: base_name(w['n']) == 'writeString' and 'first' in n, ['operator[]#0']),
         ('the share name of a subscription', has('shareName'), ['SubscriptionForSerializing#3']),
         ('the client of a subscription', lambda n, w: any('SubscriptionForSerializing::clientId' in x for x in full(pr.w.f, w)), ['SubscriptionForSerializing#0']),
         ('the options of a subscription', has('getSubscriptionOptions'), ['SubscriptionForSerializing#1']),
         ('the identifier of a subscription', has('subscriptionidentifier'), ['SubscriptionForSerializing#2'])]
    roles(P, R, pr, T, 'sessions')
    now = tok_of(pr, now_value)
    now = now[0] if now else None
    if now is not None:
        aged(P, R, pr, 'sessions', now, 'the age of a packet', has('ageFromTimePoint'), 'timepointFromAge', 0, '-', '+')
        aged(P, R, pr, 'sessions', now, 'the expiry of a session', has('getCurrentSessionExpiryInterval'), 'setSessionProperties', 1, '+', '+')
        aged(P, R, pr, 'sessions', now, 'the delay of a will', lambda n, w: 'will_delay' in n and base_name(w['n']) == 'writeUint32', '=will_delay', 0, '+', '+')
        aged(P, R, pr, 'sessions', now, 'the time a will has waited', has('getQueuedAtAge'), '=will_delay', 0, '+', '-')
    pushes = lambda m: lambda y: y['k'] == 'call' and base_name(y.get('n') or '') in ('push_back', 'emplace_back') and y.get('o') is not None and any(z['k'] == 'mem' and base_name(z['n']) == m for z in gather_defs(r, y['o']))
    on = lambda m: lambda y: y['k'] == 'call' and base_name(y.get('n') or '') in ('insert', 'emplace') and y.get('o') is not None and any(z['k'] == 'mem' and base_name(z['n']) == m for z in r.walk(y['o'], True))
    always(P, R, pr, 'sessions', 'a queued packet is queued again', has('ageFromTimePoint'), 'queuePublish')
    always(P, R, pr, 'sessions', 'the ID of a queued packet is taken', has('ageFromTimePoint'), 'loadUsedPacketId')
    inc = lambda n, w: elem_of(pr.w.f, w, 'incomingQoS2MessageIds') and base_name(w['n']) == 'writeUint16'
    outg = lambda n, w: elem_of(pr.w.f, w, 'outgoingQoS2MessageIds') and base_name(w['n']) == 'writeUint16'
    always(P, R, pr, 'sessions', 'an ID received is put back', inc, on('incomingQoS2MessageIds'))
    always(P, R, pr, 'sessions', 'an ID sent is put back', outg, on('outgoingQoS2MessageIds'))
    always(P, R, pr, 'sessions', 'an ID sent is taken', outg, 'loadUsedPacketId')
    cid = lambda n, w: 'Session::client_id' in full(pr.w.f, w)
    always(P, R, pr, 'sessions', 'a session is handed over', cid, pushes('sessions'))
    always(P, R, pr, 'sessions', 'a session gets its next packet ID', cid, 'loadNextPacketId')
    always(P, R, pr, 'sessions', 'a session gets its expiry', cid, 'setSessionProperties')
    off = lambda fn, n: isinstance(n[1], dict) and is_mem(strip(fn, n[1]), 'Settings::willsEnabled') and tr_(fn, n) is False
    always(P, R, pr, 'sessions', 'a will is given to its session, unless wills are off', has('getQueuedAtAge'), 'setWill', off)
    always(P, R, pr, 'sessions', 'a subscription is handed over', has('getSubscriptionOptions'), pushes('subscriptions'))
    for what, callee, fld in (('the age of a packet', 'timepointFromAge', 'expireInfo'),):
        none = lambda fn, n: isinstance(n[1], dict) and tr_(fn, n) is False and any(z['k'] == 'mem' and base_name(z['n']) == 'expireInfo' for z in fn.walk(n[1], True))
        always(P, R, pr, 'sessions', 'what expires gets its age back', has('ageFromTimePoint'), callee, none)
    for z in tok_of(pr, has('getSubscriptionOptions')):
        for b, i, y in r.nodes():
            if pushes('subscriptions')(y):
                R.inst('meaning', any(q_['k'] in ('call', 'ctor') and base_name(q_.get('n') or q_.get('t') or '').startswith('SubscriptionForSerializing') for q_ in gather_defs(r, y['a'][0])) or base_name(y['n']) == 'emplace_back', 'always|sessions|record', 'the record made from what was read is handed over', line_of(r, y))
    no_wrap(P, R, r, 'sessions', 'a time that is over is zero')
    # the options of a subscription survive the constructors in between
    for f in P.fn(S[:-len('SessionsAndSubscriptionsDB::')] + 'SubscriptionForSerializing::getSubscriptionOptions', optional=True) or []:
        R.saw(f.id)
        fs = {base_name(z['n']) for b, i, y in f.nodes() if y['k'] == 'ret' for z in gather_defs(f, y['e']) if z['k'] == 'mem'}
        ok = False
        for b, i, y in f.nodes():
            if y['k'] == 'ctor' and base_name(y.get('n') or y.get('t') or '') == 'SubscriptionOptionsByte' and len(y['a']) == 4:
                ok = [base_name((strip(f, a) or {}).get('n') or '') for a in y['a'][:3]] == ['qos', 'noLocal', 'retainAsPublished']
        R.inst('meaning', ok, 'meaning|options', 'the options saved are QoS, no-local and retain-as-published', f.loc)
    ctors(P, R)


def full(f, w):
    return {z['n'] for z in gather_defs(f, value_arg(w)) if z['k'] in ('mem', 'call') and z.get('n')}


def is_val(f, w, m):
    s = strip(f, value_arg(w))
    if s is not None and s['k'] == 'var':
        ds = f.defs().get(s['id'], [])
        if len(ds) == 1 and ds[0][3] is not None:
            s = strip(f, ds[0][3])
    return s is not None and s['k'] == 'call' and base_name(s['n']) == m


def elem_of(f, w, field):
    ns = {base_name(z['n']) for z in gather_defs(f, value_arg(w)) if z['k'] in ('mem',)}
    return field in ns


def ctors(P, R):
    """the constructors of the record of a subscription keep every parameter in the member of that name"""
    fs = [f for f in P.fns.values() if f.q == 'SubscriptionForSerializing::SubscriptionForSerializing' and len(f.params) >= 4]
    R.inst('meaning', bool(fs), 'meaning|record', 'records of subscriptions', fs[0].loc if fs else '')
    for f in fs:
        R.saw(f.id)
        got = {}
        for b, i, y in f.nodes():
            if y['k'] == 'minit' or y['k'] == 'asg' or (y['k'] == 'bin' and y['op'] == '='):
                pass
        for b, i, y in f.nodes():
            ap = asg_parts(f, y)
            if ap is not None:
                l = strip(f, ap[0])
                if l is not None and l['k'] == 'mem':
                    got[base_name(l['n'])] = ap[1]
            elif y['k'] in ('minit', 'initm', 'fieldinit'):
                got[base_name(y.get('n') or '')] = y.get('e')
        for p in f.params:
            n = p['n'] if 'n' in p else p.get('name')
            if n == 'options':
                for m, g in (('qos', 'getQos'), ('noLocal', 'getNoLocal'), ('retainAsPublished', 'getRetainAsPublished')):
                    R.inst('meaning', m in got and any(z['k'] == 'call' and base_name(z['n']) == g for z in f.walk(got[m], True)), 'meaning|record|%d|%s' % (len(f.params), m), 'a record of a subscription keeps its options', f.loc)
            else:
                R.inst('meaning', any(m.lower() == n.lower() and any(z['k'] == 'var' and z['id'] == p['id'] for z in f.walk(e, True)) for m, e in got.items()), 'meaning|record|%d|%s' % (len(f.params), n), 'a record of a subscription keeps what it is made from', f.loc)


def retained(P, R):
    ver = version(P, RM + 'ReadVersion', RM + 'readVersion')
    ow, orr = P.one(RM + 'openWrite'), P.one(RM + 'openRead')
    ph = Pairing(P, R, Side(P, ow, WR), Side(P, orr, RD, ver), 'retained-head', 'the head of the file of retained messages')
    w, r = P.one(RM + 'saveData'), P.one(RM + 'readDataV3V4')
    pr = Pairing(P, R, Side(P, w, WR), Side(P, r, RD, ver), 'retained', 'the records of the file of retained messages')
    if ph.bad or pr.bad:
        return
    raws(P, R, ph, 'retained-head'); raws(P, R, pr, 'retained')
    T = [('the fixed header of a packet', lambda n, w: 'getFixedHeaderLength' in n, ['MqttPacket#1']),
         ('the age of a message', has('ageFromTimePoint'), ['timepointFromAge#0']),
         ('the size of a packet', has('getSizeIncludingNonPresentHeader'), ['readCheck#2']),
         ('the publisher of a message', lambda n, w_: 'Publish::client_id' in full(w, w_), ['=client_id']),
         ('the user of the publisher of a message', lambda n, w_: 'Publish::username' in full(w, w_), ['=username']),
         ('the bytes of a packet', lambda n, w_: base_name(w_['n']) == 'writeCheck' and 'tailPtr' in n, [])]
    roles(P, R, pr, T, 'retained')
    always(P, R, pr, 'retained', 'a message is handed over', has('ageFromTimePoint'), lambda y: y['k'] == 'call' and base_name(y.get('n') or '') in ('push_back', 'emplace_back'))
    none = lambda fn, n: isinstance(n[1], dict) and tr_(fn, n) is False and any(z['k'] == 'mem' and base_name(z['n']) == 'expireInfo' for z in fn.walk(n[1], True))
    always(P, R, pr, 'retained', 'what expires gets its age back', has('ageFromTimePoint'), 'timepointFromAge', none)
    roles(P, R, ph, [('the time of saving', now_value, ['=persistence_state_age'])], 'retained-head')
    # the state age: now minus the time of saving
    for z in tok_of(ph, now_value):
        for b, i, y in orr.nodes():
            ap = asg_parts(orr, y)
            l = strip(orr, ap[0]) if ap is not None else None
            if l is not None and l['k'] == 'mem' and l['n'] == RM + 'persistence_state_age':
                R.inst('age', sign_of(orr, ap[1], z) == {'-'} and 'now' in names_of(orr, ap[1]), 'age|retained|state', 'the age of the file is the time since it was saved', line_of(orr, y))
    no_wrap(P, R, orr, 'retained', 'a time that is over is zero')
    state = lambda f, e: mem_sign(f, e, RM + 'persistence_state_age')
    aged(P, R, pr, 'retained', [state], 'the age of a message', has('ageFromTimePoint'), 'timepointFromAge', 0, '+', '+')
    for b, i, y in P.fns[orr.id].nodes():
        pass
    # the number of messages
    wc, tr, lp = RM + 'written_count', RM + 'to_read_count', RM + 'length_pos'
    cnt = [zz for ww, zz in ph.tok if base_name(ww['n']) == 'writeUint32']
    R.inst('layout', len(cnt) == 1 and ('=to_read_count' in sinks(orr, cnt[0], [])), 'count|retained|head', 'the count read is the number of messages', orr.loc)
    # length_pos: taken right before the placeholder
    pts = [(b.id, i) for b, i, y in ow.nodes() for ap in [asg_parts(ow, y)] if ap is not None and (strip(ow, ap[0]) or {}).get('n') == lp and 'ftell' in names_of(ow, ap[1])]
    ph_pt = [(b.id, i, y) for b, i, y in ow.nodes() if any(y is ww for ww, zz in ph.tok if base_name(ww['n']) == 'writeUint32')]
    side = ph.w
    ok = len(pts) == 1 and len(ph_pt) == 1
    if ok:
        # no other token between
        others = {(b.id, i) for b, i, y in ow.nodes() if side.kind(y) and y is not ph_pt[0][2]} | {(b.id, i) for b, i, y in ow.nodes() if y['k'] == 'call' and base_name(y.get('n', '')) in ('fseek', 'rewind')}
        q = Query(P, eh=False, cut_cond=never)
        ok = q.reach_point(ow, pts[0], ph_pt[0][:2], ROOT, others) and not any(q.reach_point(ow, pts[0], o, ROOT, {ph_pt[0][:2]}) for o in others)
        ok = ok and not q.reach_point(ow, (ow.entry, -1), ph_pt[0][:2], ROOT, {pts[0]})
    R.inst('layout', ok, 'count|retained|place', 'the place of the count is noted right before it is left open', ow.loc)
    cf = P.one(RM + 'closeFile'); R.saw(cf.id)
    put = [(b.id, i, y) for b, i, y in cf.nodes() if is_call(y, PF + 'writeUint32')]
    R.inst('layout', len(put) == 1 and (strip(cf, put[0][2]['a'][0]) or {}).get('n') == wc, 'count|retained|put', 'the number of messages written is put in its place', cf.loc)
    if len(put) == 1:
        sk = lambda fn, y, q=None: y['k'] == 'call' and base_name(y.get('n', '')) == 'fseek' and (strip(fn, y['a'][1]) or {}).get('n') == lp and const_val(strip(fn, y['a'][2])) == 0
        R.inst('layout', not reaches(P, cf, (cf.entry, -1), [put[0][:2]], node=sk), 'count|retained|seek', 'after going to that place', line_of(cf, put[0][2]))
        moved = [(b.id, i) for b, i, y in cf.nodes() if y['k'] == 'call' and (base_name(y.get('n', '')) in ('fseek', 'rewind') or is_call(y, PF + 'writeCheck')) and not sk(cf, y)]
        q = Query(P, eh=False, cut_cond=never)
        R.inst('layout', not any(q.reach_point(cf, m, put[0][:2], ROOT, {(b.id, i) for b, i, y in cf.nodes() if sk(cf, y)}) for m in moved), 'count|retained|still', 'and not moving on', line_of(cf, put[0][2]))
        zero = lambda q, fn, n, pt, ctx: skipped(fn, n, wc, lp)
        must(P, R, 'layout', cf, lambda fn, y, q=None: y is put[0][2], 'count|retained|must', 'whenever messages were written', cond=any_of(zero, null_f))
        must(P, R, 'layout', cf, lambda fn, y, q=None: is_call(y, PF + 'closeFile'), 'count|retained|close', 'and then the file is closed', cond=null_f)
        R.inst('layout', all(not reaches(P, cf, (b.id, i), [put[0][:2]]) for b, i, y in cf.nodes() if is_call(y, PF + 'closeFile')), 'count|retained|order', 'before the file is closed', cf.loc)
    # one step per message
    steps_of(P, R, w, pr, 0, wc, 1, 'written', 'every message written is counted')
    steps_of(P, R, r, pr, 1, tr, -1, 'read', 'every message read is counted off')
    for f, b, i, y in sites_of(P, lambda fn, y: (lambda ap: ap is not None and (strip(fn, ap[0]) or {}).get('n') in (wc, tr))(asg_parts(fn, y)) or y['k'] == 'un' and ('++' in y['op'] or '--' in y['op']) and (strip(fn, y.get('a') or y.get('e')) or {}).get('n') in (wc, tr)):
        R.inst('layout', f.id in (w.id, r.id, ow.id, orr.id), 'count|retained|writer|' + f.q, 'the counts are changed by %s' % f.q, line_of(f, y))
    # bound
    for L, M in pr.loops:
        bd = counted(P, r, pr.r, M)
        ok = bd is not None
        if ok:
            e = strip(r, bd)
            if e['k'] == 'var':
                ds = r.defs().get(e['id'], [])
                e = strip(r, ds[0][3]) if len(ds) == 1 and ds[0][3] is not None else None
            ok = minimum(r, e, tr)
        R.inst('layout', ok, 'count|retained|bound', 'as many messages are read as are left, or asked for', r.loc)
        over = set()
        for b, c in loop_bound(w, pr.w, L):
            over |= container_roots(w, c)
        R.inst('layout', ('v', w.params[0]['id']) in over, 'count|retained|all', 'all messages given are written', w.loc)
    ld = P.one('SubscriptionStore::loadRetainedMessages'); R.saw(ld.id)


def skipped(fn, n, wc, lp):
    s = strip(fn, n[1]) if isinstance(n[1], dict) else None
    if s is None:
        return False
    if s['k'] == 'mem' and s['n'] in (wc, lp):
        c = const_val(strip(fn, n[2])) if isinstance(n[2], dict) else None
        return tr_(fn, n) is False or n[0] in ('==', '<=') and c == 0 or n[0] == '<' and c == 1
    if s['k'] == 'mem' and base_name(s['n']) == 'openMode':
        return n[0] == '!=' and base_name(enum_name(strip(fn, n[2])) or '') == 'write' or n[0] == '==' and base_name(enum_name(strip(fn, n[2])) or '') in ('read', 'unknown')
    return False


def null_f(q, fn, n, pt, ctx):
    s = strip(fn, n[1]) if isinstance(n[1], dict) else None
    if s is None or s['k'] != 'mem' or s['n'] != PF + 'f':
        return False
    return tr_(fn, n) is False or n[0] == '==' and isinstance(n[2], dict) and const_val(strip(fn, n[2])) == 0


def mem_sign(f, x, m, d=0, seen=None):
    fake = []
    for z in gather_defs(f, x):
        if z['k'] == 'mem' and z['n'] == m:
            fake.append(z)
    out = set()
    for z in fake:
        out |= sign_of(f, x, z)
    return out


def minimum(f, e, tr):
    if e is None:
        return False
    istr = lambda x: (strip(f, x) or {}).get('n') == tr
    ismax = lambda x: (strip(f, x) or {}).get('k') == 'var' and strip(f, x)['id'] == f.params[0]['id']
    if e['k'] == 'call' and base_name(e['n']) == 'min' and len(e['a']) >= 2:
        return {istr(e['a'][0]), istr(e['a'][1])} == {True, False} and {ismax(e['a'][0]), ismax(e['a'][1])} == {True, False}
    if e['k'] == 'cond':
        c = strip(f, e['c'])
        if c is None or c['k'] != 'bin' or c['op'] not in ('<', '<=', '>', '>='):
            return False
        lo, hi = (c['a'], c['b']) if c['op'] in ('<', '<=') else (c['b'], c['a'])
        return istr(lo) and ismax(hi) and istr(e['a']) and ismax(e['b']) or ismax(lo) and istr(hi) and ismax(e['a']) and istr(e['b'])
    return False


def steps_of(P, R, f, pr, k, m, by, key, what):
    pts = []
    ok = True
    for b, i, y in f.nodes():
        if y['k'] == 'un' and ('++' in y['op'] or '--' in y['op']) and (strip(f, y.get('a') or y.get('e')) or {}).get('n') == m:
            pts.append((b.id, i)); ok &= ('++' in y['op']) == (by > 0)
        ap = asg_parts(f, y)
        if ap is not None and (strip(f, ap[0]) or {}).get('n') == m:
            pts.append((b.id, i))
            c = const_val(strip(f, ap[1]))
            ok &= ap[2] == ('+=' if by > 0 else '-=') and c == 1
    side = (pr.w, pr.r)[k]
    ok &= len(pts) == 1
    for L in side.loops:
        ok &= bool(pts) and pts[0][0] in L[1]
        xs = side.exits(L)
        ok &= len(xs) == 1 and bool(pts) and not again(f, L, xs[0], set(pts))
        ok &= sum(1 for M in side.loops if pts and pts[0][0] in M[1]) == 1
    R.inst('layout', ok and bool(side.loops), 'count|retained|' + key, what, f.loc)


def always(P, R, pr, name, what, want, callee, but=None):
    """every element read is put in its place"""
    f, side = pr.r.f, pr.r
    ms = callee if callable(callee) else lambda y: y['k'] == 'call' and base_name(y.get('n') or '') == callee
    av = {(b.id, i) for b, i, y in f.nodes() if ms(y)}
    for z in tok_of(pr, want):
        zp = next((b.id, i) for b, i, y in f.nodes() if y is z)
        Ls = sorted((L for L in side.loops if zp[0] in L[1]), key=lambda L: len(L[1]))
        hit = bool(Ls) and any(p[0] in Ls[0][1] for p in av)
        if hit:
            for x in side.exits(Ls[0]):
                q = Query(P, eh=False, cut_cond=lambda q, fn, n, pt, ctx: eof_(side, fn, n) or (but is not None and but(fn, n)))
                hit &= not q.reach_point(f, zp, (x, len(f.blocks[x].elems)), ROOT, av)
        R.inst('meaning', hit, 'always|%s|%s' % (name, what), '%s, every time' % what, line_of(f, z))


def eof_(side, fn, n):
    x = strip(fn, n[1]) if isinstance(n[1], dict) else None
    return x is not None and x['k'] == 'var' and tr_(fn, n) is True and side.is_eof(x['id'])


def bridges(P, R):
    ver = version(P, BR + 'ReadVersion', BR + 'readVersion')
    w, r = P.one(BR + 'saveInfo'), P.one(BR + 'readInfo')
    pr = Pairing(P, R, Side(P, w, WR), Side(P, r, RD, ver), 'bridges', 'the file of bridge names')
    if pr.bad:
        return
    counts(P, R, pr, 'bridges')
    B = 'BridgeInfoForSerializing::'
    roles(P, R, pr, [(t, (lambda m: lambda n, w_: B + m in full(w, w_))(m), ['=' + m]) for t, m in (('the prefix of a bridge', 'prefix'), ('the client ID of a bridge', 'clientId'), ('the share name of a bridge', 'client_group_share_name'))], 'bridges')
    always(P, R, pr, 'bridges', 'a bridge is handed over', lambda n, w_: B + 'clientId' in full(w, w_), lambda y: y['k'] == 'call' and base_name(y.get('n') or '') in ('push_back', 'emplace_back'))


# ---- single numbers and strings

def primitives(P, R):
    for n, N in (('Int64', 8), ('Uint32', 4), ('Uint16', 2)):
        f = P.one(PF + 'read' + n); R.saw(f.id)
        terms = None
        for b, i, y in f.nodes():
            if y['k'] == 'ret' and y.get('e') is not None:
                terms = compose(P, f, y['e'])
        R.inst('number', terms is not None and sorted(t[:2] for t in terms) == [(j, 8 * (N - 1 - j)) for j in range(N)], 'number|read' + n, 'a number of %d bytes is read with the most significant first, and nothing is added' % N, f.loc)
        rc = [y for b, i, y in f.nodes() if is_call(y, PF + 'readCheck')]
        R.inst('number', len(rc) == 1 and (const_val(strip(f, rc[0]['a'][1])) or 0) * (const_val(strip(f, rc[0]['a'][2])) or 0) == N, 'number|read%s|size' % n, 'from %d bytes' % N, f.loc)
        g = P.one(PF + 'write' + n); R.saw(g.id)
        wc = [y for b, i, y in g.nodes() if is_call(y, PF + 'writeCheck')]
        R.inst('number', len(wc) == 1 and (const_val(strip(g, wc[0]['a'][1])) or 0) * (const_val(strip(g, wc[0]['a'][2])) or 0) == N, 'number|write%s|size' % n, 'a number of %d bytes is written' % N, g.loc)
        R.inst('number', written(P, g, N), 'number|write' + n, 'with the most significant byte first', g.loc)
    for w, r, key, what in (('writeString', 'readString', 'string', 'a string'), ('writeOptionalString', 'readOptionalString', 'optional', 'an optional string')):
        f, g = P.one(PF + w), P.one(PF + r)
        pr = Pairing(P, R, Side(P, f, WR), Side(P, g, RD), key, what)
        if pr.bad:
            continue
        if key == 'string':
            for a, z in pr.tok:
                if base_name(a['n']) == 'writeUint32':
                    s = strip(f, a['a'][0])
                    R.inst('meaning', s is not None and s['k'] == 'call' and base_name(s['n']) in ('size', 'length') and isv(f, s['o'], f.params[0]['id']), 'meaning|string|size', 'the size of a string is saved', line_of(f, a))
                    R.inst('meaning', 'readCheck#2' in sinks(g, z, []) and 'make_string#2' in sinks(g, z, []), 'meaning|string|read', 'and that many bytes are read', line_of(g, z))
                else:
                    s = strip(f, a['a'][2])
                    R.inst('meaning', s is not None and s['k'] == 'call' and base_name(s['n']) in ('size', 'length') and isv(f, s['o'], f.params[0]['id']) and any(q_['k'] == 'var' and q_['id'] == f.params[0]['id'] for q_ in gather_defs(f, a['a'][0])), 'meaning|string|bytes', 'the bytes of a string are saved', line_of(f, a))
        else:
            none = lambda q, fn, n, pt, ctx: tr_(fn, n) is False and isv(fn, opt_of(fn, n[1]), f.params[0]['id'])
            some = lambda q, fn, n, pt, ctx: tr_(fn, n) is True and isv(fn, opt_of(fn, n[1]), f.params[0]['id'])
            for b, i, y in f.nodes():
                if is_call(y, PF + 'writeUint8'):
                    v = const_val(strip(f, y['a'][0]))
                    if v is None:
                        raise AnalysisError('%s: the mark of an optional string is computed' % line_of(f, y))
                    R.inst('meaning', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=none if v == 0 else some), 'meaning|optional|%d' % v, 'an optional string is marked as it is', line_of(f, y))
            marks = [y for b, i, y in g.nodes() if is_call(y, PF + 'readUint8')]
            strs = [(b.id, i) for b, i, y in g.nodes() if is_call(y, PF + 'readString')]
            is_mark = lambda fn, x: any(z is m for m in marks for z in gather_defs(fn, x))
            set_ = lambda q, fn, n, pt, ctx: (tr_(fn, n) is True and is_mark(fn, n[1])) or (n[0] == '!=' and isinstance(n[2], dict) and is_mark(fn, n[1]) and const_val(strip(fn, n[2])) == 0) or (n[0] == '==' and isinstance(n[2], dict) and is_mark(fn, n[1]) and const_val(strip(fn, n[2])) == 1) or (n[0] == '>' and isinstance(n[2], dict) and is_mark(fn, n[1]) and const_val(strip(fn, n[2])) == 0)
            R.inst('meaning', bool(strs) and not reaches(P, g, (g.entry, -1), strs, cond=set_), 'meaning|optional|read', 'an optional string is read when it is marked as there', g.loc)
            rets = [(b.id, i) for b, i, y in g.nodes() if y['k'] == 'ret']
            unset = lambda q, fn, n, pt, ctx: (tr_(fn, n) is False and is_mark(fn, n[1])) or (n[0] == '==' and isinstance(n[2], dict) and is_mark(fn, n[1]) and const_val(strip(fn, n[2])) == 0) or (n[0] == '!=' and isinstance(n[2], dict) and is_mark(fn, n[1]) and const_val(strip(fn, n[2])) == 1)
            R.inst('meaning', bool(rets) and not reaches(P, g, (g.entry, -1), rets, cond=unset, node=lambda fn, y, q=None: is_call(y, PF + 'readString')), 'meaning|optional|skip', 'and always then', g.loc)


def opt_of(f, x):
    s = strip(f, x)
    while s is not None and s['k'] == 'call' and base_name(s['n']) in ('has_value', 'operator bool') and s.get('o') is not None:
        s = strip(f, s['o'])
    return s


def compose(P, f, x, d=0):
    """bytes of the buffer and their shifts a value is put together from: [(index, shift, unsigned)]; None when something else is in it"""
    if d > 12:
        return None
    uns = False
    raw = f.deref(x)
    for _ in range(8):
        if raw is not None and raw.get('k') == 'cast':
            uns |= 'unsigned' in (raw.get('t') or '') or 'uint' in (raw.get('t') or '')
            raw = f.deref(raw.get('e'))
    s = strip(f, x)
    if s is None:
        return None
    r = None
    if s['k'] == 'bin' and s['op'] in ('|', '+'):
        a, b = compose(P, f, s['a'], d + 1), compose(P, f, s['b'], d + 1)
        r = None if a is None or b is None else a + b
    elif s['k'] == 'bin' and s['op'] == '<<':
        k = const_val(strip(f, s['b']))
        a = compose(P, f, s['a'], d + 1)
        r = None if a is None or k is None else [(i, sh + k, u) for i, sh, u in a]
    elif s['k'] == 'var':
        ds = [e for e in f.defs().get(s['id'], []) if e[3] is not None]
        t = var_type(f, s['id']) or ''
        if len(ds) == 1:
            r = compose(P, f, ds[0][3], d + 1)
        elif ds and all(e[2] == 'asg' or e[2] == 'init' for e in ds):
            return None
        if r is not None and (wide(t) is None or any(sh + 8 > wide(t) for i, sh, u in r)):
            return None
        # a number with the topmost of 32 bits set looks negative when it is made wider
        if r is not None and wide(t) == 64 and any(sh == 24 and not u for i, sh, u in r):
            return None
        if r is not None and 'unsigned' in t or 'uint' in t:
            uns = True
    elif s['k'] == 'idx':
        c = const_val(strip(f, s['i']))
        r = None if c is None else [(c, 0, False)]
    elif s['k'] == 'call' and s.get('op') == '[]':
        c = const_val(strip(f, s['a'][0]))
        r = None if c is None else [(c, 0, False)]
    elif s['k'] == 'un' and s['op'] == '*':
        r = [(0, 0, False)]
    if r is not None and uns:
        r = [(i, sh, True) for i, sh, u in r]
    return r


def wide(t):
    for k, v in (('uint8', 8), ('unsigned char', 8), ('uint16', 16), ('unsigned short', 16), ('short', 16), ('uint64', 64), ('unsigned long', 64), ('int64', 64), ('long', 64), ('uint32', 32), ('unsigned int', 32), ('int', 32)):
        if k in t:
            return v
    return None


def written(P, g, N):
    """the loop: shift from 8(N-1) down by 8 to 0, place from 0 up by one, byte = value >> shift"""
    val = g.params[0]['id']
    sts = []
    for b, i, y in g.nodes():
        ap = asg_parts(g, y)
        if ap is None or ap[2] != '=':
            continue
        l = g.deref(y['a']) if y['k'] == 'asg' else None
        l = strip(g, ap[0])
        if l is None or l['k'] != 'idx':
            continue
        sts.append((b.id, i, l, ap[1]))
    if len(sts) == 1 and cycle_blocks(g, sts[0][0]):
        bid, idx, l, e = sts[0]
        s = [z for z in gather_defs(g, e) if z['k'] == 'bin' and z['op'] == '>>']
        if len(s) != 1 or not isv(g, s[0]['a'], val):
            return False
        sh = strip(g, s[0]['b'])
        if sh is None or sh['k'] != 'var':
            return False
        ds = g.defs()[sh['id']]
        ini = [const_val(strip(g, d[3])) for d in ds if d[2] == 'init']
        if ini != [8 * (N - 1)]:
            return False
        dec = [y for b, i, y in g.nodes() for ap in [asg_parts(g, y)] if ap is not None and isv(g, ap[0], sh['id']) and (ap[2] == '-=' and const_val(strip(g, ap[1])) == 8 or ap[2] == '=' and (lambda q_: q_ is not None and q_['k'] == 'bin' and q_['op'] == '-' and isv(g, q_['a'], sh['id']) and const_val(strip(g, q_['b'])) == 8)(strip(g, ap[1])))]
        if len(dec) != 1 or len(ds) != 2:
            return False
        cyc = cycle_blocks(g, bid)
        ok = False
        for b in cyc:
            for si, (t, k) in enumerate(g.blocks[b].succ):
                if t in cyc and any(u not in cyc for u, kk in g.blocks[b].succ if u is not None):
                    for n in facts(g, g.blocks[b], si):
                        if len(n) > 2 and isinstance(n[2], dict) and isv(g, n[1], sh['id']):
                            c = const_val(strip(g, n[2]))
                            ok |= n[0] == '>=' and c == 0 or n[0] == '>' and c in (-1,) 
        return ok
    # written out
    got = []
    for bid, idx, l, e in sts:
        c = const_val(strip(g, l['i']))
        s = [z for z in gather_defs(g, e) if z['k'] == 'bin' and z['op'] == '>>']
        k = const_val(strip(g, s[0]['b'])) if len(s) == 1 and isv(g, s[0]['a'], val) else 0 if not s else None
        got.append((c, k))
    return sorted(got, key=str) == sorted([(j, 8 * (N - 1 - j)) for j in range(N)], key=str)
