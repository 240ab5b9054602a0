"""UTF-8 validators: a dataflow over (sets of possible byte values, code point interval, small counters), run in
step with the specification of well-formed MQTT text. A verdict is wrong when some byte sequence of the abstract
state would be judged differently by the specification."""
from core.rules import *
from core.scan import char_type

BITS = 21; UNI = (1 << (1 << BITS)) - 1
ASCII = frozenset(range(128)); CONT = frozenset(range(0x80, 0xC0))
LEAD = {1: ASCII, 2: frozenset(range(0xC0, 0xE0)), 3: frozenset(range(0xE0, 0xF0)), 4: frozenset(range(0xF0, 0xF8))}
BADLEAD = frozenset(range(256)) - LEAD[1] - LEAD[2] - LEAD[3] - LEAD[4]
LM = {1: 0x7F, 2: 0x1F, 3: 0x0F, 4: 0x07}
MINCP = {1: 0, 2: 0x80, 3: 0x800, 4: 0x10000}
FORBIDDEN = [('control characters', 0, 0x1F), ('control characters U+007F to U+009F', 0x7F, 0x9F), ('surrogates', 0xD800, 0xDFFF),
             ('non-characters U+FDD0 to U+FDEF', 0xFDD0, 0xFDEF), ('code points above U+10FFFF', 0x110000, (1 << BITS) - 1)] + [
             ('the last two code points of a plane', (p << 16) + 0xFFFE, (p << 16) + 0xFFFF) for p in range(17)]


def interval(a, b):
    return ((1 << (b + 1)) - 1) & ~((1 << a) - 1) if a <= b else 0


def lowest(s):
    return (s & -s).bit_length() - 1


_pred = {}


def predset(m, sh, op, c):
    """{ v : ((v & m) >> sh) op c } as a bit set over 21-bit values"""
    m &= (1 << BITS) - 1
    k = (m, sh, op, c)
    if k not in _pred:
        if m == 0:
            r = UNI if OPS[op](0, c) else 0
        elif m == (1 << BITS) - 1 and sh == 0:
            c2 = max(-1, min(c, 1 << BITS))
            lt = (1 << max(0, c2)) - 1; eq = 1 << c if 0 <= c < 1 << BITS else 0
            r = {'<': lt, '<=': lt | eq, '==': eq, '!=': UNI & ~eq, '>': UNI & ~lt & ~eq, '>=': UNI & ~lt}[op] & UNI
        else:
            low = (m & -m).bit_length() - 1; high = m.bit_length()
            one = (1 << (1 << low)) - 1; bits = []
            for j in range(1 << (high - low)):
                bits.append(OPS[op](((j << low) & m) >> sh, c))
            r = 0
            if low < 3:
                for j in range(len(bits) - 1, -1, -1):
                    pass
                s = ''.join(('1' if b else '0') * (1 << low) for b in reversed(bits))
                r = int(s, 2)
            else:
                unit = {True: b'\xff' * (1 << (low - 3)), False: b'\0' * (1 << (low - 3))}
                r = int.from_bytes(b''.join(unit[bool(b)] for b in bits), 'little')
            w = 1 << high
            while w < 1 << BITS:
                r |= r << w; w *= 2
            r &= UNI
        _pred[k] = r
    return _pred[k]


BAD = {}
for _t in (1, 2, 3, 4):
    _s = 0
    for _n, _a, _b in FORBIDDEN:
        _s |= interval(_a, _b)
    BAD[_t] = _s | (interval(0, MINCP[_t] - 1) if MINCP[_t] else 0)
_cps = {}


def cpset(t, bytes_):
    """code points of t-byte characters whose first bytes come from these sets"""
    k = (t, bytes_)
    if k not in _cps:
        s = 1
        for j in range(t):
            vals = {((b & (LM[t] if j == 0 else 0x3F)) << (6 * (t - 1 - j))) for b in (bytes_[j] if j < len(bytes_) else CONT)}
            n = 0
            for v in vals:
                n |= s << v
            s = n
        _cps[k] = s
    return _cps[k]


def formula(t):
    return frozenset([(0, LM[t], 6 * (t - 1))] + [(k, 0x3F, 6 * (t - 1 - k)) for k in range(1, t)])


class St:
    """env: small ints, derived values and byte variables; bytes: the byte sets of the current character so far (() between
    characters); t: its length, 0 = none; inv: why no valid text contains it; form: how the code point variable is put
    together; filt: code points still possible (bit set, None = all); unk: an uninterpreted branch since the last byte"""
    __slots__ = ('env', 'bytes', 't', 'inv', 'form', 'filt', 'unk')

    def __init__(s, env=(), bytes=(), t=0, inv=None, form=frozenset(), filt=None, unk=False):
        s.env = env; s.bytes = bytes; s.t = t; s.inv = inv; s.form = form; s.filt = filt; s.unk = unk

    def cp(s, **k):
        d = {n: getattr(s, n) for n in St.__slots__}
        d.update(k)
        return St(**d)

    def key(s):
        return (s.env, s.bytes, s.t, s.inv, s.form, s.filt, s.unk)


class Utf8:
    def __init__(self, P, R, fn, simd=False):
        self.P = P; self.R = R; self.fn = fn; self.simd = simd
        self.bad = {}; self.n = {'accept': 0, 'reject': 0}
        self.byte = set(); self.cps = set(); self.flag = None; self.load = set()
        for p in fn.params:
            if p['t'].replace('const ', '') == 'bool':
                self.flag = p['id']
        if self.flag is None:
            raise AnalysisError('%s: flag parameter' % fn.q)
        self.idx = set()
        for b, i, y in fn.nodes():
            ix = y.get('i') if y['k'] == 'idx' else None
            if ix is not None:
                self.idx |= {z['id'] for z in fn.walk(ix, True) if z['k'] == 'var'}
            if y['k'] == 'decl':
                for v in y['d']:
                    if v.get('e') is None:
                        continue
                    if char_type(v['t']) and self.isread(v['e']):
                        self.byte.add(v['id'])
                    if any(z['k'] == 'call' and z.get('n') == '_mm_loadu_si128' for z in fn.walk(v['e'], True)):
                        self.load.add(v['id'])
        for b, i, y in fn.nodes():
            ap = asg_parts(fn, y)
            if ap and ap[0] is not None and ap[0]['k'] == 'var' and ap[0]['id'] not in self.byte:
                if any(z['k'] == 'var' and z['id'] in self.byte for z in fn.walk(ap[1], True)) and any(z['k'] == 'bin' and z['op'] in ('&', '<<') for z in fn.walk(ap[1], True)):
                    if var_type(fn, ap[0]['id']).replace('const ', '') not in ('bool',):
                        self.cps.add(ap[0]['id'])
        if len(self.byte) < 1 or len(self.cps) != 1:
            raise AnalysisError('%s: byte and code point variables (%d, %d)' % (fn.q, len(self.byte), len(self.cps)))
        self.cpv = self.cps.pop()

    def isread(self, x):
        fn = self.fn; x = strip(fn, x)
        return x is not None and (x['k'] == 'idx' or (x['k'] == 'un' and x['op'] == '*') or (x['k'] == 'call' and base_name(x.get('n', '')) in ('operator*', 'operator[]', 'at')))

    # ---------------------------------------------------------------- values
    def ev(self, x, s):
        fn = self.fn
        x = strip(fn, x)
        if x is None:
            return None
        cv = const_val(x)
        if cv is not None and x['k'] != 'var':
            return int(cv)
        if x['k'] == 'var':
            v = dict(s.env).get(x['id'])
            return v if isinstance(v, int) else None
        if x['k'] == 'bin':
            a, b = self.ev(x['a'], s), self.ev(x['b'], s)
            if isinstance(a, int) and isinstance(b, int):
                if x['op'] in ('<<', '>>') and not 0 <= b < 40:
                    return None
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '==': lambda: int(a == b), '!=': lambda: int(a != b), '<': lambda: int(a < b), '>': lambda: int(a > b), '<=': lambda: int(a <= b), '>=': lambda: int(a >= b), '<<': lambda: a << b, '>>': lambda: a >> b, '&': lambda: a & b, '|': lambda: a | b}.get(x['op'], lambda: None)()
        if x['k'] == 'un' and x['op'] == '!':
            a = self.ev(x['e'], s)
            return None if a is None else int(not a)
        if x['k'] == 'un' and x['op'] == '-':
            a = self.ev(x['e'], s)
            return -a if isinstance(a, int) else None
        return None

    def scale(self, x, s, leaf):
        """(leaf & mask) << or >> shift -> (leaf value, mask on the leaf, left shift)"""
        fn = self.fn; x = strip(fn, x)
        if x is None:
            return None
        r = leaf(x)
        if r is not None:
            return r
        if x['k'] != 'bin':
            return None
        if x['op'] in ('<<', '>>', '*', '/'):
            r = self.scale(x['a'], s, leaf); k = self.ev(x['b'], s); a, b = x['a'], x['b']
            if r is None and x['op'] == '*':
                r = self.scale(x['b'], s, leaf); k = self.ev(x['a'], s)
            if r is None or not isinstance(k, int):
                return None
            if x['op'] in '*/':
                if k <= 0 or k & (k - 1):
                    return None
                k = k.bit_length() - 1
            if x['op'] in ('<<', '*'):
                return r[0], r[1], r[2] + k
            return r[0], r[1] >> (k - r[2]) << (k - r[2]) if k > r[2] else r[1], r[2] - k
        if x['op'] in ('&', '%'):
            for a, b in ((x['a'], x['b']), (x['b'], x['a'])):
                r = self.scale(a, s, leaf); m = self.ev(b, s)
                if r is not None and isinstance(m, int):
                    if x['op'] == '%':
                        if a is x['b'] or m <= 0 or m & (m - 1):
                            return None
                        m -= 1
                    m = m >> r[2] if r[2] >= 0 else m << -r[2]
                    return r[0], r[1] & m, r[2]
        return None

    def bytex(self, x, s):
        """masked byte: (position, mask, left shift)"""
        e = dict(s.env)

        def leaf(y):
            if y['k'] == 'var':
                v = e.get(y['id'])
                if isinstance(v, tuple) and v[0] == 'b':
                    return v[1:]
            return None
        return self.scale(x, s, leaf)

    def cpx(self, x, s):
        """masked code point: ('', mask, left shift)"""
        e = dict(s.env)

        def leaf(y):
            if y['k'] == 'var':
                if y['id'] == self.cpv:
                    return ('', (1 << 32) - 1, 0)
                v = e.get(y['id'])
                if isinstance(v, tuple) and v[0] == 'cp':
                    return v[1:]
            return None
        return self.scale(x, s, leaf)

    # ---------------------------------------------------------------- branch refinement
    def refine(self, x, pol, s):
        """list of states consistent with x == pol"""
        fn = self.fn; x = strip(fn, x)
        if x is None:
            return [s.cp(unk=True)]
        if x['k'] == 'un' and x['op'] == '!':
            return self.refine(x['e'], not pol, s)
        if x['k'] == 'bin' and x['op'] in ('&&', '||', '|', '&') and (x['op'] in ('&&', '||') or Query._boolish(None, fn, x)):
            both = (x['op'][0] == '&') == pol
            if both:
                return [u for t in self.refine(x['a'], pol, s) for u in self.refine(x['b'], pol, t)]
            return self.refine(x['a'], pol, s) + [u for t in self.refine(x['a'], not pol, s) for u in self.refine(x['b'], pol, t)]
        if x['k'] == 'var' and x['id'] == self.flag:
            return self.setflag(s, int(pol))
        v = self.ev(x, s)
        if isinstance(v, int):
            return [s] if bool(v) == pol else []
        if x['k'] == 'var':
            v = dict(s.env).get(x['id'])
            if isinstance(v, tuple) and v[0] == 'cond':
                return self.refine(v[1].x, pol, s)
        n = norm(fn, x, pol)
        c = self.ev(n[2], s) if n is not None else None
        if not isinstance(c, int):
            return [s.cp(unk=True)]
        op = n[0]
        bm = self.bytex(n[1], s)
        if bm and bm[0] < len(s.bytes):
            sh = bm[2]
            val = lambda b: (b & bm[1]) << sh if sh >= 0 else (b & bm[1]) >> -sh
            nb = frozenset(b for b in s.bytes[bm[0]] if OPS[op](val(b), c))
            if not nb:
                return []
            u = s.cp(bytes=s.bytes[:bm[0]] + (nb,) + s.bytes[bm[0] + 1:])
            return [u] if self.possible(u) else []
        cb = self.cpx(n[1], s)
        if cb:
            if s.inv or s.t == 0:
                return [s]
            k = len(s.bytes)
            if s.form == frozenset():
                return [s] if OPS[op](0, c) else []
            if s.form != frozenset(f for f in formula(s.t) if f[0] < k):
                return [s]
            if cb[2] > 0:
                return [s.cp(unk=True)]
            m = cb[1] & ~((1 << (6 * (s.t - k))) - 1)
            u = s.cp(filt=(UNI if s.filt is None else s.filt) & predset(m, -cb[2], op, c))
            return [u] if self.possible(u) else []
        return [s.cp(unk=True)]

    def possible(self, s):
        if s.inv or s.t == 0 or s.filt is None:
            return True
        return cpset(s.t, s.bytes) & s.filt != 0

    def setflag(self, s, v):
        e = dict(s.env)
        if e.get(self.flag, v) != v:
            return []
        e[self.flag] = v
        return [s.cp(env=tuple(sorted(e.items(), key=repr)))]

    # ---------------------------------------------------------------- specification in step
    def settle(self, s, line, what='another character follows'):
        """the text may go on after the current character, or be accepted"""
        if s.t == 0 and not s.inv:
            return
        self.n['accept'] += 1
        if s.inv:
            self.report('inv', s.inv + ' is accepted', line); return
        t = s.t
        if len(s.bytes) < t:
            self.report('truncated', 'text ending within a character is accepted', line); return
        if t == 1 and self.simd:
            return
        have = cpset(t, s.bytes) & (UNI if s.filt is None else s.filt)
        if have & BAD[t]:
            names = [nm for nm, a, b in FORBIDDEN + [('overlong encodings', 0, MINCP[t] - 1)] if have & interval(a, b)]
            for nm in sorted(set(names)):
                if s.form not in (frozenset(), formula(t)) and t > 1:
                    nm = 'code points not assembled as specified, thus ' + nm
                self.report('range', '%s are accepted in a %d-byte character' % (nm, t), line)
        if t == 1 and dict(s.env).get(self.flag) != 0 and have & (1 << ord('#') | 1 << ord('+')):
            self.report('wildcard', 'wildcards are accepted although they were to be refused', line)

    def reject(self, s, line):
        self.n['reject'] += 1
        if s.inv or s.t == 0:
            return
        if len(s.bytes) < s.t and s.unk:
            return
        if self.simd and s.t == 1:
            return
        have = cpset(s.t, s.bytes) & (UNI if s.filt is None else s.filt) & ~BAD[s.t]
        if s.t == 1 and dict(s.env).get(self.flag) == 1:
            have &= ~(1 << ord('#') | 1 << ord('+'))
        if have:
            self.report('refuse', 'valid code points (U+%04X for instance) of %d bytes are refused' % (lowest(have), s.t), line)

    def report(self, kind, what, line):
        self.bad.setdefault((kind, what), line)

    def nextbyte(self, s, vid, line):
        if s.inv or len(s.bytes) >= s.t:
            self.settle(s, line)
            out = []
            for t in (1, 2, 3, 4):
                if t == 1 and self.simd:
                    continue        # the block's index is that of a byte with bit 7 set
                out.append(s.cp(bytes=(LEAD[t],), t=t, inv=None, filt=None, unk=False))
            out.append(s.cp(bytes=(BADLEAD,), t=0, inv='a byte that cannot start a character', filt=None, unk=False))
        else:
            out = [s.cp(bytes=s.bytes + (CONT,), unk=False), s.cp(bytes=s.bytes + (frozenset(range(256)) - CONT,), inv='a byte that does not continue the character', unk=False)]
        return [self.setenv(self.drop(u, 'b'), vid, ('b', len(u.bytes) - 1, 0xFF, 0)) for u in out]

    def drop(self, s, kind):
        return s.cp(env=tuple((k, v) for k, v in s.env if not (isinstance(v, tuple) and v[0] in (kind, 'cond'))))

    def setenv(self, s, vid, val):
        e = dict(s.env)
        if isinstance(val, tuple) or (isinstance(val, int) and -8 <= val <= 32 and vid not in self.idx):
            e[vid] = val
        else:
            e.pop(vid, None)
        return s.cp(env=tuple(sorted(e.items(), key=repr)))

    def value(self, e, s):
        v = self.ev(e, s)
        if v is not None:
            return v
        x = strip(self.fn, e)
        if x is None:
            return None
        b = self.bytex(e, s)
        if b:
            return ('b',) + b
        c = self.cpx(e, s)
        if c:
            return ('cp',) + c
        if x['k'] == 'bin' and x['op'] in ('&&', '||', '<', '>', '<=', '>=', '==', '!='):
            return ('cond', Cond(x))
        return None

    # ---------------------------------------------------------------- walk
    def run(self):
        fn = self.fn
        s0 = St()
        st = [(fn.entry, s0)]; seen = {(fn.entry, s0.key())}
        while st:
            bid, s = st.pop()
            if len(seen) > 50000:
                raise AnalysisError('%s: state space' % fn.q)
            if bid == fn.exit:
                continue
            b = fn.blocks[bid]
            states = [s]
            for i, x in b.elems:
                nxt = []
                for u in states:
                    nxt += self.elem(x, u)
                states = nxt
            outs = []
            if b.term and b.term.get('c') is not None and len(b.succ) == 2 and b.term['k'] != 'CXXTryStmt':
                for u in states:
                    for si, (t, k) in enumerate(b.succ):
                        if t is not None and k == 'n':
                            outs += [(t, v) for v in self.refine(b.term['c'], si == 0, u)]
            elif b.term and b.term['k'] == 'SwitchStmt':
                for u in states:
                    for si, (t, k) in enumerate(b.succ):
                        if t is None or k != 'n':
                            continue
                        vs = [u]
                        for x, pol in edge_facts(fn, b, si):
                            vs = [w for v in vs for w in self.refine(x, pol, v)]
                        outs += [(t, v) for v in vs]
            else:
                outs = [(t, u) for u in states for t, k in b.succ if t is not None and k == 'n']
            for t, u in outs:
                k = (t, u.key())
                if k not in seen:
                    seen.add(k); st.append((t, u))
        self.states = len(seen)

    def contribution(self, e, s):
        """sum of masked bytes and of the code point so far -> form, or None"""
        fn = self.fn; x = strip(fn, e)
        if x is None:
            return None
        if x['k'] == 'bin' and x['op'] in ('|', '+', '^'):
            a, b = self.contribution(x['a'], s), self.contribution(x['b'], s)
            return None if a is None or b is None else a | b
        c = self.ev(x, s)
        if isinstance(c, int):
            return frozenset() if c == 0 else None
        if x['k'] == 'cond':
            return None
        r = self.bytex(x, s)
        if r:
            pos, m, k = r
            if k < 0 or pos >= len(s.bytes):
                return None
            bs = s.bytes[pos]
            # a mask that keeps the same bits of all bytes possible here
            for want in (LM.get(s.t) if pos == 0 else 0x3F,):
                if want is not None and all((b & m) == (b & want) for b in bs):
                    m = want
            return frozenset([(pos, m, k)])
        r = self.cpx(x, s)
        if r and r[2] >= 0 and r[1] | ((1 << 21) - 1) == r[1]:
            return frozenset((p, m, h + r[2]) for p, m, h in s.form)
        return None

    def setcp(self, s, val, op):
        if op in ('<<=', '*='):
            k = self.ev(val, s)
            if op == '*=' and isinstance(k, int):
                k = k.bit_length() - 1 if k > 0 and not k & (k - 1) else None
            f = frozenset((p, m, h + k) for p, m, h in s.form) if isinstance(k, int) else None
        else:
            f = self.contribution(val, s)
            if op in ('+=', '|='):
                f = None if f is None else f | s.form
            elif op != '=':
                f = None
        return self.drop(s.cp(form=frozenset([('?', 0, 0)]) if f is None else f), 'cp')

    def elem(self, x, s):
        fn = self.fn; states = [s]
        order = [x] + [z for z in fn.walk(x) if z is not x]
        for y in order:
            nxt = []
            for u in states:
                nxt += self.node(y, u)
            states = nxt
            if not states:
                break
        return states

    def node(self, y, s):
        fn = self.fn; line = y.get('l')
        if y['k'] == 'ret':
            e = strip(fn, y.get('e'))
            if e is None:
                return []
            for u in self.refine(e, True, s):
                self.settle(u, line)
            for u in self.refine(e, False, s):
                self.reject(u, line)
            return []
        if y['k'] == 'throw':
            return []
        if y['k'] == 'decl':
            out = [s]
            for v in y['d']:
                nn = []
                for u in out:
                    e = v.get('e')
                    if v['id'] in self.byte and e is not None and self.isread(e):
                        nn += self.nextbyte(u, v['id'], line)
                    elif v['id'] in self.load:
                        self.settle(u, line)
                        nn.append(u.cp(bytes=(), t=0, inv=None, filt=None, form=frozenset(), unk=False))
                    elif v['id'] == self.cpv:
                        nn.append(self.setcp(u, e, '=') if e is not None else u)
                    else:
                        nn.append(self.setenv(u, v['id'], self.value(e, u) if e is not None else None))
                out = nn
            return out
        if y['k'] == 'asg':
            d = strip(fn, y['a'])
            if d is None or d['k'] != 'var':
                return [s]
            if d['id'] in self.byte and self.isread(y['b']):
                return self.nextbyte(s, d['id'], line)
            if d['id'] == self.cpv:
                return [self.setcp(s, y['b'], y['op'])]
            if y['op'] == '=':
                return [self.setenv(s, d['id'], self.value(y['b'], s))]
            o = dict(s.env).get(d['id']); val = self.ev(y['b'], s)
            val = {'+=': lambda: o + val, '-=': lambda: o - val, '|=': lambda: o | val, '&=': lambda: o & val}.get(y['op'], lambda: None)() if isinstance(o, int) and isinstance(val, int) else None
            return [self.setenv(s, d['id'], val)]
        if y['k'] == 'un' and y['op'] in ('++', 'post++', '--', 'post--'):
            d = strip(fn, y['e'])
            if d is not None and d['k'] == 'var':
                o = dict(s.env).get(d['id'])
                if isinstance(o, int):
                    return [self.setenv(s, d['id'], o + (1 if '+' in y['op'] else -1))]
        return [s]


class Cond:
    """an expression remembered as the value of a variable"""
    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Cond) and o.x is self.x

    def __hash__(self):
        return hash(id(self.x))

    def __repr__(self):
        return 'cond%s' % self.x.get('i', id(self.x))


def check(P, R):
    R.rule('accept', 'a validator accepts only sequences the specification allows: well-formed UTF-8 without controls, surrogates, non-characters, overlong forms or values above U+10FFFF')
    R.rule('refuse', 'a validator refuses a character only when the specification does')
    R.rule('ascii-block', 'the block comparison of the vector code covers every ASCII byte before it is passed over')
    R.rule('wildcard-block', 'with the publish check requested, no block containing # or + is passed over')
    R.rule('used', 'the general validator is answered by one of the two analysed implementations, with the same flag')
    gens = [f for f in P.fn('isValidUtf8Generic') if len(f.blocks) > 10]
    simd = P.fn('SimdUtils::isValidUtf8', optional=True)
    if not gens:
        raise AnalysisError('isValidUtf8Generic')
    for f, sm in [(g, False) for g in gens] + [(g, True) for g in simd]:
        U = Utf8(P, R, f, sm)
        U.run()
        R.saw(f.id)
        if not U.n['accept'] or not U.n['reject']:
            raise AnalysisError('%s: no character is judged' % f.q)
        kinds = {}
        for (k, what), line in sorted(U.bad.items(), key=repr):
            rule = 'refuse' if k == 'refuse' else 'accept'
            R.bad(rule, '%s|%s|%s|%s' % (rule, f.q, k, what), '%s: %s' % (f.q, what), '%s:%s' % (f.file, line))
        if not any(k != 'refuse' for k, w in U.bad):
            R.ok('accept', '%s: %d accepting steps over %d abstract states' % (f.q, U.n['accept'], U.states), f.loc)
        if not any(k == 'refuse' for k, w in U.bad):
            R.ok('refuse', '%s: %d refusing steps' % (f.q, U.n['reject']), f.loc)
    for f in simd:
        block(P, R, f)
    if not simd:
        for r in ('ascii-block', 'wildcard-block'):
            R.ok(r, 'no vector code in this build')
    for f in P.fn('isValidUtf8'):
        for b, i, y in f.nodes():
            if y['k'] == 'ret' and y.get('e') is not None:
                c = strip(f, y['e'])
                ok = is_call(c, 'SimdUtils::isValidUtf8', 'isValidUtf8Generic') and len(c['a']) == 2 and (strip(f, c['a'][0]) or {}).get('id') == f.params[0]['id'] and (strip(f, c['a'][1]) or {}).get('id') == f.params[1]['id']
                R.inst('used', ok, 'used|%s' % f.q, 'the answer is that of an analysed validator for the same text', line_of(f, y))
    for f in P.fn('isValidUtf8Generic'):
        if len(f.blocks) > 10:
            continue
        for b, i, y in f.nodes():
            if y['k'] == 'ret' and y.get('e') is not None:
                c = strip(f, y['e'])
                ok = is_call(c, 'isValidUtf8Generic') and any((strip(f, a) or {}).get('id') == f.params[1]['id'] for a in c['a'])
                R.inst('used', ok, 'used|%s|cstr' % f.q, 'the answer is that of an analysed validator for the same text', line_of(f, y))


def block(P, R, f):
    q = Query(P)
    ct = P.one('SimdUtils::SimdUtils')
    consts = {}
    for b, i, y in ct.nodes():
        if y['k'] == 'minit' and y.get('n') and is_call(strip(ct, y['e']), '_mm_set1_epi8'):
            consts[y['n']] = const_val(strip(ct, strip(ct, y['e'])['a'][0]))
    # a block: the vector load; passing over: the update of the position with the index of the first non-ASCII byte
    load = {v['id'] for b, i, y in f.nodes() if y['k'] == 'decl' for v in y['d'] if v.get('e') is not None and is_call(strip(f, v['e']), '_mm_loadu_si128')}
    if len(load) != 1:
        raise AnalysisError('vector load')
    load = load.pop()
    idxv = {v['id'] for b, i, y in f.nodes() if y['k'] == 'decl' for v in y['d'] if v.get('e') is not None and any(z['k'] == 'call' and 'pcmpestri' in z.get('n', '') for z in f.walk(v['e'], True))}
    if len(idxv) != 1:
        raise AnalysisError('index of the first non-ASCII byte')
    idxv = idxv.pop()

    def cmpmask(fn, x):
        """movemask(cmp(loaded, member)) [& prefix] -> list of (cmp, constant, prefix?)"""
        x = strip(fn, x)
        if x is None:
            return None
        pre = False
        if x['k'] == 'bin' and x['op'] == '&':
            for a, b in ((x['a'], x['b']), (x['b'], x['a'])):
                r = cmpmask(fn, a)
                if r and prefix(fn, b):
                    return [(c, k, True) for c, k, _ in r]
            return None
        if not is_call(x, '_mm_movemask_epi8'):
            return None
        out = []

        def collect(z):
            z = strip(fn, z)
            if z is None:
                return
            if z['k'] == 'bin' and z['op'] in ('||', '|'):
                collect(z['a']); collect(z['b']); return
            if is_call(z, '_mm_movemask_epi8', '_mm_or_si128'):
                for a in z['a']:
                    collect(a)
                return
            if z['k'] == 'call' and z.get('n', '').startswith('_mm_cmp'):
                a, b = strip(fn, z['a'][0]), strip(fn, z['a'][1]); op = z['n']
                flip = {'_mm_cmpgt_epi8': '_mm_cmplt_epi8', '_mm_cmplt_epi8': '_mm_cmpgt_epi8'}
                if not (a['k'] == 'var' and a['id'] == load):
                    a, b = b, a; op = flip.get(op, op)
                if a['k'] == 'var' and a['id'] == load:
                    k = consts.get(b.get('n')) if b['k'] == 'mem' else (const_val(strip(fn, b['a'][0])) if is_call(b, '_mm_set1_epi8') else None)
                    out.append((op, k, False))
        collect(x['a'][0])
        return out

    def prefix(fn, x):
        """(1 << index) - 1"""
        x = strip(fn, x)
        if x is not None and x['k'] == 'var':
            ds = fn.defs().get(x['id'], [])
            if len(ds) != 1 or ds[0][3] is None:
                return False
            x = strip(fn, ds[0][3])
        if x is None or x['k'] != 'bin' or x['op'] != '-' or const_val(strip(fn, x['b'])) != 1:
            return False
        a = strip(fn, x['a'])
        return a['k'] == 'bin' and a['op'] == '<<' and const_val(strip(fn, a['a'])) == 1 and (strip(fn, a['b']) or {}).get('id') == idxv

    def fact(op, ks, full):
        def cond(qq, fn, n, pt, ctx):
            if fn.id != f.id or n[0] != '==' or const_val(n[2]) != 0:
                return False
            x = strip(fn, n[1])
            if x is not None and x['k'] == 'var':
                ds = [d for d in fn.defs().get(x['id'], []) if d[3] is not None]
                x = strip(fn, ds[0][3]) if len(ds) == 1 else None
            r = cmpmask(fn, x) if x is not None else None
            return bool(r) and any(c == op and k in ks and (not p or not full) for c, k, p in r)
        return cond
    ex = lambda v: v
    less = {0x20}; more = {0x7E}
    # the whole block is ASCII: the next load or the accepting end follows without reading single bytes
    isload = lambda fn, y: y['k'] == 'decl' and any(v['id'] == load for v in y['d'])
    single = lambda fn, y: (y['k'] == 'decl' and any(char_type(v['t']) and v.get('e') is not None and (strip(fn, v['e']) or {}).get('k') == 'idx' for v in y['d']))
    full_ok = lambda fn, y: y['k'] == 'ret' and const_val(strip(fn, y['e'])) == 1
    lp = [(b.id, i) for b, i, y in f.nodes() if isload(f, y)][0]
    for nm, op, ks in (('below space', '_mm_cmplt_epi8', less), ('above tilde', '_mm_cmpgt_epi8', more)):
        # no path from the load to the single-byte part without the prefix check
        q1 = Query(P, target=single, cut_cond=fact(op, ks, False), eh=False)
        q1._walk(f, lp, ROOT, True, [])
        R.inst('ascii-block', not q1.hits, 'ascii-block|prefix|' + nm, 'ASCII in front of a multi-byte character is checked: %s' % nm, f.loc)
        q2 = Query(P, target=lambda fn, y: isload(fn, y) or full_ok(fn, y), cut_cond=fact(op, ks, True), cut_node=lambda fn, y, qq: single(fn, y), eh=False)
        q2._walk(f, lp, ROOT, True, [])
        R.inst('ascii-block', not q2.hits, 'ascii-block|full|' + nm, 'a block without multi-byte characters is checked: %s' % nm, f.loc)
    R.inst('ascii-block', consts.get('SimdUtils::non_ascii_mask') in (0x80, -0x80), 'ascii-block|mask', 'the search for multi-byte characters looks at bit 7', ct.loc)
    flag = [p['id'] for p in f.params if p['t'].replace('const ', '') == 'bool'][0]
    off = truth(lambda qq, fn, x: x['k'] == 'var' and x['id'] == flag, False)
    nxt = lambda fn, y: isload(fn, y) or full_ok(fn, y) or single(fn, y)
    for ch in '#+':
        q3 = Query(P, target=nxt, cut_cond=any_of(off, fact('_mm_cmpeq_epi8', {ord(ch)}, True), vecfalse(f, load, consts, ord(ch))), eh=False)
        q3._walk(f, lp, ROOT, True, [])
        R.inst('wildcard-block', not q3.hits, 'wildcard-block|' + ch, 'a block with %s is refused' % ch, f.loc)


def vecfalse(f, load, consts, k):
    return lambda qq, fn, n, pt, ctx: False
