"""Which exceptions can leave which function (types, with the place they come from)."""
from .rules import *

STD = {'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error',
       'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error', 'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
       'std::system_error': 'std::runtime_error', 'std::filesystem::filesystem_error': 'std::system_error', 'std::bad_optional_access': 'std::exception',
       'std::bad_function_call': 'std::exception', 'std::bad_alloc': 'std::exception', 'std::bad_variant_access': 'std::exception', 'std::bad_any_cast': 'std::exception', 'std::regex_error': 'std::runtime_error'}
CONV = {'stoi', 'stol', 'stoul', 'stoll', 'stoull', 'stof', 'stod', 'stold'}
ANY = 'std::exception'


def norm_t(t):
    t = (t or '').replace('const ', '').replace('&', '').replace('class ', '').strip()
    return t.replace('FlashMQ::', '')


class Escapes:
    def __init__(self, P, extra=None):
        self.P = P
        self.base = dict(STD)
        for k, r in P.records.items():
            for b in r.get('bases', []):
                self.base.setdefault(norm_t(r.get('t') or k), norm_t(b)); self.base.setdefault(norm_t(r.get('q') or k), norm_t(b))
        self.extra = extra
        self.esc = {}        # fn id -> {type: trace}
        self.wall = {}
        self.run()

    def is_a(self, t, h):
        n = 0
        while t is not None and n < 10:
            if t == h:
                return True
            t = self.base.get(t); n += 1
        return False

    def leaves(self, f, bid, t):
        """an exception of this type, thrown in the block, leaves the function"""
        x = next((s for s, k in f.blocks[bid].succ if k == 'eh'), f.blocks[bid].eh_hint)
        n = 0
        while x is not None and x != f.exit and n < 30:
            n += 1
            b = f.blocks[x]
            for s, k in b.succ:
                if k == 'catch' and s is not None:
                    h = f.blocks[s].label.get('t') if f.blocks[s].label else None
                    if not h or h == '...' or self.is_a(t, norm_t(h)):
                        return False
            x = next((s for s, k in b.succ if k == 'eh'), None)
        return True

    def own(self, f, y):
        """types thrown by the node itself"""
        if y['k'] == 'throw':
            return [norm_t(y.get('t')) or ANY] if y.get('t') else [ANY]
        if y['k'] != 'call':
            return []
        n = y.get('n') or ''
        bn = base_name(n)
        if n.startswith('std::') and bn in CONV:
            return ['std::invalid_argument', 'std::out_of_range']
        if n.startswith('std::') and bn == 'at' and y.get('o') is not None:
            return ['std::out_of_range']
        if n.startswith('std::') and bn == 'value' and 'optional' in n:
            return ['std::bad_optional_access']
        if bn == 'substr' and n.startswith('std::'):
            return ['std::out_of_range']
        if n == 'check' or n == 'FlashMQ::check':
            # waking up a thread only fails when its event descriptor is not one
            w = [z for a in y.get('a', []) if a is not None for z in f.walk(a, True) if z['k'] == 'call']
            ta = norm_t((y.get('ta') or [ANY])[0])
            return [] if any((z.get('n') or '') == 'write' for z in w) else [ta if ta in self.base else 'std::runtime_error']
        if n == 'std::function::operator()' or n == '<indirect>' and not self.P.targets(y):
            return [ANY]
        if n.startswith('std::filesystem::') or n.startswith('std::thread'):
            return []
        return []

    def safe(self, f, b, i, y):
        return self.extra(f, b, i, y) if self.extra else False

    def run(self):
        P = self.P
        calls = {}      # callee -> [(caller, block, loc)]
        wl = []
        for f in P.fns.values():
            if f.nocfg or not f.blocks or f.entry is None:
                continue
            live = reachable(f)
            for b, i, y in f.nodes():
                if y['k'] not in ('throw', 'call', 'ctor', 'dtor', 'tdtor', 'new') or b.id not in live:
                    continue
                for t in self.own(f, y):
                    if self.leaves(f, b.id, t) and not self.safe(f, b, i, y):
                        e = self.esc.setdefault(f.id, {})
                        if t not in e:
                            e[t] = [line_of(f, y)]; wl.append(f.id)
                ts = P.targets(y) if y['k'] in ('call', 'ctor') else []
                if y['k'] == 'call' and base_name(y.get('n') or '') in ('make_shared', 'make_unique'):
                    c = (y.get('ta') or [None])[0]
                    ts = list(ts) + [g for g in P.fns.values() if g.is_ctor and c and g.q.rsplit('::', 1)[0] == c]
                for g in ts:
                    calls.setdefault(g.id, []).append((f, b.id, line_of(f, y), y))
                if y['k'] == 'call' and (y.get('n') or '').startswith('std::') and base_name(y['n']) != 'bind':
                    for a in y.get('a', []):
                        for z in (f.walk(a, True) if a is not None else []):
                            if z['k'] == 'lambda' and z.get('id') in P.fns and base_name(y['n']) in ('for_each', 'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'copy_if', 'remove_if', 'transform', 'sort', 'erase_if', 'accumulate'):
                                calls.setdefault(z['id'], []).append((f, b.id, line_of(f, y), y))
        self.calls = calls
        while wl:
            g = wl.pop()
            ge = P.fns[g]
            for f, bid, loc, y in calls.get(g, []):
                for t, tr in list(self.esc[g].items()):
                    if t in self.esc.get(f.id, {}):
                        continue
                    if self.leaves(f, bid, t):
                        self.esc.setdefault(f.id, {})[t] = [loc] + tr[:10]; wl.append(f.id)


def reachable(f):
    seen = {f.entry}; st = [f.entry]
    while st:
        for t, k in f.blocks[st.pop()].succ:
            if t is not None and k != 'dead' and t not in seen:
                seen.add(t); st.append(t)
    return seen


def has_value(P):
    """`.value()` of an optional that was looked at first"""
    def extra(f, b, i, y):
        if y['k'] == 'throw':
            return f.q in ('check', 'FlashMQ::check') or (y.get('t') or '').endswith('MutexOwnedObjectNull')
        if y['k'] == 'call' and base_name(y.get('n') or '') == 'value' and y.get('o') is not None:
            o = show(f, y['o'])

            def cond(q, fn, n, pt, ctx):
                if fn is not f or n[0] != '!=' or (const_val(n[2]) if isinstance(n[2], dict) else n[2]) != 0:
                    return False
                e = strip(fn, n[1])
                if e is not None and show(fn, e) == o:
                    return True
                return e is not None and e['k'] == 'call' and base_name(e.get('n') or '') in ('operator bool', 'has_value') and e.get('o') is not None and show(fn, e['o']) == o
            def setv(fn, z, q=None):
                a = asg_parts(fn, z)
                return fn is f and a is not None and show(fn, a[0]) == o and 'optional' not in ((strip(fn, a[1]) or {}).get('t') or '')
            q = Query(P, cut_cond=cond, cut_node=setv, eh=True)
            return not q.reach_point(f, (f.entry, -1), (b.id, i), ROOT, None)
        return False
    return extra
