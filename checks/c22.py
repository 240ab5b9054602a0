"""State files are replaced as a whole, only by complete ones, and only used when their hash matches."""
from core.rules import *
from core.loops import natural
from checks.c06 import in_try, catches
from checks.c11 import must, reaches, never
from checks.c16 import gather_defs, isv
from checks.c18 import strconst
from checks.c20 import facts, tr_

PF = 'PersistenceFile::'
SUBS = ('PersistenceFile', 'RetainedMessagesDB', 'SessionsAndSubscriptionsDB', 'BridgeInfoDb')


def check(P, R):
    R.rule('replace', 'a state file is replaced only by a complete, hashed, flushed and synced one')
    R.rule('write', 'a write that fails is an error, and makes the new file worthless')
    R.rule('place', 'a state file itself is never opened for writing')
    R.rule('hash', 'the hash that is stored is that of everything after the header')
    R.rule('verify', 'a state file is used only when the hash in it is that of its contents')
    R.rule('load', 'a state file that can not be used is an error; only one that is not there is passed over')
    R.rule('destroy', 'an error when a state file is closed does not end the program')
    c = P.one(PF + 'closeFile')
    replace(P, R, c)
    write(P, R, c)
    place(P, R, c)
    hashing(P, R)
    load(P, R)
    destroy(P, R, c)


def calls(f, *ns):
    return [(b.id, i, y) for b, i, y in f.nodes() if y['k'] == 'call' and y.get('n') in ns]


def comes(f, x, mem):
    return any(z['k'] == 'mem' and z['n'] == PF + mem for z in gather_defs(f, x))


def result_of(*names):
    """the value is what a call of one of the names returned"""
    def m(q, fn, x, pt, ctx):
        s = strip(fn, x) if isinstance(x, dict) else None
        if s is not None and s['k'] == 'var':
            src = q.sources(fn, s, pt, ctx)
            return bool(src) and all(z is not None and z['k'] == 'call' and z.get('n') in names for _, z, _, _ in src)
        return s is not None and s['k'] == 'call' and s.get('n') in names
    return m


def num(x):
    return x if isinstance(x, int) else const_val(x) if isinstance(x, dict) else None


def succeeded(*names):
    """0 is success, -1/EOF is failure"""
    is_ = result_of(*names)
    ok = (('==', 0), ('>=', 0), ('!=', -1), ('>', -1))
    return lambda q, fn, n, pt, ctx: (n[0], num(n[2])) in ok and is_(q, fn, n[1], pt, ctx)


def flagged(*names):
    """the (boolean like) result is false"""
    is_ = result_of(*names)
    return lambda q, fn, n, pt, ctx: (n[0], num(n[2])) == ('==', 0) and is_(q, fn, n[1], pt, ctx)


def isset(f, y, mem, val):
    a = asg_parts(f, y)
    return a is not None and is_mem(strip(f, a[0]), PF + mem) and const_val(strip(f, a[1])) == val


DISCARD = lambda fn, y, q=None: isset(fn, y, 'discard', 1)


def fnull(fn, y, q=None):
    a = asg_parts(fn, y)
    return a is not None and is_mem(strip(fn, a[0]), PF + 'f') and (strip(fn, a[1]) or {}).get('k') == 'null'


def isempty(*mems):
    return truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and x.get('o') is not None and is_mem(strip(fn, x['o']), *[PF + m for m in mems]), True)


def replace(P, R, c):
    R.saw(c.id)
    final = []
    for f in P.fns.values():
        for b, i, y in calls(f, 'rename', 'renameat', 'renameat2', 'link', 'symlink'):
            to = y['a'][-1]
            if comes(f, to, 'filePath'):
                final.append((f, b, i, y))
    if not final:
        R.bad('replace', 'replace|none', 'a finished file replaces the previous one', c.loc); return
    # the fields keep their roles
    k = [f for f in P.fn(PF + 'PersistenceFile') if any(y['k'] == 'asg' for _, _, y in f.nodes())]
    for f, b, i, y in final:
        if f.id != c.id:
            R.bad('replace', 'replace|where|%s' % f.q, 'a state file is replaced only when a new one is closed', line_of(f, y)); continue
        R.saw(f.id)
        g = [(b, i)]
        # (what was to be thrown away stays that: rule replace|flag; and the mode is that of opening: replace|modes)
        other = any_of(tmem(PF + 'discard', True), compares(PF + 'openMode', ('!=', PF + 'FileMode::write'), ('==', PF + 'FileMode::read'), ('==', PF + 'FileMode::unknown')))
        r0 = lambda cond, node=None, start=None: not reaches(P, f, start or (f.entry, -1), g, cond=cond, node=node)
        r = lambda cond, node=None, start=None: r0(any_of(cond, other), (lambda fn, y, q=None: DISCARD(fn, y) or node is not None and node(fn, y)), start)
        l = line_of(f, y)
        R.inst('replace', comes(f, y['a'][0], 'filePathTemp'), 'replace|from', 'by the file that was written', l)
        R.inst('replace', r0(compares(PF + 'openMode', ('==', PF + 'FileMode::write'))), 'replace|mode', 'only when the file was written', l)
        R.inst('replace', r0(tmem(PF + 'discard', False)), 'replace|discard', 'not when the file is to be thrown away', l)
        unw = lambda q, fn, n, pt, ctx: n[0] in ('<=', '==') and (lambda s, t: s is not None and s['k'] == 'call' and 'uncaught_exceptions' in s['n'] and is_mem(t, PF + 'uncaughtExceptions'))(strip(fn, n[1]), strip(fn, n[2]) if isinstance(n[2], dict) else None) or n[0] in ('>=', '==') and isinstance(n[2], dict) and (lambda s, t: s is not None and s['k'] == 'call' and 'uncaught_exceptions' in s['n'] and is_mem(t, PF + 'uncaughtExceptions'))(strip(fn, n[2]), strip(fn, n[1]))
        R.inst('replace', r(unw, DISCARD), 'replace|unwinding', 'not when an exception ended the writing', l)
        stages = [('no write failed', flagged('ferror'), None), ('the hash is written', never, lambda fn, y, q=None: is_call(y, PF + 'hashFile')), ('it is flushed', succeeded('fflush'), None), ('it is synced', succeeded('fsync', 'fdatasync'), None), ('it is closed', any_of(succeeded('fclose'), flagged_mem('f')), None)]
        for what, cond, node in stages:
            R.inst('replace', r(cond, node), 'replace|' + what, what, l)
        order = [('hashFile', PF + 'hashFile', 'fflush'), ('fflush', 'fflush', 'fsync'), ('fsync', 'fsync', 'fclose')]
        dirs = {(b2, i2) for b2, i2, y2 in calls(f, 'fsync', 'fdatasync') if not any(comes(f, y2['a'][0], m) for m in ('f', 'filePathTemp', 'filePath'))}
        for nm, first, then in order:
            for b2, i2, y2 in calls(f, first):
                if (b2, i2) in dirs:
                    continue
                R.inst('replace', r(any_of(succeeded(then, 'fdatasync') if then == 'fsync' else succeeded(then), flagged_mem('f')), None, (b2, i2)), 'replace|order|%s|%s' % (nm, then), '%s is followed by %s' % (nm, then), line_of(f, y2))
        # nothing is written between the flush and the rename
        for b2, i2, y2 in calls(f, PF + 'writeCheck', 'fwrite', 'fputs', 'fputc', 'fprintf', 'write', 'pwrite'):
            R.inst('replace', r(succeeded('fflush'), None, (b2, i2)), 'replace|late', 'nothing is written after the flush', line_of(f, y2))
        # what these work on
        for nm, pos in (('ferror', 0), ('fflush', 0), ('fclose', 0)):
            for b2, i2, y2 in calls(f, nm):
                R.inst('replace', comes(f, y2['a'][pos], 'f'), 'replace|on|' + nm, '%s is about this file' % nm, line_of(f, y2))
        for b2, i2, y2 in calls(f, 'fsync', 'fdatasync'):
            if (b2, i2) in dirs:
                R.ok('replace', 'the directory is synced', line_of(f, y2))
            else:
                R.inst('replace', comes(f, y2['a'][0], 'f'), 'replace|on|fsync', 'fsync is about this file', line_of(f, y2))
    # a new file that is thrown away does not stay behind; a finished one is put in place
    gone = lambda fn, y, q=None: y['k'] == 'call' and y.get('n') in ('unlink', 'remove') and comes(fn, y['a'][0], 'filePathTemp')
    puts = lambda fn, y, q=None: y['k'] == 'call' and y.get('n') == 'rename'
    closed = any_of(flagged_mem('f'), compares(PF + 'openMode', ('!=', PF + 'FileMode::write'), ('==', PF + 'FileMode::read'), ('==', PF + 'FileMode::unknown')), isempty('filePathTemp', 'filePath'))
    must(P, R, 'replace', c, lambda fn, y, q=None: gone(fn, y) or puts(fn, y), 'done', 'closing puts the new file in place, or removes it', cond=closed)
    must(P, R, 'replace', c, puts, 'placed', 'a finished file is put in place', cond=any_of(closed, tmem(PF + 'discard', True)))
    q0 = Query(P)
    for b, i, y in calls(c, 'unlink', 'remove'):
        R.inst('replace', comes(c, y['a'][0], 'filePathTemp') and not comes(c, y['a'][0], 'filePath'), 'replace|unlink', 'only the new file is removed', line_of(c, y))
        R.inst('replace', not reaches(P, c, (c.entry, -1), [(b, i)], cond=tmem(PF + 'discard', True)), 'replace|unlinked', 'and only when it is to be thrown away', line_of(c, y))
    # an error after which closing is tried again may not count as success the second time
    thr = [(b.id, i, y) for b, i, y in c.nodes() if y['k'] == 'throw']
    for b, i, y in thr:
        R.inst('replace', not reaches(P, c, (c.entry, -1), [(b, i)], cond=any_of(flagged_mem('f'), compares(PF + 'openMode', ('!=', PF + 'FileMode::write'))), node=lambda fn, z, q=None: DISCARD(fn, z) or fnull(fn, z)), 'replace|again|%s' % (strconst(c, y.get('e')) or '?')[:12], 'after an error the file is not tried again as if it were complete', line_of(c, y))
    # exceptions that were there before are told apart
    fl = [(f, y) for f in P.fns.values() for _, _, y in f.nodes() if y['k'] == 'minit' and y.get('n') == PF + 'uncaughtExceptions']
    R.inst('replace', bool(fl) and all('uncaught_exceptions' in ((strip(f, y['e']) or {}).get('n') or '') for f, y in fl), 'replace|saved', 'exceptions from before the writing are not counted', fl[0][0].loc if fl else c.loc)
    for f, b, i, y in [(f, b.id, i, y) for f in P.fns.values() for b, i, y in f.nodes() if asg_parts(f, y) is not None and is_mem(strip(f, asg_parts(f, y)[0]), PF + 'uncaughtExceptions', PF + 'discard')]:
        a = asg_parts(f, y)
        R.inst('replace', is_mem(strip(f, a[0]), PF + 'discard') and const_val(strip(f, a[1])) == 1, 'replace|flag|%s' % f.q, 'a file that is to be thrown away stays that', line_of(f, y))
    for f, y in [(f, y) for f in P.fns.values() for b, i, y in f.nodes() if asg_parts(f, y) is not None and is_mem(strip(f, asg_parts(f, y)[0]), PF + 'openMode')]:
        R.inst('replace', f.q in (PF + 'openWrite', PF + 'openRead'), 'replace|modes|%s' % f.q, 'how a file was opened does not change', line_of(f, y))
    d = P.one(PF + 'dontSaveTmpFile'); R.saw(d.id)
    must(P, R, 'replace', d, DISCARD, 'dont', 'a save that is given up is thrown away')
    # the retained messages: given up halfway
    s = P.one('SubscriptionStore::saveRetainedMessages'); R.saw(s.id)
    rets = [(b.id, i, y) for b, i, y in s.nodes() if y['k'] == 'ret']
    for b, i, y in rets:
        R.inst('replace', not reaches(P, s, (s.entry, -1), [(b, i)], node=lambda fn, z, q=None: z['k'] == 'call' and base_name(z['n']) == 'dontSaveTmpFile', cond=drained), 'replace|abort', 'a save that ends before everything is written is given up', line_of(s, y))
    o = P.one('RetainedMessagesDB::dontSaveTmpFile') if P.fn('RetainedMessagesDB::dontSaveTmpFile') else None
    if o is not None:
        must(P, R, 'replace', o, lambda fn, y, q=None: is_call(y, PF + 'dontSaveTmpFile'), 'dont|2', 'giving up reaches the file')
    rc = P.one('RetainedMessagesDB::closeFile')
    must(P, R, 'replace', rc, lambda fn, y, q=None: is_call(y, PF + 'closeFile'), 'closes', 'closing the retained messages closes the file', cond=flagged_mem('f'))


def drained(q, fn, n, pt, ctx):
    s = strip(fn, n[1]) if isinstance(n[1], dict) else None
    return s is not None and s['k'] == 'call' and base_name(s['n']) == 'empty' and tr_(fn, n) is True and 'deque' in (s['n'] + (var_type(fn, (strip(fn, s['o']) or {}).get('id')) or ''))


def flagged_mem(m):
    """the pointer member is null"""
    def c(q, fn, n, pt, ctx):
        s = strip(fn, n[1]) if isinstance(n[1], dict) else None
        z = strip(fn, n[2]) if isinstance(n[2], dict) else None
        return n[0] == '==' and is_mem(s, PF + m) and (num(n[2]) == 0 or z is not None and z['k'] == 'null')
    return c


def write(P, R, c):
    w = P.one(PF + 'writeCheck'); R.saw(w.id)
    full = lambda q, fn, n, pt, ctx: n[0] in ('==', '>=') and result_of('fwrite')(q, fn, n[1], pt, ctx) and isinstance(n[2], dict) and isv(fn, n[2], w.params[2]['id']) or n[0] in ('==', '<=') and isinstance(n[2], dict) and result_of('fwrite')(q, fn, n[2], pt, ctx) and isv(fn, n[1], w.params[2]['id'])
    R.inst('write', not normal_exit(P, w, full, eh=False), 'write|short', 'a write that is short is an error', w.loc)
    for b, i, y in [(b.id, i, y) for b, i, y in w.nodes() if y['k'] == 'throw']:
        R.inst('write', not reaches(P, w, (w.entry, -1), [(b, i)], node=DISCARD), 'write|worthless', 'a file with a failed write is thrown away', line_of(w, y))
    for b, i, y in calls(w, 'fwrite'):
        R.inst('write', all(isv(w, y['a'][k], w.params[k]['id']) for k in range(4)), 'write|args', 'what is given is what is written', line_of(w, y))
    OUT = ('fwrite', 'fputs', 'fputc', 'putc', 'fprintf', 'vfprintf', 'fwrite_unlocked', 'write', 'pwrite', 'ftruncate')
    n = 0
    for f in P.fns.values():
        own = any(f.q.startswith(s + '::') for s in SUBS)
        for b, i, y in calls(f, *OUT, PF + 'writeCheck'):
            if not own and not any(comes(f, a, 'f') for a in y['a'] if a is not None):
                continue
            n += 1
            if y['n'] == PF + 'writeCheck':
                R.inst('write', comes(f, y['a'][3], 'f'), 'write|stream|%s' % f.q, 'data goes to the new file', line_of(f, y))
                R.inst('write', not in_try_any(f, b), 'write|kept|%s' % f.q, 'an error in writing is not passed over', line_of(f, y))
            else:
                R.inst('write', f.id == w.id, 'write|checked|%s' % f.q, 'every write is checked', line_of(f, y))
    R.notes.append('writes: %d' % n)


def in_try_any(f, b):
    """the exceptional edge of this point leads to a handler of this function"""
    def go(t, d=0):
        if t is None or t == f.exit or d > 20:
            return False
        bl = f.blocks[t]
        if bl.label and bl.label['k'] == 'catch':
            return True
        return any(go(s, d + 1) for s, k in bl.succ if s is not None)
    return any(k == 'eh' and go(t) for t, k in f.blocks[b].succ)


def place(P, R, c):
    n = 0
    for f in P.fns.values():
        for b, i, y in f.nodes():
            if y['k'] not in ('call', 'ctor', 'new') or not y.get('a'):
                continue
            nm = y.get('n') or ''
            bn = base_name(nm)
            a0 = y['a'][0]
            if nm in ('open', 'open64', 'openat', 'creat', 'creat64', 'fopen', 'fopen64', 'freopen', 'truncate', 'unlink', 'remove', 'rename', 'mkstemp') or 'basic_ofstream' in nm or 'basic_fstream' in nm:
                if not comes(f, a0, 'filePath'):
                    continue
                n += 1
                l = line_of(f, y)
                if suffixed(f, a0):
                    R.ok('place', 'a copy, in a file of its own', l); continue
                if nm in ('fopen', 'fopen64'):
                    m = strconst(f, y['a'][1]) or ''
                    R.inst('place', m.startswith('r') and '+' not in m, 'place|fopen|%s' % f.q, 'a state file is opened for reading only', l)
                elif nm in ('open', 'open64'):
                    R.inst('place', const_val(strip(f, y['a'][1])) is not None and const_val(strip(f, y['a'][1])) & 0o3103 == 0, 'place|open|%s' % f.q, 'a state file is opened for reading only', l)
                elif nm == 'rename':
                    ok = f.q == PF + 'verifyHash' and comes(f, y['a'][1], 'filePathCorrupt')
                    R.inst('place', ok, 'place|rename|%s' % f.q, 'a state file is moved away only because it is corrupt', l)
                    if ok:
                        R.inst('place', not reaches(P, f, (f.entry, -1), [(b.id, i)], cond=mismatch(f)), 'place|corrupt', 'and only when its hash is wrong', l)
                else:
                    R.bad('place', 'place|%s|%s' % (bn, f.q), 'a state file is not removed or overwritten', l)
    R.notes.append('uses of the path of a state file: %d' % n)
    # the path of a new file differs
    k = [f for f in P.fns.values() if f.q == PF + 'PersistenceFile']
    for mem in ('filePathTemp', 'filePathCorrupt'):
        ws = [(f, y, asg_parts(f, y)[1]) for f in P.fns.values() for _, _, y in f.nodes() if asg_parts(f, y) is not None and is_mem(strip(f, asg_parts(f, y)[0]), PF + mem)]
        ws += [(f, y, y['e']) for f in P.fns.values() for _, _, y in f.nodes() if y['k'] == 'minit' and y.get('n') == PF + mem and y.get('e') is not None and gather_defs(f, y['e']) and (strip(f, y['e']) or {}).get('k') not in ('ctor', None) ]
        if not ws:
            R.bad('place', 'place|path|' + mem, 'a new file has a path of its own', c.loc)
        for f, y, v in ws:
            R.inst('place', suffixed(f, v), 'place|path|' + mem, 'a new file and one that is moved away have paths of their own', line_of(f, y))
    o = P.one(PF + 'openWrite'); R.saw(o.id)
    for b, i, y in [(b.id, i, y) for b, i, y in o.nodes() if asg_parts(o, y) is not None and is_mem(strip(o, asg_parts(o, y)[0]), PF + 'f')]:
        g = gather_defs(o, asg_parts(o, y)[1])
        opens = [z for z in g if z['k'] == 'call' and z.get('n') in ('open', 'open64', 'fopen', 'fopen64', 'creat', 'mkstemp')]
        R.inst('place', bool(opens) and all(comes(o, z['a'][0], 'filePathTemp') and not comes(o, z['a'][0], 'filePath') for z in opens), 'place|new', 'what is written goes to the new file', line_of(o, y))
        for z in opens:
            v = const_val(strip(o, z['a'][1])) if z['n'].startswith('open') else None
            R.inst('place', v is None or v & 0o1000, 'place|empty', 'the new file starts empty', line_of(o, z))
    must(P, R, 'place', o, lambda fn, y, q=None: asg_parts(fn, y) is not None and is_mem(strip(fn, asg_parts(fn, y)[0]), PF + 'openMode') and enum_name(strip(fn, asg_parts(fn, y)[1])) == PF + 'FileMode::write', 'mode', 'a file that is written is known to be')


def suffixed(f, x):
    """the text is more than the path alone: a constant part is added"""
    for z in gather_defs(f, x):
        if z['k'] == 'call' and base_name(z.get('n') or '') == 'formatString':
            s = strconst(f, z['a'][0])
            if s and s.replace('%s', '').strip('/'):
                return True
        if z['k'] == 'call' and base_name(z.get('n') or '') in ('operator+', 'append', 'operator+='):
            s = [strconst(f, a) for a in z['a'] if a is not None and (strip(f, a) or {}).get('k') in ('str', 'ctor')]
            if any(s):
                return True
        if z['k'] in ('asg', 'bin') and z.get('op') in ('+', '+=') and strconst(f, z):
            return True
    return False


def mismatch(f, pol=True):
    """fact: memcmp of the two hashes is not 0"""
    is_ = result_of('memcmp', 'std::memcmp', 'bcmp', 'CRYPTO_memcmp')
    return lambda q, fn, n, pt, ctx: (n[0], num(n[2])) == (('!=' if pol else '=='), 0) and is_(q, fn, n[1], pt, ctx)


# ---------------------------------------------------------------------------------------------- positions in the file
HEAD, HASH, MAGIC = 96, 64, 32


def positions(P, f, start=None):
    """{(block, point): position before it}; a number, ('data', n) = at or after n, or None"""
    inp = {f.entry: start}
    seen = set()
    wl = [f.entry]
    at = {}
    nd = {}
    for b, i, y in f.nodes():
        nd.setdefault(b.id, []).append((i, y))

    def join(a, b):
        if a == b:
            return a
        la, lb = (a[1] if isinstance(a, tuple) else a), (b[1] if isinstance(b, tuple) else b)
        if la is not None and la == lb and a != 'any' and b != 'any':
            return ('data', la)
        return 'any'

    def isfile(y, k):
        return k < len(y['a']) and comes(f, y['a'][k], 'f')

    def size(y, a, b):
        s, n = val(f, y['a'][a]), val(f, y['a'][b])
        return s * n if s is not None and n is not None else None

    def tr(p, y):
        if y['k'] != 'call':
            return p
        nm = y.get('n')
        bn = base_name(nm or '')
        if nm in ('fseek', 'fseeko') and isfile(y, 0):
            wh, off = const_val(strip(f, y['a'][2])), const_val(strip(f, y['a'][1]))
            if wh == 0 and off is not None:
                return off
            return 'any'
        if nm == 'rewind' and isfile(y, 0):
            return 0
        if nm in ('fread', PF + 'readCheck', 'fwrite', PF + 'writeCheck') and isfile(y, 3):
            n = size(y, 1, 2)
            if isinstance(p, int) and n is not None:
                return p + n
            if p == 'any' or p is None:
                return p
            return ('data', p if isinstance(p, int) else p[1])
        if nm in (PF + 'verifyHash', PF + 'hashFile'):
            return 'any'
        return p
    first = True
    while wl:
        b = wl.pop()
        p = inp[b]
        last = None
        for i, e in nd.get(b, []):
            if i != last:
                at[(b, i)] = p
                last = i
            p = tr(p, e)
        for t, k in f.blocks[b].succ:
            if t is None or k == 'eh':
                continue
            n = p if t not in inp else join(inp[t], p)
            if t not in inp or n != inp[t]:
                inp[t] = n
                wl.append(t)
    at['exit'] = inp.get(f.exit)
    return at


def val(f, x):
    x = strip(f, x)
    if x is None:
        return None
    v = const_val(x)
    if v is not None:
        return v
    if x['k'] == 'var':
        # the length of the digest: a number that is compared with the size of a hash, everything else being an error
        ds = [d for d in f.defs().get(x['id'], [])]
        if out_len(f, x['id']):
            return HASH
    if x['k'] == 'call' and base_name(x.get('n') or '') in ('length', 'size'):
        return None
    return None


def out_len(f, vid):
    """the variable is the length the digest function put there, and any other than that of a hash is an error"""
    fin = [y for _, _, y in calls(f, 'EVP_DigestFinal_ex', 'EVP_DigestFinal')]
    if not any(any(z['k'] == 'var' and z['id'] == vid for z in f.walk(y['a'][2], True)) for y in fin):
        return False
    for b in f.blocks:
        for si in range(len(f.blocks[b].succ)):
            for n in facts(f, f.blocks[b], si):
                if n[0] == '==' and isinstance(n[1], dict) and isv(f, n[1], vid) and num(n[2]) == HASH:
                    return True
    return False


def hashing(P, R):
    h, v, o, r = (P.one(PF + n) for n in ('hashFile', 'verifyHash', 'openWrite', 'openRead'))
    R.saw(h.id, v.id, o.id, r.id)
    for f, rule, what in ((h, 'hash', 'stored'), (v, 'verify', 'compared')):
        pos = positions(P, f, 'any')
        ups = calls(f, 'EVP_DigestUpdate')
        init = lambda fn, y, q=None: y['k'] == 'call' and y.get('n') in ('EVP_DigestInit_ex', 'EVP_DigestInit')
        fin = lambda fn, y, q=None: y['k'] == 'call' and y.get('n') in ('EVP_DigestFinal_ex', 'EVP_DigestFinal')
        if not ups:
            R.bad(rule, rule + '|none', 'the contents are hashed', f.loc); continue
        use = [(b, i, y) for b, i, y in (calls(f, PF + 'writeCheck') if f is h else calls(f, 'memcmp', 'std::memcmp', 'bcmp', 'CRYPTO_memcmp'))]
        if not use:
            R.bad(rule, rule + '|unused', 'the hash is ' + what, f.loc); continue
        for b, i, y in calls(f, 'EVP_DigestInit_ex', 'EVP_DigestInit'):
            R.inst(rule, any(z['k'] == 'mem' and z['n'] == PF + 'sha512' for z in gather_defs(f, y['a'][1])), rule + '|algorithm', 'both use the same hash function', line_of(f, y))
        # what is hashed is what was read, from the end of the header
        rd = calls(f, 'fread')
        for b, i, y in ups:
            lens = gather_defs(f, y['a'][2])
            src = [z for z in lens if z['k'] == 'call' and z.get('n') == 'fread']
            R.inst(rule, bool(src), rule + '|length', 'as much as was read is hashed', line_of(f, y))
            for z in src:
                R.inst(rule, [w['n'] for w in gather_defs(f, z['a'][0]) if w['k'] == 'mem'] == [w['n'] for w in gather_defs(f, y['a'][1]) if w['k'] == 'mem'] and const_val(strip(f, z['a'][1])) == 1, rule + '|buffer', 'what was read is hashed', line_of(f, z))
            R.inst(rule, not reaches(P, f, (f.entry, -1), [(b, i)], node=init), rule + '|init', 'hashing starts afresh', line_of(f, y))
        for b, i, y in rd:
            p = pos.get((b, i))
            R.inst(rule, (p[1] if isinstance(p, tuple) else p) == HEAD, rule + '|from', 'hashing starts right after the header', line_of(f, y))
            # every read is hashed before the next one, and before the end
            nxt = [(b2, i2) for b2, i2, _ in rd] + [(b2, i2) for b2, i2, z in calls(f, 'EVP_DigestFinal_ex', 'EVP_DigestFinal')]
            R.inst(rule, not any(reaches(P, f, (b, i), [g], node=lambda fn, z, q=None: z['k'] == 'call' and z.get('n') == 'EVP_DigestUpdate') for g in nxt), rule + '|each', 'everything that is read is hashed', line_of(f, y))
            # and errors are
            R.inst(rule, not any(reaches(P, f, (b, i), [g], cond=flagged('ferror')) for g in nxt), rule + '|error', 'an error in reading is an error', line_of(f, y))
        for b, i, y in calls(f, 'EVP_DigestFinal_ex', 'EVP_DigestFinal'):
            ended = lambda q, fn, n, pt, ctx: (n[0], num(n[2])) == ('!=', 0) and result_of('feof')(q, fn, n[1], pt, ctx) or result_of('fread')(q, fn, n[1], pt, ctx) and (n[0], num(n[2])) in (('==', 0), ('<=', 0), ('<', 1)) or n[0] == '<' and result_of('fread')(q, fn, n[1], pt, ctx)
            R.inst(rule, not reaches(P, f, (f.entry, -1), [(b, i)], cond=ended), rule + '|all', 'up to the end of the file', line_of(f, y))
        for b, i, y in use:
            R.inst(rule, not reaches(P, f, (f.entry, -1), [(b, i)], node=fin), rule + '|final', 'the hash is finished before it is ' + what, line_of(f, y))
        dig = {z['id'] for _, _, y in calls(f, 'EVP_DigestFinal_ex', 'EVP_DigestFinal') for z in f.walk(y['a'][1], True) if z['k'] == 'var'}
        vs = lambda x: {z['id'] for z in f.walk(x, True) if z['k'] == 'var'}
        if f is h:
            for b, i, y in use:
                R.inst(rule, bool(vs(y['a'][0]) & dig) and (val(f, y['a'][1]) or 0) * (val(f, y['a'][2]) or 0) == HASH, 'hash|written', 'the whole hash is stored', line_of(f, y))
                R.inst(rule, pos.get((b, i)) == MAGIC, 'hash|place', 'at its place in the header', line_of(f, y))
            must(P, R, 'hash', h, lambda fn, y, q=None: is_call(y, PF + 'writeCheck'), 'stored', 'the hash is stored')
        else:
            for b, i, y in use:
                d = [k for k in (0, 1) if vs(y['a'][k]) & dig]
                R.inst(rule, len(d) == 1 and val(f, y['a'][2]) == HASH, 'verify|whole', 'the whole hash is compared', line_of(f, y))
                if len(d) != 1:
                    continue
                disk = vs(y['a'][1 - d[0]])
                rs = [(b2, i2, z) for b2, i2, z in calls(f, PF + 'readCheck') if vs(z['a'][0]) & disk]
                R.inst(rule, bool(rs) and all(pos.get((b2, i2)) == MAGIC and (val(f, z['a'][1]) or 0) * (val(f, z['a'][2]) or 0) == HASH for b2, i2, z in rs), 'verify|stored', 'with the one in the header', line_of(f, y))
                R.inst(rule, not reaches(P, f, (f.entry, -1), [(b, i)], node=lambda fn, z, q=None: any(z is w for _, _, w in rs)), 'verify|read', 'which is read first', line_of(f, y))
            R.inst(rule, not normal_exit(P, f, mismatch(f, False), eh=False), 'verify|equal', 'a file whose hash is wrong is not used', f.loc)
            mv = lambda fn, y, q=None: y['k'] == 'call' and y.get('n') == 'rename' and comes(fn, y['a'][0], 'filePath') and comes(fn, y['a'][1], 'filePathCorrupt')
            mm = mismatch(f)
            q = Query(P, cut_node=mv, eh=False)
            edges = [(b, si) for b in f.blocks for si, (t, k) in enumerate(f.blocks[b].succ) if t is not None and k == 'n' and any(mm(q, f, n, (b, len(f.blocks[b].elems)), ROOT) for n in facts(f, f.blocks[b], si))]
            if not edges:
                R.bad(rule, 'verify|aside', 'a corrupt file is kept, under another name', f.loc)
            for b, si in edges:
                t = f.blocks[b].succ[si][0]
                R.inst(rule, not any(q.reach_point(f, (t, -1), (b2.id, i2), ROOT, None) for b2, i2, z in f.nodes() if z['k'] in ('throw', 'ret')), 'verify|aside', 'a corrupt file is kept, under another name', f.loc)
    # the layout of the file
    pos = positions(P, o, 0)
    R.inst('hash', pos['exit'] == HEAD, 'hash|layout', 'what is written starts right after the header', o.loc)
    ws = calls(o, PF + 'writeCheck')
    ver = [(b, i, y) for b, i, y in ws if any(z['k'] == 'var' and z['id'] == o.params[0]['id'] for z in gather_defs(o, y['a'][0]))]
    R.inst('hash', bool(ver) and all(pos.get((b, i)) == 0 for b, i, y in ver), 'hash|version', 'the version is at the start', o.loc)
    pos = positions(P, r, 0)
    R.inst('verify', pos['exit'] == HEAD, 'verify|layout', 'what is read starts right after the header', r.loc)
    vh = lambda fn, y, q=None: is_call(y, PF + 'verifyHash')
    must(P, R, 'verify', r, vh, 'always', 'a file is verified when it is opened')
    for b, i, y in calls(r, PF + 'readCheck', 'fread'):
        R.inst('verify', not reaches(P, r, (r.entry, -1), [(b, i)], node=vh), 'verify|before', 'before anything is read from it', line_of(r, y))
        R.inst('verify', isinstance(pos.get((b, i)), int) and pos[(b, i)] == 0, 'verify|version', 'the version is at the start', line_of(r, y))
    for f in P.fns.values():
        for b, i, y in calls(f, PF + 'verifyHash', PF + 'openRead'):
            R.inst('verify', not in_try_any(f, b) or f.q not in (PF + 'openRead',) and not f.q.endswith('::openRead'), 'verify|kept|%s' % f.q, 'a file that is wrong is not used all the same', line_of(f, y))


def load(P, R):
    r = P.one(PF + 'openRead')
    for cls in SUBS[1:]:
        f = P.one(cls + '::openRead'); R.saw(f.id)
        must(P, R, 'load', f, lambda fn, y, q=None: is_call(y, PF + 'openRead'), 'open|' + cls, 'opening verifies')
        ver = lambda q, fn, n, pt, ctx: n[0] == '==' and any(is_mem(strip(fn, x), PF + 'detectedVersionString') for x in n[1:] if isinstance(x, dict)) or (lambda s: s is not None and s['k'] == 'call' and base_name(s['n']) == 'operator==' and tr_(fn, n) is True and any(z['k'] == 'mem' and z['n'] == PF + 'detectedVersionString' for z in fn.walk(s, True)))(strip(fn, n[1]) if isinstance(n[1], dict) else None)
        R.inst('load', not normal_exit(P, f, ver, eh=False), 'load|version|' + cls, 'a file of an unknown version is not used', f.loc)
        for b, i, y in [(b.id, i, y) for b, i, y in f.nodes() if y['k'] == 'call' and (y.get('n') or '').startswith(PF + 'read')]:
            R.inst('load', not reaches(P, f, (f.entry, -1), [(b, i)], node=lambda fn, z, q=None: is_call(z, PF + 'openRead')), 'load|first|' + cls, 'nothing is read before', line_of(f, y))
    # who swallows what
    n = 0
    for f in P.fns.values():
        if any(f.q.startswith(s + '::') for s in SUBS):
            continue
        for b, i, y in f.nodes():
            if y['k'] == 'call' and y.get('n') in [s + '::openRead' for s in SUBS] + ['SubscriptionStore::loadRetainedMessages', 'SubscriptionStore::loadSessionsAndSubscriptions', 'loadBridgeInfo']:
                n += 1
                bad = swallowed(f, b.id)
                R.inst('load', not bad, 'load|swallow|%s|%s' % (f.q, base_name(y['n'])), 'only a file that is not there is passed over', line_of(f, y), None if not bad else ['handler of ' + bad])
    if not n:
        raise AnalysisError('no state file is loaded')
    nt = [(b.id, i, y) for b, i, y in r.nodes() if y['k'] == 'throw' and 'CantBeOpened' in (y.get('t') or '') + str((strip(r, y.get('e')) or {}).get('n'))]
    thr = [(f, b.id, i, y) for f in P.fns.values() for b, i, y in f.nodes() if y['k'] == 'throw' and any('PersistenceFileCantBeOpened' in (z.get('n') or '') + (z.get('t') or '') for z in ([y] + list(f.walk(y.get('e'), True) if y.get('e') is not None else [])))]
    if not thr:
        raise AnalysisError('PersistenceFileCantBeOpened is not thrown')
    noopen = lambda q, fn, n, pt, ctx: n[0] == '==' and (is_mem(strip(fn, n[1]), PF + 'f') or result_of('fopen')(q, fn, n[1], pt, ctx)) and (num(n[2]) == 0 or isinstance(n[2], dict) and (strip(fn, n[2]) or {}).get('k') == 'null')
    for f, b, i, y in thr:
        R.inst('load', not reaches(P, f, (f.entry, -1), [(b, i)], cond=noopen), 'load|there|%s' % f.q, 'a file is passed over only when it could not be opened', line_of(f, y))


def swallowed(f, b):
    """a handler for more than a file that is not there ends normally"""
    seen = set()
    thrown = {bl.id for bl, _, y in f.nodes() if y['k'] == 'throw'}

    def go(t):
        if t is None or t == f.exit or t in seen:
            return None
        seen.add(t)
        bl = f.blocks[t]
        if bl.label and bl.label['k'] == 'catch':
            ty = bl.label.get('t') or '...'
            if 'PersistenceFileCantBeOpened' not in ty:
                # rethrown on every path?
                st, sn = [t], set()
                while st:
                    z = st.pop()
                    if z in sn:
                        continue
                    sn.add(z)
                    if z in thrown:
                        continue
                    if z == f.exit:
                        return ty
                    st += [s for s, k in f.blocks[z].succ if s is not None and k == 'n']
                return None
            return None
        for s, k in bl.succ:
            r = go(s)
            if r:
                return r
        return None
    for t, k in f.blocks[b].succ:
        if k == 'eh':
            r = go(t)
            if r:
                return r
    return None


def destroy(P, R, c):
    for cls in SUBS:
        for f in P.fns.values():
            if f.q != '%s::~%s' % (cls, cls):
                continue
            R.saw(f.id)
            for b, i, y in f.nodes():
                if y['k'] == 'call' and base_name(y.get('n') or '') == 'closeFile':
                    R.inst('destroy', in_try(f, b), 'destroy|' + cls, 'an error is caught', line_of(f, y))
    f = P.one(PF + '~PersistenceFile')
    R.inst('destroy', any(is_call(y, PF + 'closeFile') for _, _, y in f.nodes()), 'destroy|closes', 'a file that is still open is closed', f.loc)
    must(P, R, 'destroy', f, lambda fn, y, q=None: y['k'] == 'call' and base_name(y.get('n') or '') == 'closeFile', 'closed', 'a file that is still open is finished')
    rd = P.one('RetainedMessagesDB::~RetainedMessagesDB')
    must(P, R, 'destroy', rd, lambda fn, y, q=None: is_call(y, 'RetainedMessagesDB::closeFile'), 'closed2', 'the retained messages are finished')
