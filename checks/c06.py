"""Every answer of the access checks is traced to its origin: a granting answer needs every consulted source."""
from core.rules import *

GRANT = {'AuthResult::success', 'AuthResult::success_without_retained_delivery', 'AuthResult::success_without_setting_retained', 'AuthResult::success_but_drop'}


def plugin_call(fn, y):
    """an indirect call through one of the plugin function pointers"""
    return y['k'] == 'call' and y.get('f') is not None and y.get('id') is None and any(z['k'] == 'mem' and z.get('n', '').startswith('Authentication::') for z in fn.walk(y['f'], True))


def pname(fn, y):
    for z in fn.walk(y['f'], True):
        if z['k'] == 'mem' and z['n'].startswith('Authentication::'):
            return base_name(z['n'])
    return '?'


def check(P, R):
    R.rule('answers', 'a check answers with what the plugin said, what the configured file said, a refusal, or an explicitly allowed constant')
    R.rule('file-first', 'the plugin is asked about access only after the ACL file granted it; its denial is final')
    R.rule('initialized', 'the plugin is not called before its initialization completed, and an uninitialized plugin is an error')
    R.rule('no-plugin-success', 'the answer of the files alone counts only when no plugin is configured (or the password file matched)')
    R.rule('exceptions', 'an exception of the plugin becomes an error answer')
    R.rule('internal', 'only write checks of messages without a client id are approved unasked')
    R.rule('password', 'the password file approves only a user it contains whose salted hash equals the stored one')
    R.rule('acl-file', 'with an ACL file configured, only subscribing is approved without consulting it; reading and writing use the matching permission')
    R.rule('load', 'a rejected ACL file is never used in part; a password file is replaced only as a whole')
    init = tmem('Authentication::initialized', True)
    nop = compares('Authentication::pluginFamily', ('==', 'PluginFamily::None'))
    acl = [f for f in P.fn('Authentication::aclCheck') if len(f.params) > 6]
    aclp = [f for f in P.fn('Authentication::aclCheck') if len(f.params) <= 6]
    if len(acl) != 1 or len(aclp) != 1:
        raise AnalysisError('Authentication::aclCheck overloads')
    acl = acl[0]; aclp = aclp[0]
    login = P.one('Authentication::loginCheck'); ext = P.one('Authentication::extendedAuth')
    fileacl = P.one('Authentication::aclCheckFromMosquittoAclFile'); filepw = P.one('Authentication::loginCheckFromMosquittoPasswordFile')
    q0 = Query(P)
    filecall = lambda fn, y: is_call(y, fileacl.q)
    fileok = result_in(filecall, {'AuthResult::success'})
    for f in (acl, login, ext):
        guarded(P, R, 'initialized', [f], plugin_call, cut_cond=init, what='plugin initialized', key=f.q, label=pname)
    guarded(P, R, 'file-first', [acl], plugin_call, cut_cond=fileok, what='ACL file granted it', key='file', label=pname)
    # the answers
    for f in (acl, login, ext):
        for fn, b, i, y in returns(P, f):
            for g, s, p, c in q0.sources(fn, y['e'], (b.id, i), ROOT):
                loc = line_of(g, s) if s and s.get('l') else line_of(fn, y)
                d = show(g, s)[:70] if s else '?'
                if s is None:
                    R.bad('answers', 'answers|%s' % f.q, 'answer %s' % d, loc); continue
                if s['k'] == 'enum':
                    if s['n'] not in GRANT:
                        R.ok('answers', 'refusal %s' % s['n'], loc); continue
                    # a granting constant: judged by the guard rules below
                    continue
                if plugin_call(g, s) or (s['k'] == 'call' and is_call(s, fileacl.q, filepw.q)):
                    R.ok('answers', 'answer of %s' % (pname(g, s) if plugin_call(g, s) else s['n']), loc); continue
                if s['k'] == 'call' and base_name(s['n']) in ('value', 'operator*') and any(is_call(strip_ptr(g, z), filepw.q) for _, z, _, _ in q0.sources(g, strip_ptr(g, s['o']), p, c)):
                    R.ok('answers', 'answer of the password file', loc); continue
                R.bad('answers', 'answers|%s|%s' % (f.q, s['k']), '%s answers with %s' % (f.q, d), loc)
    # granting constants and results of the file that are returned
    mosq = compares('Authentication::pluginFamily', ('==', 'PluginFamily::MosquittoV2'))
    nocheck = any_of(*[lambda q, fn, n, pt, ctx, v=v: n[0] == '==' and enum_name(n[2]) == v and (strip(fn, n[1]) or {}).get('t', '').replace('const ', '') == 'AclAccess' for v in ('AclAccess::subscribe', 'AclAccess::register_will')])

    def ret_grant_const(fn, y):
        return y['k'] == 'ret' and y.get('e') is not None and fn.id == acl.id and enum_name(strip(fn, y['e'])) in GRANT
    guarded(P, R, 'answers', [acl], ret_grant_const, cut_cond=mosq, what='constant approval only for old plugins', key='mosq', minimum=0)
    guarded(P, R, 'answers', [acl], ret_grant_const, cut_cond=nocheck, what='constant approval only for what the old plugins cannot decide', key='kind', minimum=0)
    guarded(P, R, 'file-first', [acl], ret_grant_const, cut_cond=fileok, what='ACL file granted it', key='const', minimum=0)
    guarded(P, R, 'initialized', [acl], ret_grant_const, cut_cond=init, what='plugin initialized', key='const', minimum=0)

    def ret_file(fn, y):
        if y['k'] != 'ret' or y.get('e') is None or fn.id != acl.id:
            return False
        pt = pts(fn)[id(y)]
        return any(s is not None and filecall(g, s) for g, s, _, _ in q0.sources(fn, y['e'], pt, ROOT))
    denied = lambda q, fn, n, pt, ctx: n[0] == '!=' and enum_name(n[2]) == 'AuthResult::success' and q.from_call(fn, n[1], pt, ctx, filecall)
    guarded(P, R, 'no-plugin-success', [acl], ret_file, cut_cond=any_of(nop, denied), what='no plugin, or the file denied it', key='acl')
    # login
    pwcall = lambda fn, y: is_call(y, filepw.q)

    def ret_first(fn, y):
        if y['k'] != 'ret' or y.get('e') is None or fn.id != login.id:
            return False
        pt = pts(fn)[id(y)]
        return any(s is not None and (s['k'] == 'enum' and s['n'] in GRANT) for g, s, _, _ in q0.sources(fn, y['e'], pt, ROOT))
    configured = truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and has_mem(fn, x['o'], 'Authentication::mosquittoPasswordFile'), False)
    guarded(P, R, 'no-plugin-success', [login], ret_first, cut_cond=any_of(nop, configured), what='no plugin, or a password file decided', key='login', minimum=0)
    anonp = [p for p in login.params if p['t'].replace('const ', '') == 'bool']
    R.inst('no-plugin-success', len(anonp) == 1, 'no-plugin-success|param', 'the login check is told whether anonymous access is allowed', login.loc)

    def const_grant(fn, y):
        return fn.id == login.id and y['k'] == 'cond' and enum_name(strip(fn, y['a'])) in GRANT | {None} and (enum_name(strip(fn, y['a'])) in GRANT or enum_name(strip(fn, y['b'])) in GRANT)
    found = False
    for b, i, y in login.nodes():
        if const_grant(login, y):
            found = True
            n = norm(login, y['c'], True)
            lhs = strip(login, n[1])
            isanon = lhs is not None and lhs['k'] == 'var' and lhs['id'] == anonp[0]['id'] and const_val(n[2]) in (0, 1)
            pos = (n[0] == '!=') == (const_val(n[2]) == 0)
            grant_true = enum_name(strip(login, y['a'])) in GRANT
            R.inst('no-plugin-success', isanon and pos == grant_true, 'no-plugin-success|anon', 'without other information, approval equals "anonymous allowed"', line_of(login, y))
    isanon = truth(lambda q, fn, x: x['k'] == 'var' and anonp and x['id'] == anonp[0]['id'], True)

    def stmt_grant(fn, y):
        if fn.id != login.id:
            return False
        if y['k'] == 'ret':
            return enum_name(strip(fn, y.get('e'))) in GRANT
        ap = asg_parts(fn, y)
        if ap:
            return enum_name(strip(fn, ap[1])) in GRANT
        return y['k'] == 'decl' and any(enum_name(strip(fn, v.get('e'))) in GRANT for v in y['d'] if v.get('e') is not None)
    guarded(P, R, 'no-plugin-success', [login], stmt_grant, cut_cond=any_of(isanon), what='constant approval only when anonymous access is allowed', key='const', minimum=0)
    # a user in the password file with a wrong password is not approved as anonymous
    known = truth(lambda q, fn, x: any(s is not None and is_call(strip_ptr(fn, s), filepw.q) for _, s, _, _ in q.sources(fn, strip_ptr(fn, x), pts(fn).get(id(x), (fn.entry, 0)), ROOT)), False)
    uses = lambda fn, y, q: bool(asg_parts(fn, y)) and fn.id == login.id and asg_parts(fn, y)[1] is not None and any(is_call(strip_ptr(fn, s), filepw.q) for _, s, _, _ in q0.sources(fn, strip_ptr(fn, asg_parts(fn, y)[1]), pts(fn)[id(y)], ROOT) if s is not None)
    notconf = truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and has_mem(fn, x['o'], 'Authentication::mosquittoPasswordFile'), True)
    retf = lambda fn, y: fn.id == login.id and y['k'] == 'ret' and y.get('e') is not None and (strip(fn, y['e']) or {}).get('k') == 'var'
    guarded(P, R, 'password', [login], retf, cut_cond=any_of(known, notconf), cut_node=uses, what='the answer of the password file replaces the default', key='replace', minimum=0)
    # exceptions
    for f in (acl, login, ext):
        for g in [f] + [t for t in P.reachable_fns([f]) if False]:
            for b, i, y in g.nodes():
                if plugin_call(g, y):
                    R.inst('exceptions', in_try(g, b), 'exceptions|%s|%s' % (f.q, pname(g, y)), 'a plugin exception from %s is contained' % pname(g, y), line_of(g, y)) if not pname(g, y).endswith('check_v2') or 'flashmq' in pname(g, y) else None
    # internal approval
    q1 = q0

    def grants(fn, y):
        ap = asg_parts(fn, y)
        return fn.id == aclp.id and ((bool(ap) and enum_name(strip(fn, ap[1])) in GRANT) or (y['k'] == 'ret' and enum_name(strip(fn, y.get('e'))) in GRANT))
    wr = lambda q, fn, n, pt, ctx: n[0] == '==' and enum_name(n[2]) == 'AclAccess::write'
    noid = truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and has_mem(fn, x['o'], 'Publish::client_id'), True)
    guarded(P, R, 'internal', [aclp], grants, cut_cond=wr, what='only for write checks', key='write', minimum=0)
    guarded(P, R, 'internal', [aclp], grants, cut_cond=noid, what='only without a client id', key='noid', minimum=0)
    for fn, b, i, y in returns(P, aclp):
        for g, s, p, c in q0.sources(fn, y['e'], (b.id, i), ROOT):
            R.inst('internal', s is not None and (is_call(s, 'Authentication::aclCheck') or s['k'] == 'enum'), 'internal|source', 'the answer is that of the full check', line_of(fn, y))
    for b, i, y in aclp.nodes():
        if is_call(y, 'Authentication::aclCheck'):
            for k, fld in ((0, 'Publish::client_id'), (1, 'Publish::username'), (2, 'Publish::topic')):
                R.inst('internal', has_mem(aclp, arg(y, k), fld), 'internal|arg|' + fld, 'the check is about the message (%s)' % fld, line_of(aclp, y))
            acc = [s for s in y['a'] if (strip(aclp, s) or {}).get('t', '').replace('const ', '') == 'AclAccess']
            R.inst('internal', len(acc) == 1 and strip(aclp, acc[0])['k'] == 'var', 'internal|arg|access', 'the kind of access asked for is passed on', line_of(aclp, y))
    # password file
    pg = lambda fn, y: fn.id == filepw.id and ((bool(asg_parts(fn, y)) and enum_name(strip(fn, asg_parts(fn, y)[1])) in GRANT) or (y['k'] == 'ret' and enum_name(strip(fn, y.get('e'))) in GRANT) or (y['k'] == 'decl' and any(enum_name(strip(fn, v.get('e'))) in GRANT for v in y['d'] if v.get('e') is not None)))
    stored = lambda q, fn, e, pt, ctx: any(s is not None and has_mem(g, s, 'MosquittoPasswordFileEntry::cryptedPassword') for g, s, _, _ in q.sources(fn, e, pt, ctx))
    eq = lambda q, fn, n, pt, ctx: n[0] == '==' and (stored(q, fn, n[1], pt, ctx) != stored(q, fn, n[2], pt, ctx))
    fnd = lambda q, fn, n, pt, ctx: n[0] == '!=' and any(strip_ptr(fn, e) is not None and ((strip_ptr(fn, e)['k'] == 'call' and base_name(strip_ptr(fn, e).get('n', '')) == 'end')) for e in (n[1], n[2]))
    fnd2 = truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) in ('contains', 'count'), True)
    guarded(P, R, 'password', [filepw], pg, cut_cond=eq, what='hashes equal', key='hash')
    guarded(P, R, 'password', [filepw], pg, cut_cond=any_of(fnd, fnd2), what='user found', key='user')
    hashed = lambda fn, y: is_call(y, 'EVP_DigestUpdate') or is_call(y, 'PKCS5_PBKDF2_HMAC')
    n = 0
    for b, i, y in filepw.nodes():
        if is_call(y, 'PKCS5_PBKDF2_HMAC'):
            R.inst('password', refers(filepw, arg(y, 0), filepw.params[1]) and refers(filepw, arg(y, 1), filepw.params[1]) and under_mem(filepw, arg(y, 2), 'salt') and under_mem(filepw, arg(y, 4), 'iterations'), 'password|pbkdf2', 'key derived from the whole password, salt and iterations', line_of(filepw, y)); n += 1
    upd = [y for b, i, y in filepw.nodes() if is_call(y, 'EVP_DigestUpdate')]
    if upd:
        R.inst('password', any(refers(filepw, arg(y, 1), filepw.params[1]) and refers(filepw, arg(y, 2), filepw.params[1]) for y in upd) and any(under_mem(filepw, arg(y, 1), 'salt') for y in upd), 'password|digest', 'digest covers the whole password and the salt', line_of(filepw, upd[0]))
    noent = truth(lambda q, fn, x: has_mem(fn, x, 'Authentication::mosquittoPasswordEntries'), True)
    deref = lambda fn, y: fn.id == filepw.id and y['k'] == 'call' and base_name(y.get('n', '')) in ('find', 'at', 'contains', 'count') and y.get('o') is not None and has_mem(fn, y['o'], 'Authentication::mosquittoPasswordEntries')
    guarded(P, R, 'password', [filepw], deref, cut_cond=noent, what='a password file was loaded', key='loaded')
    for fn, b, i, y in returns(P, filepw):
        e = strip(fn, y['e'])
        bad = False
        noload = Query(P, target=lambda f2, z, y=y: z is y, cut_cond=noent); noload.run([filepw])
        if noload.hits and not any(s is not None and s['k'] == 'enum' and s['n'] not in GRANT for _, s, _, _ in q0.sources(fn, e, (b.id, i), ROOT)):
            bad = True
        R.inst('password', not bad, 'password|fail', 'without a loaded password file logins are refused', line_of(fn, y))
    # ACL file
    ag = lambda fn, y: fn.id == fileacl.id and y['k'] == 'ret' and enum_name(strip(fn, y.get('e'))) in GRANT
    nofile = truth(lambda q, fn, x: x['k'] == 'call' and base_name(x.get('n', '')) == 'empty' and has_mem(fn, x['o'], 'Authentication::mosquittoAclFile'), True)
    sub = lambda q, fn, n_, pt, ctx: n_[0] == '==' and enum_name(n_[2]) == 'AclAccess::subscribe'
    guarded(P, R, 'acl-file', [fileacl], ag, cut_cond=any_of(nofile, sub), what='no ACL file, or a subscribe', key='approve', minimum=0)
    for fn, b, i, y in returns(P, fileacl):
        for g, s, p, c in q0.sources(fn, y['e'], (b.id, i), ROOT):
            good = s is not None and (s['k'] == 'enum' or is_call(s, 'AclTree::findPermission'))
            R.inst('acl-file', good, 'acl-file|answer', 'the answer is that of the ACL tree', line_of(fn, y))
    for b, i, y in fileacl.nodes():
        if is_call(y, 'AclTree::findPermission'):
            okargs = all(refers(fileacl, arg(y, k), fileacl.params[j]) for k, j in ((0, 2), (2, 1), (3, 0)))
            R.inst('acl-file', okargs, 'acl-file|args', 'the tree is asked about this topic, user and client', line_of(fileacl, y))
            w = write_needs_write(P, fileacl, arg(y, 1), (b.id, i))
            R.inst('acl-file', w, 'acl-file|perm', 'write access needs write permission and reading needs read permission', line_of(fileacl, y))
    # loading
    ld = P.one('Authentication::loadMosquittoAclFile')
    sets = writes_to('Authentication::aclTree')
    touched = [(f, y) for f, b, i, y in sites_of(P, lambda fn, y: not fn.is_ctor and (sets(fn, y) or (y['k'] == 'call' and y.get('o') is not None and is_mem(strip(fn, y['o']), 'Authentication::aclTree') and base_name(y['n']) == 'addTopic')))]
    R.inst('load', all(sets(f, y) for f, y in touched) and bool(touched), 'load|whole', 'the ACL tree is replaced as a whole', ld.loc)
    for f, y in touched:
        bl = [b for b, i, z in f.nodes() if z is y]
        incatch = any(in_catch(f, b) or after_catch(f, b) for b in bl)
        R.inst('load', not incatch, 'load|error', 'a tree is not installed after an error', line_of(f, y))
    lp = P.one('Authentication::loadMosquittoPasswordFile')
    ps = [(f, y) for f, b, i, y in sites_of(P, writes_to('Authentication::mosquittoPasswordEntries')) if not f.is_ctor]
    R.inst('load', bool(ps) and all(not any(in_catch(f, b) for b, i, z in f.nodes() if z is y) for f, y in ps), 'load|passwd', 'the password entries are replaced only by a completely read file', lp.loc)


_pts = {}


def pts(fn):
    r = _pts.get(fn.id)
    if r is None or r[0] is not fn:
        r = (fn, {id(y): (b.id, i) for b, i, y in fn.nodes()}); _pts[fn.id] = r
    return r[1]


def returns(P, f):
    return [(f, b, i, y) for b, i, y in f.nodes() if y['k'] == 'ret' and y.get('e') is not None]


def in_try(fn, b):
    """the block has an exceptional edge that leads to a catch of everything or of std::exception"""
    seen = set(); st = [b.id]
    for t, k in b.succ:
        if k == 'eh' and t is not None:
            return catches(fn, t)
    return False


def catches(fn, t, depth=0):
    if depth > 20 or t is None:
        return False
    bl = fn.blocks[t]
    if bl.label and bl.label['k'] == 'catch':
        ty = bl.label.get('t') or ''
        return ty == '' or ty == '...' or 'std::exception' in ty
    if t == fn.exit:
        return False
    return any(catches(fn, s, depth + 1) for s, k in bl.succ if s is not None)


def in_catch(fn, b):
    """every path to b starts in a handler"""
    seen = set(); st = [fn.entry]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if fn.blocks[x].label and fn.blocks[x].label['k'] == 'catch':
            continue
        for t, k in fn.blocks[x].succ:
            if t is not None and k not in ('dead', 'eh', 'catch'):
                st.append(t)
    return b.id not in seen


def after_catch(fn, b):
    """b can be reached from a handler of the same function"""
    seen = set(); st = [x.id for x in fn.blocks.values() if x.label and x.label['k'] == 'catch']
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(t for t, k in fn.blocks[x].succ if t is not None and k not in ('dead', 'eh', 'catch'))
    return b.id in seen


def refers(fn, x, p):
    return any(z['k'] == 'var' and z.get('id') == p['id'] for z in fn.walk(x, True)) if x is not None else False


def under_mem(fn, x, name):
    return any(z['k'] == 'mem' and base_name(z['n']) == name for z in fn.walk(x, True)) if x is not None else False


def write_needs_write(P, fn, x, pt):
    """value x: AclGrant::Write whenever access==write, AclGrant::Read whenever access==read"""
    q = Query(P)
    x = strip(fn, x)
    exprs = [x]
    if x['k'] == 'var':
        exprs = [strip(fn, d[3]) for d in (q.reaching_defs(fn, x['id'], pt) or []) if d[3] is not None]
    if len(exprs) == 1 and exprs[0]['k'] == 'cond':
        e = exprs[0]
        n = norm(fn, e['c'], True)
        v = enum_name(n[2])
        a, b = enum_name(strip(fn, e['a'])), enum_name(strip(fn, e['b']))
        if n[0] == '!=':
            a, b = b, a
        if v == 'AclAccess::write':
            return a == 'AclGrant::Write' and b == 'AclGrant::Read'
        if v == 'AclAccess::read':
            return a == 'AclGrant::Read' and b == 'AclGrant::Write'
        return None is not None
    # statement form: judged by guards
    ok = True
    for want, grant in (('AclAccess::write', 'AclGrant::Read'), ('AclAccess::read', 'AclGrant::Write')):
        asg = lambda f, y, grant=grant: f.id == fn.id and ((bool(asg_parts(f, y)) and enum_name(strip(f, asg_parts(f, y)[1])) == grant) or (y['k'] == 'decl' and any(enum_name(strip(f, v_.get('e'))) == grant for v_ in y['d'] if v_.get('e') is not None)))
        iswant = lambda q_, f, n_, p_, c_, want=want: n_[0] == '==' and enum_name(n_[2]) == want
        notwant = lambda q_, f, n_, p_, c_, want=want: (n_[0] == '!=' and enum_name(n_[2]) == want) or (n_[0] == '==' and (enum_name(n_[2]) or '').startswith('AclAccess::') and enum_name(n_[2]) != want)
        other = 'AclGrant::Write' if grant == 'AclGrant::Read' else 'AclGrant::Read'
        re = lambda f, y, q_, other=other: bool(asg_parts(f, y)) and enum_name(strip(f, asg_parts(f, y)[1])) == other
        qq = Query(P, target=lambda f, y: is_call(y, 'AclTree::findPermission'), cut_cond=notwant, cut_node=re)
        # from each assignment of the wrong grant, can findPermission be reached while access may be `want`?
        for b, i, y in fn.nodes():
            if asg(fn, y):
                qq.hits = []
                pre = Query(P, target=lambda f, z, y=y: z is y, cut_cond=notwant); pre.run([fn])
                if not pre.hits:
                    continue
                qq._walk(fn, (b.id, i), ROOT, True, [])
                if qq.hits:
                    ok = False
    return ok
