"""The configuration file: every documented key does what its value says, wrong ones are refused, and nothing is applied by halves."""
from core.rules import *
from core.exc import Escapes
from checks.c11 import must, never
from checks.c18 import strconst
from checks.c20 import facts

TEST = 'ConfigFileParser::testKeyValidity'
U32, U16, I31 = (0, 2**32 - 1), (0, 65535), 2**31 - 1
FILE, DIR, OUT, WDIR = 'ConfigFileParser::checkFileExistsAndReadable', 'ConfigFileParser::checkDirExists', 'ConfigFileParser::checkFileOrItsDirWritable', 'checkWritableDir'
TLS = {'tlsv1.3': 'TLSVersion::TLSv1_3', 'tlsv1.2': 'TLSVersion::TLSv1_2', 'tlsv1.1': 'TLSVersion::TLSv1_1'}
OVER = {'log': 'OverloadMode::Log', 'close_new_clients': 'OverloadMode::CloseNewClients'}
EXC = {'disconnect': 'Mqtt3QoSExceedAction::Disconnect', 'drop': 'Mqtt3QoSExceedAction::Drop'}
INET = {'ip4': 'ListenerProtocol::IPv4', 'ip6': 'ListenerProtocol::IPv6', 'ip4_ip6': 'ListenerProtocol::IPv46'}
RM = 'RetainedMessagesMode::'
# key -> (field, kind of value, details)
LISTEN = {
    'protocol': ('connectionProtocol', 'enum', {'mqtt': 'ConnectionProtocol::Mqtt', 'websockets': 'ConnectionProtocol::WebsocketMqtt', 'acme': 'ConnectionProtocol::AcmeOnly'}),
    'port': ('port', 'num', U16),
    'fullchain': ('sslFullchain', 'str', None), 'privkey': ('sslPrivkey', 'str', None),
    'inet_protocol': ('protocol', 'enum', dict(INET, unix='ListenerProtocol::Unix')),
    'inet4_bind_address': ('inet4BindAddress', 'str', None), 'inet6_bind_address': ('inet6BindAddress', 'str', None),
    'unix_socket_path': ('unixSocketPath', 'str', None), 'unix_socket_user': ('unixSocketUser', 'str', None),
    'unix_socket_group': ('unixSocketGroup', 'str', None), 'unix_socket_mode': ('unixSocketMode', 'octal', None),
    'haproxy': ('haProxyMode', 'enum?', {'client_verification': 'HaProxyMode::HaProxyClientVerification', 'client_verification_with_authn': 'HaProxyMode::HaProxyClientVerficiationWithAuthn', True: 'HaProxyMode::On'}),
    'client_verification_ca_file': ('clientVerificationCaFile', 'str', FILE), 'client_verification_ca_dir': ('clientVerificationCaDir', 'str', DIR),
    'client_verification_still_do_authn': ('clientVerifictionStillDoAuthn', 'bool', None),
    'allow_anonymous': ('allowAnonymous', 'yesno', ('AllowListenerAnonymous::Yes', 'AllowListenerAnonymous::No')),
    'tcp_nodelay': ('tcpNoDelay', 'bool', None), 'minimum_tls_version': ('minimumTlsVersion', 'enum', TLS),
    'overload_mode': ('overloadMode', 'enum', OVER), 'acme_redirect_url': ('acmeRedirectURL', 'str', None),
    'drop_on_absent_certificate': ('dropOnAbsentCertificates', 'bool', None), 'max_buffer_size': ('maxBufferSize', 'num', (0, 1 << 30)),
    'max_qos': ('maxQos', 'num', (0, 2)), 'mqtt3_qos_exceed_action': ('mqtt3QoSExceedAction', 'enum', EXC),
    'only_allow_from': ('exclusiveAllowList', 'net', None), 'deny_from': ('denyList', 'net', None),
}
BRIDGE = {
    'local_username': ('local_username', 'str', None), 'remote_username': ('remote_username', 'str', None), 'remote_password': ('remote_password', 'str', None),
    'remote_clean_start': ('remoteCleanStart', 'bool', None), 'remote_session_expiry_interval': ('remoteSessionExpiryInterval', 'num', U32),
    'remote_retain_available': ('remoteRetainAvailable', 'bool', None), 'local_clean_start': ('localCleanStart', 'bool', None),
    'local_session_expiry_interval': ('localSessionExpiryInterval', 'num', U32), 'subscribe': ('subscribes', 'topic', None), 'publish': ('publishes', 'topic', None),
    'clientid_prefix': ('clientidPrefix', 'str', None), 'use_saved_clientid': ('useSavedClientId', 'bool', None), 'inet_protocol': ('inet_protocol', 'enum', INET),
    'address': ('address', 'str', None), 'fullchain': ('sslFullchain', 'str', FILE), 'privkey': ('sslPrivkey', 'str', FILE), 'ca_file': ('caFile', 'str', FILE), 'ca_dir': ('caDir', 'str', DIR),
    'port': ('port', 'num', U16), 'tls': ('tlsMode', 'enum', {'unverified': 'BridgeTLSMode::Unverified', 'on': 'BridgeTLSMode::On', 'off': 'BridgeTLSMode::None'}),
    'protocol_version': ('protocolVersion', 'enum', {'mqtt3.1': 'ProtocolVersion::Mqtt31', 'mqtt3.1.1': 'ProtocolVersion::Mqtt311', 'mqtt5': 'ProtocolVersion::Mqtt5'}),
    'bridge_protocol_bit': ('bridgeProtocolBit', 'bool', None), 'keepalive': ('keepalive', 'num', (10, 65535)),
    'max_outgoing_topic_aliases': ('maxOutgoingTopicAliases', 'num', U16), 'max_incoming_topic_aliases': ('maxIncomingTopicAliases', 'num', U16),
    'tcp_nodelay': ('tcpNoDelay', 'bool', None), 'local_prefix': ('local_prefix', 'str', None), 'remote_prefix': ('remote_prefix', 'str', None),
    'minimum_tls_version': ('minimumTlsVersion', 'enum', TLS), 'connection_count': ('connection_count', 'count', None), 'max_buffer_size': ('maxBufferSize', 'num', (0, 1 << 30)),
}
MAXP = 268435461
ROOTK = {
    'plugin': ('pluginPath', 'str', FILE), 'plugin_serialize_init': ('pluginSerializeInit', 'bool', None), 'plugin_serialize_auth_checks': ('pluginSerializeAuthChecks', 'bool', None),
    'plugin_timer_period': ('pluginTimerPeriod', 'num', (0, I31)), 'log_file': ('logPath', 'str', OUT), 'quiet': ('quiet', 'bool', None),
    'allow_unsafe_clientid_chars': ('allowUnsafeClientidChars', 'bool', None), 'allow_unsafe_username_chars': ('allowUnsafeUsernameChars', 'bool', None),
    'client_initial_buffer_size': ('clientInitialBufferSize', 'num', (None, None)), 'max_packet_size': ('maxPacketSize', 'num', (0, MAXP)), 'max_qos': ('maxQos', 'num', (0, 2)),
    'mqtt3_qos_exceed_action': ('mqtt3QoSExceedAction', 'enum', EXC), 'log_debug': ('logDebug', 'bool', None), 'log_subscriptions': ('logSubscriptions', 'bool', None), 'log_publishes': ('logPublishes', 'bool', None),
    'log_level': ('logLevel', 'enum', {n.lower(): 'LogLevel::' + n for n in ('Debug', 'Info', 'Notice', 'Warning', 'Error', 'None')}),
    'mosquitto_password_file': ('mosquittoPasswordFile', 'str', FILE), 'mosquitto_acl_file': ('mosquittoAclFile', 'str', FILE), 'allow_anonymous': ('allowAnonymous', 'bool', None),
    'rlimit_nofile': ('rlimitNoFile', 'num', (1, I31)), 'expire_sessions_after_seconds': ('expireSessionsAfterSeconds', 'num', U32), 'thread_count': ('threadCount', 'num', (0, I31)),
    'storage_dir': ('storageDir', 'str', WDIR), 'max_qos_msg_pending_per_client': ('maxQosMsgPendingPerClient', 'num', (32, 65535)), 'max_qos_bytes_pending_per_client': ('maxQosBytesPendingPerClient', 'num', (4096, U32[1])),
    'wills_enabled': ('willsEnabled', 'bool', None),
    'retained_messages_mode': ('retainedMessagesMode', 'enum', {'enabled': RM + 'Enabled', 'enabled_without_persistence': RM + 'EnabledWithoutPersistence', 'enabled_without_retaining': RM + 'EnabledWithoutRetaining', 'downgrade': RM + 'Downgrade', 'drop': RM + 'Drop', 'disconnect_with_error': RM + 'DisconnectWithError'}),
    'retained_messages_node_limit': ('retainedMessagesNodeLimit', 'num', (1, U32[1])),
    'retained_messages_node_creation_limit_enforcement_mode': ('retainedMessagesNodeCreationLimitEnforcementMode', 'enum', {'reject': 'RetainedMessagesNodeCreationLimitEnforcementMode::Reject', 'log': 'RetainedMessagesNodeCreationLimitEnforcementMode::Log'}),
    'retained_messages_node_creation_limit_enforcement_depth': ('retainedMessagesNodeCreationLimitEnforcementDepth', 'num', U16),
    'retained_messages_node_creation_limit': ('retainedMessagesNodeCreationLimit', 'num', (1, U32[1])), 'retained_message_max_payload_size': ('retainedMessageMaxPayloadSize', 'num', (1, U32[1])),
    'expire_retained_messages_after_seconds': ('expireRetainedMessagesAfterSeconds', 'seconds', (1, U32[1])), 'retained_message_node_lifetime': ('retainedMessageNodeLifetime', 'seconds', (0, I31)),
    'websocket_set_real_ip_from': ('setRealIpFrom', 'net', None),
    'shared_subscription_targeting': ('sharedSubscriptionTargeting', 'enum', {'round_robin': 'SharedSubscriptionTargeting::RoundRobin', 'sender_hash': 'SharedSubscriptionTargeting::SenderHash', 'first': 'SharedSubscriptionTargeting::First'}),
    'max_incoming_topic_alias_value': ('maxIncomingTopicAliasValue', 'num', U16), 'max_outgoing_topic_alias_value': ('maxOutgoingTopicAliasValue', 'num', U16),
    'client_max_write_buffer_size': ('clientMaxWriteBufferSize', 'num', (4096, U32[1])), 'minimum_wildcard_subscription_depth': ('minimumWildcardSubscriptionDepth', 'num', U16),
    'max_topic_split_depth': ('maxTopicSplitDepth', 'num', U16),
    'wildcard_subscription_deny_mode': ('wildcardSubscriptionDenyMode', 'enum', {'deny_all': 'WildcardSubscriptionDenyMode::DenyAll', 'deny_retained_only': 'WildcardSubscriptionDenyMode::DenyRetainedOnly'}),
    'zero_byte_username_is_anonymous': ('zeroByteUsernameIsAnonymous', 'bool', None), 'overload_mode': ('overloadMode', 'enum', OVER),
    'max_event_loop_drift': ('maxEventLoopDrift', 'milliseconds', (500, I31)), 'set_retained_message_defer_timeout': ('setRetainedMessageDeferTimeout', 'milliseconds', (0, I31)),
    'set_retained_message_defer_timeout_spread': ('setRetainedMessageDeferTimeoutSpread', 'milliseconds', (0, I31)), 'save_state_interval': ('saveStateInterval', 'seconds', (300, I31)),
    'subscription_node_lifetime': ('subscriptionNodeLifetime', 'seconds', (0, I31)), 'subscription_identifiers_enabled': ('subscriptionIdentifierEnabled', 'bool', None),
    'persistence_data_to_save': ('persistenceDataToSave', 'flags', {'sessions_and_subscriptions': 'PersistenceDataToSave::SessionsAndSubscriptions', 'retained_messages': 'PersistenceDataToSave::RetainedMessages', 'bridge_info': 'PersistenceDataToSave::BridgeInfo'}),
    'max_string_length': ('maxStringLength', 'num', U16),
}
NOTHING = ('rebuild_subscription_tree_interval_seconds', 'expire_retained_messages_time_budget_ms', 'retained_messages_delivery_limit', 'include_dir')     # (accepted, with no effect in here)
LEVELS = {'ConfigFileParser::validListenKeys': ('ConfigParseLevel::Listen', 'Listener::', LISTEN),
          'ConfigFileParser::validBridgeKeys': ('ConfigParseLevel::Bridge', 'BridgeConfig::', BRIDGE),
          'ConfigFileParser::validKeys': (None, 'Settings::', ROOTK)}
ALL = ('ConfigParseLevel::Listen', 'ConfigParseLevel::Bridge')
CHANGES = ('push_back', 'emplace_back', 'setFlag', 'clearFlag', 'setAll', 'clearAll', 'emplace', 'insert', 'assign', 'append', 'clear', 'reset', 'push_front', 'emplace_front', 'pop_back', 'erase')


def check(P, R):
    R.rule('known', 'a line is accepted only when its key is one of those of the block it is in')
    R.rule('applies', 'a valid line sets what its key stands for')
    R.rule('only', 'a setting is changed by the line with its key only')
    R.rule('value', 'what is set is what the value of the line says')
    R.rule('refuse', 'a value that means nothing for the key is an error')
    R.rule('blocks', 'blocks are opened in the root only, are checked when they are closed, and all are closed')
    R.rule('whole', 'settings are replaced by those of a file only when all of it was accepted, and not by testing a file')
    R.rule('reload', 'a file that can not be loaded leaves the running settings as they are')
    F = Loader(P, R)
    F.run()
    primitives(P, R)
    whole(P, R, F.f)
    reload_(P, R)


def const_str(f, x):
    x = strip(f, x)
    while x is not None and x['k'] in ('ctor', 'tmp') and len(x.get('a', [])) >= 1:
        x = strip(f, x['a'][0])
    return (x.get('s') if 's' in x else x.get('v')) if x is not None and x['k'] == 'str' else None


class Loader:
    def __init__(self, P, R):
        self.P, self.R = P, R
        self.f = f = P.one('ConfigFileParser::loadFile')
        R.saw(f.id)
        self.tests = []
        for b, i, y in f.nodes():
            if is_call(y, TEST) and len(y['a']) == 3:
                s = strip(f, y['a'][2])
                if is_mem(s, *LEVELS):
                    self.tests.append((b.id, i, y, const_str(f, y['a'][1]), s['n']))
        if not self.tests:
            raise AnalysisError('no tests of keys in ' + f.q)
        self.key = self.origin(self.tests[0][2]['a'][0])
        d = [z for z in f.defs().get(self.key, []) if z[2] == 'init']
        if len(d) != 1:
            raise AnalysisError('the key of a line is not a local of ' + f.q)
        self.start = (d[0][0], d[0][1])
        self.goals = {f.exit}
        self.tedges = {}
        for b in f.blocks.values():
            if len(b.succ) != 2:
                continue
            for si in range(2):
                for x, pol in edge_facts(f, b, si):
                    lits = {(const_str(f, z['a'][1]), strip(f, z['a'][2])['n']) for z in self.near(x) if is_call(z, TEST) and len(z['a']) == 3 and is_mem(strip(f, z['a'][2]), *LEVELS)}
                    for lit, s in lits:
                        q = Query(P, cut_cond=lambda q, fn, n, pt, ctx: n[0] in ('!=', '==') and (const_val(n[2]) == 0) == (n[0] == '!=') and self.is_test(n[1], lit, s))
                        if q.edge_cut(f, b, si, ROOT):
                            self.tedges.setdefault((lit, s), set()).add((b.id, si))

    def near(self, x, d=0):
        for z in self.f.walk(x, True):
            yield z
            if z['k'] == 'var' and d < 3:
                for e in self.f.defs().get(z['id'], []):
                    if e[3] is not None and var_type(self.f, z['id']).endswith('bool'):
                        yield from self.near(e[3], d + 1)

    def is_test(self, x, lit, s):
        f = self.f
        x = strip(f, x) if x is not None else None
        return is_call(x, TEST) and const_str(f, x['a'][1]) == lit and is_mem(strip(f, x['a'][2]), s)

    def origin(self, x, n=0):
        """the variable a text was first read into"""
        f = self.f
        x = strip(f, x)
        if x is None or x['k'] != 'var' or n > 5:
            return None
        ds = [d for d in f.defs().get(x['id'], []) if d[2] == 'init' and d[3] is not None]
        if len(ds) == 1:
            y = strip(f, ds[0][3])
            if y is not None and y['k'] == 'var':
                return self.origin(y, n + 1) or x['id']
        return x['id']

    # ------------------------------------------------------------------ paths
    def edges(self, cond, want):
        """edges that imply the fact; looked for where the condition has something with want(node)"""
        f = self.f
        q = Query(self.P, cut_cond=cond)
        return {(b.id, si) for b in f.blocks.values() if len(b.succ) >= 2 and b.term and b.term.get('c') is not None and any(want(z) for z in self.near(b.term['c']))
                for si in range(len(b.succ)) if q.edge_cut(f, b, si, ROOT)}

    def reach(self, start, goals, cut=(), stop=(), goal_points=()):
        f = self.f
        seen = set(); st = [(start[0], start[1] + 1)]
        pts = {}
        for b, i in stop:
            pts.setdefault(b, []).append((i, 0))
        for b, i in goal_points:
            pts.setdefault(b, []).append((i, 1))
        while st:
            bid, i0 = st.pop()
            if (bid, i0) in seen:
                continue
            seen.add((bid, i0))
            if i0 == 0 and bid in goals:
                return True
            h = sorted(z for z in pts.get(bid, []) if z[0] >= i0)
            if h:
                if h[0][1] == 1:
                    return True
                continue
            for si, (t, k) in enumerate(f.blocks[bid].succ):
                if t is not None and k == 'n' and (bid, si) not in cut:
                    st.append((t, 0))
        return False

    def level(self, lv):
        """edges that can not be taken in a block of this kind"""
        f = self.f
        top = lambda x: x is not None and (lambda s: s is not None and s['k'] == 'call' and base_name(s.get('n', '')) == 'top' or s is not None and s['k'] == 'var' and any(z['k'] == 'call' and base_name(z.get('n', '')) == 'top' for d in f.defs().get(s['id'], []) if d[3] is not None for z in f.walk(d[3], True)))(strip(f, x))

        def c(q, fn, n, pt, ctx):
            e = enum_name(n[2])
            if e is None or not e.startswith('ConfigParseLevel::') or not top(n[1]):
                return False
            return (n[0] == '==' and e != (lv or 'ConfigParseLevel::Root')) or (n[0] == '!=' and e == (lv or 'ConfigParseLevel::Root'))
        r = self.edges(c, lambda z: z['k'] == 'enum' and z['n'].startswith('ConfigParseLevel::'))
        if lv is None:
            r = r | self.edges(self.popt, lambda z: z['k'] == 'call' and base_name(z.get('n', '')) in ('startsWith', 'starts_with'))
        return r

    def popt(self, q, fn, n, pt, ctx):
        """the key is that of an option for the plugin"""
        x = strip(fn, n[1]) if n[1] is not None else None
        return n[0] == '!=' and const_val(n[2]) == 0 and x is not None and x['k'] == 'call' and base_name(x.get('n', '')) in ('startsWith', 'starts_with') and any(z['k'] == 'var' and z['id'] == self.key for z in fn.walk(x, True))

    # ------------------------------------------------------------------ writes
    def writes(self):
        f = self.f
        out = []
        for b, i, y in f.nodes():
            a = asg_parts(f, y)
            d = a[0] if a is not None else None
            op = 'set'
            v = a[1] if a is not None else None
            if a is None and y['k'] == 'call' and y.get('o') is not None and base_name(y.get('n', '')) in CHANGES:
                d = strip_ptr(f, y['o']); op = base_name(y['n']); v = (y.get('a') or [None])[0]
            if d is None or d['k'] != 'mem':
                continue
            m = d
            while m is not None and m['k'] == 'mem':
                for S, (lv, cls, tab) in LEVELS.items():
                    if m['n'].startswith(cls):
                        out.append((b.id, i, y, S, m['n'][len(cls):], op, v, a is None or a[2] == '='))
                        m = None
                        break
                    if m['n'].startswith('BridgeTopicPath::'):
                        out.append((b.id, i, y, 'BridgeTopicPath', m['n'][17:], op, v, True))
                        m = None
                        break
                m = strip_ptr(f, m['b']) if m is not None and m.get('b') is not None else None
        return out

    def texts(self, x, d=0, seen=None):
        """calls and plain values in the making of x out of the texts of the line"""
        f = self.f
        seen = seen if seen is not None else set()
        out = []
        for z in f.walk(x, True):
            if z['k'] == 'var':
                t = var_type(f, z['id'])
                if 'vector' in t or z['id'] in seen:
                    if 'vector' in t:
                        out.append({'k': 'values'})
                    continue
                seen.add(z['id'])
                for e in f.defs().get(z['id'], []):
                    if e[3] is not None:
                        out += self.texts(e[3], d + 1, seen)
            else:
                out.append(z)
        return out

    COPY = ('at', 'front', 'move', 'forward', 'basic_string', 'operator[]', 'trim', 'rtrim', 'ltrim', 'optional', 'value', 'operator*', 'make_optional', 'c_str', 'data', 'string', 'begin', 'operator->')
    LOWER = ('str_tolower',)

    def is_text(self, x, which=0, extra=()):
        ts = self.texts(x)
        if not any(z['k'] == 'values' for z in ts):
            return False
        for z in ts:
            if z['k'] in ('call', 'ctor') and base_name(z.get('n', '')).split('<')[0] not in self.COPY + tuple(extra):
                return False
            if z['k'] in ('bin', 'un', 'str', 'cond'):
                return False
            if z['k'] == 'int' and z['v'] != which and z['v'] != ord('/'):
                return False
        return True

    # ------------------------------------------------------------------ the rules
    def run(self):
        P, R, f = self.P, self.R, self.f
        W = self.writes()
        # only lines of ... : rule 'known'
        ins = {}
        for g in P.fns.values():
            if g.q.startswith('ConfigFileParser::'):
                for b, i, y in g.nodes():
                    if y['k'] in ('call', 'ctor') and y.get('o') is not None and base_name(y.get('n', '')) in ('insert', 'emplace', 'operator='):
                        s = lval(Query(P), g, y["o"])[1]
                        if is_mem(s, *LEVELS):
                            for z in g.walk(y, True):
                                if z['k'] == 'str':
                                    ins.setdefault(s['n'], set()).add(z.get('s') if 's' in z else z.get('v'))
        nums = [(b.id, i) for b, i, y in f.nodes() if is_call(y, 'ConfigFileParser::testCorrectNumberOfValues')]
        for S, (lv, cls, tab) in LEVELS.items():
            nm = S.split('::')[1]
            cut0 = self.level(lv)
            ts = [(b, i) for b, i, y, lit, s in self.tests if s == S]
            R.inst('known', bool(ts) and not self.reach(self.start, self.goals, cut0, ts, [self.start]), 'known|' + nm, 'every line there is looked up in the valid keys of such a block', f.loc)
            R.inst('refuse', not self.reach(self.start, self.goals, cut0, nums, [self.start]), 'refuse|%s|count' % nm, 'a line with too many or too few values is refused', f.loc)
            wrong = [(b, i, s) for b, i, y, lit, s in self.tests if s != S]
            R.inst('known', not any(self.reach(self.start, (), cut0, (), [(b, i)]) for b, i, s in wrong), 'known|%s|others' % nm, 'keys of other kinds of block are not accepted there', f.loc)
            known = set(tab) | (set(NOTHING) if lv is None else set())
            for k in sorted(known | ins.get(S, set())):
                if k not in ins.get(S, set()):
                    R.inst('known', False, 'known|%s|%s' % (nm, k), 'the documented key %s is a valid key' % k, f.loc)
                    continue
                if k not in known:
                    R.inst('known', any(lit == k and s == S for _, _, _, lit, s in self.tests), 'known|%s|%s' % (nm, k), 'the valid key %s is looked at' % k, f.loc)
                    continue
                R.inst('known', True, 'known|%s|%s' % (nm, k), 'valid key', f.loc)
                if k in NOTHING and lv is None:
                    continue
                self.one(S, nm, cls, tab, k, cut0, W)
            others = cut0
        for b, i, y, S, fld, op, v, eq in W:
            if S not in LEVELS or fld in ('listeners', 'bridges', 'authOptCompatWrap', 'flashmqpluginOpts'):
                continue
            lv, cls, tab = LEVELS[S]
            ks = [k for k in tab if tab[k][0] == fld]
            if not ks:
                R.inst('only', any(not self.reach((f.entry, -1), (), e, (), [(b, i)]) for e in self.tedges.values()), 'only|%s%s' % (cls, fld), 'changed by a line with a key', '%s:%s' % (f.file, y.get('l')))
                continue
            cut = set()
            for k in ks:
                cut |= self.tedges.get((k, S), set())
            R.inst('only', bool(cut) and not self.reach((f.entry, -1), (), cut, (), [(b, i)]), 'only|%s%s|%s' % (cls, fld, op), '%s is set by %s only' % (fld, ks[0]), '%s:%s' % (f.file, y.get('l')))

    def one(self, S, nm, cls, tab, k, cut0, W):
        P, R, f = self.P, self.R, self.f
        fld, kind, det = tab[k]
        own = self.tedges.get((k, S), set())
        cut = set(cut0)
        for (lit, s), e in self.tedges.items():
            if lit != k:
                cut |= e
        # (and its test does not say no)
        q = Query(P, cut_cond=lambda q, fn, n, pt, ctx: n[0] in ('!=', '==') and (const_val(n[2]) == 0) == (n[0] == '==') and self.is_test(n[1], k, S))
        for b, si in list(own):
            for sj in range(len(f.blocks[b].succ)):
                if sj != si and q.edge_cut(f, f.blocks[b], sj, ROOT):
                    cut.add((b, sj))
        w = [z for z in W if z[3] == S and z[4] == fld and not self.reach((f.entry, -1), (), own, (), [(z[0], z[1])])] if own else []
        pts = [(z[0], z[1]) for z in w]
        key = lambda r, x: '%s|%s|%s%s' % (r, nm, k, x)
        if kind not in ('enum', 'enum?'):
            R.inst('applies', bool(w) and not self.reach(self.start, self.goals, cut, pts, [self.start]), key('applies', ''), 'a line with %s sets %s' % (k, fld), f.loc)
        if not w:
            if kind in ('enum', 'enum?'):
                R.inst('applies', False, key('applies', ''), 'a line with %s sets %s' % (k, fld), f.loc)
            return
        getattr(self, 'k_' + kind.replace('?', '_'))(w, key, det, k, cut, S, fld)

    def val(self, ok, key, x, what, z):
        self.R.inst('value', bool(ok), key('value', x), what, '%s:%s' % (self.f.file, z[2].get('l')))

    def k_str(self, w, key, det, k, cut, S, fld):
        f = self.f
        for z in w:
            self.val(z[5] == 'set' and self.is_text(z[6]), key, '', '%s is the text of the line' % fld, z)
        if det:
            cs = [(b.id, i) for b, i, y in f.nodes() if y['k'] == 'call' and y.get('n', '').split('<')[0] == det and any(self.is_text(a) for a in y['a'])]
            self.R.inst('refuse', not self.reach(self.start, (), cut, cs, [(z[0], z[1]) for z in w]), key('refuse', ''), 'what does not exist or can not be used is refused', f.loc)
        extra = {'clientid_prefix': [('isValidShareName', True, None), ('length', None, 10)], 'local_prefix': [('empty', False, None), ('endsWith', True, None)], 'remote_prefix': [('empty', False, None), ('endsWith', True, None)]}.get(k, ()) if 'Bridge' in S else ()
        for n, pol, lim in extra:
            self.needs(w, key, k, n, pol, lim)

    def needs(self, w, key, k, name, pol, lim=None):
        f = self.f
        named = lambda x: x is not None and x['k'] == 'call' and base_name(x.get('n', '')) == name and any(self.is_text(a) for a in ([x['o']] if x.get('o') is not None else x['a'])[:1])

        def c(q, fn, n, pt, ctx):
            x = strip(fn, n[1]) if n[1] is not None else None
            if lim is not None:
                v = const_val(n[2]) if n[2] is not None else None
                if x is not None and x['k'] == 'call' and base_name(x.get('n', '')) == 'size':
                    x = dict(x, n='length')
                return named(x) and v is not None and (n[0], v) in (('<=', lim), ('<', lim + 1))
            return named(x) and n[0] in ('!=', '==') and const_val(n[2]) in (0, 1) and ((n[0] == '!=') == (const_val(n[2]) == 0)) == pol
        e = self.edges(c, lambda z: z['k'] == 'call' and base_name(z.get('n', '')) in (name, 'size') )
        self.R.inst('refuse', not self.reach(self.start, (), e, (), [(z[0], z[1]) for z in w]), key('refuse', '|' + name), 'a value that is not usable (%s) is refused' % name, f.loc)

    def truthy(self, pol):
        return lambda q, fn, n, pt, ctx: n[0] in ('!=', '==') and const_val(n[2]) in (0, 1) and ((n[0] == '!=') == (const_val(n[2]) == 0)) == pol and self.is_truth(q, n[1], pt)

    def is_truth(self, q, x, pt):
        ss = q.sources(self.f, x, pt, ROOT)
        return bool(ss) and all(s is not None and s['k'] == 'call' and s.get('n') == 'stringTruthiness' and self.is_text(s['a'][0]) for _, s, _, _ in ss)

    def unopt(self, x):
        x = strip(self.f, x)
        while x is not None and x['k'] in ('ctor', 'call') and base_name(x.get('n', '')).split('<')[0] in ('optional', 'make_optional', 'move', 'forward') and len(x.get('a', [])) == 1:
            x = strip(self.f, x['a'][0])
        return x

    def k_bool(self, w, key, det, k, cut, S, fld):
        for z in w:
            self.val(z[5] == 'set' and z[7] and self.is_truth(Query(self.P), self.unopt(z[6]), (z[0], z[1])), key, '', '%s is on when the value says so' % fld, z)

    def k_yesno(self, w, key, det, k, cut, S, fld):
        for z in w:
            ok = z[5] == 'set'
            for e, pol in zip(det, (True, False)):
                ok = ok and valued(self.P, self.f, self.unopt(z[6]), (z[0], z[1]), enumc(self.P, e), self.truthy(pol))
            ss = Query(self.P).sources(self.f, self.unopt(z[6]), (z[0], z[1]), ROOT)
            ok = ok and all(enum_name(s) in det for _, s, _, _ in ss)
            self.val(ok, key, '', '%s is what the value says' % fld, z)

    def lit(self, l, op):
        def c(q, fn, n, pt, ctx):
            if n[0] != op:
                return False
            for a, b in ((n[1], n[2]), (n[2], n[1])):
                if isinstance(a, dict) and isinstance(b, dict) and const_str(fn, b) == l and self.is_text(a, 0, self.LOWER):
                    return True
            return False
        return c

    def has_lit(self, *ls):
        return lambda z: z['k'] == 'str' and (z.get('s') if 's' in z else z.get('v')) in ls

    def k_enum_(self, w, key, det, k, cut, S, fld):
        self.k_enum(w, key, det, k, cut, S, fld)

    def k_enum(self, w, key, det, k, cut, S, fld):
        P, R, f = self.P, self.R, self.f
        q = Query(P)
        defs = {}
        for z in w:
            x = self.unopt(z[6])
            if z[5] != 'set' or not z[7] or x is None:
                self.val(False, key, '', '%s is set to what the value says' % fld, z)
                continue
            if x['k'] == 'var':
                for d in q.reaching_defs(f, x['id'], (z[0], z[1])) or []:
                    for _, s, _, _ in ([(0, strip(f, d[3]), 0, 0)] if d[3] is not None else [(0, None, 0, 0)]):
                        defs.setdefault(enum_name(s), []).append((d[0], d[1]))
            elif x['k'] == 'cond':
                for g in (x['a'], x['b']):
                    defs.setdefault(('cond', enum_name(strip(f, g))), []).append((z[0], z[1], x))
            else:
                defs.setdefault(enum_name(x), []).append((z[0], z[1]))
        lits = [l for l in det if l is not True]
        eq = {l: self.edges(self.lit(l, '=='), self.has_lit(l)) for l in lits}
        ne = {l: self.edges(self.lit(l, '!='), self.has_lit(l)) for l in lits}
        if True in det:
            eq[True] = self.edges(self.truthy(True), lambda z: z['k'] == 'call' and z.get('n') == 'stringTruthiness')
            ne[True] = self.edges(self.truthy(False), lambda z: z['k'] == 'call' and z.get('n') == 'stringTruthiness')
        vals = {}
        for l, e in det.items():
            vals.setdefault(e, []).append(l)
        for e, ps in defs.items():
            if isinstance(e, tuple):
                ls = vals.get(e[1], [])
                for b, i, x in ps:
                    ok = bool(ls) and valued(P, f, x, (b, i), enumc(P, e[1]), any_of(*[self.lit(l, '==') for l in ls]))
                    R.inst('value', ok, key('value', '|' + str(e[1])), '%s for %s only' % (e[1], '/'.join(map(str, ls))), f.loc)
                continue
            ls = vals.get(e, [])
            es = set().union(*[eq[l] for l in ls]) if ls else set()
            R.inst('value', bool(ls) and not self.reach((f.entry, -1), (), es, (), [p[:2] for p in ps]), key('value', '|' + str(e)), '%s for %s only' % (e, '/'.join(map(str, ls))), f.loc)
        for l, e in det.items():
            ps = [p[:2] for p in defs.get(e, []) + defs.get(('cond', e), [])]
            ct = set(cut) | ne[l]
            for m in det:
                if m != l and m is not True:
                    ct |= eq[m]
            if l is True:
                # (only values that are no word of their own come here)
                pass
            R.inst('value', bool(ps) and not self.reach(self.start, self.goals, ct, ps, [self.start]), key('value', '=' + str(l)), '%s for "%s"' % (e, l), f.loc)
        if True not in det:
            ct = set(cut).union(self.edges(any_of(*[self.lit(l, '==') for l in lits]), self.has_lit(*lits)), *eq.values())
            R.inst('refuse', not self.reach(self.start, self.goals, ct, (), [self.start]), key('refuse', ''), 'other words are refused', f.loc)

    def k_net(self, w, key, det, k, cut, S, fld):
        f = self.f
        for z in w:
            ts = self.texts(z[6])
            ok = z[5] in ('push_back', 'emplace_back') and any(t['k'] == 'ctor' and t.get('n', '').startswith('Network::') and len(t['a']) == 1 and self.is_text(t['a'][0]) for t in ts) or (z[5] == 'emplace_back' and self.is_text(z[6]))
            self.val(ok, key, '', '%s gets the network of the line, besides those of other lines' % fld, z)

    def range_of(self, x, pt):
        """(lo, hi) by what made it: None when it is no number out of the line"""
        f = self.f
        if x is None:
            return None
        if x['k'] == 'call':
            n = base_name(x.get('n', '')).split('<')[0]
            a = x.get('a', [])
            if n == 'full_stoi' and self.is_text(a[1]):
                return -2**31, 2**31 - 1
            if n == 'full_stoul' and self.is_text(a[1]) and (len(a) < 3 or a[2].get('k') == 'int' and a[2].get('v') in (10,) or const_val(strip(f, a[2])) in (10, None)):
                return 0, 2**64 - 1
            if n in ('value_to_int_ranged', 'value_to_int') and len(a) >= 2 and (self.is_text(a[1]) or self.is_text(a[1], 1)):
                t = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32, 'uint8_t': 8, 'uint16_t': 16, 'uint32_t': 32, 'uint': 32, 'unsigned long': 64}.get((x.get('ta') or [''])[0])
                if t is None:
                    return None
                lo, hi = 0, 2**t - 1
                if len(a) > 2:
                    lo = const_val(strip(f, a[2])) if const_val(strip(f, a[2])) is not None else lo
                if len(a) > 3:
                    hi = const_val(strip(f, a[3])) if const_val(strip(f, a[3])) is not None else hi
                return lo, hi
        return None

    SIZES = {'int': (-2**31, 2**31 - 1), 'unsigned int': U32, 'unsigned short': U16, 'unsigned char': (0, 255), 'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1)}

    def k_num(self, w, key, det, k, cut, S, fld, unit=None):
        P, R, f = self.P, self.R, self.f
        q = Query(P)
        for z in w:
            x = self.unopt(z[6])
            if unit:
                ok = x is not None and x['k'] in ('ctor', 'call') and len(x.get('a', [])) == 1 and unit_of(x) == unit
                self.val(ok, key, '|unit', 'the number is in ' + unit, z)
                x = strip(f, x['a'][0]) if ok else None
            ss = q.sources(f, x, (z[0], z[1]), ROOT) if x is not None else []
            rs = [self.range_of(s, p) for _, s, p, _ in ss]
            self.val(bool(rs) and all(r is not None for r in rs) and z[7], key, '', '%s is the number on the line' % fld, z)
            if not rs or any(r is None for r in rs):
                continue
            lo, hi = det
            if k == 'client_initial_buffer_size':
                e = self.edges(lambda q, fn, n, pt, ctx: (lambda y: y is not None and is_call(y, 'isPowerOfTwo') and n[0] == '!=' and const_val(n[2]) == 0 and x['k'] == 'var' and (strip(f, y['a'][0]) or {}).get('id') == x['id'])(strip(fn, n[1])), lambda y: is_call(y, 'isPowerOfTwo'))
                R.inst('refuse', not self.reach((f.entry, -1), (), e, (), [(z[0], z[1])]), key('refuse', '|power'), 'what is no power of two is refused', '%s:%s' % (f.file, z[2].get('l')))
            if lo is not None:
                R.inst('refuse', self.bounded(z, x, rs, lo, '>='), key('refuse', '|min'), 'less than %d is refused' % lo, '%s:%s' % (f.file, z[2].get('l')))
            if hi is not None:
                R.inst('refuse', self.bounded(z, x, rs, hi, '<='), key('refuse', '|max'), 'more than %d is refused' % hi, '%s:%s' % (f.file, z[2].get('l')))
            if lo is not None and hi is not None:
                R.inst('value', not any(r[0] > lo or r[1] < min(hi, r[1]) for r in rs if r[0] > lo) and not any(r[1] < hi for r in rs), key('value', '|range'), 'any number of %d to %d is taken' % (lo, hi), f.loc)

    def bounded(self, z, x, rs, lim, op):
        """the number can not be outside of the limit here"""
        f = self.f
        if all((r[0] >= lim) if op == '>=' else (r[1] <= lim) for r in rs):
            return True
        if x is None or x['k'] != 'var':
            return False
        # the variable must not be a narrower copy of the number
        t = self.SIZES.get(canon(var_type(f, x['id'])))
        if t is None or any(r[0] < t[0] or r[1] > t[1] for r in rs):
            return False
        vid = x['id']

        def c(q, fn, n, pt, ctx):
            v = const_val(n[2]) if n[2] is not None else None
            a = strip(fn, n[1]) if n[1] is not None else None
            if v is None or a is None or a['k'] != 'var' or a['id'] != vid:
                return False
            if op == '>=':
                return n[0] == '>=' and v >= lim or n[0] == '>' and v >= lim - 1 or n[0] == '==' and v >= lim or lim == 1 and n[0] == '!=' and v == 0 and all(r[0] >= 0 for r in rs)
            return n[0] == '<=' and v <= lim or n[0] == '<' and v <= lim + 1 or n[0] == '==' and v <= lim
        e = self.edges(c, lambda y: y['k'] == 'var' and y['id'] == vid)
        return not self.reach((f.entry, -1), (), e, (), [(z[0], z[1])])

    def k_seconds(self, *a):
        self.k_num(*a, unit='seconds')

    def k_milliseconds(self, *a):
        self.k_num(*a, unit='milliseconds')

    def k_octal(self, w, key, det, k, cut, S, fld):
        f = self.f
        for z in w:
            x = self.unopt(z[6])
            ss = Query(self.P).sources(f, x, (z[0], z[1]), ROOT)
            self.val(all(s is not None and s['k'] == 'call' and base_name(s['n']) == 'full_stoul' and self.is_text(s['a'][1]) and len(s['a']) > 2 and const_val(strip(f, s['a'][2])) == 8 for _, s, _, _ in ss), key, '', '%s is the octal number on the line' % fld, z)

    def k_count(self, w, key, det, k, cut, S, fld):
        f = self.f
        auto = self.edges(self.lit('auto', '=='), self.has_lit('auto'))
        for z in w:
            for _, s, p, _ in Query(self.P).sources(f, self.unopt(z[6]), (z[0], z[1]), ROOT):
                if s is not None and s['k'] == 'call' and s.get('n') in ('get_nprocs', 'std::thread::hardware_concurrency'):
                    self.val(not self.reach((f.entry, -1), (), auto, (), [p]), key, '|auto', 'the number of processors for "auto" only', z)
                else:
                    self.val(self.range_of(s, p) is not None, key, '', '%s is the number on the line' % fld, z)

    def k_topic(self, w, key, det, k, cut, S, fld):
        P, R, f = self.P, self.R, self.f
        own = self.tedges[(k, S)]
        W = [z for z in self.writes() if z[3] == 'BridgeTopicPath' and not self.reach((f.entry, -1), (), own, (), [(z[0], z[1])])]
        tops, qs = [z for z in W if z[4] == 'topic'], [z for z in W if z[4] == 'qos']
        self.R.inst('value', bool(tops) and all(self.is_text(z[6]) for z in tops) and not self.reach(self.start, (), cut, [(z[0], z[1]) for z in tops], [(z[0], z[1]) for z in w]), key('value', '|topic'), 'the topic is the first value of the line', f.loc)
        small = self.edges(lambda q, fn, n, pt, ctx: (lambda x, v: x is not None and x['k'] == 'call' and (base_name(x.get('n', '')) == 'size' and (n[0], v) in (('<', 2), ('<=', 1), ('!=', 2)) or base_name(x.get('n', '')) == 'empty' and n[0] == '!=' and v == 0 and self.is_text(x['o'], 1)))(strip(fn, n[1]) if n[1] is not None else None, const_val(n[2]) if n[2] is not None else None),
                           lambda z: z['k'] == 'call' and base_name(z.get('n', '')) in ('size', 'empty'))
        ok = bool(qs)
        for z in qs:
            ss = Query(P).sources(f, self.unopt(z[6]), (z[0], z[1]), ROOT)
            rs = [self.range_of(s, p) if s is not None and s['k'] == 'call' and self.is_text(s['a'][1], 1) else None for _, s, p, _ in ss]
            ok = ok and bool(rs) and all(r == (0, 2) for r in rs)
        self.R.inst('value', ok and not self.reach(self.start, (), cut | small, [(z[0], z[1]) for z in qs], [(z[0], z[1]) for z in w]), key('value', '|qos'), 'the QoS is the second value, 0 to 2', f.loc)
        for n in ('isValidUtf8', 'isValidSubscribePath'):
            self.needs(w, key, k, n, True)
        self.val(all(z[5] in ('push_back', 'emplace_back') for z in w), key, '', 'added to those of other lines', w[0])

    def k_flags(self, w, key, det, k, cut, S, fld):
        P, R, f = self.P, self.R, self.f
        bang = lambda pol: self.edges(lambda q, fn, n, pt, ctx: n[0] == ('==' if pol else '!=') and const_val(n[2]) == ord('!') , lambda z: z['k'] in ('char', 'int') and z.get('v') == ord('!'))
        argis = lambda l: self.edges(lambda q, fn, n, pt, ctx: n[0] == '==' and any(isinstance(b, dict) and const_str(fn, b) == l for b in (n[1], n[2])), self.has_lit(l))
        for z in w:
            e = enum_name(strip(f, z[6])) if z[6] is not None else None
            if z[5] in ('setFlag', 'clearFlag'):
                l = [x for x, v in det.items() if v == e]
                self.val(l and not self.reach((f.entry, -1), (), argis(l[0]), (), [(z[0], z[1])]), key, '|%s|%s' % (z[5], e), 'for that word only', z)
        for l, e in det.items():
            for op in ('setFlag', 'clearFlag'):
                R.inst('value', any(z[5] == op and enum_name(strip(f, z[6])) == e for z in w), key('value', '|%s|%s' % (op, l)), '%s can be switched' % l, f.loc)


def unit_of(x):
    t = (x.get('t') or x.get('n') or '')
    if 'milli' in t or 'ratio<1, 1000>' in t:
        return 'milliseconds'
    if 'micro' in t or 'nano' in t or 'minute' in t or 'hour' in t or 'ratio<' in t and 'ratio<1>' not in t and 'ratio<1, 1>' not in t:
        return None
    return 'seconds' if 'seconds' in t or 'duration' in t else None


def canon(t):
    t = t.replace('const ', '').replace('&', '').strip()
    return {'uint32_t': 'unsigned int', 'uint16_t': 'unsigned short', 'uint8_t': 'unsigned char', 'size_t': 'unsigned long', 'ssize_t': 'long', 'uint': 'unsigned int', 'int32_t': 'int'}.get(t, t)


def primitives(P, R):
    f = P.one(TEST); R.saw(f.id)
    k, m, s = [p['id'] for p in f.params]
    mentions = lambda fn, x, *ids: all(any(z['k'] == 'var' and z['id'] == i for z in deep(fn, x)) for i in ids)

    def found(q, fn, n, pt, ctx):
        x = strip(fn, n[1]) if n[1] is not None else None
        y = strip(fn, n[2]) if n[2] is not None else None
        if x is not None and x['k'] == 'call' and base_name(x.get('n', '')) in ('count', 'contains') and n[0] in ('!=', '>') and const_val(n[2]) == 0:
            return mentions(fn, x, k, s)
        if n[0] != '!=' or not isinstance(y, dict):
            return False
        it = lambda a: any(z['k'] == 'call' and base_name(z.get('n', '')) == 'find' for z in deep(fn, a)) and mentions(fn, a, k, s)
        end = lambda a: any(z['k'] == 'call' and base_name(z.get('n', '')) in ('end', 'cend') for z in deep(fn, a))
        return it(n[1]) and end(n[2]) or it(n[2]) and end(n[1])
    returns_only_if(P, R, 'known', f, found, 'found', 'a key that is not a valid one is an error')
    same = lambda q, fn, n, pt, ctx: n[0] == '==' and isinstance(n[2], dict) and {z['id'] for a in (n[1], n[2]) for z in fn.walk(a, True) if z['k'] == 'var'} == {k, m}
    eq = lambda q, fn, n, pt, ctx: same(q, fn, n, pt, ctx)
    for b, i, y in f.nodes():
        if y['k'] == 'ret' and y.get('e') is not None:
            R.inst('known', bvalued(P, f, y['e'], (b.id, i), True, eq), 'known|same', 'a key is handled as another only when they are equal', '%s:%s' % (f.file, y['l']))
            df = lambda q, fn, n, pt, ctx: n[0] == '!=' and isinstance(n[2], dict) and {z['id'] for a in (n[1], n[2]) for z in fn.walk(a, True) if z['k'] == 'var'} == {k, m}
            R.inst('known', bvalued(P, f, y['e'], (b.id, i), False, df), 'known|match', 'a key is recognised', '%s:%s' % (f.file, y['l']))
    f = P.one('ConfigFileParser::testCorrectNumberOfValues'); R.saw(f.id)
    _, n_, v_ = [p['id'] for p in f.params]
    returns_only_if(P, R, 'refuse', f, lambda q, fn, n, pt, ctx: n[0] == '==' and isinstance(n[2], dict) and {z['id'] for a in (n[1], n[2]) for z in deep(fn, a) if z['k'] == 'var'} >= {n_, v_}, 'count', 'a wrong number of values is an error')
    # numbers are taken as a whole
    for nm, conv in (('full_stoi', 'std::stoi'), ('full_stoul', 'std::stoul'), ('value_to_int', None)):
        for f in [g for g in P.fns.values() if g.q.split('<')[0] == nm]:
            R.saw(f.id)
            txt = f.params[1]['id']

            def allof(q, fn, n, pt, ctx):
                if n[0] not in ('==', '>='):
                    return False
                ln = lambda a: isinstance(a, dict) and any(z['k'] == 'call' and base_name(z.get('n', '')) in ('length', 'size', 'end', 'data') for z in deep(fn, a)) and any(z['k'] == 'var' and z['id'] == txt for z in deep(fn, a))
                return ln(n[1]) or ln(n[2])
            returns_only_if(P, R, 'refuse', f, allof, nm + '|whole', 'a number with something behind it is an error')
    for f in [g for g in P.fns.values() if g.q.split('<')[0] == 'value_to_int_ranged']:
        R.saw(f.id)
        lo, hi = f.params[2]['id'], f.params[3]['id']
        isp = lambda fn, x, p: isinstance(x, dict) and (strip(fn, x) or {}).get('k') == 'var' and strip(fn, x)['id'] == p
        for p, ops, w in ((lo, ('>=', '>', '=='), 'min'), (hi, ('<=', '<', '=='), 'max')):
            returns_only_if(P, R, 'refuse', f, lambda q, fn, n, pt, ctx, p=p, ops=ops: n[0] in ops and isp(fn, n[2], p), 'ranged|%s|%s' % (w, f.id[-40:]), 'a number outside of the range is an error')
    f = P.one('stringTruthiness'); R.saw(f.id)
    yes, no = ('yes', 'true', 'on'), ('no', 'false', 'off')
    word = lambda ws, op: lambda q, fn, n, pt, ctx: n[0] == op and any(isinstance(b, dict) and const_str(fn, b) in ws for b in (n[1], n[2]))
    for pol, ws in ((True, yes), (False, no)):
        for b, i, y in f.nodes():
            if y['k'] == 'ret' and y.get('e') is not None:
                R.inst('value', bvalued(P, f, y['e'], (b.id, i), pol, word(ws, '==')), 'value|truth|%s' % pol, '%s means %s only' % ('/'.join(ws), pol), '%s:%s' % (f.file, y['l']))
    returns_only_if(P, R, 'refuse', f, word(yes + no, '=='), 'truth', 'another word is not taken for yes or no')
    for l, pol in [(x, True) for x in yes] + [(x, False) for x in no]:
        rest = any_of(word([x for x in yes + no if x != l], '=='), word([l], '!='))
        q = Query(P, cut_cond=rest, eh=True)
        bad = [y for b, i, y in f.nodes() if y['k'] == 'ret' and const_val(strip(f, y['e'])) == (0 if pol else 1) and q.reach_point(f, (f.entry, -1), (b.id, i), ROOT, None)]
        thr = [y for b, i, y in f.nodes() if y['k'] == 'throw' and q.reach_point(f, (f.entry, -1), (b.id, i), ROOT, None)]
        R.inst('value', not bad and not thr, 'value|truth|' + l, '"%s" is %s' % (l, pol), f.loc)
    for nm, call, bad_ in ((FILE, 'access', ('<', 0)), (DIR, 'stat', ('<', 0))):
        f = P.one(nm); R.saw(f.id)
        res = lambda names: lambda q, fn, n, pt, ctx: (n[0], const_val(n[2]) if isinstance(n[2], dict) else None) in (('==', 0), ('>=', 0), ('!=', -1)) and (lambda ss: bool(ss) and all(s is not None and s['k'] == 'call' and s.get('n') in names for _, s, _, _ in ss))(q.sources(fn, n[1], pt, ctx))
        returns_only_if(P, R, 'refuse', f, res((call,)), base_name(nm), 'what can not be read is an error')


def deep(fn, x, d=0):
    for z in fn.walk(x, True):
        yield z
        if z['k'] == 'var' and d < 4:
            for e in fn.defs().get(z['id'], []):
                if e[3] is not None:
                    yield from deep(fn, e[3], d + 1)


def whole(P, R, f):
    E = Escapes(P)
    SET = 'ConfigFileParser::settings'
    owner = [g for g in P.fns.values() if g.q.startswith('ConfigFileParser::')]
    sites = []
    for g in owner:
        for b, i, y in g.nodes():
            a = asg_parts(g, y)
            d = a[0] if a is not None else None
            if a is None and y['k'] == 'call' and y.get('o') is not None and not y.get('const') and base_name(y.get('n', '')) in CHANGES + ('swap',):
                d = strip_ptr(g, y['o'])
            m = d
            while m is not None and m['k'] == 'mem' and m['n'] != SET:
                m = strip_ptr(g, m['b']) if m.get('b') is not None else None
            if m is not None and m['k'] == 'mem':
                sites.append((g, b.id, i, y, m is d))
    R.inst('whole', any(g.id == f.id and w for g, _, _, _, w in sites), 'whole|set', 'settings are replaced by those of the file', f.loc)
    t = f.params[0]['id']
    tested = lambda q, fn, n, pt, ctx: n[0] == '==' and const_val(n[2]) == 0 and (lambda x: x is not None and x['k'] == 'var' and x['id'] == t)(strip(fn, n[1])) or n[0] == '!=' and const_val(n[2]) == 1 and (lambda x: x is not None and x['k'] == 'var' and x['id'] == t)(strip(fn, n[1]))
    loop = []
    for g, b, i, y, w in sites:
        loc = '%s:%s' % (g.file, y.get('l'))
        R.inst('whole', g.id == f.id and w, 'whole|once', 'they are replaced as a whole', loc)
        if g.id != f.id:
            continue
        R.inst('whole', not Query(P, cut_cond=tested, eh=False).reach_point(f, (f.entry, -1), (b, i), ROOT, None), 'whole|test', 'not by testing a file', loc)
        # nothing that can fail comes after it
        seen = set(); st = [(b, i + 1)]; bad = None
        while st and bad is None:
            bid, i0 = st.pop()
            if (bid, i0) in seen:
                continue
            seen.add((bid, i0))
            for bb, j, z in f.nodes():
                if bb.id == bid and j >= i0:
                    own = [x for x in E.own(f, z)]
                    for c in (P.targets(z) if z['k'] in ('call', 'ctor') else []):
                        own += list(E.esc.get(c.id, {}))
                    if own and any(E.leaves(f, bid, x) for x in own):
                        bad = z
            for s, k in f.blocks[bid].succ:
                if s is not None and k == 'n':
                    st.append((s, 0))
        R.inst('whole', bad is None, 'whole|last', 'when everything was accepted', '%s:%s' % (f.file, bad.get('l') if bad else y.get('l')))
        # it comes from the settings that were gathered
        v = strip(f, y['a'][0] if y['k'] == 'call' and y.get('a') else y.get('b'))
        R.inst('whole', v is not None and any(z['k'] == 'var' and canon(var_type(f, z['id'])) == 'Settings' for z in f.walk(v, True)), 'whole|gathered', 'with what was gathered from the file', loc)
    must_set = [(b, i) for g, b, i, y, w in sites if g.id == f.id and w]
    q = Query(P, cut_cond=lambda q, fn, n, pt, ctx: n[0] == '!=' and const_val(n[2]) == 0 and (strip(fn, n[1]) or {}).get('id') == t or n[0] == '!=' and const_val(n[2]) == 0 and is_call(strip(fn, n[1]), 'std::basic_string::empty'),
              cut_node=lambda fn, y, q: any(y is s[3] for s in sites), eh=False)
    R.inst('whole', not q.explore(f, ROOT, False, []), 'whole|always', 'a file that was accepted is applied', f.loc)
    # listeners and bridges
    L = Loader.__new__(Loader); L.P, L.R, L.f = P, R, f
    isval = lambda cls: [(b.id, i) for b, i, y in f.nodes() if is_call(y, cls + '::isValid')]
    push = {'Listener': [(b.id, i) for b, i, y in f.nodes() if y['k'] == 'call' and base_name(y.get('n', '')) in ('push_back', 'emplace_back') and is_mem(strip_ptr(f, y['o']), 'Settings::listeners')],
            'BridgeConfig': [(b.id, i) for b, i, y in f.nodes() if y['k'] == 'call' and base_name(y.get('n', '')) in ('push_back', 'emplace_back') and (strip_ptr(f, y['o']) or {}).get('k') == 'var' and 'BridgeConfig' in var_type(f, strip_ptr(f, y['o'])['id'])]}
    for cls, ps in push.items():
        new = [(b.id, i) for b, i, y in f.nodes() if any(z['k'] == 'call' and base_name(z.get('n', '')).split('<')[0] in ('make_shared', 'make_optional') and cls in str(z.get('ta')) for z in f.walk(y, False)) or asg_parts(f, y) is not None and y['k'] == 'call' and any(z['k'] in ('ctor', 'call') and z is not y and cls in (z.get('t') or '') for z in f.walk(asg_parts(f, y)[1], True) if asg_parts(f, y)[1] is not None) and (asg_parts(f, y)[0] or {}).get('k') == 'var']
        R.inst('blocks', bool(ps) and bool(new) and not any(L.reach(n, (), (), isval(cls), ps) for n in new), 'blocks|valid|' + cls, 'a %s is checked before it is added' % cls, f.loc)
        R.inst('blocks', all(not E_swallow(P, f, b) for b, i in isval(cls)), 'blocks|throws|' + cls, 'an invalid one is an error', f.loc)
    lv = lambda e: [(b.id, i) for b, i, y in f.nodes() if y['k'] == 'call' and base_name(y.get('n', '')) in ('push', 'emplace') and y.get('a') and enum_name(strip(f, y['a'][0])) == e]
    root = L.level(None) if False else None
    c = lambda q, fn, n, pt, ctx: n[0] == '==' and enum_name(n[2]) == 'ConfigParseLevel::Root'
    es = L.edges(c, lambda z: z['k'] == 'enum' and z['n'] == 'ConfigParseLevel::Root')
    for e in ALL:
        R.inst('blocks', bool(lv(e)) and not L.reach((f.entry, -1), (), es, (), lv(e)), 'blocks|root|' + e, 'a block is opened in the root only', f.loc)
    # unbalanced
    depth = {v for b, i, y in f.nodes() if y['k'] == 'un' and y['op'] in ('++', 'post++') and (strip(f, y['e']) or {}).get('k') == 'var' for v in [strip(f, y['e'])['id']]} & \
            {v for b, i, y in f.nodes() if y['k'] == 'un' and y['op'] in ('--', 'post--') and (strip(f, y['e']) or {}).get('k') == 'var' for v in [strip(f, y['e'])['id']]}
    zero = lambda q, fn, n, pt, ctx: n[0] == '==' and const_val(n[2]) == 0 and (strip(fn, n[1]) or {}).get('id') in depth
    ez = L.edges(zero, lambda z: z['k'] == 'var' and z['id'] in depth)
    R.inst('blocks', bool(depth) and not L.reach((f.entry, -1), (), ez, (), must_set), 'blocks|closed', 'every block is closed', f.loc)
    pops = [(b.id, i) for b, i, y in f.nodes() if y['k'] == 'call' and base_name(y.get('n', '')) == 'pop' and y.get('o') is not None]
    nonempty = L.edges(lambda q, fn, n, pt, ctx: n[0] == '==' and const_val(n[2]) == 0 and (lambda x: x is not None and x['k'] == 'call' and base_name(x.get('n', '')) in ('empty',))(strip(fn, n[1])) or n[0] in ('!=', '>') and const_val(n[2]) == 0 and (lambda x: x is not None and x['k'] == 'call' and base_name(x.get('n', '')) == 'size')(strip(fn, n[1])), lambda z: z['k'] == 'call' and base_name(z.get('n', '')) in ('empty', 'size'))
    tops = [(b.id, i) for b, i, y in f.nodes() if y['k'] == 'call' and base_name(y.get('n', '')) == 'top']
    R.inst('blocks', bool(pops) and not any(L.reach(p, (), nonempty, (), tops + must_set) for p in pops), 'blocks|extra', 'a block is not closed more often than it was opened', f.loc)


def E_swallow(P, f, bid):
    """an exception of the block does not leave the function"""
    E = getattr(P, '_c26e', None) or Escapes(P); P._c26e = E
    return not E.leaves(f, bid, 'ConfigFileException')


def reload_(P, R):
    lc = P.one('MainApp::loadConfig'); R.saw(lc.id)
    SET = 'MainApp::settings'
    loads = [(b.id, i, y) for b, i, y in lc.nodes() if is_call(y, 'ConfigFileParser::loadFile')]
    real = [(b, i) for b, i, y in loads if const_val(strip(lc, y['a'][0])) == 0]
    test = [(b, i) for b, i, y in loads if const_val(strip(lc, y['a'][0])) == 1]
    sets = []
    for g in P.fns.values():
        for b, i, y in g.nodes():
            a = asg_parts(g, y)
            if a is not None and is_mem(a[0], SET):
                sets.append((g, b.id, i, y))
    R.inst('reload', bool(sets) and all(g.id == lc.id for g, _, _, _ in sets), 'reload|where', 'the settings in use are replaced when a file is loaded only', lc.loc)
    isload = lambda fn, y, q=None: is_call(y, 'ConfigFileParser::loadFile') and const_val(strip(fn, y['a'][0])) == 0
    for g, b, i, y in sets:
        if g.id != lc.id:
            continue
        q = Query(P, cut_node=isload, eh=True)
        R.inst('reload', not q.reach_point(lc, (lc.entry, -1), (b, i), ROOT, None), 'reload|after', 'after all of it was loaded', '%s:%s' % (lc.file, y['l']))
        R.inst('reload', any(is_call(z, 'ConfigFileParser::getSettings') for z in deep(lc, y['a'][0] if y['k'] == 'call' else y['b'])), 'reload|from', 'by those of the file', '%s:%s' % (lc.file, y['l']))
    R.inst('reload', all(not E_swallow(P, lc, b) for b, i, y in loads), 'reload|error', 'a file that is not accepted ends the loading', lc.loc)
    # what is in use is not touched before the file was accepted
    touch = []
    for b, i, y in lc.nodes():
        a = asg_parts(lc, y)
        d = a[0] if a is not None else (strip_ptr(lc, y['o']) if y['k'] == 'call' and y.get('o') is not None and not y.get('const') and base_name(y.get('n', '')) in CHANGES else None)
        m = d
        while m is not None and m['k'] in ('mem', 'idx') and not (m['k'] == 'mem' and m['n'].startswith('MainApp::')):
            m = strip_ptr(lc, m.get('b')) if m.get('b') is not None else None
        if m is not None and m['k'] == 'mem' and base_name(m['n']) not in ('doConfigReload',):
            touch.append((b.id, i, y, m['n']))
    for b, i, y, n in touch:
        R.inst('reload', not Query(P, cut_node=isload, eh=True).reach_point(lc, (lc.entry, -1), (b, i), ROOT, None), 'reload|before|' + n, 'nothing in use is changed before the file was accepted', '%s:%s' % (lc.file, y.get('l')))
    R.inst('reload', bool(real), 'reload|real', 'the file is loaded', lc.loc)
    # a reload that fails is survived
    E = getattr(P, '_c26e', None) or Escapes(P); P._c26e = E
    n = 0
    for g, pt, y in P.call_sites(lc):
        if const_val(strip(g, y['a'][0])) == 0:
            continue
        n += 1; R.saw(g.id)
        R.inst('reload', not E.leaves(g, pt[0], 'ConfigFileException') and not E.leaves(g, pt[0], 'std::runtime_error'), 'reload|survive|' + g.q, 'a file that is not accepted does not end the program', '%s:%s' % (g.file, y['l']))
    R.inst('reload', n > 0, 'reload|again', 'a file can be loaded again', lc.loc)
