# property texts: authorization and authentication
from meta.gen import P

P('C01', 'Publishing needs write authorization',
  statement="A message sent by a client, and a will sent on its behalf, is delivered to subscribers only if the write authorization check for exactly that message (its topic, sender identity and QoS as delivered) answered that it may be delivered, and it sets or clears a retained message only if the check answered unconditional success. A will is attached to a connection only if the will registration check answered success. Only messages the broker itself or a plugin produces are exempt.",
  over=['inputs', 'programs', 'histories'],
  q="every publish and will of every client, any topic, QoS, retain flag, alias, any plugin answer and any configuration of retained messages",
  tests="The tests use a handful of ACL files and plugin answers on fixed topics; they cannot cover every combination of check result, retain mode, QoS and packet route.",
  files=['mqttpacket.cpp', 'subscriptionstore.cpp', 'threaddata.cpp', 'plugin.cpp'],
  mech=[('MqttPacket::handlePublish', 'mqttpacket.cpp'), ('SubscriptionStore::sendWill', 'subscriptionstore.cpp'), ('ThreadData::continuationOfAuthentication', 'threaddata.cpp'), ('Authentication::aclCheck', 'plugin.cpp')],
  technique='interprocedural path-sensitive guard (typestate) analysis over the clang CFG',
  note="Decides that every route in the program from a received publish, a will or a deferred retained message to the delivery/retain operations passes the granting branch of the write check on the same message. Trusts the program model (clang front end, call graph incl. overrides and lambdas) and what plugins answer.",
  design="Typestate (unchecked / may deliver / may retain) is propagated from the packet handlers through all callees; branch facts on the AuthResult (direct, via locals, helpers, switch) move the state, any modification of topic/sender/QoS of the message resets it; delivery and retain calls are the obligations. Call sites of the internal delivery routine are enumerated, so a new unchecked route is an obligation too.")

P('C02', 'Receiving needs read authorization of the receiver',
  statement="A message is written to, or queued for, a subscriber only after the read authorization check made for that subscriber's client id and user name and for that message's topic and payload answered success. A queued message is sent again after a reconnect only if it has not expired and the authorization check for that message, repeated at that moment, still answers success.",
  over=['inputs', 'programs', 'histories'],
  q="every delivery (live, retained, shared, queued for offline sessions, resent) to every session",
  tests="Tests sample a few denied topics; they do not cover every delivery path or every answer of a plugin.",
  files=['session.cpp', 'subscriptionstore.cpp', 'plugin.cpp'],
  mech=[('Session::writePacket', 'session.cpp'), ('Session::sendAllPendingQosData', 'session.cpp')],
  technique='interprocedural guarded-reachability analysis plus argument provenance',
  note="Decides that no path reaches the socket or the offline queue without the read check's success branch, and that the check's arguments come from the receiving session and the message. Trusts the program model.",
  design="All callers of the per-client send and queue operations are climbed to their entry points; for each entry point the send/queue must be unreachable when the success branch of the read check is removed from the CFG. Argument provenance is computed through locals, parameters and helpers.")

P('C03', 'Subscriptions need authorization and get one matching reason code each',
  statement="A filter in a SUBSCRIBE becomes a subscription only if the subscribe authorization check for it answered with a granting result, filters take effect in the order they appear, and a filter granted with 'drop' is not added. The acknowledgement carries exactly one reason code per filter, in order: the granted QoS for an accepted filter, an error code for a refused one (protocol 3.1 excepted). Retained messages are sent for a filter only on an unconditional grant, never for shared subscriptions, and only when its retain handling asks for it.",
  over=['inputs', 'programs', 'configurations'],
  q="every SUBSCRIBE with any number of filters, any QoS/option bits, any check result and any wildcard-depth setting",
  tests="Tests subscribe with one or two filters and a few ACL outcomes.",
  files=['mqttpacket.cpp', 'plugin.cpp', 'subscriptionstore.cpp'],
  mech=[('MqttPacket::handleSubscribe', 'mqttpacket.cpp'), ('SubscriptionStore::addSubscription', 'subscriptionstore.cpp')],
  technique='disjunctive finite-domain path analysis (enum/bool values tied to check results)',
  note="Decides for every path through the handler that acceptance, recorded result, reason code count and retained delivery agree with the check's answer. Values other than enums/bools are abstracted away.",
  design="A path analysis tracks enum and boolean locals as constants or as the (branch-refined) result of the check; at each acceptance the check result must be in the granting set, the code counter must be 1 at each next filter and at the SUBACK. Guard rules cover the second loop.")

P('C04', 'Nothing but the handshake before authentication',
  statement="Until a connection is authenticated, the only packets acted on are CONNECT, AUTH (only after its CONNECT started extended authentication), DISCONNECT and, on connections the broker itself opened, a first successful CONNACK; other packets are dropped, with a limit on their number, or, while an asynchronous login check is pending, kept in order up to a limit and handled only after authentication. A packet of 1 MB or more from an unauthenticated connection is not accepted, and a second CONNECT or CONNACK is not acted on. No packet is handled any more once disconnecting the client has been initiated.",
  over=['inputs', 'histories'],
  q="every sequence of packets a peer may send, at any moment of the handshake, on listener and bridge connections",
  tests="Tests send a few wrong first packets; they do not cover every packet type in every state of the handshake.",
  files=['mqttpacket.cpp', 'client.cpp', 'threaddata.cpp'],
  mech=[('MqttPacket::handle', 'mqttpacket.cpp'), ('MqttPacket::bufferToMqttPackets', 'mqttpacket.cpp'), ('Client::addPacketToAfterAsyncQueue', 'client.cpp'), ('ThreadData::continuationOfAuthentication', 'threaddata.cpp')],
  technique='guarded-reachability analysis of the packet dispatcher (finite packet-type and state domains)',
  note="Decides that each packet handler is only reachable behind the state facts named in the statement, and that handlers have no other callers. Trusts the program model; counts the limits as constants, not the bytes of the stream.",
  design="For each handler and each fact (authenticated or an allowed packet type; extended authentication method present; disconnect stage not initiated; first CONNECT; outgoing and successful CONNACK; packet length below 1 MB) the handler/framing site must become unreachable when the edges implying the fact are removed. Type tests are evaluated over the whole enumeration, so complements, switches and helper functions are equivalent. A state walk shows that a dropped packet was counted against the limit.")

P('C05', 'Logged in only by a successful login decision',
  statement="A listener connection becomes authenticated, gets its session and is told success only when the result for it is success, and that result comes from the login or extended authentication check made for its own client id, from its own asynchronous check, or from an allowed exception. The exceptions are anonymous access, for a client without user name and authentication method when its listener's setting (or, if the listener leaves it open, the configuration) allows that, and a client certificate or proxy identity configured to be sufficient. When such an identity is configured it must carry a non-empty user name, which replaces the one the client sent; any result other than success, continue or pending ends in a refusal and a disconnect.",
  over=['inputs', 'configurations', 'programs'],
  q="every CONNECT/AUTH, every listener configuration, every plugin answer including asynchronous ones",
  tests="Tests log in with a few users on a few listeners.",
  files=['mqttpacket.cpp', 'threaddata.cpp', 'client.cpp'],
  mech=[('MqttPacket::handleConnect', 'mqttpacket.cpp'), ('ThreadData::continuationOfAuthentication', 'threaddata.cpp'), ('MqttPacket::handleExtendedAuth', 'mqttpacket.cpp')],
  technique='value-origin tracing of the login result plus guarded-reachability analysis',
  note="Decides where each login result that reaches the continuation originates and under which facts constants may appear. Trusts the login check itself (C06 decides it) and OpenSSL/proxy identity extraction.",
  design="All call sites of the continuation are enumerated and the result argument is traced to its origins; constants granting success are obligations guarded by the configuration facts. Registration, success CONNACK and the authenticated flag are guarded by result == success in every root. The refusal side is a must-reach analysis over all other results.")

P('C06', 'Access checks fail closed',
  statement="A denial by the configured ACL file is final, and a plugin decides only what the file granted; if a plugin is configured but not initialized, or throws, the answer is an error and never a grant. Messages are approved without asking only for write checks of messages without a client id (the broker's own). The password file approves only a user it contains whose stored hash equals the hash of exactly the given password with the stored salt, without a loaded file logins are refused, and a faulty ACL file is never installed in part.",
  over=['inputs', 'configurations', 'crash_points'],
  q="every check of every kind, any file content, any plugin (also failing ones)",
  tests="Tests use a few valid files and one test plugin that mostly behaves.",
  files=['plugin.cpp', 'acltree.cpp'],
  mech=[('Authentication::aclCheck', 'plugin.cpp'), ('Authentication::loginCheck', 'plugin.cpp'), ('Authentication::loginCheckFromMosquittoPasswordFile', 'plugin.cpp'), ('Authentication::loadMosquittoAclFile', 'plugin.cpp')],
  technique='origin tracing of every returned decision plus guarded-reachability analysis',
  note="Decides for every return of every check where the answer comes from and which facts precede it. Does not decide the matching semantics inside the ACL tree nor what plugins answer.",
  design="Every returned value is traced to its leaves (plugin call, file lookup, constant) and each leaf is an obligation with its required facts. Calls through plugin pointers need the initialized and file-granted facts and an enclosing handler. Loading is checked for whole replacement outside error paths.")
