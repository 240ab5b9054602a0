# property texts: QoS, sessions, delivery
from meta.gen import P

P('C10', 'Received QoS 1 and 2 messages are acknowledged and QoS 2 is processed once',
  statement="A PUBLISH that is handled to its end is answered once with PUBACK (QoS 1) or PUBREC (QoS 2), carrying the identifier and for the QoS that were received, whatever plugins change. A QoS 2 message is recorded before it is delivered or retained, is not processed again while its identifier is in use, and the identifier is given up only by PUBREL (answered by PUBCOMP) or when an MQTT 5 sender was told about a failure. PUBREC with a success code is answered by PUBREL and tracked until PUBCOMP, one with an error code ends the exchange, and PUBACK, PUBREC and PUBCOMP act on the identifier they carry.",
  over=['inputs', 'histories'],
  q="every order of PUBLISH, PUBREL, PUBREC, PUBCOMP and PUBACK packets, and every outcome of authorization",
  tests="Tests do the normal handshakes; repeated, refused and unknown identifiers in all combinations are not sampled.",
  files=['mqttpacket.cpp', 'acksender.cpp', 'session.cpp'],
  mech=[('MqttPacket::handlePublish', 'mqttpacket.cpp'), ('AckSender::sendNow', 'acksender.cpp'), ('MqttPacket::handlePubRec', 'mqttpacket.cpp'), ('MqttPacket::handlePubRel', 'mqttpacket.cpp'), ('Session::incomingQoS2MessageIdInTransit', 'session.cpp')],
  technique='must-pass path analysis of the handlers with value provenance and freshness of QoS and identifier',
  note="Exceptional exits are not covered (the connection is then closed). Members of the standard containers are trusted to their documentation.",
  design="For the handlers of PUBLISH, PUBACK, PUBREC, PUBREL and PUBCOMP every normal path must pass the required effect (record, release, answer) unless a branch fact discharges it; QoS and identifier used in decisions must be read before anything may change them; the sets' operations are checked for membership semantics.")

P('C11', 'Outgoing packet identifiers are unique and stay within the receive maximum',
  statement="For a session, the identifier given to an outgoing QoS 1 or 2 message is never 0 and never one that is still in use, including those of messages loaded from disk. Every identifier given out, and every message sent again, costs one of the quota, which starts at the receiver's receive maximum, is not exceeded, and is given back with the identifier only when the exchange ends, the message expires or it is dropped. The search for a free identifier ends, and fails only without quota or after trying all of them.",
  over=['histories'],
  q="every history of sending, acknowledging, expiring, reconnecting and loading",
  tests="Wrap-around of the identifiers, exhausted quotas and loaded sessions need long histories.",
  files=['session.cpp', 'session.h', 'packetidcounter.cpp', 'sessionsandsubscriptionsdb.cpp'],
  mech=[('Session::QoSData::getNextPacketId', 'session.cpp'), ('Session::QoSData::increaseFlowControlQuota', 'session.cpp'), ('UsedIds', 'session.cpp')],
  technique='path analysis of quota and identifier operations with constant evaluation of the bit set arithmetic',
  note="Each step (obtain, release, load) is decided; that the steps compose to uniqueness over a history is the argument given here: in-use marks are set before an identifier leaves and cleared only where the exchange ends.",
  design="Obtaining: every returned identifier passed the tests non-zero and not in use, was marked and cost one; the loop has a bound and covers 65535 values. Releasing: only at the listed ends, with the identifier at hand, capped at the ceiling. The set itself: its small array and bit words are checked by evaluating index and mask expressions over all 65536 identifiers.")

P('C12', 'QoS messages stay queued until acknowledged and are sent again on reconnect',
  statement="A QoS 1 or 2 message for a session that outlives its connection is stored, as the copy that is sent (effective QoS, retain flag, topic, subscription identifier), before it is written or the client is found offline. It is dropped at the outset only when no identifier is free or the byte limit is reached with messages queued; after that it leaves the queue only by acknowledgement, expiry, denial or the quota at reconnect. Each time a client connects, after CONNACK, every stored message is sent again in the order of storing with its identifier, and PUBREL for every identifier awaiting PUBCOMP.",
  over=['histories'],
  q="every history of publishing, acknowledging and reconnecting",
  tests="Tests reconnect with a few messages queued; removal from the middle, expiry and limits together are not sampled.",
  files=['session.cpp', 'qospacketqueue.cpp', 'publishcopyfactory.cpp', 'threaddata.cpp'],
  mech=[('Session::writePacket', 'session.cpp'), ('Session::sendAllPendingQosData', 'session.cpp'), ('QoSPublishQueue', 'qospacketqueue.cpp'), ('PublishCopyFactory::getNewPublish', 'publishcopyfactory.cpp')],
  technique='must-pass path analysis with value provenance; structural analysis of the linked queue operations',
  note="Shared ownership and weak pointers of the standard library are trusted. Running out of memory is not covered.",
  design="The function that writes to a session: every path to a write or to the offline answer passes the queueing with the arguments that are written. The queue: insertion links at the newest end, removal relinks both neighbours and both ends, byte count and expirations follow. The reconnect walk: starts at the oldest, moves by the link to the newer, ends only at the end, and each round keeps the message or drops it for one of the listed reasons.")

P('C13', 'A connection gets the session of its client ID only when that is its own',
  statement="An existing session is taken over only by a connection with the same username and client group, and only then is the connection using it disconnected, before the new one is assigned. The session is continued when it exists, outlives its connections and clean start is not asked for, and otherwise replaced by a new one under that (non-empty) client ID with the identity of the new connection. CONNACK of MQTT 3.1.1 or later says session present exactly when, at the time of the CONNECT, such a session could be continued.",
  over=['histories', 'inputs'],
  q="every order of connections with any client ID, username, group, clean start flag and session state",
  tests="Tests take over sessions with the same user and a few combinations of flags.",
  files=['subscriptionstore.cpp', 'session.cpp', 'mqttpacket.cpp', 'client.cpp', 'threaddata.cpp'],
  mech=[('SubscriptionStore::registerClientAndKickExistingOne', 'subscriptionstore.cpp'), ('Session::assignActiveConnection', 'session.cpp'), ('MqttPacket::handleConnect', 'mqttpacket.cpp')],
  technique='guard dominance and must-pass path analysis with value provenance',
  note="Two registrations of the same ID at the same moment are serialised by the lock on the session table, which the lock property covers. Bridges that this server opens itself are not covered.",
  design="Paths of the registration: the disconnect of the other connection and the assignment are dominated by equality of username and group (or there is no session); a new session is made exactly under the negation of the three conditions to continue, has the identity of the client and replaces the entry. The flag of CONNACK is evaluated as a condition in both directions.")

P('C14', 'Sessions live exactly as long as asked for and configured',
  statement="The expiry of an MQTT 5 session is what CONNECT or DISCONNECT asked for, 0 when it did not, never more than configured, and an expiry of 0 is not raised later; a session ends with its connection exactly for clean session (MQTT 3) or expiry 0 (MQTT 5). When a connection is gone, its session is left alone if another connection uses it, removed at once if it ends with the connection, and otherwise queued for the second at which its expiry has passed. Apart from removal by plugins, a session is removed only then, when it has no connection and its expiry since its last disconnect has passed, and all due entries are looked at regularly.",
  over=['histories', 'inputs'],
  q="every history of connections, disconnects and time passing",
  tests="Tests wait for one expiry; stale entries of earlier disconnects and takeovers need longer histories.",
  files=['session.cpp', 'subscriptionstore.cpp', 'threaddata.cpp', 'mqttpacket.cpp', 'client.cpp', 'mainapp.cpp'],
  mech=[('Session::setSessionProperties', 'session.cpp'), ('ThreadData::clientDisconnectActions', 'threaddata.cpp'), ('SubscriptionStore::removeExpiredSessionsClients', 'subscriptionstore.cpp'), ('SubscriptionStore::queueSessionRemoval', 'subscriptionstore.cpp')],
  technique='must-pass path analysis, provenance of limits, loop coverage analysis',
  note="The period of the timer is not judged, only that it repeats. Time arithmetic is taken as exact (no overflow of the clock).",
  design="Writers of the expiry are enumerated and every source must be 0, the limit or a minimum with it. The flag that ends a session with its connection is evaluated as a condition in both directions per protocol. The expiry walk: an entry is collected only when its slot has come, its own due time has passed and it has no connection; it is skipped only otherwise; the walk ends only at the end or at a future slot.")

P('C15', 'Wills are published when due, once, and never after a normal disconnect',
  statement="A will is taken on exactly when CONNECT had one, wills are enabled and its registration is allowed; it is dropped exactly by a DISCONNECT with reason 0. When a connection with a will is gone in any other way, or the server shuts down, the will is published at once without a delay or when its session was replaced, and otherwise when its delay has passed (unless the session has a connection again) or the session ends, whichever is first. Publishing happens once, only while wills are enabled and as an allowed publish of that client, goes to its subscribers, is retained when the will says so, and starts its expiry interval.",
  over=['histories', 'configurations'],
  q="every order of connects, disconnects, takeovers, session ends and time passing",
  tests="Tests cover a delayed and an immediate will; successor wills, replaced sessions and expiry after a delay need longer histories.",
  files=['subscriptionstore.cpp', 'client.cpp', 'session.cpp', 'threaddata.cpp', 'mqttpacket.cpp', 'mainapp.cpp'],
  mech=[('SubscriptionStore::sendWill', 'subscriptionstore.cpp'), ('SubscriptionStore::queueOrSendWillMessage', 'subscriptionstore.cpp'), ('ThreadData::clientDisconnectActions', 'threaddata.cpp'), ('MqttPacket::handleDisconnect', 'mqttpacket.cpp')],
  technique='must-pass path analysis over the life of a will, writer enumeration, loop coverage analysis',
  note="A DISCONNECT arriving on a connection while another one takes over the same session at that moment is a race that is not judged. Wills in the session file are covered by the persistence properties. MQTT 3 wills above the maximum QoS are dropped by configuration and MQTT 5 ones refused.",
  design="Each hand-over of the will (CONNECT to staged, staged to active, client to session, connection end to task, task to publish or queue, queue to publish, session removal and replacement to publish) is a must-pass obligation with the conditions under which it may be left out; the fields holding a will are written only by the enumerated functions; the delay walk covers all due slots and entries.")

P('C16', 'The retained store keeps the latest message of each topic, and only that',
  statement="While the mode retains messages, each PUBLISH with retain that may be retained is stored under its own topic with retain set and an expiry of at most the configured age, replacing the earlier one, or clears the topic when its payload is empty; messages that cannot be stored at once are stored later in the order they came. Left out are only payloads above the size limit and topics for which the node limit is reached. Nothing else removes a message but its expiry, and a topic node is removed only when it has no message, no children and no user and is old enough.",
  over=['histories', 'configurations'],
  q="every sequence of retained publishes, lock contention, purges and limits",
  tests="Deferred setting happens only under lock contention; limits and purging need large trees and hours.",
  files=['subscriptionstore.cpp', 'retainedmessage.cpp', 'threaddata.cpp', 'threadloop.cpp', 'mqttpacket.cpp'],
  mech=[('SubscriptionStore::setRetainedMessage', 'subscriptionstore.cpp'), ('RetainedMessageNode::addPayload', 'subscriptionstore.cpp'), ('ThreadData::setQueuedRetainedMessages', 'threaddata.cpp'), ('SubscriptionStore::expireRetainedMessages', 'subscriptionstore.cpp')],
  technique='must-pass path analysis, structural analysis of queue and tree walks, writer enumeration',
  note="Order is per thread: messages to one topic from clients of different threads have no order. Messages set by plugins, wills and $SYS do not wait for deferred ones. The count statistic is not judged.",
  design="Handling of PUBLISH: every path on which the store is due passes the hand-over. Store: returns done only with the message stored or a listed reason, not-done only when the lock was not free and waiting was not demanded; each step of the topic is one step down the tree and the node is selected only at the end of the topic; making a node is dominated by the limit test in every round. Queue: appended at the back, taken from the front, left only when stored, stops at the first failure. Purge: conditions per erased message and node, all children visited or put off.")
