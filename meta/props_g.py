from meta.gen import P, N

P('C27', 'Packets sent are well formed, the receiver\'s own, and within its limits',
  statement="Every packet sent has exactly the fields the specification prescribes for its type and version, in order and in exactly the space reserved for it, and each MQTT 5 property is written with its own identifier and type. A PUBLISH carries the topic (or, to an MQTT 5 client, an alias within the client's maximum that an earlier packet written to it bound to that topic), the payload, retain flag and properties of the message with the remaining expiry, and the packet identifier and QoS of the receiver; bytes received or made for another receiver are reused only when protocol layout, topic and receiver-specific properties are the same. No packet larger than the other side's maximum packet size is written, and only QoS 0 messages are dropped for lack of buffer space.",
  over=['inputs', 'histories', 'configurations'],
  q="every packet type, protocol version, combination of optional fields and flags, and every mix of receivers of one message",
  tests="Tests check a few packets of a few combinations; a length that is off for one combination of will, credentials and properties, or bytes of one receiver reused for another, needs exactly that combination.",
  files=['mqttpacket.cpp', 'publishcopyfactory.cpp', 'client.cpp', 'mqtt5properties.cpp', 'types.cpp', 'publishcopyfactory.h'],
  mech=[('MqttPacket::MqttPacket', 'mqttpacket.cpp'), ('PublishCopyFactory::getOptimumPacket', 'publishcopyfactory.cpp'), ('Client::writeMqttPacketAndBlameThisClient', 'client.cpp'), ('Publish::getPropertyBuilder', 'types.cpp'), ('Mqtt5PropertyBuilder::writeStr', 'mqtt5properties.cpp')],
  technique='path enumeration of the encoders with symbolic byte counts against per-packet templates',
  note="The properties of CONNECT, CONNACK and SUBACK packets are checked for their encoding, not for when they are sent. Loops over lists are taken for no and for one element standing for all. The length of a property block is taken as the length of what it writes, which the encode rule establishes for every property.",
  design="Every path of every packet constructor is enumerated on the control-flow graph (facts of branches are kept, contradictory paths dropped); the sum of bytes reserved and of bytes written are compared as sums of symbolic terms, and the sequence of writes with the template of the type for the facts of the path. The bits of the first byte, connect flags and subscription options are compared term by term. Each property writer must store its identifier, its value in network order and nothing else in the bytes it adds. On every path of the packet cache, bytes are reused only under the facts that make them equal; on every path of sending, an alias is used only with the facts that bound it and is recorded only after the write succeeded; on every path of writing the size comparison precedes.")

N('C28', 'Memory and processor time stay bounded under any load',
  "However clients connect, publish and subscribe, the memory and processor time the broker uses stay within bounds that follow from its configuration and the number of clients, and no client's load keeps others from being served within a bounded time.",
  ['inputs', 'schedules', 'histories'], "every number and behaviour of clients over any length of time",
  "A test drives a few clients for seconds; growth and starvation show after hours or with thousands.",
  ['session.cpp', 'qospacketqueue.cpp', 'cirbuf.cpp', 'subscriptionstore.cpp', 'threadloop.cpp'],
  [('QoSPublishQueue', 'qospacketqueue.cpp'), ('CirBuf::ensureFreeSpace', 'cirbuf.cpp'), ('do_thread_work', 'threadloop.cpp')],
  "The quantities (sum of buffers and queues over all clients, time per round of a thread, scheduling by the kernel) exist only at run time, and several limits are unlimited by default. The per-client limits that a static argument can reach are decided under the properties on queues, packet sizes and the receive maximum.")

N('C29', 'TLS connections are confidential and authenticated',
  "What is sent over a TLS listener or bridge can be read and changed by the two ends only, a bridge talks only to the host its certificate authority vouches for, and a client certificate gives the user name it was issued to.",
  ['inputs', 'configurations', 'histories'], "every certificate chain, protocol version, renegotiation and attacker on the network",
  "Tests connect with one good certificate chain.",
  ['iowrapper.cpp', 'mainapp.cpp', 'sslctxmanager.cpp', 'bridgeconfig.cpp', 'x509manager.cpp'],
  [('IoWrapper', 'iowrapper.cpp'), ('SslCtxManager', 'sslctxmanager.cpp')],
  "The deciding code is OpenSSL's, which is not part of the tree; a static rule on the options given to it would check configuration plumbing, not the guarantee. The broker's own part (no data handled before the handshake is complete, who may authenticate how) is decided under the properties on sessions and authorization.")

N('C30', 'Timed behaviour happens on time',
  "Keep-alive, session expiry, delayed wills, message expiry and bridge reconnects take effect within a small bounded time of when they are due.",
  ['schedules', 'histories'], "every point in time, clock change, system load and number of sessions",
  "Tests wait a few seconds on an idle machine.",
  ['threaddata.cpp', 'mainapp.cpp', 'subscriptionstore.cpp', 'queuedtasks.cpp'],
  [('ThreadData::doKeepAliveCheck', 'threaddata.cpp'), ('SubscriptionStore::removeExpiredSessionsClients', 'subscriptionstore.cpp')],
  "How late a timer fires depends on the kernel's scheduling and on how long other tasks of the thread take, which no argument from the source bounds. That each of them takes effect at all, once and in the right units, is decided under the properties on sessions, wills and expiry.")
