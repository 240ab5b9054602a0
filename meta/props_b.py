# property texts: protocol conformance of received packets
from meta.gen import P

P('C07', 'MQTT 5 property lists are read exactly as specified',
  statement="In every MQTT 5 packet with properties (CONNECT and its will, CONNACK, PUBLISH, SUBSCRIBE, SUBACK, UNSUBSCRIBE, DISCONNECT, AUTH) only the properties the specification allows there are accepted, each at most once (user properties excepted), read with its specified type and used as the value of that property; anything else ends in an error. The list is read exactly up to its announced end. Zero is refused for receive maximum, maximum packet size, topic alias and subscription identifier, other values than 0 and 1 for the request-information and retain/shared-availability flags, and an empty response topic; subscription identifiers are accepted only when enabled, and in a PUBLISH only from the server a bridge connects to.",
  over=['inputs'],
  q="every packet of these types with any property bytes, in any order and number",
  tests="Tests send a few properties per packet type; combinations, repetitions and misplaced identifiers are not enumerable.",
  files=['mqttpacket.cpp'],
  mech=[('MqttPacket::parseConnectData', 'mqttpacket.cpp'), ('MqttPacket::parsePublishData', 'mqttpacket.cpp'), ('MqttPacket::parseConnAckData', 'mqttpacket.cpp'), ('MqttPacket::withinBound', 'mqttpacket.cpp')],
  technique='path analysis of every property dispatch (once-only counters, wire types, destinations, bounds facts)',
  note="Decides for each property and each path from its recognition to the next one: once-only check with its own zero-initialised counter, sequence of reads, destination and value facts. Trusts the primitive readers (their bounds are a separate property).",
  design="Every branch edge that establishes 'property == X' in code that reads packet bytes is a start point; from there all paths to the point where the next identifier is read, or to the function's end, are walked. The set of identifiers is compared with the specification table of the packet, the paths' read sequences with the wire type, and the paths must cross the edge 'counter was zero' of a counter of their own, which is marked on every path and not reset inside the loop. The loop's exit edges must imply position == announced end.")

P('C08', 'Malformed packets are refused before they have any effect',
  statement="A received packet whose fixed header flags, reserved bits, protocol name or version, connect flags, QoS, DUP, packet identifier, subscription options, topic, filter or share name the specification forbids, or that has no filter, is answered with a protocol error instead of being processed; the fields of accepted packets are taken from exactly the bits the specification assigns. Filters and share names are judged as exactly the valid strings of the specification, and every text field is validated when read, publish topics also against wildcards. Packet lengths are bounded by the specification and the configured or not-yet-authenticated limit before the packet is buffered.",
  over=['inputs'],
  q="every byte sequence received on a connection",
  tests="Tests send a handful of malformed packets; the combinations of flag bits and positions are far more.",
  files=['mqttpacket.cpp', 'utils.cpp', 'client.cpp'],
  mech=[('MqttPacket::parseConnectData', 'mqttpacket.cpp'), ('MqttPacket::parseSubscribe', 'mqttpacket.cpp'), ('MqttPacket::parsePublishData', 'mqttpacket.cpp'), ('isValidSubscribePath', 'utils.cpp'), ('MqttPacket::bufferToMqttPackets', 'mqttpacket.cpp')],
  technique='guard analysis of parsing paths with bit-level decoding, exact comparison of scanning functions with a specification automaton',
  note="The scanning functions are compared over all strings (product of the abstracted function and the specification automaton). Order of errors and the reason codes are not part of the property.",
  design="For each field: bit provenance (mask and shift) of what is stored, and a must-pass-edge analysis from the read to every use and to the function's normal end for the refusal. Text reads are enumerated as call sites of the string readers and the validation argument must be on unless the field is binary. Filter syntax functions are turned into automata over character classes and compared exactly with the specification automaton, reporting a witness string.")
P('C09', 'The UTF-8 validators accept exactly the text MQTT allows',
  statement="Both validators (general and vectorised) accept a text exactly if it is well-formed UTF-8 (no truncated, stray, overlong or above-U+10FFFF characters) without control characters U+0000 to U+001F and U+007F to U+009F, surrogates and non-characters; with the publish check requested, '#' and '+' are refused too.",
  over=['inputs'],
  q="every byte sequence, at every alignment within the 16-byte blocks",
  tests="Tests try selected characters; the defects found here (ASCII before a multi-byte character in a block, values above U+10FFFF) were in untested combinations.",
  files=['utils.h', 'threadlocalutils.cpp'],
  mech=[('isValidUtf8Generic', 'utils.h'), ('SimdUtils::isValidUtf8', 'threadlocalutils.cpp')],
  technique='abstract interpretation with exact byte and code point sets, in step with the specification',
  note="The code point variable must be assembled from the bytes by masks and shifts; block code is judged by its comparisons (constants, prefix mask, must-pass). The vector code's intrinsics are trusted to their documentation; its refusal of ASCII blocks is only checked in the accepting direction.",
  design="A dataflow walks the validator with the set of possible bytes per position, the contributions to the code point variable, and the set of code points (a bit set over 2^21) left by the branches taken. At each step to the next character or to 'return true' the set must contain no forbidden code point; at each 'return false' it must contain only forbidden ones.")
