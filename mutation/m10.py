F='mqttpacket.cpp'; S='session.cpp'; A='acksender.cpp'
M=[
('B','no-final-ack',[(F,"#endif\n\n    ackSender.sendNow(sender.get());","#endif\n\n    if (publishData.qos > 0)\n        ackSender.sendNow(sender.get());")]),
('B','sent-not-marked',[(A,"    this->sent = true;\n\n    if (qos == 0)\n        return;\n","    if (qos == 0)\n        return;\n\n    this->sent = qos == 1;\n")]),
('B','kind-swap',[(A,"qos == 1 ? PacketType::PUBACK","qos <= 2 ? PacketType::PUBACK")]),
('B','staged-late',[(F,"    AckSender ackSender(this->publishData.qos, this->packet_id, this->protocolVersion);\n",""),(F,"    const uint16_t _packet_id = this->packet_id;\n","    const uint16_t _packet_id = this->packet_id;\n    if (publishData.qos > settings->maxQosMsgPendingPerClient) publishData.qos = 1;\n    AckSender ackSender(this->publishData.qos, this->packet_id, this->protocolVersion);\n")]),
('B','dedupe-dup-only',[(F,"publishData.qos == 2 && sender->getSession()->incomingQoS2MessageIdInTransit(_packet_id)","publishData.qos == 2 && (first_byte & 0b00001000) && sender->getSession()->incomingQoS2MessageIdInTransit(_packet_id)")]),
('B','remember-late',[(F,"        if (publishData.qos == 2)\n            sender->getSession()->addIncomingQoS2MessageId(_packet_id);\n\n        const uint8_t qos_org","        const uint8_t qos_org"),(F,"        const AuthResult authResult = authentication.aclCheck(this->publishData, getPayloadView());\n        if (authResult == AuthResult::success ||","        if (publishData.qos == 2)\n            sender->getSession()->addIncomingQoS2MessageId(_packet_id);\n        const AuthResult authResult = authentication.aclCheck(this->publishData, getPayloadView());\n        if (authResult == AuthResult::success ||")]),
('B','forget-missing',[(F,"            if (protocolVersion >= ProtocolVersion::Mqtt5)\n                sender->getSession()->removeIncoming","            if (protocolVersion > ProtocolVersion::Mqtt5)\n                sender->getSession()->removeIncoming")]),
('B','forget-any-version',[(F,"            if (protocolVersion >= ProtocolVersion::Mqtt5)\n                sender->getSession()->removeIncoming","            if (protocolVersion >= ProtocolVersion::Mqtt311)\n                sender->getSession()->removeIncoming")]),
('B','pubrel-keeps',[(S,"        qos_locked->incomingQoS2MessageIds.erase(it);\n        result = true;","        result = true;")]),
('B','pubrel-found-inverted',[(F,"const ReasonCodes reason = foundAndRemoved ? ReasonCodes::Success : ReasonCodes::PacketIdentifierNotFound;\n\n    PubResponse pubcomp","const ReasonCodes reason = foundAndRemoved ? ReasonCodes::PacketIdentifierNotFound : ReasonCodes::Success;\n\n    PubResponse pubcomp")]),
('B','pubrec-limit',[(F,"data.reasonCode >= ReasonCodes::UnspecifiedError","data.reasonCode > ReasonCodes::UnspecifiedError")]),
('B','pubrec-found-only',[(F,"    if (!publishTerminatesHere)\n    {","    if (!publishTerminatesHere && foundAndRemoved)\n    {")]),
('B','pubrec-untracked',[(F,"        sender->getSession()->addOutgoingQoS2MessageId(packet_id);\n","        if (foundAndRemoved)\n            sender->getSession()->addOutgoingQoS2MessageId(packet_id);\n")]),
('B','puback-end',[(F,"clearQosMessage(packet_id, true);","clearQosMessage(packet_id, sender->getSession()->getDestroyOnDisconnect());")]),
('B','transit-begin',[(S,"    return it != qos_locked->incomingQoS2MessageIds.end();","    return it != qos_locked->incomingQoS2MessageIds.begin();")]),
('B','add-clears',[(S,"    qos_locked->incomingQoS2MessageIds.insert(packet_id);","    if (qos_locked->incomingQoS2MessageIds.size() > 1000)\n        qos_locked->incomingQoS2MessageIds.clear();\n    qos_locked->incomingQoS2MessageIds.insert(packet_id);")]),
('K','contains',[(S,"    const auto it = qos_locked->incomingQoS2MessageIds.find(packet_id);\n    return it != qos_locked->incomingQoS2MessageIds.end();","    return qos_locked->incomingQoS2MessageIds.count(packet_id) > 0;")]),
('K','erase-key',[(S,"    bool result = false;\n\n    const auto it = qos_locked->incomingQoS2MessageIds.find(packet_id);\n    if (it != qos_locked->incomingQoS2MessageIds.end())\n    {\n        qos_locked->incomingQoS2MessageIds.erase(it);\n        result = true;\n    }\n\n    return result;","    return qos_locked->incomingQoS2MessageIds.erase(packet_id) > 0;")]),
('K','switch-kind',[(A,"    const PacketType responseType = qos == 1 ? PacketType::PUBACK : PacketType::PUBREC;","    PacketType responseType = PacketType::PUBREC;\n    if (qos == 1)\n        responseType = PacketType::PUBACK;")]),
('K','first-seen-var',[(F,"    else if (publishData.qos == 2 && sender->getSession()->incomingQoS2MessageIdInTransit(_packet_id))\n    {\n        ackSender.setAckCode(ReasonCodes::Success);\n    }\n    else\n    {","    else if (const bool again = publishData.qos == 2 && sender->getSession()->incomingQoS2MessageIdInTransit(_packet_id); again)\n    {\n        ackSender.setAckCode(ReasonCodes::Success);\n    }\n    else\n    {")]),
('K','early-return',[(F,"    if (!publishTerminatesHere)\n    {\n        sender->getSession()->addOutgoing","    if (publishTerminatesHere)\n        return;\n\n    {\n        sender->getSession()->addOutgoing")]),
]
