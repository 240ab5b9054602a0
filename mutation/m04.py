F='mqttpacket.cpp'
M=[
('B','pre-auth allows PINGREQ',[(F,"packetType == PacketType::CONNECT || packetType == PacketType::AUTH || packetType == PacketType::DISCONNECT ||","packetType == PacketType::CONNECT || packetType == PacketType::AUTH || packetType == PacketType::DISCONNECT || packetType == PacketType::PINGREQ ||")]),
('B','gate by connect seen',[(F,"    if (!sender->getAuthenticated())\n    {\n        if (packetType == PacketType::AUTH","    if (!sender->getAuthenticated() && !sender->hasConnectPacketSeen())\n    {\n        if (packetType == PacketType::AUTH")]),
('B','auth without start',[(F,"if (packetType == PacketType::AUTH && sender->getExtendedAuthenticationMethod().empty())","if (packetType == PacketType::AUTH && sender->getExtendedAuthenticationMethod().empty() && !sender->hasConnectPacketSeen())")]),
('B','stage Now only',[(F,"if (sender->getDisconnectStage() > DisconnectStage::NotInitiated)\n        return HandleResult::Done;","if (sender->getDisconnectStage() == DisconnectStage::Now)\n        return HandleResult::Done;")]),
('B','second connect ok unless authed',[(F,"if (sender->hasConnectPacketSeen())\n        throw ProtocolError(\"Client already sent a CONNECT.\"","if (sender->hasConnectPacketSeen() && sender->getAuthenticated())\n        throw ProtocolError(\"Client already sent a CONNECT.\"")]),
('B','connack on any',[(F,"    if (!sender->isOutgoingConnection())\n        return;","    if (!sender->isOutgoingConnection() && sender->getAuthenticated())\n        return;")]),
('B','connack non success',[(F,"    if (data.reasonCode != ReasonCodes::Success)\n    {\n        throw ProtocolError(\"MQTT connect reject","    if (data.reasonCode != ReasonCodes::Success && !data.sessionPresent)\n    {\n        throw ProtocolError(\"MQTT connect reject")]),
('B','preauth size only mqtt',[(F,"if (sender && !sender->getAuthenticated() && packet_length >= 1024*1024)","if (sender && !sender->getAuthenticated() && !sender->hasConnectPacketSeen() && packet_length >= 1024*1024)")]),
('B','preauth size bigger',[(F,"packet_length >= 1024*1024)","packet_length >= 64*1024*1024)")]),
('B','counter not checked',[(F,"if (sender->preAuthPacketCounter++ > 200)","if (sender->preAuthPacketCounter++ > 200 && packetType == PacketType::PUBLISH)")]),
('B','defer always',[(F,"if (sender->getAsyncAuthenticating())\n                return HandleResult::Defer;","if (sender->getAsyncAuthenticating() || sender->hasConnectPacketSeen())\n                return HandleResult::Defer;")]),
('B','queue before auth',[('threaddata.cpp',"            client->setAuthenticated(true);\n            client->getSession()->sendAllPendingQosData();\n            client->handleAfterAsyncQueue(client);","            client->handleAfterAsyncQueue(client);\n            client->setAuthenticated(true);\n            client->getSession()->sendAllPendingQosData();")]),
('B','defer queue unlimited',[('client.cpp',"if (packetQueueAfterAsync->size() > 64)","if (packetQueueAfterAsync->size() > 64 && authenticated)")]),
('B','mark lost',[('mqttpacket.cpp',"    sender->setHasConnectPacketSeen();\n",""),('mqttpacket.cpp','username, true, connectData.keep_alive','username, sender->getProtocolVersion() == ProtocolVersion::Mqtt5, connectData.keep_alive')]),
('K','helper for allowed types',[(F,"HandleResult MqttPacket::handle(std::shared_ptr<Client> &sender)\n{","static bool allowedBeforeAuth(const PacketType t)\n{\n    switch (t)\n    {\n    case PacketType::CONNECT:\n    case PacketType::AUTH:\n    case PacketType::DISCONNECT:\n    case PacketType::CONNACK:\n        return true;\n    default:\n        return false;\n    }\n}\n\nHandleResult MqttPacket::handle(std::shared_ptr<Client> &sender)\n{"),(F,"        if (!(packetType == PacketType::CONNECT || packetType == PacketType::AUTH || packetType == PacketType::DISCONNECT ||\n              packetType == PacketType::CONNACK))","        if (!allowedBeforeAuth(packetType))")]),
('K','switch dispatch',[(F,"""    if (packetType == PacketType::PUBLISH)
        handlePublish(sender);
    else if (packetType == PacketType::PUBACK)
        handlePubAck(sender);
    else if""","""    if (packetType == PacketType::PUBLISH)
    {
        handlePublish(sender);
        return HandleResult::Done;
    }

    switch (packetType)
    {
    case PacketType::PUBACK:
        handlePubAck(sender);
        return HandleResult::Done;
    default:
        break;
    }

    if""")]),
('K','locals',[(F,"    if (!sender->getAuthenticated())\n    {\n        if (packetType == PacketType::AUTH","    const bool not_authed = !sender->getAuthenticated();\n    if (not_authed)\n    {\n        if (packetType == PacketType::AUTH"),(F,"if (sender->getDisconnectStage() > DisconnectStage::NotInitiated)\n        return HandleResult::Done;","const DisconnectStage cur_stage = sender->getDisconnectStage();\n    if (cur_stage != DisconnectStage::NotInitiated)\n        return HandleResult::Done;")]),
('K','counter split',[(F,"            if (sender->preAuthPacketCounter++ > 200)\n                throw","            const auto count_so_far = sender->preAuthPacketCounter++;\n\n            if (count_so_far > 200)\n                throw")]),
('K','once helper',[(F,"void MqttPacket::handleConnect(std::shared_ptr<Client> &sender)\n{\n    if (sender->hasConnectPacketSeen())\n        throw ProtocolError(\"Client already sent a CONNECT.\", ReasonCodes::ProtocolError);","static void assertFirst(std::shared_ptr<Client> &sender)\n{\n    if (!sender->hasConnectPacketSeen())\n        return;\n    throw ProtocolError(\"Client already sent a CONNECT.\", ReasonCodes::ProtocolError);\n}\n\nvoid MqttPacket::handleConnect(std::shared_ptr<Client> &sender)\n{\n    assertFirst(sender);")]),
('K','size consts',[(F,"if (sender && !sender->getAuthenticated() && packet_length >= 1024*1024)","constexpr size_t pre_auth_max = 1024*1024;\n        const bool too_big_pre_auth = packet_length >= pre_auth_max;\n        if (sender && too_big_pre_auth && !sender->getAuthenticated())")]),
]
