F='mqttpacket.cpp'
M=[
('B','reserved flag',[(F,"bool reserved = !!(flagByte & 0b00000001);","bool reserved = !!(flagByte & 0b00000001) && protocolVersion != ProtocolVersion::Mqtt31;")]),
('B','auth nibble',[(F,"    if (first_byte & 0b1111)\n        throw ProtocolError(\"AUTH","    if (first_byte & 0b0111)\n        throw ProtocolError(\"AUTH")]),
('B','pubrel nibble',[(F,"(first_byte & 0b00001111) != 0b00000010","(first_byte & 0b00001110) != 0b00000010")]),
('B','sub pid',[(F,"""        throw ProtocolError("Packet ID 0 when subscribing is invalid.", ReasonCodes::MalformedPacket); // [MQTT-2.3.1-1]""","""        logger->log(LOG_DEBUG) << "Packet ID 0 when subscribing is invalid.";""")]),
('B','pubcomp pid',[(F,"""void MqttPacket::parsePubComp()
{
    setPosToDataStart();
    this->publishData.qos = 2;
    this->packet_id = readTwoBytesToUInt16();

    if (this->packet_id == 0)""","""void MqttPacket::parsePubComp()
{
    setPosToDataStart();
    this->publishData.qos = 2;
    this->packet_id = readTwoBytesToUInt16();

    if (this->packet_id == 0 && !atEnd())""")]),
('B','will qos 3',[(F,"    if (result.will_qos > 2)","    if (result.will_qos > 2 && !result.will_flag)")]),
('B','dup',[(F,"if (publishData.qos == 0 && duplicate)","if (publishData.qos == 0 && duplicate && publishData.retain)")]),
('B','will retain',[(F,"""        if (result.will_retain)
            throw ProtocolError("Will retain bit""","""        if (result.will_retain && result.will_qos)
            throw ProtocolError("Will retain bit""")]),
('B','v5 bits',[(F,"(qos_byte & 0b11000000)","(qos_byte & 0b10000000)")]),
('B','no filters',[(F,"    if (numberOfUnsubs == 0)","    if (numberOfUnsubs == 0 && protocolVersion < ProtocolVersion::Mqtt5)")]),
('B','will topic chars',[(F,"result.willpublish.topic = readBytesToString(settings.maxStringLength, true, true);","result.willpublish.topic = readBytesToString(settings.maxStringLength, true);")]),
('B','client id text',[(F,"result.client_id = readBytesToString(settings.maxStringLength);","result.client_id = readBytesToString(settings.maxStringLength, false);")]),
('B','unsub invalid',[(F,"        if (!isValidSubscribePath(topic))\n            throw ProtocolError(\"Unsubscribe topic is invalid: \" + topic, ReasonCodes::MalformedPacket);\n","")]),
('B','sub empty second',[(F,"        if (topic.empty())\n            throw ProtocolError(\"Subscribe topic is empty","        if (topic.empty() && subs_reponse_codes.empty())\n            throw ProtocolError(\"Subscribe topic is empty")]),
('B','nolocal share',[(F,"if (!shareName.empty() && noLocal)","if (!shareName.empty() && noLocal && mqtt3bridge)")]),
('B','payload utf8 early',[(F,"    if (publishData.payloadUtf8 && !isValidUtf8Generic(getPayloadView()))","    if (publishData.payloadUtf8 && publishData.retain && !isValidUtf8Generic(getPayloadView()))")]),
('B','path syntax',[('utils.cpp',"        if (poundSeen)\n            return false;","        if (poundSeen && c != '/')\n            return false;")]),
('B','path syntax3',[('utils.cpp',"wildcardAllowed = c == '/';","wildcardAllowed = c == '/' || c == '$';")]),
('B','size limit',[(F,"        if (packet_length > size_limit)","        if (packet_length > size_limit && !sender->getAuthenticated())")]),
('B','five bytes',[(F,"if (fixed_header_length > 5)","if (fixed_header_length > 6)"),(F,"            if (multiplier > 128*128*128*128)\n                throw ProtocolError(\"Malformed Remaining Length.\", ReasonCodes::MalformedPacket);\n        }\n        while ((encodedByte & 128) != 0);\n        packet_length","        }\n        while ((encodedByte & 128) != 0);\n        packet_length")]),
('B','varint',[(F,"        if (multiplier > 128*128*128*128)\n            throw ProtocolError(\"Malformed Remaining Length.\", ReasonCodes::MalformedPacket);\n    }","        if (multiplier > 128ULL*128*128*128*128)\n            throw ProtocolError(\"Malformed Remaining Length.\", ReasonCodes::MalformedPacket);\n    }")]),
('B','alter after check',[(F,"        if (topic.empty())\n            throw ProtocolError(\"Subscribe topic is empty.\", ReasonCodes::MalformedPacket);\n\n        if (!isValidSubscribePath(topic))\n            throw ProtocolError(formatString(\"Invalid subscribe path: %s\", topic.c_str()), ReasonCodes::MalformedPacket);\n",""),(F,"        std::vector<std::string> subtopics = splitTopic(topic);\n\n        if (authentication.alterSubscribe","        if (topic.empty())\n            throw ProtocolError(\"Subscribe topic is empty.\", ReasonCodes::MalformedPacket);\n\n        if (!isValidSubscribePath(topic))\n            throw ProtocolError(formatString(\"Invalid subscribe path: %s\", topic.c_str()), ReasonCodes::MalformedPacket);\n        std::vector<std::string> subtopics = splitTopic(topic);\n\n        if (authentication.alterSubscribe")]),
('B','marker or',[(F,"else if (magic_marker == \"MQIsdp\" && result.protocol_level_byte == 0x03)","else if (magic_marker == \"MQIsdp\" || result.protocol_level_byte == 0x03)")]),
('K','validate helper',[(F,"        if (topic.empty())\n            throw ProtocolError(\"Subscribe topic is empty.\", ReasonCodes::MalformedPacket);\n\n        if (!isValidSubscribePath(topic))\n            throw ProtocolError(formatString(\"Invalid subscribe path: %s\", topic.c_str()), ReasonCodes::MalformedPacket);\n","        checkFilter(topic);\n"),(F,"void MqttPacket::handleSubscribe(","static void checkFilter(const std::string &filter)\n{\n    if (filter.size() == 0)\n        throw ProtocolError(\"Subscribe topic is empty.\", ReasonCodes::MalformedPacket);\n    const bool valid = isValidSubscribePath(filter);\n    if (valid)\n        return;\n    throw ProtocolError(formatString(\"Invalid subscribe path: %s\", filter.c_str()), ReasonCodes::MalformedPacket);\n}\n\nvoid MqttPacket::handleSubscribe(")]),
('K','path by enum',[('utils.cpp',"""    bool wildcardAllowed = true;
    bool nextMustBeSlash = false;
    bool poundSeen = false;

    for (const char c : s)
    {
        if (!wildcardAllowed && (c == '+' || c == '#'))
            return false;

        if (nextMustBeSlash && c != '/')
            return false;

        if (poundSeen)
            return false;

        wildcardAllowed = c == '/';
        nextMustBeSlash = c == '+';
        poundSeen = c == '#';
    }

    return true;""","""    char prev = '/';

    for (size_t i = 0; i < s.size(); i++)
    {
        const char c = s[i];
        switch (prev)
        {
        case '#':
            return false;
        case '+':
            if (c != '/')
                return false;
            break;
        case '/':
            break;
        default:
            if (c == '+' || c == '#')
                return false;
        }

        prev = c;
    }

    return true;""")]),
('K','nibble helper',[(F,"    const char firstByteFirstNibble = (first_byte & 0x0F);\n\n    if (firstByteFirstNibble != 2)\n        throw ProtocolError(\"First LSB of first byte is wrong value for subscribe packet.\", ReasonCodes::MalformedPacket);\n\n    const uint16_t packet_id","    const bool goodHeader = (first_byte & 0x0F) == 2;\n\n    if (!goodHeader)\n        throw ProtocolError(\"First LSB of first byte is wrong value for subscribe packet.\", ReasonCodes::MalformedPacket);\n\n    const uint16_t packet_id")]),
('K','flags shift',[(F,"bool reserved = !!(flagByte & 0b00000001);","const bool reserved = (flagByte & 1) == 1;"),(F,"result.will_qos = (flagByte & 0b00011000) >> 3;","result.will_qos = (flagByte >> 3) & 0b11;"),(F,"result.will_flag = !!(flagByte & 0b00000100);","result.will_flag = (flagByte & 0b00000100) != 0;")]),
('K','will merge',[(F,"""        if (result.will_retain)
            throw ProtocolError("Will retain bit can't be set without will.", ReasonCodes::ProtocolError);

        if (result.will_qos != 0)""","""        const bool retain_bit = result.will_retain;
        if (retain_bit || result.will_qos > 0)""")]),
('K','early size',[(F,"        const uint32_t size_limit = std::min<uint32_t>(sender->getMaxIncomingPacketSize(), ABSOLUTE_MAX_PACKET_SIZE);\n        if (packet_length > size_limit)","        uint32_t size_limit = ABSOLUTE_MAX_PACKET_SIZE;\n        if (sender->getMaxIncomingPacketSize() < size_limit)\n            size_limit = sender->getMaxIncomingPacketSize();\n        if (!(packet_length <= size_limit))")]),
]
