F='mqttpacket.cpp'
ONCE='''                if (pcounts[%d]++ > 0)
                    throw ProtocolError("Can't specify " + propertyToString(prop) + " more than once", ReasonCodes::ProtocolError);
'''
EXP='''            case Mqtt5Properties::MessageExpiryInterval:
'''+ONCE%1
HELP='''static void onlyOnce(uint8_t &count, Mqtt5Properties prop)
{
    if (count++ > 0)
        throw ProtocolError("Can't specify " + propertyToString(prop) + " more than once", ReasonCodes::ProtocolError);
}

'''
M=[
('B','no count',[(F,EXP,'            case Mqtt5Properties::MessageExpiryInterval:\n')]),
('B','no increment',[(F,EXP,EXP.replace('pcounts[1]++','pcounts[1]'))]),
('B','count twice allowed',[(F,EXP,EXP.replace('++ > 0','++ > 1'))]),
('B','shared counter',[(F,EXP,EXP.replace('pcounts[1]','pcounts[0]'))]),
('B','conditional once',[(F,EXP,EXP.replace('if (pcounts[1]++ > 0)','if (pcounts[1]++ > 0 && !publishData.retain)'))]),
('B','break after unknown',[(F,'throw ProtocolError("Invalid property in publish.", ReasonCodes::ProtocolError);','logger->logf(LOG_NOTICE, "Unknown property"); break;')]),
('B','alias zero',[(F,'if (alias_id == 0)','if (alias_id == 0 && publishData.topic.empty())')]),
('B','subid zero',[(F,'if (subscription_identifier == 0)\n','if (subscription_identifier == 0 && protocolVersion > ProtocolVersion::Mqtt5)\n')]),
('B','subid disabled',[(F,'if (!ThreadGlobals::getSettings()->subscriptionIdentifierEnabled)','if (!settings->subscriptionIdentifierEnabled && sender->getClientType() != ClientType::Normal)')]),
('B','connect recv max zero',[(F,'if (result.client_receive_max == 0 || result.max_outgoing_packet_size == 0)','if (result.client_receive_max == 0 && result.max_outgoing_packet_size == 0)')]),
('B','wrong width',[(F,'result.willpublish.will_delay = readFourBytesToUint32();','result.willpublish.will_delay = readTwoBytesToUInt16();')]),
('B','wrong dest',[(F,'publishData.contentType = readBytesToString(settings->maxStringLength, true, false);','publishData.correlationData = readBytesToString(settings->maxStringLength, true, false);')]),
('B','user property swapped',[(F,'this->publishData.addUserProperty(std::move(key), std::move(val));\n                break;\n            }\n            case Mqtt5Properties::SubscriptionIdentifier:','this->publishData.addUserProperty(std::move(val), std::move(key));\n                break;\n            }\n            case Mqtt5Properties::SubscriptionIdentifier:')]),
('B','within bound lenient',[(F,'    if (pos > limit)\n        throw ProtocolError("Out of bounds", ReasonCodes::MalformedPacket);\n','')]),
('B','early end',[(F,'        while (withinBound(prop_end_at))\n        {\n            const Mqtt5Properties prop = static_cast<Mqtt5Properties>(readUint8());\n\n            switch (prop)\n            {\n            case Mqtt5Properties::PayloadFormatIndicator:','        int max_props = 16;\n        while (max_props-- > 0 && withinBound(prop_end_at))\n        {\n            const Mqtt5Properties prop = static_cast<Mqtt5Properties>(readUint8());\n\n            switch (prop)\n            {\n            case Mqtt5Properties::PayloadFormatIndicator:')]),
('B','foreign property',[(F,'            case Mqtt5Properties::UserProperty:\n            {\n                std::string key = readBytesToString(settings->maxStringLength);\n                std::string val = readBytesToString(settings->maxStringLength);\n                this->publishData.addUserProperty(std::move(key), std::move(val));\n                break;\n            }\n            case Mqtt5Properties::SubscriptionIdentifier:','            case Mqtt5Properties::WillDelayInterval:\n                if (pcounts[7]++ > 0)\n                    throw ProtocolError("twice", ReasonCodes::ProtocolError);\n                readFourBytesToUint32();\n                break;\n            case Mqtt5Properties::UserProperty:\n            {\n                std::string key = readBytesToString(settings->maxStringLength);\n                std::string val = readBytesToString(settings->maxStringLength);\n                this->publishData.addUserProperty(std::move(key), std::move(val));\n                break;\n            }\n            case Mqtt5Properties::SubscriptionIdentifier:')]),
('B','publish subid from anyone',[(F,'if (sender->getClientType() != ClientType::LocalBridge)','if (sender->getClientType() == ClientType::Mqtt3DefactoBridge)')]),
('B','empty response topic',[(F,'                if (publishData.responseTopic->empty())\n                    throw ProtocolError("Response topic cannot be empty", ReasonCodes::ProtocolError);\n','')]),
('B','array too small',[(F,'        std::array<uint8_t, 16> pcounts;','        std::array<uint8_t, 15> pcounts;')]),
('B','reset in loop',[(F,'        std::array<uint8_t, 8> pcounts;\n        pcounts.fill(0);\n\n        while (withinBound(prop_end_at))\n        {\n            const Mqtt5Properties prop = static_cast<Mqtt5Properties>(readUint8());\n\n            switch (prop)\n            {\n            case Mqtt5Properties::PayloadFormatIndicator:','        std::array<uint8_t, 8> pcounts;\n\n        while (withinBound(prop_end_at))\n        {\n            pcounts.fill(0);\n            const Mqtt5Properties prop = static_cast<Mqtt5Properties>(readUint8());\n\n            switch (prop)\n            {\n            case Mqtt5Properties::PayloadFormatIndicator:')]),
('K','helper once',[(F,'ConnectData MqttPacket::parseConnectData(',HELP+'ConnectData MqttPacket::parseConnectData('),(F,EXP,'            case Mqtt5Properties::MessageExpiryInterval:\n                onlyOnce(pcounts[1], prop);\n')]),
('K','preincrement',[(F,EXP,EXP.replace('pcounts[1]++ > 0','++pcounts[1] != 1'))]),
('K','separate increment',[(F,EXP,'''            case Mqtt5Properties::MessageExpiryInterval:
                if (pcounts[1] != 0)
                    throw ProtocolError("twice", ReasonCodes::ProtocolError);
                pcounts[1] = 1;
''')]),
('K','array initialised',[(F,'            std::array<uint8_t, 8> pcounts;\n            pcounts.fill(0);','            std::array<uint8_t, 8> pcounts{};')]),
('K','for loop',[(F,'        while (withinBound(prop_end_at))','        for (;withinBound(prop_end_at);)')]),
('K','loop with break',[(F,'        while (withinBound(prop_end_at))\n        {\n            const Mqtt5Properties prop = static_cast<Mqtt5Properties>(readUint8());\n\n            switch (prop)\n            {\n            case Mqtt5Properties::PayloadFormatIndicator:','        for (;;)\n        {\n            if (!withinBound(prop_end_at))\n                break;\n            const Mqtt5Properties prop = static_cast<Mqtt5Properties>(readUint8());\n\n            switch (prop)\n            {\n            case Mqtt5Properties::PayloadFormatIndicator:')]),
('K','local value',[(F,'result.willpublish.will_delay = readFourBytesToUint32();','{ const uint32_t delay = readFourBytesToUint32();\n                    result.willpublish.will_delay = delay; }')]),
('K','property end inline',[(F,'        const size_t prop_end_at = pos + proplen;\n\n        std::array<uint8_t, 1> pcounts;\n        pcounts.fill(0);\n\n        while (withinBound(prop_end_at))\n        {\n            const Mqtt5Properties prop = static_cast<Mqtt5Properties>(readUint8());\n\n            switch (prop)\n            {\n            case Mqtt5Properties::ReasonString','        const size_t prop_end_at = proplen + pos;\n        size_t n[1] = {0};\n        std::array<uint8_t, 1> pcounts {};\n\n        while (withinBound(prop_end_at))\n        {\n            n[0]++;\n            const Mqtt5Properties prop = static_cast<Mqtt5Properties>(readUint8());\n\n            switch (prop)\n            {\n            case Mqtt5Properties::ReasonString')]),
('K','helper user property',[('mqttpacket.h','    PubRecData parsePubRecData();','    PubRecData parsePubRecData();\n    void readUserProperty(uint16_t m);'),(F,'ConnectData MqttPacket::parseConnectData(','void MqttPacket::readUserProperty(uint16_t m)\n{\n    std::string key = readBytesToString(m);\n    std::string val = readBytesToString(m);\n    publishData.addUserProperty(std::move(key), std::move(val));\n}\n\nConnectData MqttPacket::parseConnectData('),(F,'                // We (ab)use the publishData for the user properties, because it\'s there.\n                std::string key = readBytesToString(settings.maxStringLength);\n                std::string val = readBytesToString(settings.maxStringLength);\n                this->publishData.addUserProperty(std::move(key), std::move(val));','                readUserProperty(settings.maxStringLength);')]),
('K','method for list',[('mqttpacket.h','    PubRecData parsePubRecData();','    PubRecData parsePubRecData();\n    void readSubAckProps(SubAckData &result, const Settings *settings);'),(F,'''    if (this->protocolVersion >= ProtocolVersion::Mqtt5 )
    {
        const size_t proplen = decodeVariableByteIntAtPos();
        const size_t prop_end_at = pos + proplen;

        std::array<uint8_t, 1> pcounts;
        pcounts.fill(0);

        while (withinBound(prop_end_at))
        {
            const Mqtt5Properties prop = static_cast<Mqtt5Properties>(readUint8());

            switch (prop)
            {
            case Mqtt5Properties::ReasonString:
                if (pcounts[0]++ > 0)
                    throw ProtocolError("Can't specify " + propertyToString(prop) + " more than once", ReasonCodes::ProtocolError);

                result.reasonString = readBytesToString(settings->maxStringLength);
                break;
            case Mqtt5Properties::UserProperty:
            {
                // We (ab)use the publishData for the user properties, because it's there.
                std::string key = readBytesToString(settings->maxStringLength);
                std::string val = readBytesToString(settings->maxStringLength);
                this->publishData.addUserProperty(std::move(key), std::move(val));
                break;
            }
            default:
                throw ProtocolError("Invalid property in suback.", ReasonCodes::ProtocolError);
            }
        }
    }
''','''    if (this->protocolVersion >= ProtocolVersion::Mqtt5 )
        readSubAckProps(result, settings);
'''),(F,'SubAckData MqttPacket::parseSubAckData()','''void MqttPacket::readSubAckProps(SubAckData &result, const Settings *settings)
{
        const size_t proplen = decodeVariableByteIntAtPos();
        const size_t prop_end_at = pos + proplen;

        std::array<uint8_t, 1> pcounts;
        pcounts.fill(0);

        while (withinBound(prop_end_at))
        {
            const Mqtt5Properties prop = static_cast<Mqtt5Properties>(readUint8());

            switch (prop)
            {
            case Mqtt5Properties::ReasonString:
                if (pcounts[0]++ > 0)
                    throw ProtocolError("Can't specify " + propertyToString(prop) + " more than once", ReasonCodes::ProtocolError);

                result.reasonString = readBytesToString(settings->maxStringLength);
                break;
            case Mqtt5Properties::UserProperty:
            {
                // We (ab)use the publishData for the user properties, because it's there.
                std::string key = readBytesToString(settings->maxStringLength);
                std::string val = readBytesToString(settings->maxStringLength);
                this->publishData.addUserProperty(std::move(key), std::move(val));
                break;
            }
            default:
                throw ProtocolError("Invalid property in suback.", ReasonCodes::ProtocolError);
            }
        }
}

SubAckData MqttPacket::parseSubAckData()''')]),
]
