M_='mqttpacket.cpp'; C='client.cpp'; P='publishcopyfactory.cpp'; T='types.cpp'; Q='mqtt5properties.cpp'
M=[
('B','qos id space missing',[(M_,'''        if (this->publishData.qos)
            len += 2;
''','''        if (this->publishData.qos > 1)
            len += 2;
''')]),
('B','payload not counted',[(M_,'        len += connect.will->payload.length() + 2;' if False else '            len += connect.will->payload.length() + 2;','            len += connect.will->payload.length();')]),
('B','property length default',[(M_,'            len += property_builder ? property_builder->getLength() : 1;','            len += property_builder ? property_builder->getLength() : 0;')]),
('B','retain not in first byte',[(M_,'    first_byte |= (static_cast<char>(publishData.retain) & 0b00000001);\n','')]),
('B','qos shift',[(M_,'    first_byte |= (this->publishData.qos << 1);','    first_byte |= (this->publishData.qos << 2);')]),
('B','topic override ignored',[(M_,'topic_override.value_or(_publish.topic)','_publish.topic')]),
('B','response topic dropped',[(M_,'        this->publishData.responseTopic = _publish.responseTopic;\n','')]),
('B','correlation from content type',[(M_,'this->publishData.contentType = _publish.contentType;','this->publishData.contentType = _publish.responseTopic;')]),
('B','expiry not remaining',[(M_,'setExpireAfter(_publish.expireInfo->getCurrentTimeToExpire().count())','setExpireAfter(_publish.expireInfo->expiresAfter.count())')]),
('B','password before username',[(M_,'''    if (connect.username.has_value())
        writeString(connect.username.value());
    if (connect.password.has_value())
        writeString(connect.password.value());
''','''    if (connect.password.has_value())
        writeString(connect.password.value());
    if (connect.username.has_value())
        writeString(connect.username.value());
''')]),
('B','username flag',[(M_,'connect.username.has_value()) << 7','connect.username.has_value()) << 5')]),
('B','will retain flag',[(M_,'connect.will->retain << 5','connect.will->retain << 4')]),
('B','will topic payload swapped',[(M_,'''        writeString(connect.will->topic);
        writeString(connect.will->payload);''','''        writeString(connect.will->payload);
        writeString(connect.will->topic);''')]),
('B','disconnect reason missing',[(M_,'        writeByte(static_cast<uint8_t>(disconnect.reasonCode));\n','')]),
('B','suback codes first',[(M_,'    writeUint16(subAck.packet_id);\n','    writeUint16(0);\n')]),
('B','unsuback no props',[(M_,'''        writeProperties(unsubAck.propertyBuilder);

        for(''','''        for(''')]),
('B','wrong id',[(Q,'writeStr(Mqtt5Properties::ContentType, format)','writeStr(Mqtt5Properties::ResponseTopic, format)')]),
('B','wrong type',[(Q,'writeUint32(Mqtt5Properties::WillDelayInterval, delay)','writeUint16(Mqtt5Properties::WillDelayInterval, delay)')]),
('B','little endian',[(Q,'''    const uint8_t a = static_cast<uint8_t>(x >> 8);
    const uint8_t b = static_cast<uint8_t>(x);

    bytes[pos++] = static_cast<uint8_t>(prop);
    bytes[pos++] = a;
    bytes[pos] = b;''','''    const uint8_t b = static_cast<uint8_t>(x >> 8);
    const uint8_t a = static_cast<uint8_t>(x);

    bytes[pos++] = static_cast<uint8_t>(prop);
    bytes[pos++] = a;
    bytes[pos] = b;''')]),
('B','32 bit shift',[(Q,'x >> 24','x >> 25')]),
('B','sub id written always',[(T,'    if (subscriptionIdentifier > 0)\n        non_optional(property_builder)','    if (subscriptionIdentifier > 0 && topicAlias == 0)\n        non_optional(property_builder)')]),
('B','will delay dropped',[(T,'''    if (this->will_delay > 0)
        non_optional(property_builder)->writeWillDelay(this->will_delay);
''','')]),
('B','reuse with override',[(P,'if (topic_override || (protocolVersion','if ((protocolVersion')]),
('B','reuse with alias',[(P,'(protocolVersion >= ProtocolVersion::Mqtt5 && topic_alias > 0) || ','')]),
('B','reuse with sub id',[(P,' || subscriptionIdentifier > 0)',')')]),
('B','reuse though expiring',[(P,'!packet->biteArrayCannotBeReused() && ','')]),
('B','layout key not compared',[(P,'!packet->biteArrayCannotBeReused() && getPublishLayoutCompareKey(packet->getProtocolVersion(), orgQos) == layout_key_target','!packet->biteArrayCannotBeReused()')]),
('B','cache with own override',[(P,'cachedPack.emplace(protocolVersion, packet->getPublishData(), actualQos, 0, false, 0,','cachedPack.emplace(protocolVersion, packet->getPublishData(), actualQos, topic_alias, skip_topic, 0,')]),
('B','alias recorded when dropped',[(C,'if (dropReason == PacketDropReason::Success && topic_alias_next > 0)','if (topic_alias_next > 0)')]),
('B','alias over max',[(C,'else if (locked_aliases->cur_alias < this->maxOutgoingTopicAliasValue)','else if (locked_aliases->cur_alias <= this->maxOutgoingTopicAliasValue)')]),
('B','alias lock not kept',[(C,'            locked_aliases_extended = std::move(locked_aliases);\n','')]),
('B','topic skipped on first use',[(C,'            topic_alias = topic_alias_next;\n','            topic_alias = topic_alias_next;\n            skip_topic = true;\n')]),
('B','alias for mqtt 3',[(C,'if (protocolVersion >= ProtocolVersion::Mqtt5 && this->maxOutgoingTopicAliasValue > 0)','if (this->maxOutgoingTopicAliasValue > 0)')]),
('B','alias of original topic',[(C,'locked_aliases_extended->aliases[topic] = topic_alias_next','locked_aliases_extended->aliases[copyFactory.getTopic()] = topic_alias_next')]),
('B','packet id not set',[(C,'        p->setPacketId(packet_id);\n','')]),
('B','qos not set',[(C,'        p->setQos(copyFactory.getEffectiveQos(max_qos));\n','')]),
('B','retain not set',[(C,'    p->setRetain(retain);\n','')]),
('B','too big written',[(C,'''    if (packetSize > write_buf_locked->maxOutgoingPacketSize)
    {
        return PacketDropReason::BiggerThanPacketLimit;
    }
''','')]),
('B','qos 1 dropped for room',[(C,'packet.packetType == PacketType::PUBLISH && packet.getQos() == 0 && packetSize >','packet.packetType == PacketType::PUBLISH && packetSize >')]),
('B','not dropped when full',[(C,'packetSize > write_buf_locked->buf.freeSpace())','packetSize > growBufMaxTo)')]),
('B','space not ensured',[(C,'    write_buf_locked->buf.ensureFreeSpace(packetSize, growBufMaxTo);\n','')]),
('B','room for half',[(C,'const uint32_t growBufMaxTo = std::max<uint32_t>(maxBufSize, packetSize * 2)','const uint32_t growBufMaxTo = maxBufSize')]),
('B','puback reason missing',[(M_,'''        writeByte(static_cast<uint8_t>(pubAck.reason_code));
''','')]),
('B','subscribe byte for v5',[(M_,'''        if (protocolVersion < ProtocolVersion::Mqtt5)
        {
            writeByte(subscribe.qos);''','''        if (protocolVersion <= ProtocolVersion::Mqtt5)
        {
            writeByte(subscribe.qos);''')]),
('B','retain handling lost',[(M_,'subscribe.retainAsPublished, subscribe.retainHandling)','subscribe.retainAsPublished, RetainHandling::SendRetainedMessagesAtSubscribe)')]),
('B','bridge bit on v5',[(M_,'if (connect.bridgeProtocolBit && protocolVersion <= ProtocolVersion::Mqtt311)','if (connect.bridgeProtocolBit)')]),
('K','order of length',[(M_,'''        len += 2; // topic string length field
        if (!this->publishData.skipTopic)
            len += this->publishData.topic.length();
        len += _publish.payload.length();
''','''        len += _publish.payload.length();
        if (!this->publishData.skipTopic)
            len += this->publishData.topic.length();
        len += 1 + 1;
''')]),
('K','properties by pointer',[(M_,'            len += property_builder ? property_builder->getLength() : 1;','''        {
            if (property_builder)
                len += property_builder->getLength();
            else
                len++;
        }''')]),
('K','bytes one by one',[(Q,'''    bytes[pos++] = static_cast<uint8_t>(prop);
    bytes[pos] = x;''','''    bytes[pos] = static_cast<uint8_t>(prop);
    bytes[pos + 1] = x;''')]),
('K','nested ifs',[(C,'''    if (dropReason == PacketDropReason::Success && topic_alias_next > 0)
    {
        locked''','''    if (topic_alias_next == 0)
        return dropReason;

    if (dropReason == PacketDropReason::Success)
    {
        locked''')]),
('K','bool for one shot',[(P,'''        if (topic_override || (protocolVersion >= ProtocolVersion::Mqtt5 && topic_alias > 0) || subscriptionIdentifier > 0)
''','''        const bool withAlias = protocolVersion >= ProtocolVersion::Mqtt5 && topic_alias != 0;
        const bool own = topic_override.has_value() || withAlias || subscriptionIdentifier != 0;
        if (own)
''')]),
('K','size local',[(C,'    if (packetSize > write_buf_locked->maxOutgoingPacketSize)\n','    const size_t limit = write_buf_locked->maxOutgoingPacketSize;\n    if (limit < packetSize)\n')]),
]
