D = 'sessionsandsubscriptionsdb.cpp'
T = 'retainedmessagesdb.cpp'
F = 'persistencefile.cpp'
G = 'bridgeinfodb.cpp'
M = [
 ('B', 'swap-user-client-w', [(D, "            writeString(ses->username);\n            writeString(ses->client_id);", "            writeString(ses->client_id);\n            writeString(ses->username);")]),
 ('B', 'no-topic-override-w', [(D, "                writeOptionalString(qp->getTopicOverride());\n", "                if (qp->getTopicOverride())\n                    writeOptionalString(qp->getTopicOverride());\n")]),
 ('B', 'no-used-id', [(D, "                    qos_locked->queuePublish(std::move(pub), id, topic_override);\n                    qos_locked->loadUsedPacketId(id);", "                    qos_locked->queuePublish(std::move(pub), id, topic_override);")]),
 ('B', 'used-id-qos2-only', [(D, "                    qos_locked->queuePublish(std::move(pub), id, topic_override);\n                    qos_locked->loadUsedPacketId(id);", "                    const bool two = pub.qos > 1;\n                    qos_locked->queuePublish(std::move(pub), id, topic_override);\n                    if (two) qos_locked->loadUsedPacketId(id);")]),
 ('B', 'outgoing-in-incoming', [(D, "                    qos_locked->outgoingQoS2MessageIds.insert(id);", "                    qos_locked->incomingQoS2MessageIds.insert(id);")]),
 ('B', 'outgoing-unused', [(D, "                    qos_locked->outgoingQoS2MessageIds.insert(id);\n                    qos_locked->loadUsedPacketId(id);", "                    qos_locked->outgoingQoS2MessageIds.insert(id);")]),
 ('B', 'age-not-counted', [(D, "const uint32_t newPubAge = persistence_state_age + originalPubAge;", "const uint32_t newPubAge = originalPubAge;")]),
 ('B', 'expiry-full', [(D, "std::min<uint32_t>(compensatedSessionExpiry, settings.getExpireSessionAfterSeconds())", "std::min<uint32_t>(originalSessionExpiryInterval, settings.getExpireSessionAfterSeconds())")]),
 ('B', 'expiry-wraps', [(D, "persistence_state_age > originalSessionExpiryInterval ? 0 : originalSessionExpiryInterval - persistence_state_age", "originalSessionExpiryInterval - persistence_state_age")]),
 ('B', 'will-delay-age', [(D, "willPublish.will_delay = stateAgecompensatedWillDelay;", "willPublish.will_delay = newWillDelayAfterMaybeAlreadyBeingQueued;")]),
 ('B', 'will-queue-age-lost', [(D, "originalWillQueueAge < originalWillDelay ? originalWillDelay - originalWillQueueAge : 0;", "originalWillDelay;")]),
 ('B', 'will-client', [(D, "                willPublish.username = sender_username;", "                willPublish.username = username;")]),
 ('B', 'count-before-filter', [(D, "writeUint32(sessionsToSave.size());", "writeUint32(sessions.size());")]),
 ('B', 'skip-empty-will', [(D, "                writeUint32(will->getQueuedAtAge());\n", "")]),
 ('B', 'share-after', [(D, "            writeString(subscription.shareName);\n            writeString(subscription.clientId);", "            writeString(subscription.clientId);\n            writeString(subscription.shareName);")]),
 ('B', 'subid-lost', [(D, "SubscriptionForSerializing sub(std::move(clientId), subscriptionOptions, subscription_identifier, sharename);", "SubscriptionForSerializing sub(std::move(clientId), subscriptionOptions, 0, sharename);")]),
 ('B', 'nolocal-lost', [(D, "return SubscriptionOptionsByte(qos, noLocal, retainAsPublished,", "return SubscriptionOptionsByte(qos, retainAsPublished, noLocal,")]),
 ('B', 'ctor-qos', [(D, "    noLocal(options.getNoLocal()),\n    retainAsPublished(options.getRetainAsPublished()),", "    noLocal(options.getNoLocal()),\n    retainAsPublished(options.getNoLocal()),")]),
 ('B', 'next-id', [(D, "qos_locked->loadNextPacketId(nextPacketId);", "if (nrOfOutgoingPacketIds > 0)\n                    qos_locked->loadNextPacketId(nextPacketId);")]),
 ('B', 'loop-one-less', [(D, "for (uint32_t i = 0; i < nrOfClientIds; i++)", "for (uint32_t i = 1; i < nrOfClientIds; i++)")]),
 ('B', 'wrong-count', [(D, "for (uint32_t i = 0; i < nrOfOutgoingPacketIds; i++)", "for (uint32_t i = 0; i < nrOfIncomingPacketIds; i++)")]),
 ('B', 'qos0-skipped', [(D, "                qosPacketsCounted++;\n", "                qosPacketsCounted++;\n                if (qp->getPublish().payload.empty()) { qp = qp->next.lock(); continue; }\n")]),
 ('B', 'size-of-other', [(D, "                const uint32_t packSize = willpacket.getSizeIncludingNonPresentHeader();\n", "                const uint32_t packSize = willpacket.getFixedHeaderLength();\n")]),
 ('B', 'retained-count', [(T, "        this->written_count++;\n", "        if (!rm.publish.payload.empty())\n            this->written_count++;\n")]),
 ('B', 'retained-age', [(T, "            pub.expireInfo.value().createdAt = timepointFromAge(newPubAge);", "            pub.expireInfo.value().createdAt = timepointFromAge(originalPubAge);")]),
 ('B', 'retained-min', [(T, "std::min<uint32_t>(to_read_count, max)", "std::min<uint32_t>(to_read_count, 1000)")]),
 ('B', 'retained-pos', [(T, "    length_pos = ftell(f);\n    writeUint32(0);", "    writeUint32(0);\n    length_pos = ftell(f);")]),
 ('B', 'retained-user', [(T, "        pub.username = username;", "        pub.username = client_id;")]),
 ('B', 'retained-state-age', [(T, "fileSavedAt > now_epoch ? 0 : now_epoch - fileSavedAt", "fileSavedAt > now_epoch ? 0 : fileSavedAt")]),
 ('B', 'retained-put', [(T, "written_count > 0)\n", "written_count > 1)\n")]),
 ('B', 'signed', [(F, "const uint64_t val2 = static_cast<uint32_t>((buf_[4]", "const uint64_t val2 = ((buf_[4]")]),
 ('B', 'byte-order', [(F, "    val = ((buf_[0]) << 8) | (buf_[1]);", "    val = ((buf_[1]) << 8) | (buf_[0]);")]),
 ('B', 'shift-stop', [(F, "    int shift = 24;\n    int i = 0;\n    while (shift >= 0)", "    int shift = 24;\n    int i = 0;\n    while (shift > 0)")]),
 ('B', 'opt-empty', [(F, "    if (!s)\n    {\n        writeUint8(0);\n        return;\n    }\n\n    writeUint8(1);", "    if (!s || s->empty())\n    {\n        writeUint8(0);\n        return;\n    }\n\n    writeUint8(1);")]),
 ('B', 'bridge-swap', [(G, "            r.prefix = readString(eofFound);\n            r.clientId = readString(eofFound);", "            r.clientId = readString(eofFound);\n            r.prefix = readString(eofFound);")]),
 ('B', 'bridge-skip', [(G, "            result.push_back(std::move(r));", "            if (!r.client_group_share_name.empty())\n                result.push_back(std::move(r));")]),
 ('K', 'helper', [(D, "                    pub.client_id = sender_clientid;\n                    pub.username = sender_username;\n\n                    const uint32_t newPubAge", "                    auto own = [&](Publish &p) { p.client_id = sender_clientid; p.username = sender_username; };\n                    own(pub);\n\n                    const uint32_t newPubAge")]),
 ('K', 'if-else-age', [(D, "            const uint32_t compensatedSessionExpiry = persistence_state_age > originalSessionExpiryInterval ? 0 : originalSessionExpiryInterval - persistence_state_age;", "            uint32_t compensatedSessionExpiry = 0;\n            if (persistence_state_age <= originalSessionExpiryInterval)\n                compensatedSessionExpiry = originalSessionExpiryInterval - persistence_state_age;")]),
 ('K', 'while-loop', [(D, "            for (uint32_t i = 0; i < nrOfClientIds; i++)\n            {", "            uint32_t k = 0;\n            while (k != nrOfClientIds)\n            {\n                ++k;")]),
 ('K', 'min-cond', [(T, "std::min<uint32_t>(to_read_count, max)", "to_read_count < max ? to_read_count : static_cast<uint32_t>(max)")]),
 ('K', 'no-names', [(D, "                    const std::string sender_clientid = readString(eofFound);\n                    const std::string sender_username = readString(eofFound);\n\n                    std::optional", "                    const std::string first = readString(eofFound);\n                    const std::string sender_clientid = first;\n                    const std::string sender_username = readString(eofFound);\n\n                    std::optional")]),
 ('K', 'uint64-parts', [(F, "    const uint64_t val1 = static_cast<uint32_t>((buf_[0] << 24) | (buf_[1] << 16) | (buf_[2] << 8) | buf_[3]);", "    const uint64_t val1 = (static_cast<uint64_t>(buf_[0]) << 24) | (buf_[1] << 16) | (buf_[2] << 8) | buf_[3];")]),
 ('K', 'count-size-local', [(G, "    writeUint32(bridgeInfos.size());", "    const size_t n = bridgeInfos.size();\n    writeUint32(n);")]),
]
