S='session.cpp'; U='usedids.cpp'; M5='mqttpacket.cpp'; D='sessionsandsubscriptionsdb.cpp'; PD='packetdatatypes.cpp'
M=[
('B','zero-id',[(S,"        if (nextPacketId == 0)\n            continue;\n","")]),
('B','in-use-once',[(S,"        if (usedIds.contains(nextPacketId))\n            continue;","        if (usedIds.contains(nextPacketId))\n            nextPacketId++;")]),
('B','not-recorded',[(S,"        usedIds.insert(nextPacketId);\n        return nextPacketId;","        if (flowControlQuota > 0)\n            usedIds.insert(nextPacketId);\n        return nextPacketId;")]),
('B','no-quota-check',[(S,"    if (flowControlQuota == 0)\n        return {};\n\n    for","    for")]),
('B','old-loop',[(S,"    for (int i = 0; i < 65536; i++)\n    {\n        nextPacketId++;","    for (;;)\n    {\n        nextPacketId++;")]),
('B','short-search',[(S,"i < 65536; i++","i < 256; i++")]),
('B','quota-cap-gone',[(S,"    flowControlQuota = std::min<int>(flowControlQuota, flowControlCealing);\n","")]),
('B','quota-cap-wrong',[(S,"std::min<int>(flowControlQuota, flowControlCealing)","std::min<int>(flowControlQuota, 0xFFFF)")]),
('B','erase-lost',[(S,"    usedIds.erase(packet_id);\n}\n\nvoid Session::QoSData::resetFlow","    if (flowControlQuota < flowControlCealing)\n        usedIds.erase(packet_id);\n}\n\nvoid Session::QoSData::resetFlow")]),
('B','give-back-always',[(S,"    if (qosHandshakeEnds && result)","    if (qosHandshakeEnds)")]),
('B','give-back-never-ends',[(S,"    if (qosHandshakeEnds && result)","    if (result)")]),
('B','pubcomp-unknown',[(S,"        qos_locked->outgoingQoS2MessageIds.erase(it);\n        qos_locked->increaseFlowControlQuota(packet_id);\n    }","        qos_locked->outgoingQoS2MessageIds.erase(it);\n    }\n    qos_locked->increaseFlowControlQuota(packet_id);")]),
('B','reset-quota-only',[(S,"    this->flowControlCealing = receive_max;\n","")]),
('B','reset-if-larger',[(S,"    qos_locked->resetFlowControlCounters(clientReceiveMax);","    if (!clean_start)\n        qos_locked->resetFlowControlCounters(clientReceiveMax);")]),
('B','receive-max-ignored',[(M5,"result.client_receive_max = std::min<uint16_t>(val, result.client_receive_max);","result.client_receive_max = std::max<uint16_t>(val, result.client_receive_max);")]),
('B','registration-setting',[('subscriptionstore.cpp',"registrationData->clientReceiveMax, registrationData->sessionExpiryInterval","registrationData->sessionExpiryInterval, registrationData->sessionExpiryInterval")]),
('B','bit-collide',[(U,"    const auto bit_mask = 1ULL << (id % 64);\n    auto &cur = m_bits.value().at(id / 64);\n    if ((cur","    const auto bit_mask = 1ULL << (id % 32);\n    auto &cur = m_bits.value().at(id / 64);\n    if ((cur")]),
('B','count-always',[(U,"    if ((cur & bit_mask) == 0)\n        m_bits_used++;","    m_bits_used++;")]),
('B','copy-lost',[(U,"        m_ids_used = 0;\n    }\n\n    if (m_bits)\n        bits_mark_used","        m_ids_used = 0;\n    }\n    else if (m_bits)\n        bits_mark_used")]),
('B','copy-short',[(U,"for (size_t i = 0; i < m_ids_used; i++)\n        {\n            bits_mark","for (size_t i = 1; i < m_ids_used; i++)\n        {\n            bits_mark")]),
('B','tail-short',[(U,"const size_t tail_len = m_ids_used - i;","const size_t tail_len = m_ids_used - i - 1;")]),
('B','memmove-bytes',[(U,"tail_len * sizeof(id)","tail_len")]),
('B','load-not-used',[(D,"                    qos_locked->loadUsedPacketId(id);\n                }\n\n                const uint32_t nrOfIncoming","                }\n\n                const uint32_t nrOfIncoming")]),
('B','expired-first-only',[(S,"        increaseFlowControlQuota(id);\n    }","        increaseFlowControlQuota(id);\n        break;\n    }")]),
('B','released-without-erase',[(S,"                    qos_locked->eraseQueuedPublish(qp->getPacketId());\n                    qos_locked->releasePacketId(qp->getPacketId());\n                    continue;\n                }\n\n                qos_locked->decr","                    qos_locked->releasePacketId(qp->getPacketId());\n                    continue;\n                }\n\n                qos_locked->decr")]),
('K','while-search',[(S,"    for (int i = 0; i < 65536; i++)\n    {\n        nextPacketId++;","    int tries = 65536;\n    while (tries-- > 0)\n    {\n        ++nextPacketId;")]),
('K','combined-cond',[(S,"        if (nextPacketId == 0)\n            continue;\n\n        if (usedIds.contains(nextPacketId))\n            continue;\n","        const bool usable = nextPacketId != 0 && !usedIds.contains(nextPacketId);\n        if (!usable)\n            continue;\n")]),
('K','claim-helper',[(S,"        flowControlQuota--;\n        usedIds.insert(nextPacketId);\n        return nextPacketId;","        usedIds.insert(nextPacketId);\n        flowControlQuota -= 1;\n        const uint16_t result = nextPacketId;\n        return result;")]),
('K','cap-if',[(S,"    flowControlQuota++;\n    flowControlQuota = std::min<int>(flowControlQuota, flowControlCealing);","    if (flowControlQuota < flowControlCealing)\n        flowControlQuota++;")]),
('K','bits-shift',[(U,"    return m_bits.value().at(id / 64) & (1ULL << (id % 64));","    const uint64_t word = (*m_bits)[id >> 6];\n    return (word & (1ULL << (id & 63))) != 0;")]),
('K','clear-early',[(S,"    if (qosHandshakeEnds && result)\n    {\n        qos_locked->increaseFlowControlQuota(packet_id);\n    }\n\n    return result;","    if (!result)\n        return false;\n\n    if (qosHandshakeEnds)\n        qos_locked->increaseFlowControlQuota(packet_id);\n\n    return true;")]),
('K','exhausted-neg',[(S,"    return this->flowControlQuota <= 0;","    const bool left = this->flowControlQuota > 0;\n    return !left;")]),
]
