S='session.cpp'; Q='qospacketqueue.cpp'; F='publishcopyfactory.cpp'; T='threaddata.cpp'; M5='mqttpacket.cpp'
QP="            qos_locked->queuePublish(copyFactory, pack_id.value(), effectiveQos, effectiveRetain, subscriptionIdentifier, topic_override);"
M=[
('B','queue-offline-only',[(S,"        if (!destroyOnDisconnect)\n            qos_l","        if (!destroyOnDisconnect && !c)\n            qos_l")]),
('B','queue-qos2-only',[(S,"        if (!destroyOnDisconnect)\n            qos_l","        if (!destroyOnDisconnect && effectiveQos == 2)\n            qos_l")]),
('B','queue-max-qos',[(S,QP,QP.replace("effectiveQos, effectiveRetain","max_qos, effectiveRetain"))]),
('B','queue-rap',[(S,QP,QP.replace("effectiveRetain","retainAsPublished"))]),
('B','write-id0',[(S,"effectiveQos, pack_id.value_or(0), effectiveRetain","effectiveQos, 0, effectiveRetain")]),
('B','limit-or',[(S,"< settings->maxQosBytesPendingPerClient || qos_locked->getQueuedCount() == 0)","< settings->maxQosBytesPendingPerClient && qos_locked->getQueuedCount() == 0)")]),
('B','limit-count-only',[(S,"qos_locked->getQueuedByteSize() < settings->maxQosBytesPendingPerClient || ","")]),
('B','unqueue-on-write',[(S,"    if (!c->isRetainedAvailable())\n        effectiveRetain = false;\n","    if (!c->isRetainedAvailable())\n        effectiveRetain = false;\n    if (effectiveQos == 1 && pack_id)\n        qos.lock()->eraseQueuedPublish(*pack_id);\n")]),
('B','resend-qos1-only',[(S,"                qos_locked->decreaseFlowControlQuotaAgain(qp->getPacketId());\n\n","                qos_locked->decreaseFlowControlQuotaAgain(qp->getPacketId());\n\n                if (pub.qos == 1)\n")]),
('B','resend-break',[(S,"                    qos_locked->releasePacketId(qp->getPacketId());\n                    continue;\n                }\n\n                qos_locked->decr","                    qos_locked->releasePacketId(qp->getPacketId());\n                    break;\n                }\n\n                qos_locked->decr")]),
('B','resend-qos-lit',[(S,"c->writeMqttPacketAndBlameThisClient(fac, pub.qos, std::get<uint16_t>(p)","c->writeMqttPacketAndBlameThisClient(fac, 1, std::get<uint16_t>(p)")]),
('B','resend-late-next',[(S,"                qp_ = qp_->next.lock();\n",""),(S,"                copiedPublishes.emplace_back(pub, qp->getTopicOverride(), qp->getPacketId());","                copiedPublishes.emplace_back(pub, qp->getTopicOverride(), qp->getPacketId());\n                qp_ = qp_->next.lock();")]),
('B','pubrel-first',[(S,"                copiedQoS2Ids.push_back(packet_id);","                copiedQoS2Ids.push_back(packet_id);\n                if (copiedQoS2Ids.size() >= copiedPublishes.size())\n                    break;")]),
('B','resend-clean-only',[(T,"            client->getSession()->sendAllPendingQosData();","            if (client->getSession()->getSessionExpiryInterval() > 0)\n                client->getSession()->sendAllPendingQosData();")]),
('B','bridge-resend-lost',[(M5,"    session->sendAllPendingQosData();\n","    if (!data.sessionPresent)\n        session->sendAllPendingQosData();\n")]),
('B','relink-next',[(Q,"        _prev->next = qp->next;","        _prev->next = qp;")]),
('B','relink-tail',[(Q,"    if (this->tail == qp)\n        this->tail = qp->next.lock();","    if (this->tail == qp && _next)\n        this->tail = _next->next.lock();")]),
('B','relink-head',[(Q,"    if (this->head == qp)\n        this->head = qp->prev.lock();\n","")]),
('B','bytes-not-sub',[(Q,"            removed_ids.push_back(qp->getPacketId());\n            subtractQoSBytes(qp.get());","            removed_ids.push_back(qp->getPacketId());")]),
('B','expiry-any',[(Q,"        if (qpos != this->queue.end() && qpos->second == qp)","        if (qpos != this->queue.end())")]),
('B','expire-not-due',[(Q,"        if (cur_it->first > std::chrono::steady_clock::now())\n            break;\n","")]),
('B','copy-retain',[(F,"        p.retain = getEffectiveRetain(retainAsPublished);\n        p.subscriptionIdentifier","        p.subscriptionIdentifier")]),
('B','eff-max',[(F,"std::min<uint8_t>(orgQos, max_qos)","std::max<uint8_t>(orgQos, max_qos)")]),
('B','retain-or',[(F,"return orgRetain && retainAsPublished;","return orgRetain || retainAsPublished;")]),
('K','keep-flag',[(S,"        if (!destroyOnDisconnect)\n            qos_l","        const bool keep = !getDestroyOnDisconnect();\n        if (keep)\n            qos_l")]),
('K','limit-vars',[(S,"        if (qos_locked->getQueuedByteSize() < settings->maxQosBytesPendingPerClient || qos_locked->getQueuedCount() == 0)\n        {\n            pack_id = qos_locked->getNextPacketId();\n        }","        const size_t queued_bytes = qos_locked->getQueuedByteSize();\n        const bool full = queued_bytes >= settings->maxQosBytesPendingPerClient;\n        const bool nothing_queued = qos_locked->getQueuedCount() == 0;\n        if (!full || nothing_queued)\n            pack_id = qos_locked->getNextPacketId();")]),
('K','unlink-order',[(Q,"    auto _prev = qp->prev.lock();\n\n    if (_prev)\n        _prev->next = qp->next;\n\n    if (this->head == qp)\n        this->head = qp->prev.lock();\n\n    auto _next = qp->next.lock();\n\n    if (_next)\n        _next->prev = qp->prev;\n\n    if (this->tail == qp)\n        this->tail = qp->next.lock();\n","    auto _prev = qp->prev.lock();\n    auto _next = qp->next.lock();\n\n    if (_next)\n        _next->prev = _prev;\n    if (_prev)\n        _prev->next = _next;\n    if (this->tail == qp)\n        this->tail = _next;\n    if (this->head == qp)\n        this->head = _prev;\n")]),
('K','resend-reason',[(S,"                if (pub.hasExpired() || (authentication.aclCheck(pub, pub.payload) != AuthResult::success))\n                {","                bool gone = pub.hasExpired();\n                if (!gone)\n                    gone = authentication.aclCheck(pub, pub.payload) != AuthResult::success;\n                if (gone)\n                {")]),
('K','copy-set',[(S,"            for (const uint16_t packet_id : qos_locked->outgoingQoS2MessageIds)\n            {\n                copiedQoS2Ids.push_back(packet_id);\n            }","            copiedQoS2Ids.reserve(qos_locked->outgoingQoS2MessageIds.size());\n            for (auto it = qos_locked->outgoingQoS2MessageIds.begin(); it != qos_locked->outgoingQoS2MessageIds.end(); ++it)\n                copiedQoS2Ids.push_back(*it);")]),
('K','structured',[(S,"            Publish &pub = std::get<Publish>(p);\n            PublishCopyFactory fac(&pub);\n            const bool retain = !c->isRetainedAvailable() ? false : pub.retain;\n            c->writeMqttPacketAndBlameThisClient(fac, pub.qos, std::get<uint16_t>(p), retain, pub.subscriptionIdentifier, std::get<std::optional<std::string>>(p));","            auto &[pub, topic_override, packet_id] = p;\n            PublishCopyFactory fac(&pub);\n            const bool retain = pub.retain && c->isRetainedAvailable();\n            c->writeMqttPacketAndBlameThisClient(fac, pub.qos, packet_id, retain, pub.subscriptionIdentifier, topic_override);")]),
('K','erase-key',[(Q,"    bool result = false;\n    auto pos = this->queue.find(packet_id);\n\n    if (pos != this->queue.end())\n    {\n        std::shared_ptr<QueuedPublish> &qp = pos->second;\n        subtractQoSBytes(qp.get());\n        result = true;\n        this->eraseFromMapAndRelinkList(pos);\n    }\n\n    return  result;","    auto pos = this->queue.find(packet_id);\n\n    if (pos == this->queue.end())\n        return false;\n\n    subtractQoSBytes(pos->second.get());\n    this->eraseFromMapAndRelinkList(pos);\n    return true;")]),
('K','eff-tern',[(F,"    const uint8_t effectiveQos = std::min<uint8_t>(orgQos, max_qos);\n    return effectiveQos;","    return orgQos < max_qos ? orgQos : max_qos;")]),
]
