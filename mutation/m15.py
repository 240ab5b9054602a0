M=[
('B', 'any-reason', [('mqttpacket.cpp', '    if (data.reasonCode == ReasonCodes::Success)\n        sender->clearWill();', '    sender->clearWill();')]), 
('B', 'no-clear', [('mqttpacket.cpp', '    if (data.reasonCode == ReasonCodes::Success)\n        sender->clearWill();', '')]), 
('B', 'clear-session', [('client.cpp', '    if (session)\n        session->clearWill();', '')]), 
('B', 'clear-with-will-reason', [('mqttpacket.cpp', '    if (data.reasonCode == ReasonCodes::Success)\n        sender->clearWill();', '    if (data.reasonCode <= ReasonCodes::DisconnectWithWill)\n        sender->clearWill();')]), 
('B', 'no-acl-reg', [('threaddata.cpp', '            if (will && authentication.aclCheck(*will, will->payload, AclAccess::register_will) == AuthResult::success)', '            if (will)')]), 
('B', 'will-after-register', [('threaddata.cpp', '            subscriptionStore->registerClientAndKickExistingOne(client);\n            client->sendConnackSuccess();', '            client->sendConnackSuccess();'), ('threaddata.cpp', '            const std::shared_ptr<WillPublish> will = client->getStagedWill();', '            subscriptionStore->registerClientAndKickExistingOne(client);\n            const std::shared_ptr<WillPublish> will = client->getStagedWill();')]), 
('B', 'stage-disabled', [('mqttpacket.cpp', '    if (settings.willsEnabled && connectData.will_flag)', '    if (connectData.will_flag)')]), 
('B', 'stage-v5only', [('mqttpacket.cpp', '    if (settings.willsEnabled && connectData.will_flag)', '    if (settings.willsEnabled && connectData.will_flag && connectData.keep_alive > 0)')]), 
('B', 'ident-dropped', [('client.cpp', '    this->stagedWillPublish->client_id = this->clientid;\n', '')]), 
('B', 'delay-ignored', [('subscriptionstore.cpp', '    const uint32_t delay = forceNow ? 0 : willMessage->will_delay;', '    const uint32_t delay = 0;')]), 
('B', 'force-ignored', [('subscriptionstore.cpp', '    const uint32_t delay = forceNow ? 0 : willMessage->will_delay;', '    const uint32_t delay = willMessage->will_delay;')]), 
('B', 'min-delay', [('subscriptionstore.cpp', '    if (delay > 0)\n        queueWillMessage', '    if (delay > 1)\n        queueWillMessage')]), 
('B', 'millis', [('subscriptionstore.cpp', 'std::chrono::steady_clock::now() + std::chrono::seconds(willMessage->will_delay)', 'std::chrono::steady_clock::now() + std::chrono::milliseconds(willMessage->will_delay)')]), 
('B', 'active-sent', [('subscriptionstore.cpp', '            if (s && s->hasActiveClient())\n                continue;\n', '')]), 
('B', 'active-inverted', [('subscriptionstore.cpp', '            if (s && s->hasActiveClient())\n                continue;\n', '            if (s && !s->hasActiveClient())\n                continue;\n')]), 
('B', 'break-instead', [('subscriptionstore.cpp', '            if (s && s->hasActiveClient())\n                continue;\n', '            if (s && s->hasActiveClient())\n                break;\n')]), 
('B', 'slot-future', [('subscriptionstore.cpp', '        if (sendAt > secondsSinceEpoch)\n            break;\n\n        std::vector<QueuedWill>', '        std::vector<QueuedWill>')]), 
('B', 'removed-will', [('subscriptionstore.cpp', '        if (will)\n        {\n            queueOrSendWillMessage(will, s, true);\n        }', '')]), 
('B', 'removed-delay', [('subscriptionstore.cpp', '            queueOrSendWillMessage(will, s, true);\n        }\n\n        s.reset', '            queueOrSendWillMessage(will, s, false);\n        }\n\n        s.reset')]), 
('B', 'fix-f916', [('subscriptionstore.cpp', '        if (will && will->getQueued())\n            queueOrSendWillMessage(will, endedSession, true);', '')]), 
('B', 'fix-80bb', [('subscriptionstore.cpp', '    session->clearWill(will);', '    session->clearWill();')]), 
('B', 'fix-2111', [('subscriptionstore.cpp', '        willToSend.restartExpiry();\n', '')]), 
('B', 'no-forget', [('subscriptionstore.cpp', '    session->clearWill(will);\n', '')]), 
('B', 'read-acl', [('subscriptionstore.cpp', 'auth.aclCheck(*will, will->payload, AclAccess::write)', 'auth.aclCheck(*will, will->payload, AclAccess::register_will)')]), 
('B', 'success-only', [('subscriptionstore.cpp', "    if (authResult == AuthResult::success || authResult == AuthResult::success_without_setting_retained)\n    {\n        // 'If", "    if (authResult == AuthResult::success)\n    {\n        // 'If")]), 
('B', 'retain-any', [('subscriptionstore.cpp', '        if (will->retain && authResult == AuthResult::success)', '        if (will->retain)')]), 
('B', 'retain-never', [('subscriptionstore.cpp', '        if (will->retain && authResult == AuthResult::success)\n            setRetainedMessage(willToSend, willToSend.getSubtopics());', '')]), 
('B', 'not-at-disconnect', [('threaddata.cpp', '    if (willPublish)\n    {\n        // The delay', '    if (willPublish && authenticated)\n    {\n        // The delay')]), 
('B', 'shutdown', [('threaddata.cpp', '        c->sendOrQueueWill();', '        if (c->getProtocolVersion() >= ProtocolVersion::Mqtt5) c->sendOrQueueWill();')]), 
('K', 'clear-nest', [('mqttpacket.cpp', '    if (data.reasonCode == ReasonCodes::Success)\n        sender->clearWill();', '    const bool normal = !(data.reasonCode != ReasonCodes::Success);\n    if (normal)\n    {\n        sender->clearWill();\n    }')]), 
('K', 'delay-if', [('subscriptionstore.cpp', '    const uint32_t delay = forceNow ? 0 : willMessage->will_delay;\n\n    if (delay > 0)', '    if (!forceNow && willMessage->will_delay > 0)')]), 
('K', 'send-early-ret', [('subscriptionstore.cpp', "    if (authResult == AuthResult::success || authResult == AuthResult::success_without_setting_retained)\n    {\n        // 'If", "    if (authResult != AuthResult::success && authResult != AuthResult::success_without_setting_retained)\n        return;\n\n    {\n        // 'If")]), 
('K', 'active-nest', [('subscriptionstore.cpp', '            if (s && s->hasActiveClient())\n                continue;\n\n            sendWill(p, s, "Sending delayed will on topic: ");', '            const bool inUse = s && s->hasActiveClient();\n            if (!inUse)\n                sendWill(p, s, "Sending delayed will on topic: ");')]), 
('K', 'stage-nest', [('mqttpacket.cpp', '    if (settings.willsEnabled && connectData.will_flag)\n    {\n        if (connectData.will_qos > sender->getMaxQos())', '    const bool useWill = connectData.will_flag && settings.willsEnabled;\n    if (useWill)\n    {\n        if (sender->getMaxQos() < connectData.will_qos)')]), 
('K', 'acl-var', [('threaddata.cpp', '            if (will && authentication.aclCheck(*will, will->payload, AclAccess::register_will) == AuthResult::success)\n            {\n                client->setWillFromStaged();\n            }', '            if (will)\n            {\n                const AuthResult r = authentication.aclCheck(*will, will->payload, AclAccess::register_will);\n                if (r == AuthResult::success)\n                    client->setWillFromStaged();\n            }')]), 
('K', 'replaced-inline', [('threaddata.cpp', '        const bool sessionReplaced = session && store->lockSession(session->getClientId()) != session;\n        store->queueOrSendWillMessage(willPublish, session, sessionReplaced);', '        bool sessionReplaced = false;\n        if (session)\n        {\n            const auto current = store->lockSession(session->getClientId());\n            sessionReplaced = current != session;\n        }\n        store->queueOrSendWillMessage(willPublish, session, sessionReplaced);')]), 
('K', 'walk-while', [('subscriptionstore.cpp', '        if (sendAt > secondsSinceEpoch)\n            break;\n\n        std::vector<QueuedWill> &willsOfSlot = it->second;', '        if (secondsSinceEpoch < sendAt)\n            break;\n\n        auto &willsOfSlot = it->second;')])]
