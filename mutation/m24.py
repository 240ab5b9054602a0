S='subscriptionstore.cpp'; L='logger.cpp'; X='session.cpp'; P='plugin.cpp'; C='client.cpp'
M=[
('B','willUnderSessions',[(S,"            sessionsToRemove.push_back(session_it->second);\n            sessionsById.erase(session_it);","            sessionsToRemove.push_back(session_it->second);\n            sessionsById.erase(session_it);\n            if (session->getWill()) queueOrSendWillMessage(session->getWill(), session, true);")]),
('B','pubUnderTree',[(S,"        publishRecursively(subtopics.begin(), subtopics.end(), startNode, subscriberSessions, senderClientId, fmq_client_group_id);\n    }","        publishRecursively(subtopics.begin(), subtopics.end(), startNode, subscriberSessions, senderClientId, fmq_client_group_id);\n        for(const ReceivingSubscriber &x : subscriberSessions)\n            if (x.qos == 2) x.session->writePacket(copyFactory, x.qos, x.retainAsPublished, x.subscriptionIdentifier);\n    }")]),
('B','selfLock',[(S,"        auto session_it = sessionsById.find(clientid);\n        if (session_it != sessionsById.end() && session_it->second == session)","        auto session_it = sessionsById.find(clientid);\n        if (!lockSession(clientid)) return;\n        if (session_it != sessionsById.end() && session_it->second == session)")]),
('B','invertWills',[(S,"            if (s && s->hasActiveClient())\n                continue;","            if (s && s->hasActiveClient())\n                continue;\n            if (s && lockSession(s->getClientId()) != s)\n                continue;")]),
('B','aclInTree',[(S,"    std::shared_lock locker(subscriptions_lock);\n    return !deferred","    std::shared_lock locker(subscriptions_lock);\n    getSessionCount();\n    return !deferred")]),
('B','sleepHeld',[(S,"    std::shared_lock ses_locker(sessions_lock);\n\n    auto it","    std::shared_lock ses_locker(sessions_lock);\n    usleep(10);\n    auto it")]),
('B','unsubHeld',[(P,"    UnscopedLock lock(authChecksMutex);","    UnscopedLock lock(authChecksMutex);\n    std::lock_guard<std::mutex> initGuard(initMutex);"),(P,"    UnscopedLock lock(initMutex);","    UnscopedLock lock(initMutex);\n    UnscopedLock lock2(authChecksMutex); lock2.lock();")]),
('B','qosTwice',[(X,"            if (!c)\n            {\n                qos_locked->clear","            if (!c)\n            {\n                getQueuedCount(); qos_locked->clear")]) if False else ('B','qosTwice',[(X,"        if (!c)\n        {\n            qos_locked->clearExpiredMessagesFromQueue();","        if (!c)\n        {\n            clearQosMessage(0, false);\n            qos_locked->clearExpiredMessagesFromQueue();")]),
('K','helperlock',[(S,"    std::shared_lock ses_locker(sessions_lock);\n\n    auto it","    std::shared_lock<std::shared_mutex> ses_locker(sessions_lock, std::defer_lock);\n    ses_locker.lock();\n\n    auto it")]),
('K','unlockEarly',[(S,"        if (session_it != sessionsById.end() && session_it->second == session)\n        {\n            sessionsToRemove.push_back(session_it->second);\n            sessionsById.erase(session_it);\n        }\n    }","        if (session_it != sessionsById.end() && session_it->second == session)\n        {\n            sessionsToRemove.push_back(session_it->second);\n            sessionsById.erase(session_it);\n        }\n        session_locker.unlock();\n        logger->log(LOG_DEBUG) << \"x\";\n    }")]),
('K','logHeld',[(S,"    std::shared_lock ses_locker(sessions_lock);\n\n    auto it","    std::shared_lock ses_locker(sessions_lock);\n    logger->log(LOG_DEBUG) << \"x\";\n    auto it")]),
]
