S='subscriptionstore.cpp'; L='logger.cpp'; X='session.cpp'
M=[
('B','sharedInsert',[(S,"        std::unique_lock ses_locker(sessions_lock);","        std::shared_lock ses_locker(sessions_lock);")]),
('B','lockSession',[(S,"    std::shared_lock ses_locker(sessions_lock);\n\n    auto it = sessionsByIdConst","    auto it = sessionsByIdConst")]),
('B','early',[(S,"            std::vector<std::weak_ptr<Session>> &sessionsFromSlot = it->second;","            std::vector<std::weak_ptr<Session>> &sessionsFromSlot = it->second;\n            if (sessionsFromSlot.empty()) continue;"),(S,"        std::lock_guard<std::mutex> locker(this->queuedSessionRemovalsMutex);\n\n        auto it","        if (queuedSessionRemovals.empty()) return;\n        std::lock_guard<std::mutex> locker(this->queuedSessionRemovalsMutex);\n\n        auto it")]),
('B','purgeShared',[(S,"        std::unique_lock locker(subscriptions_lock);\n\n        logger->log(LOG_INFO) << \"Rebuilding","        std::shared_lock locker(subscriptions_lock);\n\n        logger->log(LOG_INFO) << \"Rebuilding")]),
('B','expireRd',[(S,"        lock_guard.wrlock();\n        retainedMessageDeferredCounter","        lock_guard.rdlock();\n        retainedMessageDeferredCounter")]),
('B','expireNoLock',[(S,"        lock_guard.wrlock();\n\n        logger->log(LOG_INFO) << \"Expiring retained messages: we","        logger->log(LOG_INFO) << \"Expiring retained messages: we")]),
('B','addSub',[(S,"            wlock.lock();","            if (subtopics.size() > 1) wlock.lock();")]),
('B','nodeShared',[(S,"    std::unique_lock locker(lock);\n","    std::shared_lock locker(lock);\n")]),
('B','willsUnlocked',[(S,"    std::lock_guard<std::mutex> locker(this->pendingWillsMutex);\n\n    auto it = pendingWillMessages.begin();","    auto it = pendingWillMessages.begin();")]),
('B','removeUnlock',[(S,"        if (session_it != sessionsById.end() && session_it->second == session)","        session_locker.unlock();\n        if (session_it != sessionsById.end() && session_it->second == session)")]),
('B','pubScope',[(S,"        std::shared_lock locker(subscriptions_lock);\n        publishRecursively","        { std::shared_lock locker(subscriptions_lock); }\n        publishRecursively")]),
('B','logPop',[(L,"            if (lines.empty())\n                continue;\n\n            line = std::move(lines.front());\n            lines.pop();\n        }","            if (lines.empty())\n                continue;\n\n            line = std::move(lines.front());\n        }\n        lines.pop();")]),
('B','countUnlocked',[(S,"    std::shared_lock<std::shared_mutex> lock_guard(sessions_lock);\n    return","    return")]),
('B','qosRef',[(X,"        MutexLocked<QoSData> qos_locked = qos.lock();\n\n        // We don't","        QoSData *qos_locked = &*qos.lock();\n\n        // We don't")]),
('K','outerScope',[(S,"    std::shared_lock ses_locker(sessions_lock);\n\n    auto it","    std::shared_lock<std::shared_mutex> ses_locker(sessions_lock, std::defer_lock);\n    ses_locker.lock();\n\n    auto it")]),
('K','uniq',[(S,"    std::lock_guard<std::mutex> locker(this->pendingWillsMutex);\n\n    auto it = pendingWillMessages.begin();","    std::unique_lock<std::mutex> locker(this->pendingWillsMutex);\n\n    auto it = pendingWillMessages.begin();")]),
('K','excl',[(S,"    std::shared_lock ses_locker(sessions_lock);\n\n    auto it","    std::unique_lock ses_locker(sessions_lock);\n\n    auto it")]),
('K','unlockEarly',[(S,"        if (session_it != sessionsById.end() && session_it->second == session)\n        {\n            sessionsToRemove.push_back(session_it->second);\n            sessionsById.erase(session_it);\n        }","        if (session_it != sessionsById.end() && session_it->second == session)\n        {\n            sessionsToRemove.push_back(session_it->second);\n            sessionsById.erase(session_it);\n        }\n        session_locker.unlock();")]),
]
