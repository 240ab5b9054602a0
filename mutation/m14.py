S,SS,MP,C,T,ST='session.cpp','subscriptionstore.cpp','mqttpacket.cpp','client.cpp','threaddata.cpp','settings.cpp'
M=[
('B','no-cap',[(MP,"result.session_expire = std::min<uint32_t>(readFourBytesToUint32(), settings.getExpireSessionAfterSeconds());","result.session_expire = readFourBytesToUint32();")]),
('B','max-cap',[(MP,"result.session_expire = std::min<uint32_t>(readFourBytesToUint32(), settings.getExpireSessionAfterSeconds());","result.session_expire = std::max<uint32_t>(readFourBytesToUint32(), settings.getExpireSessionAfterSeconds());")]),
('B','no-zero',[(MP,"        result.session_expire = 0;\n","")]),
('B','no-disc-cap',[(MP,"session_expire = std::min<uint32_t>(readFourBytesToUint32(), settings->getExpireSessionAfterSeconds());","session_expire = readFourBytesToUint32();")]),
('B','disc-flag',[(MP,"                    result.session_expiry_interval_set = true;\n","                    result.session_expiry_interval_set = session_expire > 0;\n")]),
('B','limit-raw',[(ST,"return expireSessionsAfterSeconds > 0 ? expireSessionsAfterSeconds : std::numeric_limits<uint32_t>::max();","return expireSessionsAfterSeconds;")]),
('B','raise-zero',[(S,"if (this->sessionExpiryInterval == 0 && newVal > 0)","if (this->sessionExpiryInterval == 0 && newVal == 0)")]),
('B','no-destroy0',[(S,"    if (newVal == 0)\n        this->destroyOnDisconnect = true;\n","")]),
('B','mqtt3-expiry',[(S,"    if (protocol_version <= ProtocolVersion::Mqtt311)\n        destroyOnDisconnect = clean_start;\n    else\n","")]),
('B','mqtt31-only',[(S,"    if (protocol_version <= ProtocolVersion::Mqtt311)\n        destroy","    if (protocol_version < ProtocolVersion::Mqtt311)\n        destroy")]),
('B','v5-clean',[(S,"        destroyOnDisconnect = sessionExpiryInterval == 0;","        destroyOnDisconnect = clean_start && sessionExpiryInterval == 0;")]),
('B','no-active',[(T,"    if (session && session->hasActiveClient())\n    {\n        logger->log(LOG_DEBUG) << \"Session of client '\" << clientid << \"' is still in use by another connection.\";\n    }\n    else if (session","    if (session")]),
('B','no-queue',[(T,"    else\n    {\n        store->queueSessionRemoval(session);\n    }\n\n    if (authenticated)","    else if (authenticated && willPublish)\n    {\n        store->queueSessionRemoval(session);\n    }\n\n    if (authenticated)")]),
('B','identity',[(SS,"if (session_it != sessionsById.end() && session_it->second == session)","if (session_it != sessionsById.end())")]),
('B','no-due',[(SS," && lockedSession->getRemovalTime() <= removeAt)",")")]),
('B','no-act',[(SS,"if (lockedSession && !lockedSession->hasActiveClient() && ","if (lockedSession && ")]),
('B','slot-all',[(SS,"            if (removeAt > secondsSinceEpoch)\n            {\n                break;\n            }\n\n            std::vector<std::weak_ptr<Session>>","            std::vector<std::weak_ptr<Session>>")]),
('B','slot-rev',[(SS,"            if (removeAt > secondsSinceEpoch)\n            {\n                break;\n            }\n\n            std::vector<std::weak_ptr<Session>>","            if (removeAt < secondsSinceEpoch)\n            {\n                break;\n            }\n\n            std::vector<std::weak_ptr<Session>>")]),
('B','limit-walk',[(SS,"            processedRemovals++;\n        }","            if (++processedRemovals > 100)\n                break;\n        }")]),
('B','first-only',[(SS,"        removeSession(session);\n        removedSessions++;","        removeSession(session);\n        removedSessions++;\n        break;")]),
('B','minutes',[(S,"this->removalQueuedAt + std::chrono::seconds(this->sessionExpiryInterval);","this->removalQueuedAt + std::chrono::minutes(this->sessionExpiryInterval);")]),
('B','mark-late',[(SS,"    session->setQueuedRemovalAt();\n    queuedSessionRemovals[session->getRemovalTime()].push_back(session);","    queuedSessionRemovals[session->getRemovalTime()].push_back(session);\n    session->setQueuedRemovalAt();")]),
('B','once',[("mainapp.cpp","        interval = 1000;\n#endif\n        timed_tasks.addTask(f, interval, true);\n    }\n\n    {\n        uint32_t interval = 1846849;","        interval = 1000;\n#endif\n        timed_tasks.addTask(f, interval, false);\n    }\n\n    {\n        uint32_t interval = 1846849;")]),
('B','auth-only',[(C,"    if (td)\n    {\n        td->queueClientDisconnectActions(","    if (td && authenticated)\n    {\n        td->queueClientDisconnectActions(")]),
('K','cap-if',[(MP,"result.session_expire = std::min<uint32_t>(readFourBytesToUint32(), settings.getExpireSessionAfterSeconds());","{\n                    const uint32_t asked = readFourBytesToUint32();\n                    const uint32_t limit = settings.getExpireSessionAfterSeconds();\n                    result.session_expire = asked < limit ? asked : limit;\n                }")]),
('K','limit-if',[(ST,"return expireSessionsAfterSeconds > 0 ? expireSessionsAfterSeconds : std::numeric_limits<uint32_t>::max();","if (expireSessionsAfterSeconds == 0)\n        return std::numeric_limits<uint32_t>::max();\n    return expireSessionsAfterSeconds;")]),
('K','props-tern',[(S,"    if (protocol_version <= ProtocolVersion::Mqtt311)\n        destroyOnDisconnect = clean_start;\n    else\n        destroyOnDisconnect = sessionExpiryInterval == 0;","    const bool v5 = protocol_version >= ProtocolVersion::Mqtt5;\n    destroyOnDisconnect = v5 ? sessionExpiryInterval == 0 : clean_start;")]),
('K','actions-early',[(T,"    else if (session && session->getDestroyOnDisconnect())\n    {\n        store->removeSession(session);\n    }\n    else\n    {\n        store->queueSessionRemoval(session);\n    }","    else if (!session || !session->getDestroyOnDisconnect())\n    {\n        store->queueSessionRemoval(session);\n    }\n    else\n    {\n        store->removeSession(session);\n    }")]),
('K','walk-continue',[(SS,"                if (lockedSession && !lockedSession->hasActiveClient() && lockedSession->getRemovalTime() <= removeAt)\n                {\n                    sessionsToRemove.push_back(lockedSession);\n                }","                if (!lockedSession || lockedSession->hasActiveClient())\n                    continue;\n                if (lockedSession->getRemovalTime() > removeAt)\n                    continue;\n                sessionsToRemove.push_back(std::move(lockedSession));")]),
('K','walk-for',[(SS,"        while (it != queuedSessionRemovals.end())\n        {\n            const std::chrono::seconds &removeAt = it->first;\n\n            if (removeAt > secondsSinceEpoch)\n            {\n                break;\n            }","        while (it != queuedSessionRemovals.end() && it->first <= secondsSinceEpoch)\n        {\n            const std::chrono::seconds &removeAt = it->first;\n")]),
('K','time-inline',[(S,"    const std::chrono::time_point<std::chrono::steady_clock> removeAt = this->removalQueuedAt + std::chrono::seconds(this->sessionExpiryInterval);\n    return std::chrono::duration_cast<std::chrono::seconds>(removeAt.time_since_epoch());","    const std::chrono::seconds interval(this->sessionExpiryInterval);\n    return std::chrono::duration_cast<std::chrono::seconds>((this->removalQueuedAt + interval).time_since_epoch());")]),
('K','timer-lambda',[("mainapp.cpp","        auto f = std::bind(&MainApp::queueCleanup, this);","        auto f = [this] { queueCleanup(); };")]),
]
