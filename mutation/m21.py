S = 'subscriptionstore.cpp'
D = 'sessionsandsubscriptionsdb.cpp'
H = 'sharedsubscribers.cpp'
A = 'mainapp.cpp'
F = 'persistencefunctions.cpp'
M = [
 ('B', 'no-retained-when-none', [(F, "if (settings.persistenceDataToSave.hasFlagSet(PersistenceDataToSave::SessionsAndSubscriptions))", "if (settings.persistenceDataToSave.hasFlagSet(PersistenceDataToSave::SessionsAndSubscriptions) && !in_background)")]),
 ('B', 'wrong-flag', [(F, "hasFlagSet(PersistenceDataToSave::RetainedMessages)", "hasFlagSet(PersistenceDataToSave::SessionsAndSubscriptions)")]),
 ('B', 'end-background', [(A, "saveState(this->settings, bridgeInfos, false);", "saveState(this->settings, bridgeInfos, true);")]),
 ('B', 'end-not-on-timeout', [(A, "    saveState(this->settings, bridgeInfos, false);", "    if (!waitTimeExpired)\n        saveState(this->settings, bridgeInfos, false);")]),
 ('B', 'end-no-wait', [(A, "    this->bgWorker.waitForStop();\n", "")]),
 ('B', 'dod-inverted', [(D, "return ses && !ses->destroyOnDisconnect;", "return ses && !ses->destroyOnDisconnect && ses->hasActiveClient();")]),
 ('B', 'all-saved', [(D, "return ses && !ses->destroyOnDisconnect;", "return ses.operator bool();")]),
 ('B', 'no-dollar', [(S, '    deferred.emplace_back(rootDollar, "", true);\n\n    for', '    for')]),
 ('B', 'dollar-not-root', [(S, '    deferred.emplace_back(rootDollar, "", true);\n\n    for', '    deferred.emplace_back(rootDollar, "", false);\n\n    for')]),
 ('B', 'plus-slash', [(S, 'root ? "+" : composedTopic + "/+"', 'root ? "+" : composedTopic + "+"')]),
 ('B', 'pound-deferred-plus', [(S, 'deferred.emplace_back(this_node->childrenPound, topicAtNextLevel, false);', 'deferred.emplace_back(this_node->childrenPlus, topicAtNextLevel, false);')]),
 ('B', 'child-defer-lost', [(S, '            deferred.emplace_back(pair.second, topicAtNextLevel, false);', '            break;')]),
 ('B', 'defer-composed', [(S, '            deferred.emplace_back(pair.second, topicAtNextLevel, false);', '            deferred.emplace_back(pair.second, composedTopic, false);')]),
 ('B', 'shared-skip', [(S, "        node.getForSerializing(composedTopic, outputList);", "        if (this_node->getSubscribers().empty())\n            node.getForSerializing(composedTopic, outputList);")]),
 ('B', 'member-share', [(H, "member.retainAsPublished, member.subscriptionIdentifier, this->shareName);", "member.retainAsPublished, member.subscriptionIdentifier);")]),
 ('B', 'qos-zero-skip', [(S, "        if (ses)\n        {\n            SubscriptionForSerializing", "        if (ses && node.qos > 0)\n        {\n            SubscriptionForSerializing")]),
 ('B', 'defer-gone-break', [(S, "        if (!node)\n            continue;\n\n        const std::chrono::time_point<std::chrono::steady_clock> limit = std::chrono::steady_clock::now() + std::chrono::milliseconds(10);", "        if (!node)\n            break;\n\n        const std::chrono::time_point<std::chrono::steady_clock> limit = std::chrono::steady_clock::now() + std::chrono::milliseconds(10);")]),
 ('B', 'retained-defer-lost', [(S, "        if (std::chrono::steady_clock::now() > limit || outputList.size() >= limit_count)\n            deferred.push_back(child);\n        else\n", "        if (outputList.size() >= limit_count)\n            deferred.push_back(child);\n        else if (std::chrono::steady_clock::now() < limit)\n")]),
 ('B', 'retained-batch-empty', [(S, "        db.saveData(result);\n", "        if (result.size() > 1)\n            db.saveData(result);\n")]),
 ('B', 'retained-node-gone', [(S, "            if (!node)\n                continue;\n\n            const std::chrono::time_point<std::chrono::steady_clock> limit = std::chrono::steady_clock::now() + std::chrono::milliseconds(5);", "            if (!node)\n                break;\n\n            const std::chrono::time_point<std::chrono::steady_clock> limit = std::chrono::steady_clock::now() + std::chrono::milliseconds(5);")]),
 ('B', 'giveup-foreground', [(S, "if (globals->quitting && in_background)", "if (globals->quitting)")]),
 ('B', 'no-dontsave', [(S, "            db.dontSaveTmpFile();\n", "")]),
 ('B', 'load-count', [(S, "} while (count > 0);", "} while (count == 1000 && total_count < 100000);")]),
 ('B', 'load-will', [(S, "            queueWillMessage(session->getWill(), session);\n        }\n\n        for", "        }\n\n        for")]),
 ('B', 'load-removal', [(S, "            sessionsById[session->getClientId()] = session;\n            queueSessionRemoval(session);", "            sessionsById[session->getClientId()] = session;\n            if (session->getWill())\n                queueSessionRemoval(session);")]),
 ('B', 'load-sub-break', [(S, "                if (session_it == sessionsByIdConst.end())\n                    continue;", "                if (session_it == sessionsByIdConst.end())\n                    break;")]),
 ('B', 'load-sub-rap', [(S, "sub.qos, sub.noLocal, sub.retainAsPublished, sub.shareName, sub.subscriptionidentifier", "sub.qos, sub.retainAsPublished, sub.noLocal, sub.shareName, sub.subscriptionidentifier")]),
 ('B', 'no-load-sessions', [(A, "        subscriptionStore->loadSessionsAndSubscriptions(settings.getSessionsDBFile());", "        if (settings.retainedMessagesMode == RetainedMessagesMode::Enabled)\n            subscriptionStore->loadSessionsAndSubscriptions(settings.getSessionsDBFile());")]),
 ('B', 'collect-cond', [(S, "            sessionPointers.push_back(pair.second);", "            if (pair.second->hasActiveClient())\n                sessionPointers.push_back(pair.second);")]),
 ('K', 'loop-filter', [(D, "    std::copy_if(sessions.begin(), sessions.end(), std::back_inserter(sessionsToSave), [](const std::shared_ptr<Session> &ses) {\n        return ses && !ses->destroyOnDisconnect;\n    });", "    for (const std::shared_ptr<Session> &s : sessions)\n    {\n        if (!s || s->destroyOnDisconnect)\n            continue;\n        sessionsToSave.push_back(s);\n    }")]),
 ('K', 'while-drain', [(S, "    for (; !deferred.empty(); deferred.pop_front())\n    {\n        std::vector<RetainedMessage> result;\n", "    while (!deferred.empty())\n    {\n        std::vector<RetainedMessage> result;\n        struct Pop { std::deque<std::weak_ptr<RetainedMessageNode>> &d; } pop{deferred};\n        (void)pop;\n"), (S, "            std::shared_ptr<RetainedMessageNode> node = deferred.front().lock();\n\n            if (!node)\n                continue;\n\n            const std::chrono::time_point<std::chrono::steady_clock> limit = std::chrono::steady_clock::now() + std::chrono::milliseconds(5);", "            std::shared_ptr<RetainedMessageNode> node = deferred.front().lock();\n            deferred.pop_front();\n\n            if (!node)\n                continue;\n\n            const std::chrono::time_point<std::chrono::steady_clock> limit = std::chrono::steady_clock::now() + std::chrono::milliseconds(5);")]),
 ('K', 'if-else-name', [(S, 'const std::string topicAtNextLevel = root ? "+" : composedTopic + "/+";', 'std::string topicAtNextLevel;\n        if (root)\n            topicAtNextLevel = "+";\n        else\n            topicAtNextLevel = composedTopic + "/" + "+";')]),
 ('K', 'sub-if', [(S, "                if (session_it == sessionsByIdConst.end())\n                    continue;\n\n                addSubscription(session_it->second, splitTopic(topic), sub.qos, sub.noLocal, sub.retainAsPublished, sub.shareName, sub.subscriptionidentifier);", "                if (session_it != sessionsByIdConst.end())\n                {\n                    const std::shared_ptr<Session> &s = session_it->second;\n                    addSubscription(s, splitTopic(topic), sub.qos, sub.noLocal, sub.retainAsPublished, sub.shareName, sub.subscriptionidentifier);\n                }")]),
 ('K', 'nested-flags', [(F, "        if (settings.persistenceDataToSave.hasFlagSet(PersistenceDataToSave::RetainedMessages)\n            && settings.retainedMessagesMode == RetainedMessagesMode::Enabled)\n        {", "        const bool ret = settings.persistenceDataToSave.hasFlagSet(PersistenceDataToSave::RetainedMessages);\n        if (ret && settings.retainedMessagesMode == RetainedMessagesMode::Enabled)\n        {")]),
]
