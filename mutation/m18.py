S = 'subscriptionstore.cpp'
M = [
 ('B', 'dollar-not-separated', [(S, "            start = &rootDollar;\n    }\n\n    std::shared_ptr<SubscriptionNode> result;", "            start = &root;\n    }\n\n    std::shared_ptr<SubscriptionNode> result;")]),
 ('B', 'dollar-nonempty-more', [(S, "if (first.length() > 0 && first[0] == '$')\n            start", "if (first.length() > 1 && first[0] == '$')\n            start")]),
 ('B', 'plus-as-pound', [(S, "selectedChildren = &(*deepestNode)->childrenPlus;", "selectedChildren = &(*deepestNode)->childrenPound;")]),
 ('B', 'pound-first-char', [(S, 'if (subtopic == "#")', "if (!subtopic.empty() && subtopic[0] == '#' && subtopics.size() > 1)")]),
 ('B', 'key-front', [(S, "selectedChildren = &children[subtopic];", "selectedChildren = &children[subtopics.back()];")]),
 ('B', 'no-restart', [(S, "        auto subtopic_pos = subtopics.begin();\n        const std::shared_ptr<SubscriptionNode> *deepestNode = start;\n", ""), (S, "    bool retry_mode = false;\n\n    for(int i", "    bool retry_mode = false;\n    auto subtopic_pos = subtopics.begin();\n    const std::shared_ptr<SubscriptionNode> *deepestNode = start;\n\n    for(int i")]),
 ('B', 'write-without-wlock', [(S, "        if (retry_mode)\n        {\n            assert(!abort_on_dead_end);\n            wlock.lock();\n        }\n        else\n            rlock.lock();", "        rlock.lock();")]),
 ('B', 'return-partial', [(S, "        if (retry_mode && subtopic_pos != subtopics.end())\n            continue;", "        if (retry_mode && i == 0 && subtopics.size() > 1)\n            continue;")]),
 ('B', 'add-abort', [(S, "const std::shared_ptr<SubscriptionNode> deepestNode = getDeepestNode(subtopics);", "const std::shared_ptr<SubscriptionNode> deepestNode = getDeepestNode(subtopics, true);")]),
 ('B', 'remove-creates', [(S, "std::shared_ptr<SubscriptionNode> node = getDeepestNode(subtopics, true);", "std::shared_ptr<SubscriptionNode> node = getDeepestNode(subtopics);")]),
 ('B', 'rap-nolocal-swap', [(S, "    sub.noLocal = noLocal;\n    sub.retainAsPublished = retainAsPublished;", "    sub.noLocal = retainAsPublished;\n    sub.retainAsPublished = noLocal;")]),
 ('B', 'subid-kept', [(S, "        s = sub;\n    }\n    else", "        const uint32_t old_id = s.subscriptionIdentifier;\n        s = sub;\n        s.subscriptionIdentifier = old_id;\n    }\n    else")]),
 ('B', 'subid-only-nonzero', [(S, "    sub.subscriptionIdentifier = subscriptionIdentifier;\n", "    if (!noLocal)\n        sub.subscriptionIdentifier = subscriptionIdentifier;\n")]),
 ('B', 'existing-not-replaced', [(S, "        result = s.session.expired() ? AddSubscriptionType::NewSubscription : AddSubscriptionType::ExistingSubscription;\n        s = sub;\n    }\n    else", "        result = s.session.expired() ? AddSubscriptionType::NewSubscription : AddSubscriptionType::ExistingSubscription;\n        if (result == AddSubscriptionType::NewSubscription || s.qos != sub.qos)\n            s = sub;\n    }\n    else")]),
 ('B', 'share-under-client', [(S, "sharedSubscribers.try_emplace(shareName, shareName,", "sharedSubscribers.try_emplace(client_id, shareName,")]),
 ('B', 'kind-after', [(S, "        result = s.session.expired() ? AddSubscriptionType::NewSubscription : AddSubscriptionType::ExistingSubscription;\n        s = sub;\n    }\n    else", "        s = sub;\n        result = s.session.expired() ? AddSubscriptionType::NewSubscription : AddSubscriptionType::ExistingSubscription;\n    }\n    else")]),
 ('B', 'remove-share-all', [(S, "            SharedSubscribers &subscribers = pos->second;\n            subscribers.erase(clientId);", "            sharedSubscribers.erase(pos);")]),
 ('B', 'remove-skipped-nosub', [(S, "        if (it != subscribers.end())\n        {\n            subscribers.erase(it);", "        if (it != subscribers.end() && it->second.qos > 0)\n        {\n            subscribers.erase(it);")]),
 ('B', 'remove-wrong-place', [(S, "    if (shareName.empty())\n    {\n        auto it", "    if (sharedSubscribers.empty())\n    {\n        auto it")]),
 ('B', 'clean-drop-zero-own', [(S, "    return node_subscriber_count + subscribersLeftInChildren + grace_period_fake;", "    return subscribers.size() + subscribersLeftInChildren + grace_period_fake;")]),
 ('B', 'clean-no-grace', [(S, "    return node_subscriber_count + subscribersLeftInChildren + grace_period_fake;", "    return node_subscriber_count + subscribersLeftInChildren;")]),
 ('B', 'clean-grace-inverted', [(S, "static_cast<int>(!grace_period_expired)", "static_cast<int>(grace_period_expired)")]),
 ('B', 'clean-kids-overwritten', [(S, "        if (node_.use_count() > 1)\n            n++;\n\n        subscribersLeftInChildren += n;", "        if (node_.use_count() > 1)\n            n++;\n\n        subscribersLeftInChildren = n;")]),
 ('B', 'clean-held-child', [(S, "        if (node.use_count() > 1)\n            n++;\n", "")]),
 ('B', 'clean-held-wild', [(S, "        if (node_.use_count() > 1)\n            n++;\n", "        if (node_.use_count() > 2)\n            n++;\n")]),
 ('K', 'clean-held-plus', [(S, "        if (node.use_count() > 1)\n            n++;\n", "        n += node.use_count() > 1;\n")]),
 ('K', 'clean-held-tern', [(S, "        if (node_.use_count() > 1)\n            n++;\n", "        n += (node_.use_count() > 1 ? 1 : 0);\n")]),
 ('K', 'clean-held-cond', [(S, "        if (n == 0)\n        {\n            if (Logger", "        if (n < 1 && node_.use_count() == 1)\n        {\n            if (Logger")]),
 ('B', 'clean-deferred-not-counted', [(S, "            subscribersLeftInChildren += 1; // We just have to be sure it's not 0.\n", "")]),
 ('B', 'clean-erase-always', [(S, "        if (n > 0)\n            childrenIt++;", "        if (n > 1)\n            childrenIt++;")]),
 ('B', 'clean-erase-negated', [(S, "            if (cur_it->second.session.expired())\n            {\n                if (Logger", "            if (cur_it->second.session.expired() || cur_it->second.qos > 2)\n            {\n                if (Logger")]),
 ('B', 'clean-erase-next', [(S, "                subscribers.erase(cur_it);", "                subscribers.erase(subscribers.begin());")]),
 ('B', 'clean-share-size1', [(S, "            if (subscribers_of_share.empty())\n                sharedSubscribers", "            if (subscribers_of_share.empty() || sharedSubscribers.size() > 100)\n                sharedSubscribers")]),
 ('B', 'unsub-skips-share', [('mqttpacket.cpp', "        globals->subscriptionStore->removeSubscription(session, subtopics, shareName);", "        if (numberOfUnsubs < 2 || shareName.empty())\n            globals->subscriptionStore->removeSubscription(session, subtopics, shareName);")]),
 ('B', 'unsub-parse-late', [('mqttpacket.cpp', "        parseSubscriptionShare(subtopics, shareName, topic_without_sharename);\n\n        globals->subscriptionStore->removeSubscription(session, subtopics, shareName);\n", "        globals->subscriptionStore->removeSubscription(session, subtopics, shareName);\n        parseSubscriptionShare(subtopics, shareName, topic_without_sharename);\n")]),
 ('B', 'pass-noshare', [(S, "    node->removeSubscriber(session, shareName);", "    node->removeSubscriber(session, \"\");")]),
 ('K', 'index-var', [(S, "    const bool split = children_amount > 15;", "    const bool split = children.size() > 31;")]),
 ('K', 'remove-direct-erase', [(S, "        auto it = subscribers.find(clientId);\n\n        if (it != subscribers.end())\n        {\n            subscribers.erase(it);\n        }", "        subscribers.erase(clientId);")]),
 ('K', 'early-return-remove', [(S, "        if (it != subscribers.end())\n        {\n            subscribers.erase(it);\n        }", "        if (it == subscribers.end())\n            return;\n        subscribers.erase(it);")]),
 ('K', 'starts-with-helper', [(S, "        const std::string &first = subtopics.front();\n        if (first.length() > 0 && first[0] == '$')\n            start", "        const std::string &first = subtopics[0];\n        if (!first.empty() && first.at(0) == '$')\n            start")]),
 ('K', 'clean-return-sum', [(S, "    return node_subscriber_count + subscribersLeftInChildren + grace_period_fake;", "    int total = static_cast<int>(node_subscriber_count) + subscribersLeftInChildren + grace_period_fake;\n    return total;")]),
 ('K', 'grace-ternary', [(S, "static_cast<int>(!grace_period_expired)", "grace_period_expired ? 0 : 1")]),
 ('K', 'clean-erase-return', [(S, "        auto it = subscribers.begin();\n        while (it != subscribers.end())\n        {\n            auto cur_it = it;\n            it++;\n\n            if (cur_it->second.session.expired())\n            {\n                if (Logger::getInstance()->wouldLog(LOG_DEBUG))\n                    Logger::getInstance()->logf(LOG_DEBUG, \"Removing empty spot in subscribers map\");\n                subscribers.erase(cur_it);\n            }\n        }", "        for (auto it = subscribers.begin(); it != subscribers.end(); )\n        {\n            if (!it->second.session.expired())\n            {\n                ++it;\n                continue;\n            }\n            it = subscribers.erase(it);\n        }")]),
 ('K', 'add-if-else-result', [(S, "        result = s.session.expired() ? AddSubscriptionType::NewSubscription : AddSubscriptionType::ExistingSubscription;\n        s = sub;\n    }\n    else", "        if (s.session.expired())\n            result = AddSubscriptionType::NewSubscription;\n        else\n            result = AddSubscriptionType::ExistingSubscription;\n        s = sub;\n    }\n    else")]),
 ('K', 'wild-unrolled', [(S, "        if (n == 0)\n        {\n            if (Logger", "        const bool nothing_left = n < 1;\n        if (nothing_left)\n        {\n            if (Logger")]),
]
