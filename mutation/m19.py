S = 'subscriptionstore.cpp'
M = [
 ('B', 'pound-next-child', [(S, "            next_subtopic, end, this_node, true, session", "            next_subtopic, end, this_node, false, session")]),
 ('B', 'plus-recurse-pound', [(S, "                    next_subtopic, end, child, false, session", "                    next_subtopic, end, child, true, session")]),
 ('B', 'plus-cur-not-next', [(S, "                d.node = pair.second;\n                d.cur = next_subtopic;", "                d.node = pair.second;\n                d.cur = cur_subtopic_it - 1;")]),
 ('B', 'defer-wrong-node', [(S, "                d.node = children;\n", "                d.node = this_node;\n")]),
 ('B', 'defer-break', [(S, "                d.poundMode = poundMode;\n                deferred.push_back(d);\n            }\n            else\n            {\n                std::shared_ptr<RetainedMessageNode> &child", "                d.poundMode = poundMode;\n                deferred.push_back(d);\n                break;\n            }\n            else\n            {\n                std::shared_ptr<RetainedMessageNode> &child")]),
 ('B', 'defer-not-pushed', [(S, "                d.poundMode = poundMode;\n                deferred.push_back(d);\n            }\n            else\n            {\n                giveClient", "                d.poundMode = poundMode;\n                if (deferred.size() < 1000)\n                    deferred.push_back(d);\n            }\n            else\n            {\n                giveClient")]),
 ('B', 'pound-defer-nopound', [(S, "                    d.poundMode = poundMode;\n", "")]),
 ('B', 'no-return-after-drop', [(S, "                         * this is the easier approach.\n                         */\n                        return;", "                         * this is the easier approach.\n                         */")]),
 ('B', 'drop-only-bufferfull', [(S, "drop_reason == PacketDropReason::BufferFull || drop_reason == PacketDropReason::QoSTODOSomethingSomething", "drop_reason == PacketDropReason::BufferFull")]),
 ('B', 'drop-any', [(S, "if (drop_reason == PacketDropReason::BufferFull || drop_reason == PacketDropReason::QoSTODOSomethingSomething)", "if (drop_reason != PacketDropReason::Success)")]),
 ('B', 'drop-nocount', [(S, "                        drop_count++;\n\n", "")]),
 ('B', 'retain-flag-false', [(S, "session->writePacket(copyFactory, max_qos, true, subscription_identifier)", "session->writePacket(copyFactory, max_qos, rm.publish.retain, subscription_identifier)")]),
 ('B', 'no-acl', [(S, "if (auth.aclCheck(publish, publish.payload) == AuthResult::success)", "if (auth.aclCheck(publish, publish.payload) != AuthResult::acl_denied)")]),
 ('B', 'expired-sent', [(S, "            if (!rm.hasExpired()) // We", "            if (!rm.hasExpired() || poundMode) // We")]),
 ('B', 'qos-of-message', [(S, "session->writePacket(copyFactory, max_qos, true", "session->writePacket(copyFactory, std::max(max_qos, publish.qos), true")]),
 ('B', 'plus-skip-empty', [(S, "        for (std::pair<const std::string, std::shared_ptr<RetainedMessageNode>> &pair : this_node->children)\n        {\n", "        for (std::pair<const std::string, std::shared_ptr<RetainedMessageNode>> &pair : this_node->children)\n        {\n            if (pair.first.empty())\n                continue;\n\n")]),
 ('B', 'pound-skips-parent', [(S, "        if (this_node->message)\n        {\n            const RetainedMessage &rm", "        if (this_node->message && (!poundMode || this_node->children.empty()))\n        {\n            const RetainedMessage &rm")]),
 ('B', 'resume-drop-loses', [(S, "        if (drop_count > 0)\n            break;\n\n        DeferredRetainedMessageNodeDelivery &d", "        if (drop_count > 0)\n            continue;\n\n        DeferredRetainedMessageNodeDelivery &d")]),
 ('B', 'resume-not-again', [(S, "    if (!deferred->empty() && ++requeue_count < 100", "    if (!deferred->empty() && drop_count == 0 && ++requeue_count < 100")]),
 ('B', 'resume-fewer-tries', [(S, "++requeue_count < 100 &&", "++requeue_count < 10 &&")]),
 ('B', 'resume-qos', [(S, "ses, subscribeSubtopicsCopy, deferred, requeue_count, total_node_count, max_qos, subscription_identifier);", "ses, subscribeSubtopicsCopy, deferred, requeue_count, total_node_count, 0, subscription_identifier);")]),
 ('B', 'resume-pound', [(S, "d.cur, d.end, node, d.poundMode, session", "d.cur, d.end, node, d.cur == d.end, session")]),
 ('B', 'start-mode', [(S, "    if (settings->retainedMessagesMode >= RetainedMessagesMode::EnabledWithoutRetaining)\n        return;\n\n    // The specs", "    if (settings->retainedMessagesMode > RetainedMessagesMode::EnabledWithoutRetaining)\n        return;\n\n    // The specs")]),
 ('B', 'start-persist-mode', [(S, "    if (settings->retainedMessagesMode >= RetainedMessagesMode::EnabledWithoutRetaining)\n        return;\n\n    // The specs", "    if (settings->retainedMessagesMode >= RetainedMessagesMode::EnabledWithoutPersistence)\n        return;\n\n    // The specs")]),
 ('B', 'start-avail', [(S, "        if (client && !client->isRetainedAvailable())\n            return;\n    }\n\n    const std::shared_ptr<RetainedMessageNode> *startNode", "        if (client && client->isRetainedAvailable())\n            return;\n    }\n\n    const std::shared_ptr<RetainedMessageNode> *startNode")]),
 ('B', 'start-dollar', [(S, "subscribeSubtopics[0][0] == '$')\n        startNode = &retainedMessagesRootDollar", "subscribeSubtopics[0] == \"$SYS\")\n        startNode = &retainedMessagesRootDollar")]),
 ('B', 'start-begin', [(S, "    start.cur = subscribeSubtopicsCopy->begin();", "    start.cur = subscribeSubtopicsCopy->begin() + (subscribeSubtopicsCopy->size() > 1 && subscribeSubtopicsCopy->front().empty());")]),
 ('K', 'aggregate', [(S, "                DeferredRetainedMessageNodeDelivery d;\n                d.node = children;\n                d.cur = next_subtopic;\n                d.end = end;\n                d.poundMode = poundMode;\n                deferred.push_back(d);", "                deferred.push_back({children, next_subtopic, end, poundMode});")]),
 ('K', 'else-if-flip', [(S, "            if (std::chrono::steady_clock::now() >= limit || drop_count_start != drop_count)\n            {\n                DeferredRetainedMessageNodeDelivery d;\n                d.node = pair.second;\n                d.cur = next_subtopic;\n                d.end = end;\n                d.poundMode = poundMode;\n                deferred.push_back(d);\n            }\n            else\n            {\n                std::shared_ptr<RetainedMessageNode> &child = pair.second;\n                giveClientRetainedMessagesRecursively(\n                    next_subtopic, end, child, false, session, max_qos, subscription_identifier, limit, deferred, drop_count, ++processed_nodes_count);\n            }", "            const bool out_of_room = drop_count_start != drop_count;\n\n            if (!out_of_room && std::chrono::steady_clock::now() < limit)\n            {\n                giveClientRetainedMessagesRecursively(\n                    next_subtopic, end, pair.second, false, session, max_qos, subscription_identifier, limit, deferred, drop_count, ++processed_nodes_count);\n                continue;\n            }\n\n            DeferredRetainedMessageNodeDelivery d;\n            d.node = pair.second;\n            d.cur = next_subtopic;\n            d.end = end;\n            deferred.push_back(std::move(d));")]),
 ('K', 'iter-loop', [(S, "            for (auto &pair : this_node->children)\n            {\n                if (std::chrono::steady_clock::now() >= limit || drop", "            for (auto it = this_node->children.begin(); it != this_node->children.end(); ++it)\n            {\n                auto &pair = *it;\n                if (std::chrono::steady_clock::now() >= limit || drop")]),
 ('K', 'early-return-null-msg', [(S, "                    if (drop_reason == PacketDropReason::BufferFull || drop_reason == PacketDropReason::QoSTODOSomethingSomething)\n                    {", "                    const bool full = drop_reason == PacketDropReason::BufferFull || drop_reason == PacketDropReason::QoSTODOSomethingSomething;\n\n                    if (full)\n                    {")]),
 ('K', 'resume-while', [(S, "    for (; !deferred->empty(); deferred->pop_front())\n    {\n        if (std::chrono::steady_clock::now() >= new_limit)\n            break;\n\n        if (drop_count > 0)\n            break;\n", "    for (; !deferred->empty() && drop_count == 0; deferred->pop_front())\n    {\n        if (std::chrono::steady_clock::now() >= new_limit)\n            break;\n")]),
 ('K', 'resume-lambda', [(S, "        auto again = std::bind(&SubscriptionStore::giveClientRetainedMessagesInitiateDeferred, this,\n                               ses, subscribeSubtopicsCopy, deferred, requeue_count, total_node_count, max_qos, subscription_identifier);", "        auto again = [this, ses, subscribeSubtopicsCopy, deferred, requeue_count, total_node_count, max_qos, subscription_identifier]() mutable {\n            giveClientRetainedMessagesInitiateDeferred(ses, subscribeSubtopicsCopy, deferred, requeue_count, total_node_count, max_qos, subscription_identifier);\n        };")]),
 ('K', 'start-ternary', [(S, "    const std::shared_ptr<RetainedMessageNode> *startNode = &retainedMessagesRoot;\n    if (!subscribeSubtopics.empty() && !subscribeSubtopics[0].empty() > 0 && subscribeSubtopics[0][0] == '$')\n        startNode = &retainedMessagesRootDollar;\n", "    const bool is_dollar = !subscribeSubtopics.empty() && !subscribeSubtopics[0].empty() && subscribeSubtopics[0][0] == '$';\n    const std::shared_ptr<RetainedMessageNode> *startNode = is_dollar ? &retainedMessagesRootDollar : &retainedMessagesRoot;\n")]),
 ('K', 'start-mode-list', [(S, "    if (settings->retainedMessagesMode >= RetainedMessagesMode::EnabledWithoutRetaining)\n        return;\n\n    // The specs", "    const bool retains = settings->retainedMessagesMode == RetainedMessagesMode::Enabled || settings->retainedMessagesMode == RetainedMessagesMode::EnabledWithoutPersistence;\n    if (!retains)\n        return;\n\n    // The specs")]),
 ('K', 'acl-early', [(S, "                if (auth.aclCheck(publish, publish.payload) == AuthResult::success)\n", "                const AuthResult allowed = auth.aclCheck(publish, publish.payload);\n\n                if (allowed == AuthResult::success)\n")]),
]
