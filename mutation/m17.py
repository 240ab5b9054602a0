S='subscriptionstore.cpp'; H='sharedsubscribers.cpp'
M=[
('B','pound end lost',[(S,"            if (this_node->childrenPound)\n            {\n                publishNonRecursively(this_node->childrenPound.get(), targetSessions, senderClientId, fmq_client_group_id);\n            }\n        }\n        return;","        }\n        return;")]),
('B','early return too eager',[(S,"if (this_node->children.empty() && !this_node->childrenPlus && !this_node->childrenPound)\n        return;\n\n    const std::string &cur","if (this_node->children.empty() && !this_node->childrenPlus)\n        return;\n\n    const std::string &cur")]),
('B','early return plus',[(S,"if (this_node->children.empty() && !this_node->childrenPlus && !this_node->childrenPound)\n        return;\n\n    const std::string &cur","if (this_node->children.empty() && !this_node->childrenPound)\n        return;\n\n    const std::string &cur")]),
('B','plus same level',[(S,"publishRecursively(next_subtopic, end, this_node->childrenPlus.get()","publishRecursively(next_subtopic, end, this_node->childrenPound.get()")]),
('B','name after step',[(S,"    const std::string &cur_subtop = *cur_subtopic_it;\n\n    const auto next_subtopic = ++cur_subtopic_it;\n","    const auto next_subtopic = ++cur_subtopic_it;\n    const std::string &cur_subtop = *cur_subtopic_it;\n")]),
('B','post increment',[(S,"const auto next_subtopic = ++cur_subtopic_it;\n\n    if (this_node->childrenPound)\n    {\n        publishNonRec","const auto next_subtopic = cur_subtopic_it++;\n\n    if (this_node->childrenPound)\n    {\n        publishNonRec")]),
('B','else plus/exact',[(S,"    if (sub_node != this_node->children.end())\n    {\n        publishRecursively","    else if (sub_node != this_node->children.end())\n    {\n        publishRecursively")]),
('B','nolocal any',[(S,"if (sub.noLocal && targetSessions.back().session->getClientId() == senderClientId)","if (sub.noLocal)")]),
('B','nolocal dropped',[(S,"if (sub.noLocal && targetSessions.back().session->getClientId() == senderClientId)","if (false)")]),
('B','self always',[(S,"if (sub.noLocal && targetSessions.back().session->getClientId() == senderClientId)","if (targetSessions.back().session->getClientId() == senderClientId)")]),
('B','group unset equal',[(S,"if (session_group_id && session_group_id == fmq_client_group_id)\n        {\n            targetSessions.pop_back();\n            continue;\n        }\n    }\n\n    if (this_node","if (session_group_id == fmq_client_group_id && session_group_id)\n        {\n            targetSessions.clear();\n            continue;\n        }\n    }\n\n    if (this_node")]),
('B','group not checked',[(S,"if (session_group_id && session_group_id == fmq_client_group_id)\n        {\n            targetSessions.pop_back();\n            continue;\n        }\n    }\n\n    if (this_node","if (session_group_id && fmq_client_group_id == senderClientId)\n        {\n            targetSessions.pop_back();\n            continue;\n        }\n    }\n\n    if (this_node")]),
('B','break on gone',[(S,"            targetSessions.pop_back();\n            continue;\n        }\n\n        if (sub.noLocal","            targetSessions.pop_back();\n            break;\n        }\n\n        if (sub.noLocal")]),
('B','gone kept',[(S,"        if (!targetSessions.back().session)\n        {\n            targetSessions.pop_back();\n            continue;\n        }\n\n        if (sub.noLocal","        if (!targetSessions.back().session)\n        {\n            continue;\n        }\n\n        if (sub.noLocal")]),
('B','shared return when null',[(S,"        if (sub == nullptr)\n            continue;","        if (sub == nullptr)\n            return;")]),
('B','qos of shared',[(S,"targetSessions.emplace_back(sub->session, sub->qos, sub->retainAsPublished, sub->subscriptionIdentifier);","targetSessions.emplace_back(sub->session, sub->qos, sub->noLocal, sub->subscriptionIdentifier);")]),
('B','early return shared',[(S,"    if (this_node->sharedSubscribers.empty())\n        return;","    if (this_node->sharedSubscribers.empty() || !targetSessions.empty())\n        return;")]),
('B','override ignored first',[(S,"else if (targetting == SharedSubscriptionTargeting::First)\n","else if (targetting == SharedSubscriptionTargeting::First && targetSessions.empty())\n")]),
('B','dollar root',[(S,"dollar ? rootDollar.get() : root.get()","!dollar ? rootDollar.get() : root.get()")]),
('B','dollar not blocked',[(S,"    if (!dollar && copyFactory.getTopic()[0] == '$')","    if (!dollar && copyFactory.getTopic()[0] == '+')")]),
('B','dollar blocked too',[(S,"    if (!dollar && copyFactory.getTopic()[0] == '$')","    if (copyFactory.getTopic()[0] == '$')")]),
('B','write identifier',[(S,"x.session->writePacket(copyFactory, x.qos, x.retainAsPublished, x.subscriptionIdentifier);","x.session->writePacket(copyFactory, x.qos, x.retainAsPublished, subscriberSessions.front().subscriptionIdentifier);")]),
('B','write stop',[(S,"x.session->writePacket(copyFactory, x.qos, x.retainAsPublished, x.subscriptionIdentifier);","if (x.session->writePacket(copyFactory, x.qos, x.retainAsPublished, x.subscriptionIdentifier) == PacketDropReason::BufferFull) break;")]),
('B','write limit',[(S,"    for(const ReceivingSubscriber &x : subscriberSessions)\n    {\n","    for(const ReceivingSubscriber &x : subscriberSessions)\n    {\n        if (!x.session->hasActiveClient() && x.qos == 0) continue;\n")]),
('B','first expired',[(H,"    for (const Subscription &s : members)\n    {\n        if (!s.session.expired())","    for (const Subscription &s : members)\n    {\n        if (s.session.use_count() >= 0)")]),
('B','next gives up',[(H,"const Subscription &s = members[roundRobinCounter++ % members.size()];\n\n        if (!s.session.expired())\n        {\n            result = &s;\n            break;\n        }","const Subscription &s = members[roundRobinCounter++ % members.size()];\n\n        if (!s.session.expired())\n            result = &s;\n        break;")]),
('B','hash stuck',[(H,"members[pos++ % members.size()]","members[pos % members.size()]")]),
('B','new member index',[(H,"    index[clientid] = newIndex;\n    members.emplace_back();","    members.emplace_back();\n    index[clientid] = members.size();")]),
('B','erase none',[(H,"        members[index].reset();","        members[0].reset();")]),
('B','purge stops',[(H,"        if (sub.session.expired())\n            continue;","        if (sub.session.expired())\n            break;")]),
('K','next()',[(S,"const auto next_subtopic = ++cur_subtopic_it;\n\n    if (this_node->childrenPound)\n    {\n        publishNonRec","const auto next_subtopic = std::next(cur_subtopic_it);\n\n    if (this_node->childrenPound)\n    {\n        publishNonRec")]),
('K','no early return',[(S,"    if (this_node->children.empty() && !this_node->childrenPlus && !this_node->childrenPound)\n        return;\n\n    const std::string &cur","    const std::string &cur")]),
('K','check before',[(S,"        targetSessions.emplace_back(sub.session, sub.qos, sub.retainAsPublished, sub.subscriptionIdentifier);\n\n        /*","        if (sub.session.expired())\n            continue;\n        targetSessions.emplace_back(sub.session, sub.qos, sub.retainAsPublished, sub.subscriptionIdentifier);\n\n        /*")]),
('K','helper drop',[(S,"        if (sub.noLocal && targetSessions.back().session->getClientId() == senderClientId)\n        {\n            targetSessions.pop_back();\n            continue;\n        }\n\n        // We will soon support explicitely configuring the 'routing_group_id' (user-facing name for it), so\n        // check on non-shared subscriptions too.\n        const std::optional<std::string> &session_group_id = targetSessions.back().session->getFmqClientGroupId();\n        if (session_group_id && session_group_id == fmq_client_group_id)\n        {\n            targetSessions.pop_back();\n            continue;\n        }","        const Session &ses = *targetSessions.back().session;\n        const bool self = sub.noLocal && ses.getClientId() == senderClientId;\n        const std::optional<std::string> &session_group_id = ses.getFmqClientGroupId();\n        const bool same_group = session_group_id && session_group_id == fmq_client_group_id;\n        if (self || same_group)\n        {\n            targetSessions.pop_back();\n            continue;\n        }")]),
('K','switch targeting',[(S,"        if (targetting == SharedSubscriptionTargeting::SenderHash)\n        {\n            const size_t hash = std::hash<std::string>()(senderClientId);\n            sub = subscribers.getNext(hash);\n        }\n        else if (targetting == SharedSubscriptionTargeting::RoundRobin)\n            sub = subscribers.getNext();\n        else if (targetting == SharedSubscriptionTargeting::First)\n            sub = subscribers.getFirst();","        switch (targetting)\n        {\n        case SharedSubscriptionTargeting::SenderHash:\n            sub = subscribers.getNext(std::hash<std::string>()(senderClientId));\n            break;\n        case SharedSubscriptionTargeting::RoundRobin:\n            sub = subscribers.getNext();\n            break;\n        case SharedSubscriptionTargeting::First:\n            sub = subscribers.getFirst();\n            break;\n        }")]),
('K','early exit inverted',[(S,"    if (cur_subtopic_it == end) // This is the end of the topic path, so look for subscribers here.\n    {\n        if (this_node)\n        {\n            publishNonRecursively(this_node, targetSessions, senderClientId, fmq_client_group_id);","    if (cur_subtopic_it == end) // This is the end of the topic path, so look for subscribers here.\n    {\n        if (!this_node)\n            return;\n        {\n            publishNonRecursively(this_node, targetSessions, senderClientId, fmq_client_group_id);")]),
('K','root if',[(S,"    SubscriptionNode *startNode = dollar ? rootDollar.get() : root.get();\n\n    const size_t","    SubscriptionNode *startNode = root.get();\n    if (dollar)\n        startNode = rootDollar.get();\n\n    const size_t")]),
('K','getFirst return',[(H,"        if (!s.session.expired())\n        {\n            result = &s;\n            break;\n        }\n    }\n\n    return result;\n}\n\nconst Subscription *SharedSubscribers::getNext()","        if (!s.session.expired())\n            return &s;\n    }\n\n    return result;\n}\n\nconst Subscription *SharedSubscribers::getNext()")]),
('K','next early',[(H,"        const Subscription &s = members[roundRobinCounter++ % members.size()];\n\n        if (!s.session.expired())\n        {\n            result = &s;\n            break;\n        }","        const Subscription &s = members[roundRobinCounter++ % members.size()];\n\n        if (s.session.expired())\n            continue;\n\n        result = &s;\n        break;")]),
]
