M=[
('B', 'direct', [('subscriptionstore.cpp', '    if (td->queuedRetainedMessagesEmpty() && setRetainedMessage(', '    if (setRetainedMessage(')]), 
('B', 'front', [('threaddata.cpp', '    priv->queuedRetainedMessages.emplace_back(p, subtopics, limit);', '    priv->queuedRetainedMessages.emplace_front(p, subtopics, limit);')]), 
('B', 'skip-failed', [('threaddata.cpp', '            wakeUpThread();\n            return;\n        }\n    }\n}\n\nbool ThreadData::queuedRet', '            wakeUpThread();\n        }\n    }\n}\n\nbool ThreadData::queuedRet')]), 
('B', 'no-wake', [('threaddata.cpp', '            wakeUpThread();\n            return;\n        }\n    }\n}\n\nbool ThreadData::queuedRet', '            return;\n        }\n    }\n}\n\nbool ThreadData::queuedRet')]), 
('B', 'erase-always', [('threaddata.cpp', '            priv->queuedRetainedMessages.erase(cur);\n            continue;\n        }\n        else\n        {\n', '            priv->queuedRetainedMessages.erase(cur);\n            continue;\n        }\n        else\n        {\n            priv->queuedRetainedMessages.erase(cur);\n')]), 
('B', 'always-try', [('threaddata.cpp', 'const bool try_lock_fail = cur->limit > std::chrono::steady_clock::now();', 'const bool try_lock_fail = cur->limit != std::chrono::steady_clock::time_point();')]), 
('B', 'false-always', [('subscriptionstore.cpp', '            if (!locker.trywrlock())\n                return false;', '            if (!locker.trywrlock())\n                return true;')]), 
('B', 'no-queue', [('subscriptionstore.cpp', '    td->queueSettingRetainedMessage(publish, subtopics, limit);', '    if (limit > std::chrono::steady_clock::now()) td->queueSettingRetainedMessage(publish, subtopics, limit);')]), 
('B', 'limit-gone', [('subscriptionstore.cpp', '            if (enforcement_node && setRetainedLimitReached(settings, enforcement_node.get(), subtopics))\n                return true;\n\n            std::shared_ptr', '            std::shared_ptr')]), 
('B', 'limit-both', [('subscriptionstore.cpp', '            if (enforcement_node && setRetainedLimitReached(settings, enforcement_node.get(), subtopics))\n                return true;\n\n            std::shared_ptr', '            std::shared_ptr'), ('subscriptionstore.cpp', '            if (enforcement_node && setRetainedLimitReached(settings, enforcement_node.get(), subtopics))\n                return true;\n\n            auto pos', '            auto pos')]), 
('B', 'depth-w', [('subscriptionstore.cpp', '            if (!enforcement_node && cur_level >= settings->retainedMessagesNodeCreationLimitEnforcementDepth)\n                enforcement_node = *deepestNode;\n\n            if (enforcement_node && setRetainedLimitReached(settings, enforcement_node.get(), subtopics))\n                return true;\n\n            std::shared_ptr', '            if (enforcement_node && setRetainedLimitReached(settings, enforcement_node.get(), subtopics))\n                return true;\n\n            std::shared_ptr')]), 
('B', 'limit-cmp', [('subscriptionstore.cpp', '    if (node->recursiveChildCount < settings->retainedMessagesNodeCreationLimit)\n        return false;', '    if (node->recursiveChildCount <= settings->retainedMessagesNodeCreationLimit)\n        return false;')]), 
('B', 'limit-log', [('subscriptionstore.cpp', '    if (!do_log)\n        return result;', '    if (!do_log)\n        return false;')]), 
('B', 'size', [('subscriptionstore.cpp', '    if (publish.payload.size() <= settings->retainedMessageMaxPayloadSize)\n    {', '    if (publish.payload.size() <= settings->retainedMessageMaxPayloadSize || publish.qos > 0)\n    {')]), 
('B', 'clear-nothing', [('subscriptionstore.cpp', '        if (retained_found)\n            message.reset();\n        return result;', '        return result;')]), 
('B', 'empty-stored', [('subscriptionstore.cpp', '    if (publish.payload.empty())\n    {\n        if (retained_found)\n            message.reset();\n        return result;\n    }\n', '')]), 
('B', 'keep-old', [('subscriptionstore.cpp', '    if (message)\n    {\n        (*message) = publish;\n    }\n    else', '    if (message)\n    {\n        if (publish.qos >= message->publish.qos) (*message) = publish;\n    }\n    else')]), 
('B', 'no-retain-bit', [('retainedmessage.cpp', '    this->publish = pub;\n    setRetainData();', '    this->publish = pub;')]), 
('B', 'no-ceiling', [('retainedmessage.cpp', '    this->publish.setExpireAfterToCeiling(settings->expireRetainedMessagesAfterSeconds);', '    if (!this->publish.expireInfo) this->publish.setExpireAfterToCeiling(settings->expireRetainedMessagesAfterSeconds);')]), 
('B', 'expire-unused', [('subscriptionstore.cpp', '        if (child.use_count() > 1)\n            continue;\n', '')]), 
('B', 'expire-orphan', [('subscriptionstore.cpp', '        if (child->isOrphaned())\n        {', '        if (!child->message)\n        {')]), 
('B', 'orphan-def', [('subscriptionstore.cpp', '    return children.empty() && !message;', '    return children.empty();')]), 
('B', 'expire-live', [('subscriptionstore.cpp', '    if (this_node->message && this_node->message->hasExpired())', '    if (this_node->message && this_node->message->publish.payload.size() < 1)')]), 
('B', 'no-age', [('retainedmessage.cpp', '    if (this->publish.getAge<std::chrono::milliseconds>() > expireAge)\n        return true;\n', '')]), 
('B', 'pop-first', [('subscriptionstore.cpp', '            if (node)\n            {\n                counter++;\n                this->expire', '            if (node && counter < 100)\n            {\n                counter++;\n                this->expire')]), 
('B', 'mode', [('subscriptionstore.cpp', '    if (settings->retainedMessagesMode >= RetainedMessagesMode::EnabledWithoutRetaining)\n        return true;\n\n    const std::shared_ptr<RetainedMessageNode> *deepestNode', '    if (settings->retainedMessagesMode > RetainedMessagesMode::EnabledWithoutRetaining)\n        return true;\n\n    const std::shared_ptr<RetainedMessageNode> *deepestNode')]), 
('B', 'hp-mode', [('mqttpacket.cpp', '                if (authResult == AuthResult::success && settings->retainedMessagesMode <= RetainedMessagesMode::EnabledWithoutPersistence)\n', '                if (authResult == AuthResult::success && settings->retainedMessagesMode < RetainedMessagesMode::EnabledWithoutPersistence)\n')]), 
('B', 'no-payload', [('mqttpacket.cpp', '                    publishData.payload = getPayloadCopy();\n                    globals->', '                    if (publishData.qos) publishData.payload = getPayloadCopy();\n                    globals->')]), 
('B', 'skip-level', [('subscriptionstore.cpp', '            deepestNode = &selectedChildren;\n            subtopic_pos++;\n            cur_level++;\n        }\n\n        assert(deepestNode);\n\n        if (deepestNode)\n        {\n            selected_node', '            if (!subtopic_pos->empty()) deepestNode = &selectedChildren;\n            subtopic_pos++;\n            cur_level++;\n        }\n\n        assert(deepestNode);\n\n        if (deepestNode)\n        {\n            selected_node')]), 
('K', 'mode-switch', [('subscriptionstore.cpp', '    if (settings->retainedMessagesMode >= RetainedMessagesMode::EnabledWithoutRetaining)\n        return true;\n\n    const std::shared_ptr<RetainedMessageNode> *deepestNode', '    const bool keep = settings->retainedMessagesMode == RetainedMessagesMode::Enabled || settings->retainedMessagesMode == RetainedMessagesMode::EnabledWithoutPersistence;\n    if (!keep)\n        return true;\n\n    const std::shared_ptr<RetainedMessageNode> *deepestNode')]), 
('K', 'try-nest', [('subscriptionstore.cpp', '    if (td->queuedRetainedMessagesEmpty() && setRetainedMessage(publish, subtopics, try_lock_fail))\n        return;', '    if (td->queuedRetainedMessagesEmpty())\n    {\n        const bool stored = setRetainedMessage(publish, subtopics, try_lock_fail);\n        if (stored)\n            return;\n    }')]), 
('K', 'walk-front', [('threaddata.cpp', '    auto _pos = priv->queuedRetainedMessages.begin();\n    while (_pos != priv->queuedRetainedMessages.end())\n    {\n        auto cur = _pos;\n        _pos++;\n', '    while (!priv->queuedRetainedMessages.empty())\n    {\n        auto cur = priv->queuedRetainedMessages.begin();\n')]), 
('K', 'payload-size', [('subscriptionstore.cpp', '    if (publish.payload.empty())\n    {\n        if (retained_found)\n            message.reset();\n        return result;\n    }', '    if (publish.payload.size() == 0)\n    {\n        message.reset();\n        return result;\n    }')]), 
('K', 'size-inv', [('subscriptionstore.cpp', '    if (publish.payload.size() <= settings->retainedMessageMaxPayloadSize)\n    {\n        const ssize_t diff', '    const bool fits = !(publish.payload.size() > settings->retainedMessageMaxPayloadSize);\n    if (fits)\n    {\n        const ssize_t diff')]), 
('K', 'expire-inv', [('subscriptionstore.cpp', '    if (this_node->message && this_node->message->hasExpired())\n    {\n        this_node->message.reset();\n    }\n', '    if (auto &m = this_node->message)\n    {\n        if (m->hasExpired())\n            this_node->message.reset();\n    }\n')]), 
('K', 'for-loop', [('subscriptionstore.cpp', '            std::shared_ptr<RetainedMessageNode> &selectedChildren = (*deepestNode)->children[*subtopic_pos];', '            auto &childrenOfNode = (*deepestNode)->children;\n            std::shared_ptr<RetainedMessageNode> &selectedChildren = childrenOfNode[*subtopic_pos];')])]
