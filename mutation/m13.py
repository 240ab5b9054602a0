S,SS,MP,C,T='session.cpp','subscriptionstore.cpp','mqttpacket.cpp','client.cpp','threaddata.cpp'
NEW="        if (!session || session->getDestroyOnDisconnect() || clean_start)\n        {\n            endedSession = session;\n\n            // Don't"
UN="                if (session->getUsername() != client->getUsername())\n                    throw ProtocolError(\"Cannot take over session with different username\", ReasonCodes::NotAuthorized);\n\n"
KI="                if (clientOfOtherSession)\n"
M=[
('B','no-user-both',[(SS,UN,""),(S,"    if (username != client->getUsername())\n        throw ProtocolError(\"Cannot take over session with different username\", ReasonCodes::NotAuthorized);\n\n","")]),
('B','no-user-first',[(SS,UN,"")]),
('B','no-group',[(SS,"                if (session->getFmqClientGroupId() != client->getFmqClientGroupId())\n                    throw ProtocolError(\"Cannot take over session with different FMQ client group ID\", ReasonCodes::NotAuthorized);\n","")]),
('B','no-kick',[(SS,KI,"                if (clientOfOtherSession && clean_start)\n")]),
('B','kick-reason',[(SS,"std::move(clientOfOtherSession), ReasonCodes::SessionTakenOver","std::move(clientOfOtherSession), ReasonCodes::Success")]),
('B','no-clean',[(SS,NEW,NEW.replace(" || clean_start",""))]),
('B','no-destroy',[(SS,NEW,NEW.replace(" || session->getDestroyOnDisconnect()",""))]),
('B','and',[(SS,NEW,NEW.replace("getDestroyOnDisconnect() || clean_start","getDestroyOnDisconnect() && clean_start"))]),
('B','always-new',[(SS,NEW,NEW.replace(" || clean_start"," || clean_start || sessionExpiryInterval == 0"))]),
('B','not-stored',[(SS,"            sessionsById[client->getClientId()] = session;\n        }","            sessionsById.try_emplace(client->getClientId(), session);\n        }")]),
('B','empty-id',[(SS,"    if (client->getClientId().empty())\n        throw ProtocolError(\"Trying to store client without an ID.\", ReasonCodes::ProtocolError);\n","")]),
('B','no-assign-session',[(S,"    client->assignSession(thisSession);\n","    if (clean_start)\n        client->assignSession(thisSession);\n")]),
('B','no-props',[(S,"    thisSession->setSessionProperties(","    if (clean_start || sessionExpiryInterval > 0)\n    thisSession->setSessionProperties(")]),
('B','will-kept',[(S,"    this->willPublish = client->getWill();","    if (client->getWill())\n        this->willPublish = client->getWill();")]),
('B','present-clean',[(MP,"if (protocolVersion >= ProtocolVersion::Mqtt311 && !connectData.clean_start)","if (protocolVersion >= ProtocolVersion::Mqtt311)")]),
('B','present-dod',[(MP,"if (existingSession && !existingSession->getDestroyOnDisconnect())","if (existingSession)")]),
('B','present-v5only',[(MP,"if (protocolVersion >= ProtocolVersion::Mqtt311 && !connectData.clean_start)","if (protocolVersion >= ProtocolVersion::Mqtt5 && !connectData.clean_start)")]),
('B','receive-max-arg',[(MP,"sender->setRegistrationData(connectData.clean_start, connectData.client_receive_max, connectData.session_expire);","sender->setRegistrationData(connectData.clean_start, connectData.client_receive_max, settings.expireSessionsAfterSeconds);")]),
('B','wrap-default',[(SS,"registrationData->clean_start, registrationData->clientReceiveMax","false, registrationData->clientReceiveMax")]),
('B','lookup-username',[(SS,"auto session_it = sessionsById.find(client->getClientId());","auto session_it = sessionsById.find(client->getUsername());")]),
('B','removal-flag',[(S,"    this->removalQueued = false;\n}","}")]),
('B','new-user-empty',[(SS,"new Session(client->getClientId(), client->getUsername(),","new Session(client->getClientId(), \"\",")]),
('K','continue-var',[(SS,NEW,"        const bool can_continue = session && !session->getDestroyOnDisconnect() && !clean_start;\n        if (!can_continue)\n        {\n            endedSession = session;\n\n            // Don't")]),
('K','kick-nest',[(SS,"                std::shared_ptr<Client> clientOfOtherSession = session->makeSharedClient();\n\n                if (clientOfOtherSession)","                if (auto clientOfOtherSession = session->makeSharedClient())")]),
('K','user-helper',[(SS,UN,"                const bool sameUser = session->getUsername() == client->getUsername();\n                if (!sameUser)\n                    throw ProtocolError(\"Cannot take over session with different username\", ReasonCodes::NotAuthorized);\n\n")]),
('K','present-expr',[(MP,"            if (existingSession && !existingSession->getDestroyOnDisconnect())\n                sessionPresent = true;","            sessionPresent = existingSession && !existingSession->getDestroyOnDisconnect();")]),
('K','make-shared',[(SS,"session = std::shared_ptr<Session>(new Session(client->getClientId(), client->getUsername(), client->getFmqClientGroupId()));","session = std::make_shared<Session>(client->getClientId(), client->getUsername(), client->getFmqClientGroupId());")]),
('K','local-id',[(SS,"        auto session_it = sessionsById.find(client->getClientId());","        const std::string &id = client->getClientId();\n        auto session_it = sessionsById.find(id);"),(SS,"            sessionsById[client->getClientId()] = session;\n        }","            sessionsById[id] = session;\n        }")]),
]
