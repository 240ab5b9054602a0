F='mqttpacket.cpp'; T='threaddata.cpp'
M=[
('B','anon without config',[(F,"connectData.authenticationMethod.empty() && allowAnonymous)","connectData.authenticationMethod.empty() && (allowAnonymous || sender->getAllowAnonymousOverride() != AllowListenerAnonymous::No))")]),
('B','anon with username',[(F,"if (!connectData.username && connectData.authenticationMethod.empty() && allowAnonymous)","if ((!connectData.username || connectData.username->empty()) && connectData.authenticationMethod.empty() && allowAnonymous)")]),
('B','override only adds',[(F,"allowAnonymous = sender->getAllowAnonymousOverride() == AllowListenerAnonymous::Yes;","allowAnonymous = allowAnonymous || sender->getAllowAnonymousOverride() == AllowListenerAnonymous::Yes;")]),
('B','x509 not enough',[(F,"sender->getX509ClientVerification() == X509ClientVerification::X509IsEnough ||","sender->getX509ClientVerification() > X509ClientVerification::None ||")]),
('B','haproxy authn',[(F,"|| sender->getHaProxyMode() == HaProxyMode::HaProxyClientVerification)\n    {\n        // The client","|| sender->getHaProxyMode() >= HaProxyMode::HaProxyClientVerification)\n    {\n        // The client")]),
('B','success not denied',[(T,"else if (authResult == AuthResult::success)","else if (authResult != AuthResult::login_denied && authResult != AuthResult::acl_denied && authResult != AuthResult::error)")]),
('B','register before',[(T,"    if (authResult == AuthResult::auth_continue)\n    {","    if (authResult == AuthResult::auth_continue)\n    {\n        if (!client->getAuthenticated() && !authMethod.empty() && returnData.empty())\n            subscriptionStore->registerClientAndKickExistingOne(client);\n")]),
('B','deny without disconnect',[('client.cpp','    setDisconnectReason("Access denied");\n    setDisconnectStage(DisconnectStage::SendPendingAppData);','    setDisconnectReason("Access denied");\n    if (this->protocolVersion >= ProtocolVersion::Mqtt311)\n        setDisconnectStage(DisconnectStage::SendPendingAppData);')]),
('B','cert name not used',[(F,"        username = certificateUsername.value();","        if (username.empty())\n            username = certificateUsername.value();")]),
('B','authn haproxy not used',[(F,"if (sender->getHaProxyMode() == HaProxyMode::HaProxyClientVerification || sender->getHaProxyMode() == HaProxyMode::HaProxyClientVerficiationWithAuthn)","if (sender->getHaProxyMode() == HaProxyMode::HaProxyClientVerification)")]),
('B','reauth failure quiet',[(T,'            client->setDisconnectReason("Reauth denied");\n            client->setDisconnectStage(DisconnectStage::SendPendingAppData);','            client->setDisconnectReason("Reauth denied");')]),
('B','error retry',[(F,"    if (authResult != AuthResult::async)\n    {\n        threadData->cont","    if (authResult == AuthResult::error)\n        return;\n\n    if (authResult != AuthResult::async)\n    {\n        threadData->cont")]),
('K','switch in continuation',[(T,"    if (authResult == AuthResult::auth_continue)\n    {","    const bool isContinue = authResult == AuthResult::auth_continue;\n    if (isContinue)\n    {")]),
('K','helper anon',[(F,"void MqttPacket::handleConnect(","static bool anonAllowed(const Settings &settings, Client &sender)\n{\n    const AllowListenerAnonymous o = sender.getAllowAnonymousOverride();\n    if (o == AllowListenerAnonymous::None)\n        return settings.allowAnonymous;\n    return o == AllowListenerAnonymous::Yes;\n}\n\nvoid MqttPacket::handleConnect("),(F,"""    bool allowAnonymous = settings.allowAnonymous;
    if (sender->getAllowAnonymousOverride() != AllowListenerAnonymous::None)
    {
        allowAnonymous = sender->getAllowAnonymousOverride() == AllowListenerAnonymous::Yes;
    }
""","    const bool allowAnonymous = anonAllowed(settings, *sender);\n")]),
('K','ternary anon',[(F,"""    bool allowAnonymous = settings.allowAnonymous;
    if (sender->getAllowAnonymousOverride() != AllowListenerAnonymous::None)
    {
        allowAnonymous = sender->getAllowAnonymousOverride() == AllowListenerAnonymous::Yes;
    }
""","    const auto anonOverride = sender->getAllowAnonymousOverride();\n    const bool allowAnonymous = anonOverride == AllowListenerAnonymous::None ? settings.allowAnonymous : anonOverride == AllowListenerAnonymous::Yes;\n")]),
('K','username helper',[(F,"        std::optional<std::string> certificateUsername = sender->getUsernameFromPeerCertificate();\n\n        if (!certificateUsername || certificateUsername.value().empty())","        const std::optional<std::string> certificateUsername = sender->getUsernameFromPeerCertificate();\n        const bool haveName = certificateUsername.has_value() && !certificateUsername->empty();\n\n        if (!haveName)")]),
('K','success helper fn',[(T,"            subscriptionStore->registerClientAndKickExistingOne(client);\n            client->sendConnackSuccess();\n            client->setAuthenticated(true);","            auto finish = [&]()\n            {\n                subscriptionStore->registerClientAndKickExistingOne(client);\n                client->sendConnackSuccess();\n                client->setAuthenticated(true);\n            };\n            finish();")]),
('K','early out async',[(F,"    if (authResult != AuthResult::async)\n    {\n        threadData->continuationOfAuthentication(sender, authResult, connectData.authenticationMethod, authReturnData);\n    }\n    else\n    {\n        sender->setAsyncAuthenticating();\n    }","    if (authResult == AuthResult::async)\n    {\n        sender->setAsyncAuthenticating();\n        return;\n    }\n\n    threadData->continuationOfAuthentication(sender, authResult, connectData.authenticationMethod, authReturnData);")]),
]
