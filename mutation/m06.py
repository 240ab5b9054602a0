F='plugin.cpp'
M=[
('B','plugin overrides file',[(F,"    if (firstResult != AuthResult::success)\n        return firstResult;\n\n    if (pluginFamily","    if (firstResult != AuthResult::success && pluginFamily == PluginFamily::None)\n        return firstResult;\n\n    if (pluginFamily")]),
('B','uninit returns first',[(F,"        logger->logf(LOG_ERR, \"ACL check by plugin wanted, but initialization failed.  Can't perform check.\");\n        return AuthResult::error;","        logger->logf(LOG_ERR, \"ACL check by plugin wanted, but initialization failed.  Can't perform check.\");\n        return firstResult;")]),
('B','uninit login',[(F,"Username+password check with plugin wanted, but initialization failed. Can't perform check.\");\n        return AuthResult::error;","Username+password check with plugin wanted, but initialization failed. Can't perform check.\");\n        return firstResult;")]),
('B','exception passes',[(F,"""            logger->logf(LOG_ERR, "Error doing ACL check in plugin: '%s'", ex.what());""","""            logger->logf(LOG_ERR, "Error doing ACL check in plugin: '%s'", ex.what());
            if (access == AclAccess::register_will)
                return firstResult;""")]),
('B','internal read too',[(F,"if (access == AclAccess::write && publishData.client_id.empty())","if (access != AclAccess::subscribe && publishData.client_id.empty())")]),
('B','internal by topic',[(F,"if (access == AclAccess::write && publishData.client_id.empty())","if (access == AclAccess::write && (publishData.client_id.empty() || publishData.username.empty()))")]),
('B','prefix password',[(F,"if (hashedSalted == entry.cryptedPassword)","if (std::equal(entry.cryptedPassword.begin(), entry.cryptedPassword.end(), hashedSalted.begin()))")]),
('B','salt only',[(F,"            EVP_DigestUpdate(mosquittoDigestContext.get(), password.c_str(), password.length());\n","            EVP_DigestUpdate(mosquittoDigestContext.get(), password.c_str(), std::min<size_t>(1, 8));\n")]),
('B','unloaded file',[(F,"    if (!this->mosquittoPasswordEntries)\n        return AuthResult::login_denied;","    if (!this->mosquittoPasswordEntries)\n        return {};")]),
('B','will unasked',[(F,"    if (access == AclAccess::subscribe)\n        return AuthResult::success;\n\n    AclGrant ag","    if (access == AclAccess::subscribe || access == AclAccess::register_will)\n        return AuthResult::success;\n\n    AclGrant ag")]),
('B','grant swap',[(F,"access == AclAccess::write ? AclGrant::Write : AclGrant::Read","access == AclAccess::read ? AclGrant::Read : AclGrant::ReadWrite")]),
('B','tree partial',[(F,"        aclTree = std::move(newTree);\n    }\n    catch (std::exception &ex)\n    {","    }\n    catch (std::exception &ex)\n    {"),(F,"    mosquittoAclFileLastChange = ctime;\n}","    aclTree = std::move(newTree);\n    mosquittoAclFileLastChange = ctime;\n}")]),
('B','subscribe mosq all',[(F,"        // We have to do this, because Mosquitto plugin v2 has no notion of checking subscribes.\n        if (access == AclAccess::subscribe)","        // We have to do this, because Mosquitto plugin v2 has no notion of checking subscribes.\n        if (access != AclAccess::write)")]),
('B','pw fail open',[(F,"    return AuthResult::error;\n}\n\nAuthResult Authentication::extendedAuth","    return firstResult;\n}\n\nAuthResult Authentication::extendedAuth")]),
('K','switch version',[(F,"            else\n                return flashmq_plugin_acl_check_v1(pluginData, access, clientid, username, topic, subtopics, qos, retain, userProperties);","            const AuthResult v1result = flashmq_plugin_acl_check_v1(pluginData, access, clientid, username, topic, subtopics, qos, retain, userProperties);\n            return v1result;")]),
('K','single ret',[(F,"    if (access == AclAccess::write && publishData.client_id.empty())\n        result = AuthResult::success;\n\n    return result;","    const bool internal = publishData.client_id.empty();\n    if (internal && access == AclAccess::write)\n        return AuthResult::success;\n\n    return result;")]),
('K','perm stmt',[(F,"    AclGrant ag = access == AclAccess::write ? AclGrant::Write : AclGrant::Read;\n    AuthResult result = aclTree","    AclGrant ag = AclGrant::Read;\n    if (access == AclAccess::write)\n        ag = AclGrant::Write;\n    AuthResult result = aclTree")]),
('K','pw helper',[(F,"std::optional<AuthResult> Authentication::loginCheckFromMosquittoPasswordFile","static bool sameHash(const std::vector<unsigned char> &a, const std::vector<unsigned char> &b)\n{\n    return a == b;\n}\n\nstd::optional<AuthResult> Authentication::loginCheckFromMosquittoPasswordFile"),(F,"if (hashedSalted == entry.cryptedPassword)","if (sameHash(hashedSalted, entry.cryptedPassword))")]),
('K','pw early return',[(F,"    auto it = mosquittoPasswordEntries->find(username);\n    if (it != mosquittoPasswordEntries->end())\n    {\n        result","    auto it = mosquittoPasswordEntries->find(username);\n    if (it == mosquittoPasswordEntries->end())\n        return result;\n\n    {\n        result")]),
('K','init helper',[(F,"    if (!initialized)\n    {\n        logger->logf(LOG_ERR, \"ACL check by","    const bool ready = initialized;\n    if (!ready)\n    {\n        logger->logf(LOG_ERR, \"ACL check by")]),
('K','file helper',[(F,"    if (firstResult != AuthResult::success)\n        return firstResult;\n\n    if (pluginFamily","    const bool fileGrants = firstResult == AuthResult::success;\n    if (!fileGrants || pluginFamily == PluginFamily::None)\n        return firstResult;\n\n    if (pluginFamily")]),
]
