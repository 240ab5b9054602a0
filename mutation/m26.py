C='configfileparser.cpp'; A='mainapp.cpp'
M=[
('B','wrong field',[(C,'curBridge->localSessionExpiryInterval = value_to_int','curBridge->remoteSessionExpiryInterval = value_to_int')]),
('B','key not in set',[(C,'    validListenKeys.insert("deny_from");\n','')]),
('B','handler removed',[(C,'''                if (testKeyValidity(key, "remote_password", validBridgeKeys))
                {
                    curBridge->remote_password = value;
                }
''','')]),
('B','wrong literal',[(C,'testKeyValidity(key, "log_publishes", validKeys)','testKeyValidity(key, "log_subscriptions", validKeys)')]),
('B','negated bool',[(C,'curBridge->useSavedClientId = stringTruthiness(value)','curBridge->useSavedClientId = !stringTruthiness(value)')]),
('B','bool const',[(C,'curBridge->tcpNoDelay = stringTruthiness(value)','curBridge->tcpNoDelay = true')]),
('B','enum swapped',[(C,'tmpSettings.wildcardSubscriptionDenyMode = WildcardSubscriptionDenyMode::DenyAll;','tmpSettings.wildcardSubscriptionDenyMode = WildcardSubscriptionDenyMode::DenyRetainedOnly;')]),
('B','enum word',[(C,'else if (v == "error")','else if (v == "err")')]),
('B','enum level',[(C,'level = LogLevel::Error','level = LogLevel::Warning')]),
('B','unknown enum accepted',[(C,'''                    else
                        throw ConfigFileException(formatString("Invalid inet protocol: %s", value.c_str()));
                }
                if (testKeyValidity(key, "inet4_bind''','''                }
                if (testKeyValidity(key, "inet4_bind''')]),
('B','min bound',[(C,'value_to_int_ranged<uint16_t>(key, value, 10)','value_to_int_ranged<uint16_t>(key, value, 0)')]),
('B','max qos',[(C,'if (qos < 0 || qos > 2)','if (qos < 0 || qos > 3)')]),
('B','narrow',[(C,'int newVal = full_stoi(key, value);\n                    if (newVal <= 0)','uint16_t newVal = full_stoi(key, value);\n                    if (newVal <= 0)')]),
('B','seconds to ms',[(C,'tmpSettings.saveStateInterval = std::chrono::seconds(val)','tmpSettings.saveStateInterval = std::chrono::minutes(val)')]),
('B','qos of first value',[(C,'''topicPath.qos = value_to_int_ranged<uint8_t>(key, qosstr, 0, 2);
                        }
                    }

                    topicPath.topic = value;
                    curBridge->publishes''','''topicPath.qos = value_to_int_ranged<uint8_t>(key, qosstr, 0, 3);
                        }
                    }

                    topicPath.topic = value;
                    curBridge->publishes''')]),
('B','publish no validation',[(C,'if (!isValidUtf8(value) || !isValidSubscribePath(value))\n                        throw ConfigFileException(formatString("Path \'%s\' is not a valid publish','if (!isValidUtf8(value))\n                        throw ConfigFileException(formatString("Path \'%s\' is not a valid publish')]),
('B','list replaced',[(C,'curListener->denyList.push_back(net);','curListener->denyList.clear();\n                    curListener->denyList.push_back(net);')]),
('B','allow in deny',[(C,'curListener->exclusiveAllowList.push_back(net);','curListener->denyList.push_back(net);')]),
('B','test applies',[(C,'''    if (!test)
    {
        globals->bridgeClientGroupIds.saveShareNames(share_name_path);

        this->settings = tmpSettings;
    }''','''    if (!test)
        globals->bridgeClientGroupIds.saveShareNames(share_name_path);

    this->settings = tmpSettings;''')]),
('B','direct settings',[(C,'tmpSettings.maxStringLength = value','this->settings.maxStringLength = value')]),
('B','listener not validated',[(C,'                curListener->isValid();\n\n','')]),
('B','nested blocks',[(C,'''                if (curParseLevel.top() != ConfigParseLevel::Root)
                    throw ConfigFileException("Block '" + key + "' must be a root level");

                curParseLevel.push(ConfigParseLevel::Bridge);''','''                curParseLevel.push(ConfigParseLevel::Bridge);''')]),
('B','unclosed',[(C,'''    if (blockDepth != 0)
    {''','''    if (blockDepth < 0)
    {''')]),
('B','sockets before load',[(A,'    // Atomic loading, first test.\n','    activeListenSockets.clear();\n\n')]),
('B','reload dies',[(A,'''    catch (std::exception &ex)
    {
        logger->logf(LOG_ERR, "Error reloading config: %s", ex.what());''','''    catch (std::invalid_argument &ex)
    {
        logger->logf(LOG_ERR, "Error reloading config: %s", ex.what());''')]),
('B','trailing',[(C,'    int newVal = std::stoi(value, &ptr);\n    if (ptr != value.length())','    int newVal = std::stoi(value, &ptr);\n    if (ptr == 0)')]),
('B','truthiness',[('utils.cpp','val_ == "yes" || val_ == "true" || val_ == "on"','val_ == "yes" || val_ == "true"')]),
('B','truthiness default',[('utils.cpp','''    if (val_ == "no" || val_ == "false" || val_ == "off")
        return false;
    throw ConfigFileException("Value '" + val + "' can't be converted to boolean");''','''    return false;''')]),
('B','bridge keys in listen',[(C,'testKeyValidity(key, "max_buffer_size", validListenKeys)','testKeyValidity(key, "max_buffer_size", validBridgeKeys)')]),
('B','skip second',[(C,'''                }
                if (testKeyValidity(key, "connection_count", validBridgeKeys))''','''                }
                else if (testKeyValidity(key, "connection_count", validBridgeKeys))''') ,(C,'if (testKeyValidity(key, "minimum_tls_version", validBridgeKeys))','if (!curBridge->sslFullchain.empty() && testKeyValidity(key, "minimum_tls_version", validBridgeKeys))')]),
('B','allow anonymous',[(C,'val ? AllowListenerAnonymous::Yes : AllowListenerAnonymous::No','val ? AllowListenerAnonymous::Yes : AllowListenerAnonymous::None')]),
('B','haproxy word',[(C,'curListener->haProxyMode = HaProxyMode::HaProxyClientVerification;','curListener->haProxyMode = HaProxyMode::HaProxyClientVerficiationWithAuthn;')]),
('B','no count',[(C,'''        testCorrectNumberOfValues(key, number_of_expected_values, values);
    }

    checkUnique''','''    }

    checkUnique''')]),
('B','values 1',[(C,'const std::string &value = values.at(0);','const std::string &value = values.at(values.size() - 1);')]),
('K','else if',[(C,'''                }
                if (testKeyValidity(key, "connection_count", validBridgeKeys))''','''                }
                else if (testKeyValidity(key, "connection_count", validBridgeKeys))''')]),
('K','helper tls',[(C,'''                    if (valueTrimmed == "tlsv1.3")
                        curListener->minimumTlsVersion = TLSVersion::TLSv1_3;
                    else if (valueTrimmed == "tlsv1.2")
                        curListener->minimumTlsVersion = TLSVersion::TLSv1_2;
                    else if (valueTrimmed == "tlsv1.1")
                        curListener->minimumTlsVersion = TLSVersion::TLSv1_1;
                    else
                        throw ConfigFileException("Value '" + valueTrimmed + "' is not a valid value for " + key);''','''                    curListener->minimumTlsVersion = parseTlsVersion(key, valueTrimmed);'''),
 (C,'''                    if (valueTrimmed == "tlsv1.3")
                        curBridge->minimumTlsVersion = TLSVersion::TLSv1_3;
                    else if (valueTrimmed == "tlsv1.2")
                        curBridge->minimumTlsVersion = TLSVersion::TLSv1_2;
                    else if (valueTrimmed == "tlsv1.1")
                        curBridge->minimumTlsVersion = TLSVersion::TLSv1_1;
                    else
                        throw ConfigFileException("Value '" + valueTrimmed + "' is not a valid value for " + key);''','''                    curBridge->minimumTlsVersion = parseTlsVersion(key, valueTrimmed);'''),
 (C,'void ConfigFileParser::loadFile(bool test)\n','''static TLSVersion parseTlsVersion(const std::string &key, const std::string &v)
{
    if (v == "tlsv1.3")
        return TLSVersion::TLSv1_3;
    if (v == "tlsv1.2")
        return TLSVersion::TLSv1_2;
    if (v == "tlsv1.1")
        return TLSVersion::TLSv1_1;
    throw ConfigFileException("Value '" + v + "' is not a valid value for " + key);
}

void ConfigFileParser::loadFile(bool test)
''')]),
('K','local val',[(C,'tmpSettings.maxTopicSplitDepth = value_to_int_ranged<uint16_t>(key, value);','const uint16_t depth = value_to_int_ranged<uint16_t>(key, value);\n                    tmpSettings.maxTopicSplitDepth = depth;')]),
('K','direct bool',[(C,'bool tmp = stringTruthiness(value);\n                    tmpSettings.willsEnabled = tmp;','tmpSettings.willsEnabled = stringTruthiness(value);')]),
('K','flipped bound',[(C,'if (val < 500)','if (500 > val)')]),
('K','helper qos',[(C,'''                    const int qos = full_stoi(key, value);
                    if (qos < 0 || qos > 2)
                    {
                        std::ostringstream oss;
                        oss << "Value " << qos << " for " << key << " is invalid.";
                        throw ConfigFileException(oss.str());
                    }
                    curListener->maxQos = qos;''','''                    curListener->maxQos = value_to_int_ranged<uint8_t>(key, value, 0, 2);''')]),
('K','early return test',[(C,'''    if (!test)
    {
        globals->bridgeClientGroupIds.saveShareNames(share_name_path);

        this->settings = tmpSettings;
    }''','''    if (test)
        return;

    globals->bridgeClientGroupIds.saveShareNames(share_name_path);
    this->settings = std::move(tmpSettings);''')]),
('K','helper bridge',[(C,'''                    if (value.empty())
                        throw ConfigFileException("Option '" + key + "' can't be empty.");

                    if (!endsWith(value, "/"))
                        throw ConfigFileException("Option '" + key + "' must end in a '/'.");

                    curBridge->local_prefix = value;''','''                    checkPrefix(key, value);
                    curBridge->local_prefix = value;'''),(C,'void ConfigFileParser::loadFile(bool test)\n','''static void checkPrefix(const std::string &key, const std::string &value)
{
    if (value.empty())
        throw ConfigFileException("Option '" + key + "' can't be empty.");

    if (!endsWith(value, "/"))
        throw ConfigFileException("Option '" + key + "' must end in a '/'.");
}

void ConfigFileParser::loadFile(bool test)
''')]),
]
