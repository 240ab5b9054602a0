T='threaddata.cpp'; L='threadloop.cpp'; Q='queuedtasks.cpp'; B='backgroundworker.cpp'; M='mainapp.cpp'; C='client.cpp'; I='iowrapper.cpp'; P='persistencefile.cpp'
TRY="        try\n        {\n            f();\n        }\n        catch (std::exception &ex)"
M_=[]
M=[
('B','taskType',[(T,TRY,TRY.replace("std::exception","ProtocolError"))]),
('B','bgType',[(B,"            catch (std::exception &ex)","            catch (std::runtime_error &ex)")]),
('B','bgReturn',[(B,'"Error in BackgroundWorker::do_work: " << ex.what();','"Error in BackgroundWorker::do_work: " << ex.what();\n                return;')]),
('B','delayedOutside',[(Q,"    for(const std::shared_ptr<std::function<void()>> &f : functions)\n    {\n        try\n        {","    try\n    {\n    for(const std::shared_ptr<std::function<void()>> &f : functions)\n        {"),(Q,"            f->operator()();\n        }\n        catch","            f->operator()();\n        }\n    }\n        catch"),(Q,"            logger->logf(LOG_ERR, \"Error in delayed task: %s\", ex.what());\n        }\n    }","            logger->logf(LOG_ERR, \"Error in delayed task: %s\", ex.what());\n        }")]),
('B','acceptBreak',[(T,'"Error accepting client: " << ex.what();','"Error accepting client: " << ex.what();\n            break;')]),
('B','clientStays',[(L,"                client->setDisconnectReason(ex.what(), ex.getLogLevel().value_or(-1));\n                threadData->removeClient(client);","                client->setDisconnectReason(ex.what(), ex.getLogLevel().value_or(-1));\n                if (client->getAuthenticated())\n                    threadData->removeClient(client);")]),
('B','flagWrong',[(L,"                catch (std::exception &inner_ex)\n                {\n                    clientRemoved = false;","                catch (std::exception &inner_ex)\n                {")]),
('B','noInnerTry',[(L,"                catch (std::exception &inner_ex)","                catch (ProtocolError &inner_ex)")]),
('B','loopType',[(L,"            catch(std::exception &ex)\n            {\n                client->setDisconnectReason(ex.what());","            catch(std::runtime_error &ex)\n            {\n                client->setDisconnectReason(ex.what());")]),
('B','breakLoop',[(L,". Removing client \" << client->repr();\n                threadData->removeClient(client);",". Removing client \" << client->repr();\n                threadData->removeClient(client);\n                break;")]) if False else ('B','dtorThrow',[(C,"    if (fd.get() > 0) // this check","    if (disconnectReason.size() > 4096) throw std::runtime_error(\"x\");\n    if (fd.get() > 0) // this check")]),
('B','dtorStoi',[(P,"        discard = true;","        discard = std::stoi(filePath);")]) if False else ('B','callback',[(I,"        if (!err)\n            err = X509_STORE_CTX_get_error(ctx);","")]),
('B','mainAt',[('mainapp.cpp',"                    std::shared_ptr<Listener> listener = activeListenSockets[cur_fd].getListener();","                    std::shared_ptr<Listener> listener = activeListenSockets.at(cur_fd).getListener();")]) if False else ('B','timerMain',[(Q,"        catch (std::exception &ex)","        catch (std::logic_error &ex)")]),
('B','pubNoexcept',[('subscriptionstore.cpp',"    const std::string &senderClientId, const std::optional<std::string> &fmq_client_group_id) noexcept\n{","    const std::string &senderClientId, const std::optional<std::string> &fmq_client_group_id) noexcept\n{\n    if (senderClientId.size() > 65535) throw ProtocolError(\"x\", ReasonCodes::ProtocolError);")]),
('K','dots',[(T,TRY,TRY.replace("std::exception &ex","const std::exception &ex"))]),
('K','helper',[(L,"                client->setDisconnectReason(ex.what(), ex.getLogLevel().value_or(-1));\n                threadData->removeClient(client);","                const std::string reason = ex.what();\n                client->setDisconnectReason(reason, ex.getLogLevel().value_or(-1));\n                threadData->removeClient(client);")]),
('K','index',[(T,"    for(auto &f : copiedTasks)\n    {\n        try\n        {\n            f();","    for(auto it = copiedTasks.begin(); it != copiedTasks.end(); ++it)\n    {\n        try\n        {\n            (*it)();")]),
]
