From 290c87c14a20e829314f012edc4f4a2e7f91cb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 01/34] fix: apply the filters of a SUBSCRIBE in the order they
 appear

---
 mqttpacket.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index d48228e..6eb9b2b 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1778,7 +1778,7 @@ void MqttPacket::handleSubscribe(std::shared_ptr<Client> &sender)
 
     Authentication &authentication = ThreadGlobals::getThreadData()->authentication;
 
-    std::forward_list<SubscriptionTuple> deferredSubscribes;
+    std::list<SubscriptionTuple> deferredSubscribes;
 
     std::list<ReasonCodes> subs_reponse_codes;
     while (remainingAfterPos() > 0)
@@ -1869,7 +1869,7 @@ void MqttPacket::handleSubscribe(std::shared_ptr<Client> &sender)
         if (authResult == AuthResult::success || authResult == AuthResult::success_without_retained_delivery || authResult == AuthResult::success_but_drop)
         {
             const uint32_t subscr_id = settings->subscriptionIdentifierEnabled ? subscription_identifier : 0;
-            deferredSubscribes.emplace_front(topic, subtopics, qos, noLocal, retainedAsPublished, shareName, authResult, subscr_id, retainHandling);
+            deferredSubscribes.emplace_back(topic, subtopics, qos, noLocal, retainedAsPublished, shareName, authResult, subscr_id, retainHandling);
             subs_reponse_codes.push_back(static_cast<ReasonCodes>(qos));
         }
         else
-- 
2.43.0


From 19fac5afc0c9e98458c0239b86e1393bdd7ea120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 02/34] fix: set deferred retained messages in the order they
 were published

---
 threaddata.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index c1916ab..1354caa 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -627,7 +627,7 @@ void ThreadData::queueSettingRetainedMessage(const Publish &p, const std::vector
 {
     assert(pthread_self() == thread_id);
     const bool wakeup_required = priv->queuedRetainedMessages.empty();
-    priv->queuedRetainedMessages.emplace_front(p, subtopics, limit);
+    priv->queuedRetainedMessages.emplace_back(p, subtopics, limit);
     this->deferredRetainedMessagesSet.inc(1);
 
     if (wakeup_required)
-- 
2.43.0


From f0c7f138a492cec804d5d367dfa3c7ce7b874434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 03/34] fix: treat expire_retained_messages_after_seconds as
 seconds

---
 retainedmessage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/retainedmessage.cpp b/retainedmessage.cpp
index d2442e8..1c0e461 100644
--- a/retainedmessage.cpp
+++ b/retainedmessage.cpp
@@ -57,7 +57,7 @@ bool RetainedMessage::hasExpired() const
         return true;
 
     const Settings *settings = ThreadGlobals::getSettings();
-    std::chrono::milliseconds expireAge(settings->expireRetainedMessagesAfterSeconds);
+    std::chrono::seconds expireAge(settings->expireRetainedMessagesAfterSeconds);
 
     if (this->publish.getAge<std::chrono::milliseconds>() > expireAge)
         return true;
-- 
2.43.0


From 58abdfbc1d6126c34393ec1cca11f70e1226e3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 04/34] fix: log_level error selected level warning

---
 configfileparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index e7386d5..8ec26e9 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -1050,7 +1050,7 @@ void ConfigFileParser::loadFile(bool test)
                     else if (v == "warning")
                         level = LogLevel::Warning;
                     else if (v == "error")
-                        level = LogLevel::Warning;
+                        level = LogLevel::Error;
                     else if (v == "none")
                         level = LogLevel::None;
                     else
-- 
2.43.0


From b5ddcd78bccc21aaffef119f2cb8ad88b98b4c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 05/34] fix: honor the value of tcp_nodelay in bridges

---
 configfileparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index 8ec26e9..502f0e0 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -881,7 +881,7 @@ void ConfigFileParser::loadFile(bool test)
                 }
                 if (testKeyValidity(key, "tcp_nodelay", validBridgeKeys))
                 {
-                    curBridge->tcpNoDelay = true;
+                    curBridge->tcpNoDelay = stringTruthiness(value);
                 }
                 if (testKeyValidity(key, "local_prefix", validBridgeKeys))
                 {
-- 
2.43.0


From 602be9a098801e948487518bc975118edc465083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 06/34] fix: retain handling value 3 is the invalid one

---
 types.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types.cpp b/types.cpp
index bac5fa9..03555b8 100644
--- a/types.cpp
+++ b/types.cpp
@@ -49,8 +49,8 @@ RetainHandling SubscriptionOptionsByte::getRetainHandling() const
     uint8_t x = b & 0b00110000;
     x = x >> 4;
 
-    if (x == 4)
-        throw ProtocolError("Retain Handling value of 4 is protocol error", ReasonCodes::ProtocolError);
+    if (x == 3)
+        throw ProtocolError("Retain Handling value of 3 is protocol error", ReasonCodes::ProtocolError);
 
     return static_cast<RetainHandling>(x);
 }
-- 
2.43.0


From 5f0a657185451e469d455e4cd5cf0307e75fc0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 07/34] fix: check the ASCII characters that precede a
 multi-byte character

---
 threadlocalutils.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/threadlocalutils.cpp b/threadlocalutils.cpp
index a66ab66..afad1bf 100644
--- a/threadlocalutils.cpp
+++ b/threadlocalutils.cpp
@@ -96,6 +96,15 @@ bool SimdUtils::isValidUtf8(const std::string &s, bool alsoCheckInvalidPublishCh
         // have a minimum of multi byte chars.
         if (index < 16)
         {
+            // The ASCII characters in front of the multi-byte character need to be checked as well.
+            const int ascii_prefix = (1 << index) - 1;
+
+            if (_mm_movemask_epi8(_mm_cmplt_epi8(loaded, lowerBound)) & ascii_prefix)
+                return false;
+
+            if (_mm_movemask_epi8(_mm_cmpgt_epi8(loaded, lastAsciiChar)) & ascii_prefix)
+                return false;
+
             uint8_t x = i[n++];
             int8_t char_len_left = 0;
             int8_t total_char_len = 0;
-- 
2.43.0


From 79b07e26fb0173d6ff184045940674e396110410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 08/34] fix: reject code points beyond U+10FFFF

---
 threadlocalutils.cpp | 2 +-
 utils.h              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/threadlocalutils.cpp b/threadlocalutils.cpp
index afad1bf..5733756 100644
--- a/threadlocalutils.cpp
+++ b/threadlocalutils.cpp
@@ -148,7 +148,7 @@ bool SimdUtils::isValidUtf8(const std::string &s, bool alsoCheckInvalidPublishCh
                 return false;
             else if (total_char_len == 3 && cur_code_point < 0x800)
                 return false;
-            else if (total_char_len == 4 && cur_code_point < 0x10000)
+            else if (total_char_len == 4 && (cur_code_point < 0x10000 || cur_code_point > 0x10FFFF))
                 return false;
 
             if (cur_code_point >= 0xD800 && cur_code_point <= 0xDFFF) // Dec 55296-57343
diff --git a/utils.h b/utils.h
index 2de4ab5..4e1d613 100644
--- a/utils.h
+++ b/utils.h
@@ -124,7 +124,7 @@ bool isValidUtf8Generic(const T &s, bool alsoCheckInvalidPublishChars = false)
                 return false;
             else if (total_char_len == 3 && cur_code_point < 0x800)
                 return false;
-            else if (total_char_len == 4 && cur_code_point < 0x10000)
+            else if (total_char_len == 4 && (cur_code_point < 0x10000 || cur_code_point > 0x10FFFF))
                 return false;
 
             if (cur_code_point <= 0x001F)
-- 
2.43.0


From ed7950023eb152b8cd3584c465e89d756902c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 09/34] fix: endless loop when all packet IDs of a session are
 in use

---
 session.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/session.cpp b/session.cpp
index 29310b8..82f1bc4 100644
--- a/session.cpp
+++ b/session.cpp
@@ -124,8 +124,7 @@ std::optional<uint16_t> Session::QoSData::getNextPacketId()
     if (flowControlQuota == 0)
         return {};
 
-    const uint16_t end = nextPacketId;
-    for(;;)
+    for (int i = 0; i < 65536; i++)
     {
         nextPacketId++;
 
@@ -135,15 +134,12 @@ std::optional<uint16_t> Session::QoSData::getNextPacketId()
         if (usedIds.contains(nextPacketId))
             continue;
 
-        if (nextPacketId == end)
-            return {};
-
-        break;
+        flowControlQuota--;
+        usedIds.insert(nextPacketId);
+        return nextPacketId;
     }
 
-    flowControlQuota--;
-    usedIds.insert(nextPacketId);
-    return nextPacketId;
+    return {};
 }
 
 uint16_t Session::QoSData::getInternalNextPacketId() const
-- 
2.43.0


From 60ea446f8a489064ddf83c091293db9763a2f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:53 +0000
Subject: [PATCH 10/34] fix: packet ID of a QoS 2 message refused with an error
 code is free again (MQTT5)

---
 mqttpacket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 6eb9b2b..eded026 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2328,6 +2328,10 @@ void MqttPacket::handlePublish(std::shared_ptr<Client> &sender)
         else
         {
             ackSender.setAckCode(ReasonCodes::NotAuthorized);
+
+            // An MQTT5 client gets the error in the PUBREC and doesn't send PUBREL. It may then use the ID for a new message.
+            if (protocolVersion >= ProtocolVersion::Mqtt5)
+                sender->getSession()->removeIncomingQoS2MessageId(_packet_id);
         }
     }
 
-- 
2.43.0


From 3ba7284ac2aec0692dced74296e25c0d37735a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:53 +0000
Subject: [PATCH 11/34] fix: reject reserved bits in MQTT5 subscription options

---
 mqttpacket.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index eded026..22fcdbd 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1792,6 +1792,12 @@ void MqttPacket::handleSubscribe(std::shared_ptr<Client> &sender)
             throw ProtocolError("QoS value in subscribe is higher than 2", ReasonCodes::MalformedPacket);
         }
 
+        // MQTT-3.8.3-5
+        if (this->protocolVersion >= ProtocolVersion::Mqtt5 && (qos_byte & 0b11000000))
+        {
+            throw ProtocolError("Reserved bits in the subscription options are not 0", ReasonCodes::MalformedPacket);
+        }
+
         const SubscriptionOptionsByte options(qos_byte);
 
         uint8_t qos = options.getQos();
-- 
2.43.0


From b1f956ac604c7615b85edf228979cabe761fd866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:26 +0000
Subject: [PATCH 12/34] fix: keep the leading slash of the filter of a shared
 subscription

---
 utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index 3b1c55c..276e703 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -666,10 +666,13 @@ void parseSubscriptionShare(std::vector<std::string> &subtopics, std::string &sh
 
     topic.clear();
 
+    bool first = true;
+
     for(const std::string &s : subtopics)
     {
-        if (!topic.empty())
+        if (!first)
             topic.append("/");
+        first = false;
         topic.append(s);
     }
 
-- 
2.43.0


From 753f241b8744d15b4da9a2d5079e7ead3d0b1972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:31 +0000
Subject: [PATCH 13/34] fix: packet IDs of messages loaded from disk are in use

---
 session.cpp                    | 5 +++++
 session.h                      | 1 +
 sessionsandsubscriptionsdb.cpp | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/session.cpp b/session.cpp
index 82f1bc4..6d2fbef 100644
--- a/session.cpp
+++ b/session.cpp
@@ -153,6 +153,11 @@ void Session::QoSData::releasePacketId(const uint16_t id)
     usedIds.erase(id);
 }
 
+void Session::QoSData::loadUsedPacketId(const uint16_t id)
+{
+    usedIds.insert(id);
+}
+
 Session::~Session()
 {
     logger->log(LOG_DEBUG) << "Session destructor of session with client ID '" << this->client_id << "'.";
diff --git a/session.h b/session.h
index 6dbcbac..fb04546 100644
--- a/session.h
+++ b/session.h
@@ -80,6 +80,7 @@ class Session
         std::optional<uint16_t> getNextPacketId();
         uint16_t getInternalNextPacketId() const;
         void releasePacketId(const uint16_t id);
+        void loadUsedPacketId(const uint16_t id);
     };
 
     friend class SessionsAndSubscriptionsDB;
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 0ef33e5..8cdb8cd 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -195,6 +195,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded QoS %d message for topic '%s' for session '%s'.", pub.qos, pub.topic.c_str(), ses->getClientId().c_str());
                     qos_locked->queuePublish(std::move(pub), id, topic_override);
+                    qos_locked->loadUsedPacketId(id);
                 }
 
                 const uint32_t nrOfIncomingPacketIds = readUint32(eofFound);
@@ -215,6 +216,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded outgoing QoS2 message id %d.", id);
                     qos_locked->outgoingQoS2MessageIds.insert(id);
+                    qos_locked->loadUsedPacketId(id);
                 }
 
                 const uint16_t nextPacketId = readUint16(eofFound);
-- 
2.43.0


From 93fdda431f96a524bbadc519bad080a428f2b000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:31 +0000
Subject: [PATCH 14/34] fix: a connection that was taken over must not end the
 session of the new one

---
 threaddata.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index 1354caa..6636338 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -437,7 +437,12 @@ void ThreadData::clientDisconnectActions(
         store->queueOrSendWillMessage(willPublish, session);
     }
 
-    if (session && session->getDestroyOnDisconnect())
+    // When another client has picked up the session, its life time is a matter of that client's disconnect.
+    if (session && session->hasActiveClient())
+    {
+        logger->log(LOG_DEBUG) << "Session of client '" << clientid << "' is still in use by another connection.";
+    }
+    else if (session && session->getDestroyOnDisconnect())
     {
         store->removeSession(session);
     }
-- 
2.43.0


From 80bb4be962fd812ffc3ddb40862d8665b28b82fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:31 +0000
Subject: [PATCH 15/34] fix: sending the will of a connection must not clear
 the will of its successor

---
 lockedsharedptr.h     | 7 +++++++
 session.cpp           | 8 ++++++++
 session.h             | 1 +
 subscriptionstore.cpp | 2 +-
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/lockedsharedptr.h b/lockedsharedptr.h
index b38ddd5..929bda3 100644
--- a/lockedsharedptr.h
+++ b/lockedsharedptr.h
@@ -25,6 +25,13 @@ public:
         p.reset();
     }
 
+    void resetIfSame(const std::shared_ptr<T> &r)
+    {
+        std::lock_guard<std::mutex> l(m);
+        if (p == r)
+            p.reset();
+    }
+
     std::shared_ptr<T> getCopy()
     {
         std::lock_guard<std::mutex> l(m);
diff --git a/session.cpp b/session.cpp
index 6d2fbef..b0315b3 100644
--- a/session.cpp
+++ b/session.cpp
@@ -422,6 +422,14 @@ void Session::clearWill()
     this->willPublish.reset();
 }
 
+/**
+ * @brief clear the will if it's still that one, and not the one of a client that took over the session.
+ */
+void Session::clearWill(const std::shared_ptr<WillPublish> &will)
+{
+    this->willPublish.resetIfSame(will);
+}
+
 std::shared_ptr<WillPublish> Session::getWill()
 {
     return this->willPublish.getCopy();
diff --git a/session.h b/session.h
index fb04546..b888d56 100644
--- a/session.h
+++ b/session.h
@@ -131,6 +131,7 @@ public:
     void sendAllPendingQosData();
     bool hasActiveClient();
     void clearWill();
+    void clearWill(const std::shared_ptr<WillPublish> &will);
     std::shared_ptr<WillPublish> getWill();
     void setWill(WillPublish &&pub);
     ClientType getClientType() const { return clientType; }
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 2be5635..017338f 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -399,7 +399,7 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
      * Session is null when you're destroying a client before a session is assigned, or
      * when an old client has no session anymore after a client with the same ID connects.
      */
-    session->clearWill();
+    session->clearWill(will);
 
     const Settings *settings = ThreadGlobals::getSettings();
 
-- 
2.43.0


From f83b19f1872ff50e252907e8b5d17c50e8d1b575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:31 +0000
Subject: [PATCH 16/34] fix: session expiry interval 0 in DISCONNECT ends the
 session

---
 session.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/session.cpp b/session.cpp
index b0315b3..4aef263 100644
--- a/session.cpp
+++ b/session.cpp
@@ -565,6 +565,9 @@ void Session::setSessionExpiryInterval(uint32_t newVal)
     }
 
     this->sessionExpiryInterval = newVal;
+
+    if (newVal == 0)
+        this->destroyOnDisconnect = true;
 }
 
 void Session::setQueuedRemovalAt()
-- 
2.43.0


From ca1ad37580f1559b40b4b21d7f25a91093dead44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:31 +0000
Subject: [PATCH 17/34] fix: queued removal of an earlier disconnect must not
 expire a session too soon

---
 session.cpp           |  9 +++++++++
 session.h             |  1 +
 subscriptionstore.cpp | 11 ++++-------
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/session.cpp b/session.cpp
index 4aef263..39036a4 100644
--- a/session.cpp
+++ b/session.cpp
@@ -576,6 +576,15 @@ void Session::setQueuedRemovalAt()
     this->removalQueued = true;
 }
 
+/**
+ * @brief The time the session expires, in whole seconds since epoch, based on the last time it was queued for removal.
+ */
+std::chrono::seconds Session::getRemovalTime() const
+{
+    const std::chrono::time_point<std::chrono::steady_clock> removeAt = this->removalQueuedAt + std::chrono::seconds(this->sessionExpiryInterval);
+    return std::chrono::duration_cast<std::chrono::seconds>(removeAt.time_since_epoch());
+}
+
 uint32_t Session::getSessionExpiryInterval() const
 {
     return this->sessionExpiryInterval;
diff --git a/session.h b/session.h
index b888d56..6ffd8c7 100644
--- a/session.h
+++ b/session.h
@@ -151,6 +151,7 @@ public:
     void setSessionProperties(uint16_t clientReceiveMax, uint32_t sessionExpiryInterval, bool clean_start, ProtocolVersion protocol_version);
     void setSessionExpiryInterval(uint32_t newVal);
     void setQueuedRemovalAt();
+    std::chrono::seconds getRemovalTime() const;
     uint32_t getSessionExpiryInterval() const;
     uint32_t getCurrentSessionExpiryInterval();
 
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 017338f..28d731e 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1297,8 +1297,8 @@ void SubscriptionStore::removeExpiredSessionsClients()
             {
                 std::shared_ptr<Session> lockedSession = ses.lock();
 
-                // A session could have been picked up again, so we have to verify its expiration status.
-                if (lockedSession && !lockedSession->hasActiveClient())
+                // A session could have been picked up again, and even queued again, so we have to verify its expiration status.
+                if (lockedSession && !lockedSession->hasActiveClient() && lockedSession->getRemovalTime() <= removeAt)
                 {
                     sessionsToRemove.push_back(lockedSession);
                 }
@@ -1440,12 +1440,9 @@ void SubscriptionStore::queueSessionRemoval(const std::shared_ptr<Session> &sess
     if (!session)
         return;
 
-    std::chrono::time_point<std::chrono::steady_clock> removeAt = std::chrono::steady_clock::now() + std::chrono::seconds(session->getSessionExpiryInterval());
-    std::chrono::seconds secondsSinceEpoch = std::chrono::duration_cast<std::chrono::seconds>(removeAt.time_since_epoch());
-    session->setQueuedRemovalAt();
-
     std::lock_guard<std::mutex> locker(this->queuedSessionRemovalsMutex);
-    queuedSessionRemovals[secondsSinceEpoch].push_back(session);
+    session->setQueuedRemovalAt();
+    queuedSessionRemovals[session->getRemovalTime()].push_back(session);
 }
 
 size_t SubscriptionStore::getRetainedMessageCount() const
-- 
2.43.0


From f916e0cdec578ed52395fea26d5cd560ba6e0707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:13 +0000
Subject: [PATCH 18/34] fix: a pending will is published when its session ends
 by clean start

---
 subscriptionstore.cpp | 12 ++++++++++++
 threaddata.cpp        |  4 +++-
 types.cpp             |  5 +++++
 types.h               |  1 +
 4 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 28d731e..96a3970 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -327,6 +327,7 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
 
     // These destructors need to be called outside the sessions lock, so placing here.
     std::shared_ptr<Session> session;
+    std::shared_ptr<Session> endedSession;
 
     if (client->getClientId().empty())
         throw ProtocolError("Trying to store client without an ID.", ReasonCodes::ProtocolError);
@@ -361,6 +362,8 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
 
         if (!session || session->getDestroyOnDisconnect() || clean_start)
         {
+            endedSession = session;
+
             // Don't use sdt::make_shared to avoid the weak pointers from retaining the size of session in the control block.
             session = std::shared_ptr<Session>(new Session(client->getClientId(), client->getUsername(), client->getFmqClientGroupId()));
 
@@ -368,6 +371,15 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
         }
     }
 
+    // A will that was waiting for its delay is to be published when the session ends, whichever is first.
+    if (endedSession)
+    {
+        const std::shared_ptr<WillPublish> will = endedSession->getWill();
+
+        if (will && will->getQueued())
+            queueOrSendWillMessage(will, endedSession, true);
+    }
+
     session->assignActiveConnection(session, client, clientReceiveMax, sessionExpiryInterval, clean_start);
 }
 
diff --git a/threaddata.cpp b/threaddata.cpp
index 6636338..4e41f64 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -434,7 +434,9 @@ void ThreadData::clientDisconnectActions(
 
     if (willPublish)
     {
-        store->queueOrSendWillMessage(willPublish, session);
+        // The delay doesn't apply when the session ended because a new one replaced it.
+        const bool sessionReplaced = session && store->lockSession(session->getClientId()) != session;
+        store->queueOrSendWillMessage(willPublish, session, sessionReplaced);
     }
 
     // When another client has picked up the session, its life time is a matter of that client's disconnect.
diff --git a/types.cpp b/types.cpp
index 03555b8..beed626 100644
--- a/types.cpp
+++ b/types.cpp
@@ -329,6 +329,11 @@ void WillPublish::setQueuedAt()
     this->queuedAt = std::chrono::steady_clock::now();
 }
 
+bool WillPublish::getQueued() const
+{
+    return this->isQueued;
+}
+
 /**
  * @brief WillPublish::getQueuedAtAge gets the time ago in seconds when this will was queued. The time is set externally by the queue action.
  * @return
diff --git a/types.h b/types.h
index 1044692..c8b144e 100644
--- a/types.h
+++ b/types.h
@@ -292,6 +292,7 @@ public:
     WillPublish() = default;
     WillPublish(const Publish &other);
     void setQueuedAt();
+    bool getQueued() const;
     uint32_t getQueuedAtAge() const;
     std::optional<Mqtt5PropertyBuilder> getPropertyBuilder() const;
 };
-- 
2.43.0


From 211102974f6f049d0a636b63aae7eb77123b0865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:13 +0000
Subject: [PATCH 19/34] fix: the expiry interval of a will starts when the will
 is published

---
 subscriptionstore.cpp | 9 +++++++--
 types.cpp             | 6 ++++++
 types.h               | 1 +
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 96a3970..7359645 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -425,14 +425,19 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
 
     if (authResult == AuthResult::success || authResult == AuthResult::success_without_setting_retained)
     {
-        PublishCopyFactory factory(will.get());
+        // 'If present, the Four Byte value is the lifetime of the Will Message in seconds and is sent as the Publication
+        // Expiry Interval when the Server publishes the Will Message.'
+        WillPublish willToSend(*will);
+        willToSend.restartExpiry();
+
+        PublishCopyFactory factory(&willToSend);
 
         // Not having a stored fmq_client_group_id to pass. Theoretically, it should not be needed,
         // because a client cannot get its own will.
         queuePacketAtSubscribers(factory, will->client_id, {});
 
         if (will->retain && authResult == AuthResult::success)
-            setRetainedMessage(*will, will->getSubtopics());
+            setRetainedMessage(willToSend, willToSend.getSubtopics());
     }
 }
 
diff --git a/types.cpp b/types.cpp
index beed626..bf09173 100644
--- a/types.cpp
+++ b/types.cpp
@@ -292,6 +292,12 @@ void Publish::setExpireAfter(uint32_t s)
     this->expireInfo->expiresAfter = std::chrono::seconds(s);
 }
 
+void Publish::restartExpiry()
+{
+    if (expireInfo)
+        this->expireInfo->createdAt = std::chrono::steady_clock::now();
+}
+
 void Publish::setExpireAfterToCeiling(std::chrono::seconds ceiling)
 {
     if (expireInfo)
diff --git a/types.h b/types.h
index c8b144e..a67298b 100644
--- a/types.h
+++ b/types.h
@@ -277,6 +277,7 @@ public:
     std::optional<Mqtt5PropertyBuilder> getPropertyBuilder() const;
 
     void setExpireAfter(uint32_t s);
+    void restartExpiry();
     void setExpireAfterToCeiling(std::chrono::seconds s);
 
     const std::vector<std::string> &getSubtopics();
-- 
2.43.0


From f40f8ce890e3336d0744e528190e7ce4f72c7fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:41 +0000
Subject: [PATCH 20/34] fix: save and clean up subscriptions on topics starting
 with a dollar sign

---
 subscriptionstore.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 7359645..948b8c9 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1380,6 +1380,7 @@ bool SubscriptionStore::purgeSubscriptionTree()
         logger->logf(LOG_INFO, "Rebuilding subscription tree");
         subscriptionDeferredCounter = 0;
         root->cleanSubscriptions(deferredSubscriptionLeafsForPurging, subscriptionDeferredCounter);
+        rootDollar->cleanSubscriptions(deferredSubscriptionLeafsForPurging, subscriptionDeferredCounter);
         logger->log(LOG_INFO) << "Rebuilding subscription tree done, with " << deferredSubscriptionLeafsForPurging.size() << " deferred direct leafs to check";
     }
 
@@ -1582,9 +1583,8 @@ std::unordered_map<std::string, std::list<SubscriptionForSerializing>> Subscript
     std::deque<DeferredGetSubscription> deferred;
     std::unordered_map<std::string, std::list<SubscriptionForSerializing>> subscriptionCopies;
 
-    DeferredGetSubscription start(root, "", true);
-
-    deferred.push_front(std::move(start));
+    deferred.emplace_back(root, "", true);
+    deferred.emplace_back(rootDollar, "", true);
 
     for (; !deferred.empty(); deferred.pop_front())
     {
-- 
2.43.0


From 18ac7ad7c414ef249831092c9daed7287346aef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:41 +0000
Subject: [PATCH 21/34] fix: subscription could be added to a node just removed
 from the tree

---
 subscriptionstore.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 948b8c9..97f6058 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1165,6 +1165,11 @@ int SubscriptionNode::cleanSubscriptions(std::deque<std::weak_ptr<SubscriptionNo
         }
 
         int n = node->cleanSubscriptions(defferedLeafs, real_subscriber_count);
+
+        // See addSubscription(..). A subscription may be about to be added to it.
+        if (node.use_count() > 1)
+            n++;
+
         subscribersLeftInChildren += n;
 
         if (n > 0)
@@ -1184,6 +1189,10 @@ int SubscriptionNode::cleanSubscriptions(std::deque<std::weak_ptr<SubscriptionNo
         if (!node_)
             continue;
         int n = node_->cleanSubscriptions(defferedLeafs, real_subscriber_count);
+
+        if (node_.use_count() > 1)
+            n++;
+
         subscribersLeftInChildren += n;
 
         if (n == 0)
-- 
2.43.0


From 3f3e85f567ab36b03d119246e97aa4e543127553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:41 +0000
Subject: [PATCH 22/34] fix: data races on the subscribers of a subscription
 node

---
 subscriptionstore.cpp | 8 ++++++++
 subscriptionstore.h   | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 97f6058..be35434 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1203,6 +1203,9 @@ int SubscriptionNode::cleanSubscriptions(std::deque<std::weak_ptr<SubscriptionNo
         }
     }
 
+    // Adding and removing subscribers happens outside the tree lock.
+    std::unique_lock locker(lock);
+
     {
         // This is not particularlly fast when it's many items. But we don't do it often, so is probably okay.
         auto it = subscribers.begin();
@@ -1245,6 +1248,7 @@ int SubscriptionNode::cleanSubscriptions(std::deque<std::weak_ptr<SubscriptionNo
 
 bool SubscriptionNode::empty() const
 {
+    std::shared_lock locker(lock);
     return children.empty() && subscribers.empty() && sharedSubscribers.empty() && !childrenPlus && !childrenPound;
 }
 
@@ -1541,6 +1545,8 @@ void SubscriptionStore::getSubscriptions(SubscriptionNode *this_node, const std:
     if (!this_node)
         return;
 
+    std::shared_lock locker(this_node->lock);
+
     for (auto &pair : this_node->getSubscribers())
     {
         const Subscription &node = pair.second;
@@ -1558,6 +1564,8 @@ void SubscriptionStore::getSubscriptions(SubscriptionNode *this_node, const std:
         node.getForSerializing(composedTopic, outputList);
     }
 
+    locker.unlock();
+
     for (auto &pair : this_node->children)
     {
         SubscriptionNode *node = pair.second.get();
diff --git a/subscriptionstore.h b/subscriptionstore.h
index 9ea3fcb..bb20ae6 100644
--- a/subscriptionstore.h
+++ b/subscriptionstore.h
@@ -53,7 +53,7 @@ class SubscriptionNode
 
     std::unordered_map<std::string, Subscription> subscribers;
     std::unordered_map<std::string, SharedSubscribers> sharedSubscribers;
-    std::shared_mutex lock;
+    mutable std::shared_mutex lock;
 
     std::chrono::time_point<std::chrono::steady_clock> lastUpdate;
 
-- 
2.43.0


From 0ee3ecb3df6ea3de45689f195f31c457381dd854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:41 +0000
Subject: [PATCH 23/34] fix: data races on retained messages

---
 subscriptionstore.cpp | 32 +++++++++++++++++++++++++-------
 subscriptionstore.h   |  1 +
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index be35434..8e7b6ce 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -986,7 +986,13 @@ bool SubscriptionStore::setRetainedLimitReached(const Settings *settings, const
     if (node->recursiveChildCount < settings->retainedMessagesNodeCreationLimit)
         return false;
 
-    const bool do_log = std::get<bool>(retainedMessagesNodesLimitsLogged.insert(node));
+    bool do_log = false;
+
+    {
+        std::lock_guard<std::mutex> locker(retainedMessagesNodesLimitsLoggedMutex);
+        do_log = std::get<bool>(retainedMessagesNodesLimitsLogged.insert(node));
+    }
+
     const bool result = settings->retainedMessagesNodeCreationLimitEnforcementMode == RetainedMessagesNodeCreationLimitEnforcementMode::Reject;
 
     if (!do_log)
@@ -1134,6 +1140,8 @@ bool SubscriptionStore::setRetainedMessage(const Publish &publish, const std::ve
     }
     else
     {
+        std::lock_guard<std::mutex> locker(retainedMessagesNodesLimitsLoggedMutex);
+
         if (std::get<bool>(retainedMessagesNodesLimitsLogged.insert(selected_node.get())))
             Logger::getInstance()->log(LOG_WARNING) << "Payload size exceeded max for " << recompose_topic(subtopics);
     }
@@ -1448,7 +1456,12 @@ bool SubscriptionStore::expireRetainedMessages()
         RWLockGuard lock_guard(&retainedMessagesRwlock);
         lock_guard.wrlock();
         retainedMessageDeferredCounter = 0;
-        retainedMessagesNodesLimitsLogged.clear();
+
+        {
+            std::lock_guard<std::mutex> locker(retainedMessagesNodesLimitsLoggedMutex);
+            retainedMessagesNodesLimitsLogged.clear();
+        }
+
         this->expireRetainedMessages(retainedMessagesRoot.get(), limit, deferredRetainedMessageNodeToPurge, retainedMessageDeferredCounter);
 
         logger->log(LOG_INFO) << "Expiring retained messages done, with " << deferredRetainedMessageNodeToPurge.size() << " deferred nodes to check.";
@@ -1645,13 +1658,18 @@ void SubscriptionStore::expireRetainedMessages(
     RetainedMessageNode *this_node, const std::chrono::time_point<std::chrono::steady_clock> &limit,
     std::deque<std::weak_ptr<RetainedMessageNode>> &deferred, size_t &real_message_counter)
 {
-    if (this_node->message && this_node->message->hasExpired())
     {
-        this_node->message.reset();
-    }
+        // Setting the message happens outside the tree lock.
+        std::lock_guard<std::mutex> locker(this_node->messageSetMutex);
+
+        if (this_node->message && this_node->message->hasExpired())
+        {
+            this_node->message.reset();
+        }
 
-    if (this_node->message)
-        real_message_counter++;
+        if (this_node->message)
+            real_message_counter++;
+    }
 
     for (auto _ = this_node->children.begin(); _ != this_node->children.end(); )
     {
diff --git a/subscriptionstore.h b/subscriptionstore.h
index bb20ae6..5c00af6 100644
--- a/subscriptionstore.h
+++ b/subscriptionstore.h
@@ -147,6 +147,7 @@ class SubscriptionStore
     std::deque<std::weak_ptr<RetainedMessageNode>> deferredRetainedMessageNodeToPurge;
     size_t retainedMessageDeferredCounter = 0;
 
+    std::mutex retainedMessagesNodesLimitsLoggedMutex;
     std::unordered_set<const RetainedMessageNode*> retainedMessagesNodesLimitsLogged;
     const std::shared_ptr<RetainedMessageNode> retainedMessagesRoot = std::make_shared<RetainedMessageNode>(nullptr);
     const std::shared_ptr<RetainedMessageNode> retainedMessagesRootDollar = std::make_shared<RetainedMessageNode>(nullptr);
-- 
2.43.0


From 4b31cf9f2721adef021c03bf61627b83bbbcabd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:38 +0000
Subject: [PATCH 24/34] fix: a failed save replaced the previous state with a
 partial file

---
 persistencefile.cpp | 12 ++++++++++++
 persistencefile.h   |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/persistencefile.cpp b/persistencefile.cpp
index 8cd3494..3157a4f 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -66,6 +66,7 @@ void PersistenceFile::writeCheck(const void *ptr, size_t size, size_t n, FILE *s
 {
     if (fwrite(ptr, size, n, s) != n)
     {
+        discard = true;
         throw std::runtime_error(formatString("Error writing: %s", strerror(errno)));
     }
 }
@@ -423,12 +424,23 @@ void PersistenceFile::closeFile()
 
     if (openMode == FileMode::write)
     {
+        // When being destroyed because of an exception, not everything was written.
+        if (std::uncaught_exceptions() > uncaughtExceptions)
+            discard = true;
+
+        if (!discard && ferror(f))
+        {
+            discard = true;
+            throw std::runtime_error(formatString("Writing '%s' failed.", this->filePathTemp.c_str()));
+        }
+
         if (!discard)
             hashFile();
 
         if (fflush(f) != 0)
         {
             std::string msg(strerror(errno));
+            discard = true;
             throw std::runtime_error(formatString("Flush of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
         }
 
diff --git a/persistencefile.h b/persistencefile.h
index d297a71..b9cd0b3 100644
--- a/persistencefile.h
+++ b/persistencefile.h
@@ -18,6 +18,7 @@ See LICENSE for license details.
 #include <openssl/evp.h>
 #include <stdexcept>
 #include <cstring>
+#include <exception>
 #include <optional>
 #include <memory>
 
@@ -43,6 +44,7 @@ class PersistenceFile
     std::string filePathCorrupt;
     std::string dirPath;
     bool discard = false;
+    const int uncaughtExceptions = std::uncaught_exceptions();
 
     std::unique_ptr<EVP_MD_CTX, void(*)(EVP_MD_CTX*)> digestContext;
     const EVP_MD *sha512 = EVP_sha512();
-- 
2.43.0


From 2aa521b24eae93e2a35286d5c73665cd04a8cf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:38 +0000
Subject: [PATCH 25/34] fix: error when closing the retained messages file
 terminated the process

---
 retainedmessagesdb.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index 7755667..96d52fe 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -32,7 +32,14 @@ RetainedMessagesDB::RetainedMessagesDB(const std::string &filePath) : Persistenc
 
 RetainedMessagesDB::~RetainedMessagesDB()
 {
-    closeFile();
+    try
+    {
+        closeFile();
+    }
+    catch(std::exception &ex)
+    {
+        logger->log(LOG_ERROR) << ex.what();
+    }
 }
 
 void RetainedMessagesDB::openWrite()
-- 
2.43.0


From 0159cd5e932288fb653a412eebfb3407f593ac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:38 +0000
Subject: [PATCH 26/34] fix: 64 bit integers in state files were read wrong
 with bit 31 set

---
 persistencefile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/persistencefile.cpp b/persistencefile.cpp
index 3157a4f..ba70153 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -255,8 +255,8 @@ int64_t PersistenceFile::readInt64(bool &eofFound)
         eofFound = true;
 
     unsigned char *buf_ = buf.data();
-    const uint64_t val1 = ((buf_[0]) << 24) | ((buf_[1]) << 16) | ((buf_[2]) << 8) | (buf_[3]);
-    const uint64_t val2 = ((buf_[4]) << 24) | ((buf_[5]) << 16) | ((buf_[6]) << 8) | (buf_[7]);
+    const uint64_t val1 = static_cast<uint32_t>((buf_[0] << 24) | (buf_[1] << 16) | (buf_[2] << 8) | buf_[3]);
+    const uint64_t val2 = static_cast<uint32_t>((buf_[4] << 24) | (buf_[5] << 16) | (buf_[6] << 8) | buf_[7]);
     const int64_t val = (val1 << 32) | val2;
     return val;
 }
-- 
2.43.0


From 3874f580cb914da2341faa1ec29f005700ffd370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:41 +0000
Subject: [PATCH 27/34] fix: endless loop on a read error when hashing a state
 file

---
 persistencefile.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/persistencefile.cpp b/persistencefile.cpp
index ba70153..37cc48e 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -102,6 +102,10 @@ void PersistenceFile::hashFile()
     while (!feof(f))
     {
         size_t n = fread(buf.data(), 1, buf.size(), f);
+
+        if (ferror(f))
+            throw std::runtime_error(formatString("Error reading: %s", strerror(errno)));
+
         EVP_DigestUpdate(digestContext.get(), buf.data(), n);
     }
 
@@ -139,6 +143,10 @@ void PersistenceFile::verifyHash()
     while (!feof(f))
     {
         size_t n = fread(buf.data(), 1, buf.size(), f);
+
+        if (ferror(f))
+            throw std::runtime_error(formatString("Error reading: %s", strerror(errno)));
+
         EVP_DigestUpdate(digestContext.get(), buf.data(), n);
     }
 
-- 
2.43.0


From 9f1f8f07eebd46e84acb47030aff078d747a991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:35 +0000
Subject: [PATCH 28/34] fix: a state file that couldn't be synced replaced the
 previous one

The result of fsync() was ignored, so when the data didn't make it to disk, the
temporary file was renamed over the previous, good, state file all the same.
---
 persistencefile.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/persistencefile.cpp b/persistencefile.cpp
index 37cc48e..600635f 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -452,7 +452,12 @@ void PersistenceFile::closeFile()
             throw std::runtime_error(formatString("Flush of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
         }
 
-        fsync(f->_fileno);
+        if (!discard && fsync(f->_fileno) != 0)
+        {
+            std::string msg(strerror(errno));
+            discard = true;
+            throw std::runtime_error(formatString("Sync of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
+        }
     }
 
     if (f != nullptr)
-- 
2.43.0


From 62247194d59fceaf39ea0a6c818ec661f0b8982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:25 +0000
Subject: [PATCH 29/34] fix: read session and retained node counts under their
 locks

---
 subscriptionstore.cpp | 11 ++++++++++-
 subscriptionstore.h   |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 8e7b6ce..4c27620 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1494,8 +1494,17 @@ size_t SubscriptionStore::getRetainedMessageCount() const
     return retainedMessageCount;
 }
 
-uint64_t SubscriptionStore::getSessionCount() const
+size_t SubscriptionStore::getRetainedNodeCount()
 {
+    RWLockGuard locker(&retainedMessagesRwlock);
+    locker.rdlock();
+
+    return retainedMessagesRoot->recursiveChildCount;
+}
+
+uint64_t SubscriptionStore::getSessionCount()
+{
+    std::shared_lock<std::shared_mutex> lock_guard(sessions_lock);
     return sessionsByIdConst.size();
 }
 
diff --git a/subscriptionstore.h b/subscriptionstore.h
index 5c00af6..fab134a 100644
--- a/subscriptionstore.h
+++ b/subscriptionstore.h
@@ -242,9 +242,9 @@ public:
     bool expireRetainedMessages();
 
     size_t getRetainedMessageCount() const;
-    size_t getRetainedNodeCount() const { return retainedMessagesRoot->recursiveChildCount; }
+    size_t getRetainedNodeCount();
     size_t getSoft() const;
-    uint64_t getSessionCount() const;
+    uint64_t getSessionCount();
     size_t getSubscriptionCount();
 
     void saveRetainedMessages(const std::string &filePath, bool in_background);
-- 
2.43.0


From e4ad7de7428ebdd0d4e11a6a9250960597abaaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:25 +0000
Subject: [PATCH 30/34] fix: log writer checks for remaining lines under the
 lock

---
 logger.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/logger.cpp b/logger.cpp
index 3846304..52e9eb0 100644
--- a/logger.cpp
+++ b/logger.cpp
@@ -260,8 +260,14 @@ void Logger::writeLog()
 
     int graceCounter = 0;
 
+    auto linesLeft = [this]()
+    {
+        std::lock_guard<std::mutex> locker(logMutex);
+        return !lines.empty();
+    };
+
     LogLine line;
-    while(running || (!lines.empty() && graceCounter++ < 1000 ))
+    while(running || (linesLeft() && graceCounter++ < 1000 ))
     {
         sem_wait(&linesPending);
 
-- 
2.43.0


From 7da9374be55a701b26878b9072719d84c59681a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:58 +0000
Subject: [PATCH 31/34] fix: a failure to add a new client to epoll terminated
 the process

---
 threaddata.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index 4e41f64..b22c4be 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -829,13 +829,20 @@ void ThreadData::acceptPendingClients()
         if (!client)
             continue;
 
-        const int fd = client->getFd();
+        try
+        {
+            const int fd = client->getFd();
 
-        // A non-repeating keep-alive check is for when clients do a TCP connect and then nothing else.
-        queueClientNextKeepAliveCheck(client, false);
+            // A non-repeating keep-alive check is for when clients do a TCP connect and then nothing else.
+            queueClientNextKeepAliveCheck(client, false);
 
-        client->addToEpoll(EPOLLIN);
-        priv->clients.by_fd[fd] = std::move(client);
+            client->addToEpoll(EPOLLIN);
+            priv->clients.by_fd[fd] = std::move(client);
+        }
+        catch (std::exception &ex)
+        {
+            logger->log(LOG_ERR) << "Error accepting client: " << ex.what();
+        }
     }
 }
 
-- 
2.43.0


From c99672fbb80d7ab7fcb416dfbb64679ca629ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:04 +0000
Subject: [PATCH 32/34] fix: ports of listeners that do not exist were accepted

---
 configfileparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index 502f0e0..dfca0b5 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -535,7 +535,7 @@ void ConfigFileParser::loadFile(bool test)
                 }
                 else if (testKeyValidity(key, "port", validListenKeys))
                 {
-                    curListener->port = full_stoi(key, value);
+                    curListener->port = value_to_int_ranged<uint16_t>(key, value);
                 }
                 else if (testKeyValidity(key, "fullchain", validListenKeys))
                 {
-- 
2.43.0


From 8c5f70c998789358a838a0d980265a997906d49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:04 +0000
Subject: [PATCH 33/34] fix: negative expire_retained_messages_after_seconds
 was taken as a large number

---
 configfileparser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index dfca0b5..421368f 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -1184,10 +1184,10 @@ void ConfigFileParser::loadFile(bool test)
 
                 if (testKeyValidity(key, "expire_retained_messages_after_seconds", validKeys))
                 {
-                    uint32_t newVal = full_stoi(key, value);
+                    const uint32_t newVal = value_to_int_ranged<uint32_t>(key, value);
                     if (newVal < 1)
                     {
-                        throw ConfigFileException(formatString("expire_retained_messages_after_seconds value '%d' is invalid. Valid values are between 1 and 4294967295.", newVal));
+                        throw ConfigFileException(formatString("expire_retained_messages_after_seconds value '%u' is invalid. Valid values are between 1 and 4294967295.", newVal));
                     }
                     tmpSettings.expireRetainedMessagesAfterSeconds = std::chrono::seconds(newVal);
                 }
-- 
2.43.0


From 4adcec6796067d532489107fec67c50799780b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:04 +0000
Subject: [PATCH 34/34] fix: negative max_packet_size disabled the maximum

---
 configfileparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index 421368f..b1f1b94 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -999,7 +999,7 @@ void ConfigFileParser::loadFile(bool test)
 
                 if (testKeyValidity(key, "max_packet_size", validKeys))
                 {
-                    int newVal = full_stoi(key, value);
+                    const uint32_t newVal = value_to_int_ranged<uint32_t>(key, value);
                     if (newVal > ABSOLUTE_MAX_PACKET_SIZE)
                     {
                         std::ostringstream oss;
-- 
2.43.0

