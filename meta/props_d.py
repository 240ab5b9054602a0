from meta.gen import P, N

P('C17', 'A publish goes to exactly the matching subscriptions, with their options',
  statement="A publish becomes a target for every subscription whose filter matches its topic level by level (exact, + for one level, # for the rest including its parent level), and for no other. A subscription is left out only when its session is gone, when it has No Local and its client published the message, or when its client belongs to the client group of the publisher; each target carries the QoS, retain-as-published and identifier of its own subscription, and of a shared subscription exactly one living member is a target. Every target is given the packet, once.",
  over=['inputs', 'histories'],
  q="every topic, set of filters, subscription options and shared group with members that leave",
  tests="Tests match a table of filters on small trees; members that expired, wrap-around of the round robin and cursor positions at the ends are not sampled.",
  files=['subscriptionstore.cpp', 'sharedsubscribers.cpp', 'publishcopyfactory.cpp', 'session.cpp'],
  mech=[('SubscriptionStore::publishRecursively', 'subscriptionstore.cpp'), ('SubscriptionStore::publishNonRecursively', 'subscriptionstore.cpp'), ('SubscriptionStore::queuePacketAtSubscribers', 'subscriptionstore.cpp'), ('SharedSubscribers::getNext', 'sharedsubscribers.cpp')],
  technique='iterator-position dataflow over the matching recursion; must-pass path analysis with value provenance',
  note="That filters are stored at the node of their own levels is a separate property. The member lists are read under a shared lock; races on the round robin counter are not judged here.",
  design="Recursion: for each cursor position relative to entry (dataflow over iterator arithmetic, with the comparison to the end as path condition) the children that must be visited are visited with the cursor they need, and each visit is justified by the kind of child. Target building: every path over a subscription adds a target with values of that same subscription or leaves through one of the named reasons. Shared: choice loops visit every member before giving up, and the index stays in the list.")

P('C18', 'Subscribing and unsubscribing change exactly the addressed subscription',
  statement="A subscription is kept in the place given by the levels of its filter (# and + as wildcards, filters starting with $ apart from others), one per client ID and share name, with the session, QoS, No Local, retain-as-published and identifier of the latest SUBSCRIBE. It is reported as new exactly when there was none of a living session. Each filter of an UNSUBSCRIBE removes that one subscription before UNSUBACK; nothing else removes a subscription of a living session, and cleaning drops a place only when it has no subscriptions, nothing below it, no recent change and no SUBSCRIBE about to use it.",
  over=['histories', 'inputs'],
  q="every sequence of subscribing, unsubscribing, session ends and cleaning, for any filters",
  tests="Cleaning waits for an hour of no change and splits its work only on wide trees; tests use small trees and fresh nodes.",
  files=['subscriptionstore.cpp', 'subscriptionstore.h', 'mqttpacket.cpp', 'sharedsubscribers.cpp', 'flashmq_plugin.cpp'],
  mech=[('SubscriptionStore::getDeepestNode', 'subscriptionstore.cpp'), ('SubscriptionNode::addSubscriber', 'subscriptionstore.cpp'), ('SubscriptionNode::removeSubscriber', 'subscriptionstore.cpp'), ('SubscriptionNode::cleanSubscriptions', 'subscriptionstore.cpp')],
  technique='path analysis of the tree walk, provenance of stored fields, writer enumeration',
  note="A subscription counts as removed by the end of its session. Saving and loading subscriptions is a separate property; the client lists of shared subscriptions are judged by C17.",
  design="Walk: each kind of child is used only for its level text, a step down happens exactly once per level, from the root of the kind of filter, and a node is answered only at the end of the levels; nodes are made only with the tree lock held for writing after starting over. Add/remove: provenance of key, place and every field; must-pass to the store. Clean: every erase has its reason in the same round and for the same entry; the answer is a sum that includes own subscriptions, what is left in each child and the grace period. Changes of the tree elsewhere are violations.")

P('C19', 'A new subscription gets exactly the retained messages it matches',
  statement="For a subscription for which retained messages are to be sent, the stored message of every topic that matches its filter level by level (exact, + for one level, # for the rest including its parent level; $ topics only for filters starting with $) is written to the session with the retain flag, the granted QoS and the identifier of that subscription, and no other; messages that have expired, or whose publisher is no longer allowed to publish them, are left out. What does not fit because of lack of time, buffer or QoS room is noted with its position and delivered later, at most once, until 100 tries in a row gain nothing or the configured node limit is reached. Nothing is sent when the retained message mode is without retaining or to a client to which retained messages are not available.",
  over=['inputs', 'histories', 'schedules'],
  q="every filter, tree of retained messages and moment at which time or room runs out",
  tests="Tests have small trees and idle clients; running out of time or room halfway through a wildcard, and what is delivered afterwards, is sampled once or not at all.",
  files=['subscriptionstore.cpp', 'subscriptionstore.h', 'session.cpp'],
  mech=[('SubscriptionStore::giveClientRetainedMessagesRecursively', 'subscriptionstore.cpp'), ('SubscriptionStore::giveClientRetainedMessagesInitiateDeferred', 'subscriptionstore.cpp'), ('SubscriptionStore::giveClientRetainedMessages', 'subscriptionstore.cpp')],
  technique='iterator-position dataflow over the matching recursion, records of deferred positions, must-pass path analysis',
  note="When a SUBSCRIBE leads to delivery (retain handling, existing subscriptions) is C03; that setting a retained message stores it is C16.",
  design="Every recursive call and every deferred record is a visit of (node, position, everything-below). Each visit must be one the filter level allows, every level must lead to its visits on all paths (loops over children: every round, from first to last, no early exit), and the deferred record must carry the position the call would have had. Delivery: must-pass and justification against expiry, authorization and end of filter; deferral of a node exactly when the write was refused for room. Resuming: nothing is taken off the list without having been walked, and what is left leads to another task with the same arguments.")
