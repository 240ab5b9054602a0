from meta.gen import P, N

P('C23', 'Shared data is only touched while its lock is held',
  statement="The subscription tree, the subscribers of each place in it, the retained message tree and the messages in it, the map of sessions, the session removal and delayed will queues, the log queue, and the data that owned mutexes or locked pointers wrap are never read without their lock held, nor changed without it held for writing, in any function that can be reached by more than one thread. No reference into data owned by a mutex outlives the lock on it. A lock that could not be obtained is never treated as held or released.",
  over=['schedules', 'programs'],
  q="every interleaving of the worker, timer, log and background threads, for every read and write of the guarded data",
  tests="Thread sanitizer or tests see races only on the schedules that occurred; nearly all runs without the lock succeed.",
  files=['subscriptionstore.cpp', 'subscriptionstore.h', 'rwlockguard.cpp', 'mutexowned.h', 'lockedweakptr.h', 'lockedsharedptr.h', 'logger.cpp', 'derivablecounter.cpp'],
  mech=[('SubscriptionStore::sessions_lock', 'subscriptionstore.h'), ('SubscriptionStore::subscriptions_lock', 'subscriptionstore.h'), ('SubscriptionStore::retainedMessagesRwlock', 'subscriptionstore.h'), ('SubscriptionNode::lock', 'subscriptionstore.h'), ('RWLockGuard', 'rwlockguard.cpp'), ('MutexOwned', 'mutexowned.h')],
  technique='lock-set data flow (path sensitive in guards and boolean locals) with requirement propagation over the call graph',
  note="Which lock guards which field is a table, taken from the code; fields that are atomic, confined to one thread or set before the threads start are not in it. The round robin counter of shared subscriptions is changed under a shared lock; its author accepts that race in a comment and it is not in the table. Constructors of the object itself, and the destructor of a retained node (which has been taken out of the tree), are exempt.",
  design="For each function a set of possible lock states per point is computed (std guards with their deferred, try and unlock forms, RWLockGuard, UnscopedLock, MutexOwned). Every access of a field of the table, also through references, iterators' containers and getters, must be under the lock of its row, in the mode reading or changing needs and, for per-object locks, of the same object; where it is not, the requirement moves to every caller, and a caller without it (or none left) is a violation with the path.")

P('C24', 'Threads cannot block each other forever',
  statement="There is one order in which the locks of the broker are taken: no thread ever takes a lock while holding one that another thread may hold while waiting for the first, and no thread takes a lock that it holds already, on any path through the broker's own code, including destructors. Plugin functions are called with no broker lock held, except that the access check of a plugin may be made with the locks of the message being delivered held (a retained message or its tree, the session's queue, the delayed wills), but never with those of the session map, the subscription tree, thread tasks or a client's buffer held. No thread sleeps, waits for another thread's end, for an event or for a file to be synced while holding a lock another thread needs.",
  over=['schedules', 'programs'],
  q="every interleaving of all threads and every nesting of lock acquisitions through the call graph",
  tests="A deadlock needs two threads to interleave at two specific points; tests run with few clients and have never seen it.",
  files=['subscriptionstore.cpp', 'session.cpp', 'client.cpp', 'plugin.cpp', 'threaddata.cpp', 'mainapp.cpp', 'logger.cpp', 'globals.cpp'],
  mech=[('SubscriptionStore::registerClientAndKickExistingOne', 'subscriptionstore.cpp'), ('SubscriptionStore::sendQueuedWillMessages', 'subscriptionstore.cpp'), ('SubscriptionStore::queuePacketAtSubscribers', 'subscriptionstore.cpp'), ('Session::writePacket', 'session.cpp'), ('Authentication::aclCheck', 'plugin.cpp')],
  technique='lock-order graph over the interprocedural call graph; must be acyclic',
  note="Locks are identified by the field that holds them; of all locks of the same field, only those of retained nodes are nested, which is accepted from parent to child. What a plugin does in a callback (calling back into the broker from an access check) is outside the property. Destructors of objects released by containers or by assigning a pointer are not followed; those of local and temporary pointers are.",
  design="Every acquisition with the locks held at that point gives edges, and so does every call, constructor, local destructor and lambda run on the spot, with all locks that its callees may take (closure over the call graph with virtual targets). Try-locks are no acquisitions but are held once obtained. A cycle, or the same lock twice, is a violation with the call path. Locks held on entry are propagated forward to the indirect calls of plugin functions and to calls that wait.")

P('C25', 'An error while handling one thing ends nothing else',
  statement="No exception raised while handling a client's data, a queued task, a delayed task or a new connection ends a worker thread, the log or background thread or the running broker; the other clients, tasks and connections of the same round are still handled. A client whose data raised an exception is removed, or told why and then disconnected. No exception leaves a destructor, a function declared not to throw, or a callback called by a C library.",
  over=['inputs', 'histories', 'programs'],
  q="every packet, task and connection, and every place in the broker (or a plugin called by it) that can raise an exception",
  tests="Tests raise a handful of errors in handlers; an exception that escapes needs the one input or system failure that raises it at an unprotected place.",
  files=['threadloop.cpp', 'threaddata.cpp', 'backgroundworker.cpp', 'queuedtasks.cpp', 'mainapp.cpp', 'client.cpp', 'logger.cpp', 'iowrapper.cpp'],
  mech=[('do_thread_work', 'threadloop.cpp'), ('ThreadData::performAllImmediateTasks', 'threaddata.cpp'), ('QueuedTasks::performAll', 'queuedtasks.cpp'), ('BackgroundWorker::doWork', 'backgroundworker.cpp'), ('MainApp::start', 'mainapp.cpp')],
  technique='interprocedural exception-escape analysis with handler types',
  note="Modelled are the throws of the broker, failed checks of system calls (except writing to an event descriptor), number conversions, at(), substr(), value() of an optional that was not looked at, stored functions and plugin functions. Running out of memory and exceptions of other library calls are not.",
  design="For each function the types of exceptions that can leave it are computed to a fixed point over the call graph; a handler stops a type when it names it or one of its bases. Nothing may leave the functions of threads, destructors, noexcept functions and C callbacks, nor the part of the main function that lies on a cycle through its wait. For each place that runs a task or handles a client, the handlers reached must lead back to the loop over the tasks or clients, and for clients must pass the removal or the disconnect mark on every feasible path (tracking boolean locals).")

P('C26', 'Every configuration key does what its value says; nothing half-applied',
  statement="Every documented key of the configuration file, in the root, in listen and in bridge blocks, sets its own setting and no other, to what its value says (numbers and durations in the documented unit and range, switches true or false, named choices each their own meaning), and keys that are unknown, belong to another kind of block, have missing or surplus values, or values that are malformed or outside the range are refused with an error. Blocks are checked when closed, an unclosed block is an error, and a file replaces the settings only after all of it was accepted; testing a file changes nothing. A reload whose file is refused leaves the running broker with the settings it had.",
  over=['configurations', 'inputs'],
  q="every configuration file: every key, every value and every combination and order of lines",
  tests="Tests load a few valid files; nearly none of the hundred keys is ever given a wrong value, or checked to reach its own setting in its own unit.",
  files=['configfileparser.cpp', 'settings.h', 'settings.cpp', 'listener.cpp', 'bridgeconfig.cpp', 'mainapp.cpp', 'network.cpp'],
  mech=[('ConfigFileParser::loadFile', 'configfileparser.cpp'), ('ConfigFileParser::testKeyValidity', 'configfileparser.cpp'), ('full_stoi', 'configfileparser.cpp'), ('stringTruthiness', 'utils.cpp'), ('MainApp::reloadConfig', 'mainapp.cpp')],
  technique='per-key reachability and value-range data flow over the control-flow graph of the parser, against a table of the documented keys',
  note="The table of keys, settings, kinds of value, units and ranges comes from the manual and is part of the check. What settings mean after they are loaded is for the other properties. Whether a file, directory or address exists is decided by the named helper functions, of which only the use is checked.",
  design="For each key of the table, the edges of the parser on which the line's key equals it are found; with all other key edges removed, each way from the start of a line to its end must change the key's setting, by a value computed from the text of the line by the conversion of the table (bounds from the comparisons on the way, unit from the duration type, choices from the string comparisons, one by one), or throw. Every change of a setting must be unreachable once its key's edges are removed. Settings may be assigned as a whole only after the last line, and not when testing; on reload all that can throw comes before the first assignment of a running setting, or is undone.")
