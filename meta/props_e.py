from meta.gen import P, N

P('C20', 'State files are read back as what was written',
  statement="Reading a state file of the current version yields, for every possible content, the sessions, queued packets, packet identifiers, wills, subscriptions, retained messages and bridge names that were written, each field in its own place and every list complete. Sender, topic override, subscription options and identifiers are restored unchanged, and the packet identifiers of queued and pending packets are in use again. Message ages grow, and session expiry and will delay shrink (not below zero), by the time between saving and loading.",
  over=['inputs', 'histories'],
  q="every content of the state that is saved",
  tests="One test saves and loads a handful of sessions and messages in the same second; absent and present optional fields, several entries per list and numbers with the topmost bit set are not sampled.",
  files=['sessionsandsubscriptionsdb.cpp', 'retainedmessagesdb.cpp', 'bridgeinfodb.cpp', 'persistencefile.cpp'],
  mech=[('SessionsAndSubscriptionsDB::saveData', 'sessionsandsubscriptionsdb.cpp'), ('SessionsAndSubscriptionsDB::readDataV3V4V5V6V7', 'sessionsandsubscriptionsdb.cpp'), ('RetainedMessagesDB::saveData', 'retainedmessagesdb.cpp'), ('RetainedMessagesDB::readDataV3V4', 'retainedmessagesdb.cpp'), ('PersistenceFile', 'persistencefile.cpp')],
  technique='simulation between writer and reader token automata extracted from the control flow; provenance of fields; sign analysis of time arithmetic',
  note="Files of older versions are only required to be accepted, not checked for meaning. That a packet survives being serialized and parsed is the packet properties' business. Which state is handed over for saving is C21.",
  design="From writer and reader the writes and reads, with marks for one more round and the end of a list, are extracted as automata (reader edges for end of file and older versions cut); every step the writer can make the reader must be able to follow. Each pair of matched fields is checked: what the writer's value is made of against where the reader's value ends up, list bounds against the size of the list written, raw byte counts, and that no path of a round leaves a value read unused. Ages: the sign with which the saved time and the saved value enter what is restored, and that unsigned differences are guarded. Numbers: byte positions and shifts of every integer primitive, and no sign extension.")

P('C21', 'Saving covers all persistent state and a start restores all of it',
  statement="At the end of the program, after all threads disconnected their clients, and each time the save interval passes, the retained messages, sessions, subscriptions and bridge names are saved unless the configuration turns that part off. A save has every session that outlives its connection, every subscription of a living session at every level of both trees (shared ones with their share name) and every retained message, however often collecting was interrupted. A start registers every session read with its expiry timer and its will, makes every subscription of a session that is there, with its own options, and sets every retained message.",
  over=['inputs', 'histories', 'schedules', 'configurations'],
  q="every state, every moment collecting runs out of time, every configuration of what is saved",
  tests="Collecting is interrupted after milliseconds; the small states of tests never are, so what is put off is not sampled, nor are the trees for filters starting with $.",
  files=['subscriptionstore.cpp', 'sharedsubscribers.cpp', 'persistencefunctions.cpp', 'mainapp.cpp', 'sessionsandsubscriptionsdb.cpp'],
  mech=[('saveState', 'persistencefunctions.cpp'), ('SubscriptionStore::getSubscriptions', 'subscriptionstore.cpp'), ('SubscriptionStore::saveRetainedMessages', 'subscriptionstore.cpp'), ('SubscriptionStore::loadSessionsAndSubscriptions', 'subscriptionstore.cpp'), ('MainApp::start', 'mainapp.cpp')],
  technique='loop-coverage and must-pass path analysis with provenance of what is collected, deferred and restored',
  note="Changes made while a save is collecting may or may not be in it. An exception while one part is saved skips the parts after it (it is logged). The root of the tree of $ topics has no retained messages of clients and is not saved.",
  design="For each collection the loop over the whole container must be passed on every path and every round must collect, visit or defer the element, with the exemptions named; deferred work is drained until empty, one taken off per round and only after being read; names of places are composed of the level and the parent's name. What was collected must be what is handed to the file (provenance, no removal in between). Restoring: every round of the loops over what was read registers, queues and subscribes with values of the same element.")

P('C22', 'State files are replaced only by complete ones and used only when intact',
  statement="A state file is never written in place: a new file replaces it only after every write succeeded, nothing was given up half way and no exception ended the saving, and after its hash was stored and it was flushed, synced and closed without error; otherwise the previous file stays as it is. The hash covers everything after the header; a file whose hash does not match its contents is never used but kept under another name, and one of an unknown version is an error. Only a file that can not be opened is passed over at the start, and an error while closing a file does not end the program.",
  over=['crash_points', 'inputs', 'histories'],
  q="every point at which a write, flush, sync, close or the program can fail, and every content of a state file",
  tests="Tests write to a healthy disk; write errors, full disks, interrupted saves and damaged files are not sampled.",
  files=['persistencefile.cpp', 'retainedmessagesdb.cpp', 'sessionsandsubscriptionsdb.cpp', 'bridgeinfodb.cpp', 'subscriptionstore.cpp'],
  mech=[('PersistenceFile::closeFile', 'persistencefile.cpp'), ('PersistenceFile::hashFile', 'persistencefile.cpp'), ('PersistenceFile::verifyHash', 'persistencefile.cpp'), ('PersistenceFile::openRead', 'persistencefile.cpp'), ('PersistenceFile::writeCheck', 'persistencefile.cpp')],
  technique='must-pass path analysis on every way to the replacing rename, and an abstract interpretation of file positions',
  note="The file system is trusted to keep what it reported as synced and to rename atomically. What the file means is C20.",
  design="Every call that gives a file the name of a state file must be the rename in closeFile, and no path may reach it without each of: opened for writing, not discarded, not unwinding, no stream error, hash, successful flush, sync and close, in that order. Every write goes through the checked one, which on a short write discards and throws; every throw of closing happens with the file discarded or closed, so that the second attempt of the destructor can not succeed. No path of a state file is opened for writing or removed. File positions are interpreted as constants: hashing reads from 96 on to the end, the hash is written to and read from 32, version from 0, contents from 96. Handlers around loading that end normally may only be for a file that is not there.")
