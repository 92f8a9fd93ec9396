TECH = "contract-based deductive verification (CBMC code contracts on the real C functions)"
PROPS = []
NOT_APPLICABLE = {}


def P(**k):
    PROPS.append(k)


P(id="C01", title="Inbound packets are framed exactly, however the stream is segmented",
  statement="Whatever the sizes of the network reads and whatever is being sent to the client meanwhile, the packets the server "
            "acts on for a connection are exactly the length-prefixed frames its client sent: each once, in order, with exactly "
            "the announced bytes and a terminating NUL. A partial packet is kept until the rest arrives, and a frame that announces "
            "no data or more than the packet buffer holds ends the connection instead of being processed.",
  over=["inputs", "schedules"], quant="every byte stream, every segmentation of it into reads, every read outcome (short, would-block, error, EOF), interleaved with any outbound traffic",
  why="The integration tests send whole packets in single writes over loopback; no test splits a packet or interleaves output with a half-received packet.",
  files=["pktserv/pktsocket.c", "pktserv/pktserv.c", "pktserv/pktbuffers.c"],
  mech=[("pktsocket_read", "pktserv/pktsocket.c"), ("pollfd_state_machine", "pktserv/pktserv.c"), ("_msgbuf_alloc", "pktserv/pktbuffers.c")],
  observe=["dispatch callback"], level="proof",
  note="pktsocket_read proved for all frames and read outcomes at full packet size (inductive invariant of the read side); the state machine is proved against the callees' contracts. Sockets, callbacks and the log are stand-ins; TLS transport excluded.")

P(id="C04", title="Each connection lives once: opened, served, reported lost, closed",
  statement="A client's owner is told of the connection exactly once before anything else and of its loss exactly once; after that its "
            "socket is closed exactly once, its buffers are gone and it is no longer polled. A hang-up, a fatal error or a requested "
            "disconnect always ends the connection, nothing else does, and in every round each connection with an event is served exactly "
            "once, whatever happens to the others; a single event never keeps the server busy forever.",
  over=["schedules", "fault_sequences"], quant="every poll outcome, connection state, callback behaviour and order of connections",
  why="The tests exercise a handful of well-behaved clients; hang-ups in the middle of a round, blocked output, and disconnects requested while a packet is handled are not scheduled.",
  files=["pktserv/pktserv.c"],
  mech=[("pollfd_state_machine", "pktserv/pktserv.c"), ("handle_pollfds", "pktserv/pktserv.c"), ("add_pollfd", "pktserv/pktserv.c"), ("delete_pollfd", "pktserv/pktserv.c"), ("update_pollfd_events", "pktserv/pktserv.c")],
  observe=["new_client, lost_client and dispatch callbacks", "close()"], level="other",
  note="One event on one connection is proved for all states and outcomes; the poll set and the round are bounded (17 and 4 connections).")

P(id="C05", title="Text shown to clients is printable, valid UTF-8, and cut to size",
  statement="The text filter keeps every printable ASCII and well-formed UTF-8 character of its input in order, drops control characters, "
            "replaces each ill-formed sequence with a question mark, and stops at the limit without splitting a multi-byte character. It never "
            "writes beyond the limit and never emits an invalid or control byte.",
  over=["inputs"], quant="every text and every limit",
  why="The unit tests sample a dozen strings; overlong forms, surrogates, truncated sequences at the limit and all their combinations are not covered.",
  files=["server/strutil.c", "server/utf8.c"], mech=[("filtertext", "server/strutil.c"), ("decode", "server/utf8.c")],
  level="other", note="decode proved for every byte sequence; filtertext complete for texts up to the stated length and every limit (every combination of sequence lengths and cut positions occurs within it).")

P(id="C06", title="Nicknames and group names contain only allowed characters",
  statement="After filtering, a nickname or group name consists only of ASCII letters, digits and the allowed punctuation: a space becomes an "
            "underscore, every other character a question mark, allowed characters and the length are unchanged. Case folding maps exactly the "
            "ASCII letters and nothing else.",
  over=["inputs"], quant="every string", why="The unit tests sample a few strings; 8-bit characters and all control characters are not enumerated.",
  files=["server/strutil.c"], mech=[("filternickname", "server/strutil.c"), ("filtergroupname", "server/strutil.c"), ("lcaseit", "server/strutil.c"), ("ucaseit", "server/strutil.c")],
  level="other", note="Complete for strings up to the stated length, every character value in every position.")

P(id="C07", title="Client packets are parsed into fields without loss or overrun",
  statement="A packet is cut at every separator into at most the maximum number of fields, in order, and no other byte changes; a field the packet "
            "does not have reads as empty, never as data of an earlier packet. The first word of a command is what precedes the first blank, cut to "
            "the word buffer; the rest is what follows the blanks, and no input makes the parser read or write outside its buffers.",
  over=["inputs"], quant="every packet content", why="The tests use well-formed packets with few fields and short words.",
  files=["server/strutil.c"], mech=[("split", "server/strutil.c"), ("getword", "server/strutil.c"), ("get_tail", "server/strutil.c")],
  level="other", note="getword for all packet-sized inputs; split and get_tail complete up to the stated sizes.")

P(id="C09", title="Wildcard patterns match exactly the texts they describe",
  statement="Wildcard matching accepts a text exactly when the pattern describes it, with * for any run, ? for any character, [..] for a class with "
            "ranges and negation and a backslash quoting the next character. Matching always terminates and never reads beyond either string; an "
            "unterminated class matches nothing.",
  over=["inputs"], quant="every text and pattern", why="The unit tests sample patterns; combinations of star, class and quoting at the end of strings are not covered.",
  files=["server/wildmat.c"], mech=[("DoMatch", "server/wildmat.c"), ("wildmat", "server/wildmat.c")],
  level="other", note="The recursive matcher carries its contract (recursive calls are replaced by it); complete up to the stated text and pattern lengths.")

P(id="C02", title="A client receives exactly the accepted packets, in order, each once",
  statement="The bytes written to a connection are exactly the packets accepted for it, back to back in the order they were accepted, whatever part of "
            "each write the socket takes. A refused packet is reported and sends nothing; at most ten packets wait, an unfinished packet resumes "
            "at the first unsent byte, and a connection is given up only on a write error or after more than ten fruitless retries.",
  over=["inputs", "schedules", "fault_sequences"], quant="every queue content, packet length and write outcome (complete, partial, would-block, error)",
  why="The tests never fill a socket buffer, so partial writes, retries and the queue limit are not exercised at all.",
  files=["pktserv/pktserv.c", "pktserv/pktsocket.c"], mech=[("pktserv_send", "pktserv/pktserv.c"), ("pktsocket_write", "pktserv/pktsocket.c")],
  observe=["write()"], level="other",
  note="Complete for every length, offset and write outcome with 0, 1, 3 and 10 queued packets (write) and 0, 2, 9 and 10 (send); clear-text connections.")

P(id="C03", title="Every packet sent is one well-formed frame carrying exactly its fields",
  statement="Every packet the server sends is one frame whose length byte announces exactly the bytes that follow, ending in NUL, and which fits the packet "
            "size. It has the right type and carries the (filtered) texts it was built from, complete up to the packet's room and separated as the protocol "
            "says, and nothing else - never bytes of other memory. Nothing is sent to a connection that is being dropped.",
  over=["inputs"], quant="every text of every length, every sender and receiver",
  why="The integration tests send short messages; texts that exactly fill or exceed a packet's room are not tried.",
  files=["server/send.c"], mech=[("doSend", "server/send.c"), ("sendopen", "server/send.c"), ("sendperson", "server/send.c"), ("sendstatus", "server/send.c")],
  observe=["pktserv_send()"], level="other",
  note="senderror, send_cmdend and sends_cmdout proved at the real packet size; the others complete for every pair of text lengths in a configuration with 40-byte packets (the code is parametric in the packet size); filtertext and pktserv_send by their contracts.")

P(id="C19", title="Private messages and beeps respect the receiver's refusals",
  statement="A private message is delivered to its addressee unless the addressee hushes the sender by nickname or by address; then nothing at all reaches the "
            "addressee and the sender is told. A beep is delivered unless the addressee refuses beeps; then the sender is told, and the addressee only if it "
            "asked to be. Only a delivered message makes its sender the one the addressee answers to.",
  over=["inputs"], quant="every sender, addressee, hush list answer and beep setting",
  why="The integration tests try one hushed sender and one refused beep.",
  files=["server/send.c", "server/s_person.c", "server/s_beep.c"], mech=[("sendperson", "server/send.c"), ("sendbeep", "server/send.c")],
  observe=["pktserv_send()"], level="other",
  note="Complete for every message and nickname text in a configuration with 40-byte packets; list matching, the filter and the transport by their contracts.")

P(id="C10", title="Name lists keep each name once, newest first, within their capacity",
  statement="A name list holds each name at most once regardless of case: adding one puts it first, moving it if it was listed, and only if the list is full "
            "drops the oldest; deleting removes exactly the named entry. Membership and pattern match agree with the listed entries, reading cycles "
            "through all of them, and no operation loses, duplicates, leaks or uses a freed entry.",
  over=["histories", "inputs"], quant="every list, operation and name",
  why="The unit tests run a few short sequences; deletion and re-insertion at every position of a full list with the cursor anywhere are not covered.",
  files=["server/namelist.c", "server/strlist.c"],
  mech=[("nlput", "server/namelist.c"), ("nldelete", "server/namelist.c"), ("nlget", "server/namelist.c"), ("strunlink", "server/strlist.c"), ("strgetnode", "server/strlist.c")],
  level="other", note="Each operation preserves the list invariant and has its effect from every well-formed list of up to 4 entries (inductive step, so histories of any length below that size); allocation succeeds.")

P(id="C11", title="The database is a map from keys to values",
  statement="Fetching a key gives exactly the value last stored under it, with its length, whatever bytes key and value are made of; a key never stored or deleted since "
            "is not found. Insert refuses an existing key and changes nothing, replace overwrites it, delete removes exactly that key; no operation disturbs another "
            "key, also while the table grows, and all memory is given back on close.",
  over=["histories", "inputs"], quant="every table and operation",
  why="Collisions in one chain, growth at the wrong moment and keys that are prefixes of one another or hold NULs are not in the tests.",
  files=["server/icb_dbm.c"], mech=[("dbm_store", "server/icb_dbm.c"), ("dbm_fetch", "server/icb_dbm.c"), ("dbm_delete", "server/icb_dbm.c"), ("ht_resize", "server/icb_dbm.c")],
  level="other", note="Bounded: tables of 4 to 16 buckets with up to 7 entries in seven shapes (empty, chains, growth), every operation, every value byte; through the public interface of the real file with its initial bucket count set to 4; allocation succeeds.")

P(id="C12", title="The database file survives a crash or a failing disk",
  statement="Whatever single step of writing fails or is cut short, the database file afterwards holds either the old contents or exactly all of the new ones; it is only ever "
            "replaced by a file that is complete and on disk, a failure is reported and the next write catches up. Opening gives back exactly what was written; a file "
            "cut short or damaged in its structure is refused as a whole and left as it was. No file or memory is leaked on any path.",
  over=["crash_points", "fault_sequences"], quant="every fault position and kind, every cut",
  why="Write errors, short writes, and crashes between two system calls cannot be arranged by the tests.",
  files=["server/icb_dbm.c"], mech=[("flush_file", "server/icb_dbm.c"), ("load_file", "server/icb_dbm.c"), ("dbm_open", "server/icb_dbm.c"), ("dbm_close", "server/icb_dbm.c")],
  level="other", note="Bounded: up to 4 entries; one failing or short call at every position; files cut at every length. The file system is a model (POSIX rename and fsync); allocation succeeds.")

P(id="C13", title="User records are kept by name regardless of case and written when changed",
  statement="An attribute set for a nickname is found again, with exactly its value, under the same nickname and attribute name in any case and under no other; deleting or "
            "overwriting it touches nothing else. When the outermost request is done every change is on disk (a failed write is caught up with by the next request); "
            "a missing database makes requests fail, not crash. Stored lists hold each entry once, lose none when one is added or deleted, and are cleared completely.",
  over=["histories", "inputs", "fault_sequences"], quant="every attribute, value and list; nested and failing database use",
  why="The tests look at one value at a time in one process; what is on disk afterwards, holes in lists and values filling the buffer are not covered.",
  files=["server/icbdb.c"], mech=[("icbdb_get", "server/icbdb.c"), ("icbdb_set", "server/icbdb.c"), ("icbdb_close", "server/icbdb.c"), ("icbdb_list_find", "server/icbdb.c"), ("icbdb_list_add", "server/icbdb.c")],
  level="other", note="Bounded: buffer size set to 24 (the code is parametric in it), 7 name pairs, all value bytes at the lengths around the buffer size, lists of up to 4 slots in 18 cases; the database by its contract (C11, C12).")

P(id="C15", title="A registered nickname is used and changed only by who proves ownership",
  statement="A user counts as registered only by creating the nickname's record, by giving its password, or by coming from its recorded address (any case) while the record "
            "is not secured; a wrong password takes the status away and changes nothing else. Changing the password needs the old one, deleting the record needs the "
            "password and removes all of it, details and security are set only by the registered user and only in their own record; a group goes back to its missing "
            "moderator only on such proof.",
  over=["inputs", "histories"], quant="every password, address, stored record and group state",
  why="Tests try one right and one wrong password; truncation at 12 characters, records without some attribute and the side effects of a refusal are not covered.",
  files=["server/access.c", "server/s_auto.c"],
  mech=[("nickwrite", "server/access.c"), ("nickchpass", "server/access.c"), ("nickdelete", "server/access.c"), ("valuser", "server/access.c"), ("nicklookup", "server/access.c"), ("setsecure", "server/access.c")],
  level="other", note="Passwords of every length up to 23 and every stored password; 3 groups and 4 users; names and addresses bounded in length; the attribute database by its contract (C13).")

P(id="C24", title="A left message waits until its addressee reads it, and is shown once",
  statement="A message for a registered nickname is stored after those already waiting, never over one, with its text and its sender, unless the mailbox is full; then, or when "
            "the sender or the addressee is not registered, nothing is stored and the sender is told. Reading shows every waiting message once, in order, with its "
            "sender, and leaves the mailbox empty; only the registered owner reads it.",
  over=["inputs", "histories"], quant="every mailbox state, sender and addressee",
  why="The tests leave one message at a time; the full mailbox, the last free place and refusals are not covered.",
  files=["server/access.c"], mech=[("nickwritemsg", "server/access.c"), ("nickreadmsg", "server/access.c")],
  level="other", note="Mailboxes of representative sizes up to the limit of 20; short texts (cutting and filtering are C03 and C08); the attribute database by its contract (C13).")

P(id="C25", title="Looking up a nickname shows its recorded details and nothing else",
  statement="Looking up a registered nickname shows the recorded nickname, address and every recorded detail, each exactly as recorded even at its greatest length, and no other "
            "memory; an unknown nickname is reported as such. Looking up changes nothing.",
  over=["inputs"], quant="nickname lengths, recorded details",
  why="The tests look up short nicknames with few details.",
  files=["server/access.c"], mech=[("nicklookup", "server/access.c")],
  level="other", note="Bounded: nicknames of 1, 11 and 12 characters, five patterns of recorded details, each with one text at its greatest length.")

P(id="C14", title="Only the admin commands the server",
  statement="Shutting the server down, restarting it, announcing to everyone and the log level are at the command only of a user who is admin with the admin password; a "
            "refused request is answered and changes nothing. A user is dropped only by the admin or by one who gives that user's own password, and exactly the named "
            "user is. An announcement reaches every logged-in user once, as given; a shutdown ends the server after the minutes given; a restart saves the state first.",
  over=["inputs", "histories"], quant="every requester, argument, password outcome and set of logged-in users",
  why="The tests issue each command once as admin; refusals for every requester and their side effects are not covered.",
  files=["server/s_admin.c", "server/access.c"],
  mech=[("check_auth", "server/access.c"), ("s_drop", "server/s_admin.c"), ("s_shutdown", "server/s_admin.c"), ("s_restart", "server/s_admin.c"), ("s_wall", "server/s_admin.c"), ("s_log", "server/s_admin.c")],
  level="other", note="4 users; enumerated arguments; every outcome of the callees' contracts. check_auth for every nickname and password. fork/execve are stand-ins.")

P(id="C17", title="Entering a group obeys its restrictions and keeps groups consistent",
  statement="Who asks to enter a group (by its name in any case, or that of a user in a visible group) is afterwards in it and in no other, exactly if it is not restricted or he is admin, "
            "its moderator, invited (by nickname or address, as the invitation demands registration or not) or booted there, and if it is not full; otherwise he stays where he was, is told, "
            "and nothing changes. A group that does not exist is made, as visible as asked, moderated by him unless it belongs to everyone. The members of both groups are told once unless the "
            "group is quiet; the moderator of a loud group hears of a refused attempt unless he hushes that user. A group exists exactly as long as it has members, and keeps its settings.",
  over=["inputs", "histories"], quant="every combination of invitations, registration, admin, mode, volume, visibility, size, moderator, old group and enumerated forms of the name",
  why="The tests enter a few groups as ordinary users; restrictions, limits and leftovers of the group left combine in ways they do not enumerate.",
  files=["server/s_group.c", "server/users.c", "server/groups.c"],
  mech=[("s_change", "server/s_group.c"), ("s_status_group", "server/s_group.c"), ("find_group", "server/groups.c"), ("count_users_in_group", "server/users.c")],
  level="other", note="3 users and the server's own entry, 3 groups, enumerated names; name lists and check_auth by their contracts (C10, C14).")

P(id="C18", title="Open messages reach exactly the members of the sender's group who accept them",
  statement="An open message, exactly as typed, reaches once every other member of the sender's group whose login is complete and who has not hushed the sender, the sender "
            "himself if he asked for an echo, and no one else; with /exclude also not the one excluded, and everyone who gets it is told of the exclusion first. In a quiet group "
            "no one may talk, in a controlled one only the moderator and those he allows; otherwise the sender is told why nothing was sent. Group announcements reach every "
            "member of that group once and nobody else. Who floods the default group is moved out of it. Before the login is complete nothing is sent.",
  over=["inputs", "histories"], quant="every membership, login state, echo and hush setting, group mode, moderator, sender and message count",
  why="The tests have two or three clients in one group; hush, echo, mode and membership combine in ways they do not enumerate.",
  files=["server/s_group.c", "server/msgs.c"],
  mech=[("s_send_group", "server/s_group.c"), ("s_exclude", "server/s_group.c"), ("s_status_group", "server/s_group.c"), ("openmsg", "server/msgs.c")],
  level="other", note="4 users, group names of at most 2 characters; name lists and packet sending by their contracts (C10, C03).")

P(id="C20", title="A group is run by its moderator, and by no one else",
  statement="Passing moderation on, booting a member, changing a group's mode, name, limits and messages, inviting to a restricted group, taking invitations back and giving or "
            "withdrawing the right to talk are done exactly when the one who asks is the moderator (for passing and booting also the admin; for mode and topic also anyone if the group "
            "has no moderator, for mode if it is public, within the documented exceptions), and then change exactly what was asked: the one named, the one list, the one setting. "
            "Everything else is refused with an error to the asker and changes nothing. Groups 1, the idlers' and the booted cannot be changed; names of groups stay unique; a limit out "
            "of range is refused. Members and those concerned are told, no one else.",
  over=["inputs", "histories"], quant="every asker and moderator, group mode, registration, list contents and enumerated argument form",
  why="The tests run each command once as moderator; refusals, side effects and option combinations are not covered.",
  files=["server/s_group.c"],
  mech=[("s_pass", "server/s_group.c"), ("s_boot", "server/s_group.c"), ("s_topic", "server/s_group.c"), ("s_invite", "server/s_group.c"), ("s_cancel", "server/s_group.c"), ("s_talk", "server/s_group.c"), ("s_status", "server/s_group.c"), ("set_name", "server/s_group.c")],
  level="other", note="3 users and the server's own entry, 2 groups, enumerated arguments, texts of at most 6 characters in the tables; check_auth by its contract (C14).")

P(id="C21", title="A lost connection leaves nothing of its user behind",
  statement="When a connection ends, the entry of its user is cleared completely (name, lists, permissions, away text, pending replies that would go to him), his sign-off time "
            "is recorded if he was logged in, those who asked to be notified are told once unless his group is supersecret, his group is told unless it is quiet and vanishes if "
            "he was its last member, and he moderates nothing any more: each group of his passes to its least idle member, or is held for him if he is registered. No other user "
            "or group changes. Connections marked for dropping, also those whose login failed, are dropped, and no others. Every packet goes to the handler of its type once, anything "
            "else is refused.",
  over=["inputs", "histories"], quant="every user, login state, membership, moderation, registration, notification list, packet type and outcome of the handlers",
  why="The tests close a client or two and look at the group; leftovers of an earlier user of the slot and moderation of several groups are not sampled.",
  files=["server/ipcf.c", "server/users.c", "server/groups.c", "server/dispatch.c"],
  mech=[("s_lost_user", "server/ipcf.c"), ("clear_user_item", "server/users.c"), ("clear_group_item", "server/groups.c"), ("s_didpoll", "server/ipcf.c"), ("dispatch", "server/dispatch.c")],
  level="other", note="2 users and the server's own entry, 2 groups, texts of at most 6 characters; dispatch for every packet type.")

P(id="C22", title="Idle limits of a group apply exactly when they are exceeded",
  statement="Exactly the users idle for longer than their group allows (never those among the idlers already) are told, announced unless the group is quiet, and moved to the "
            "idlers once. The moderator of a group that is not public loses it exactly when he is idle for longer than the group allows and a member present is less idle, or when the time "
            "a group was held for him is up; it then passes to the least idle member who is not away. Nobody is dropped for it.",
  over=["schedules", "histories"], quant="every clock value, last activity, limit, membership, moderator, away setting and group mode",
  why="The limits are minutes to hours long, the tests seconds.",
  files=["server/ipcf.c"],
  mech=[("s_didpoll", "server/ipcf.c")],
  level="other", note="2 users and the server's own entry, 2 or 3 groups; every time and limit below 10^5..10^6 s; moving is a stand-in for s_change.")
