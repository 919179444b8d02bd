"""Titles, statements and anchors of the properties: source of properties.jsonl and MANIFEST.json."""
PT = {}
NA = {}
def p(id, title, statement, qtext, why, files, mech, over=("inputs",)):
    PT[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))

p("C01", "Bounded string building never overruns and cuts only when it must",
  "Copying or concatenating one to five strings into a destination of a given size, or appending one or two strings to a string already there, never touches a byte outside the destination and always leaves it terminated. The result is exactly the concatenation of the pieces, cut to size minus one characters only when it does not fit.",
  "all destination sizes, all string contents and lengths, all previous contents",
  "Buffer overruns and wrong cuts appear only for lengths around the capacity; the tests copy a few fixed short strings.",
  ["src/common/misc.c"], [("str_copy, str_copy2..str_copy5", "src/common/misc.c"), ("str_append, str_append2", "src/common/misc.c")])
p("P01", "Packet header: on-disk layout and lossless round trip",
  "A written packet header is exactly the 58 byte little-endian layout of FTN type 2+ packets: origin and destination zone, net, node and point, date, packet type 2, product code, capability word with its byte-swapped copy, and password each at its place, with the net number of a point's packet as the format prescribes. Reading a header recovers every address, date and password that writing put there; a header that is cut short or not of type 2 is refused, and other variants are read with the addresses their fields give.",
  "all origin and destination addresses, dates and passwords; all 58 byte headers",
  "The header has more than twenty fields with conditional meaning; tests check a couple of sample packets.",
  ["src/common/packet.c"], [("pkt_put_hdr, pkt_put_hdr_raw", "src/common/packet.c"), ("pkt_get_hdr", "src/common/packet.c"), ("pkt_put_int16, pkt_get_int16", "src/common/packet.c")])
p("P02", "Packed message header: layout, kludges and reading back",
  "Writing a message header produces the message type word, node, net, attribute and cost words in little endian, the 19 character date, and recipient, sender and subject as terminated strings of at most 35, 35 and 71 characters; then an AREA line for echomail, or for netmail the zone, to-point and from-point lines when they are needed. Reading a message header takes these fields from the packet in the same order, restores addresses and attributes, and signals an incomplete header.",
  "all addresses, attributes, costs, dates and header strings of any length; all header byte sequences",
  "Overlong strings, unusual zones and points and odd attribute bits are not in the test packets.",
  ["src/common/packet.c"], [("pkt_put_msg_hdr", "src/common/packet.c"), ("pkt_get_msg_hdr", "src/common/packet.c"), ("pkt_put_date, pkt_get_date", "src/common/packet.c")])
p("P03", "Strings and lines of any length pass through packets intact",
  "Reading a terminated string from a packet takes at most the space given, always terminates the result, returns exactly the bytes up to the terminator, and reports a missing terminator or an overlong string. Writing a text line puts out exactly its characters with the line end converted to a single CR, however long the line is, losing none and adding none.",
  "all byte sequences and lengths, all buffer sizes, all lines",
  "Off-by-one errors at the buffer size and at the end of file show only at exact lengths.",
  ["src/common/packet.c"], [("pkt_get_string", "src/common/packet.c"), ("pkt_put_line", "src/common/packet.c")])
p("A01", "FTN addresses print and parse consistently",
  "Every FTN address, with wildcards or missing parts allowed, prints as [zone:]net/node.point[@domain] and parses back to the same address. A string is accepted as an address exactly when it has the form [[zone:]net/]node[.point][@domain], or is one of *, all or world; numbers are read in full and ones that are too large are refused. A full address is required where the program needs one: the default zone and point 0 are filled in, and wildcards and missing net or node are refused.",
  "all addresses with 16 bit parts, wildcards and empty parts; all strings; numerals of any length",
  "There are 2^64 addresses and any string may stand in a configuration or message; tests parse a handful.",
  ["src/common/parsenode.c", "src/common/node.c"], [("znfp_parse_partial, znfp_get_number", "src/common/parsenode.c"), ("str_znfp_print, znfp_put_number", "src/common/parsenode.c"), ("asc_to_node", "src/common/node.c")])
p("A02", "Abbreviated addresses stand for exactly one full address",
  "An address written in the short form used in SEEN-BY and PATH lines leaves out precisely the leading parts it shares with the address before it, and reading that text against the same previous address gives the address back. When an abbreviated address is read, missing zone, net and node come from the previous address, a missing point is 0, and wildcards or still incomplete addresses are refused.",
  "all pairs of previous and next addresses with 16 bit parts; all abbreviated forms",
  "The outcome depends on which of four fields agree between two addresses; lists in tests use one net.",
  ["src/common/node.c", "src/common/parsenode.c"], [("node_to_asc_diff", "src/common/node.c"), ("asc_to_node_diff", "src/common/node.c"), ("znfp_parse_diff", "src/common/parsenode.c")])
p("A03", "Comparing and matching FTN addresses",
  "Two addresses are equal exactly when zone, net, node and point agree (or, for the comparison without points, zone, net and node), and the ordering is a total order by zone, net, node and point. A pattern matches an address exactly when each part of the pattern is a wildcard or equals that part of the address (for routing patterns a missing part matches too).",
  "all pairs and triples of addresses and patterns",
  "Laws of an order over all triples and of matching over all patterns cannot be sampled.",
  ["src/common/node.c", "src/common/routing.c", "src/common/parsenode.c"], [("node_cmp, node_eq, node_np_eq", "src/common/node.c"), ("node_match", "src/common/routing.c"), ("wild_compare_node", "src/common/parsenode.c")])
p("A04", "Domain style node names (p.f.n.z) stand for exactly one address",
  "An FTN address becomes fNODE.nNET.zZONE, with pPOINT in front when the point is not 0, and that text reads back as the same address. A text is accepted exactly when it is a dot separated sequence of p, f, n and z labels with plain numbers that gives node and net; a missing zone is the default zone and a missing point is 0.",
  "all addresses with 16 bit parts; all strings",
  "Label order, letter case, duplicates and malformed labels form an unbounded input space; tests do not cover this code.",
  ["src/common/node.c"], [("node_to_pfnz", "src/common/node.c"), ("pfnz_to_node", "src/common/node.c")])
p("W01", "Wildcard patterns match exactly what they say",
  "A pattern matches a whole string exactly when the string can be cut up to fit it: * stands for any characters including none, ? for one character, [..] and [^..] for one character inside or outside the set with ranges, a backslash takes the next character literally, everything else stands for itself, with letter case ignored when asked. No pattern, however malformed, makes the matcher read outside pattern or string, and it always ends.",
  "all patterns and strings",
  "Backtracking over several stars and malformed bracket sets give unboundedly many cases; tests try none.",
  ["src/common/wildmat.c"], [("wildmatch, wildmat, wildmatch_case", "src/common/wildmat.c"), ("is_wildcard", "src/common/wildmat.c")])
p("N01", "Lists of node addresses behave as sequences and survive printing",
  "Adding, removing, joining and deleting keep a list of addresses in its order with a correct count and without leaks or stale pointers. An address is found exactly when it is in the list (or matches a pattern in it), and is an uplink exactly when it stands among the first ones. A list printed in abbreviated form and read back gives the same addresses in the same order; sorted printing gives each address once in ascending order; passive printing gives every address with its mark.",
  "all lists of addresses, all addresses",
  "Pointer errors show only for particular positions and orders of operations; printing depends on each address's predecessor.",
  ["src/common/node.c"], [("lon_add, lon_remove, lon_join, lon_delete, lon_search", "src/common/node.c"), ("lon_print, lon_print_sorted, lon_print_passive, lon_add_string", "src/common/node.c")])
p("T01", "Text line lists keep every line in order",
  "Adding, removing, clearing, appending and moving lines between lists keeps exactly the lines in their order, with correct first and last line, links in both directions and count; copies are independent of the original. Reading a list character by character through the iterator, with any buffer size and any number of calls, delivers the concatenation of its lines. A header line is found by its name without regard to case, and its text returned.",
  "all lists, all sequences of operations, all buffer sizes",
  "Message bodies pass through these lists; a lost line or stale pointer shows only for particular orders and sizes.",
  ["src/common/textlist.c"], [("tl_add, tl_remove, tl_delete, tl_append, tl_addtl, tl_addtl_move", "src/common/textlist.c"), ("tl_char_iterator_next, tl_iterator_next", "src/common/textlist.c")])
p("K01", "Checksums equal the standard CRCs for every input",
  "The CRC-32 of a buffer, string or file is the standard CRC-32 (reflected polynomial EDB88320, initial value and final complement all ones) of exactly its bytes, CRC-16 and CRC-16 CCITT steps follow their polynomials, independent of how the data is split into pieces.",
  "all byte sequences of any length",
  "A wrong table entry or a byte left out affects few inputs; tests compare a few strings.",
  ["src/common/crc32.c", "src/common/crc16.c"], [("crc32_update, compute_crc32, crc32_compute, crc32_file", "src/common/crc32.c"), ("crc16_update, crc16_update_ccitt", "src/common/crc16.c")])
p("E01", "SEEN-BY and PATH lines hold exactly the node lists",
  "The SEEN-BY and PATH lines written for a list of nodes name exactly its nodes (points only when 4D echomail is on): SEEN-BY in ascending order, PATH in the order given. No line is longer than 76 characters, each ends with CR LF, begins with its keyword, and can be read on its own; reading the lines gives the nodes back. Reading lines from other software takes every readable address in order, with the abbreviated notation starting afresh on each line, and skips words that are no addresses.",
  "all lists of nodes, all line layouts",
  "Lines break and abbreviate depending on all addresses before; tests use a couple of short lists.",
  ["src/toss/ftntoss.c"], [("lon_to_kludge, lon_to_kludge_sorted", "src/toss/ftntoss.c"), ("kludge_to_lon", "src/toss/ftntoss.c")])
p("E02", "Echomail goes once to every linked node not reached yet, and never loops",
  "A copy goes to exactly those nodes of the area that are not in SEEN-BY, are not the sender, are not passive and are not among the first uplinks excluded by the area's setting; each gets one complete copy, addressed to it and coming from us, and a zone gate gets its own SEEN-BY. The nodes sent to are added to SEEN-BY. Our address ends PATH, added only if it is not there already; a message whose PATH names one of our addresses anywhere before the end is recognised as circular. DeleteSeenBy and DeletePath remove exactly their configured nodes.",
  "all SEEN-BY, PATH, area and passive lists and addresses",
  "Who gets a copy depends on relations among all lists and addresses; a wrong case makes duplicates or losses in the network that single-message tests do not show.",
  ["src/toss/ftntoss.c"], [("do_seenby", "src/toss/ftntoss.c"), ("toss_echomail", "src/toss/ftntoss.c"), ("do_path, do_check_path, do_4dpoint", "src/toss/ftntoss.c"), ("do_deleteseenby, do_deletepath", "src/toss/ftntoss.c")])
p("E03", "Only valid, new and authorised echomail is passed on; nothing is lost silently",
  "An echomail message is passed on exactly when it has an origin address, its packet password is right, its area is known (or may be created by the sender), it is no duplicate, not too old, addressed to us, comes from a node linked to the area and is not circular, as far as each check is enabled. Otherwise it goes unchanged to the bad messages, unless the configuration says that kind is to be killed, and nobody gets a copy. The history records a message exactly when it is new and comes from a linked node; its key is the area and the message id, or sender, date and checksum where allowed. Before passing on, sender, recipient and AddToSeenBy nodes are in SEEN-BY and PATH shows the sender and then us.",
  "all messages, addresses, areas and combinations of configuration switches",
  "More than fifteen independent conditions and switches decide; the tests cover none of them.",
  ["src/toss/ftntoss.c"], [("do_echomail", "src/toss/ftntoss.c"), ("do_bad_msg, do_unknown_area", "src/toss/ftntoss.c")])
p("M01", "Netmail is readdressed by the rules and dropped only when it must be",
  "A netmail's sender is rewritten by the first rewrite rule that applies and its recipient remapped by the first remap rule that applies, where wildcard or missing parts of the new address keep the old part. It is then passed on complete, to its new recipient, from our address for that recipient, with one Via line and with the flavour of its crash and hold flags. It is dropped only if it was remapped to 0:0/0.0, or is empty, addressed to us and empty mail is to be killed (pings excepted). Failure to write is reported.",
  "all addresses, rule lists, names, attributes and switches",
  "Rule order, wildcards and flags multiply; tests do not cover netmail processing.",
  ["src/toss/ftntoss.c"], [("do_rewrite, do_remap, change_addr", "src/toss/ftntoss.c"), ("do_netmail, check_empty", "src/toss/ftntoss.c"), ("node_match", "src/common/routing.c")])
p("F01", "Every message of an input packet is processed once, and no packet is lost",
  "Each message of a packet is read and handed on exactly once: mail with an AREA line as echomail with the packet's addresses and the origin address found in its Origin or MSGID, other mail as netmail with the addresses of its kludges; netmail of a spied node is forwarded once more as a marked copy. The packet file is removed only after everything in it was processed; an unreadable packet or one on which processing failed is kept under another name, and processing failures are reported. No file is left open.",
  "all packets, all outcomes of each step, including failing ones",
  "Losing or repeating mail shows only when a particular step fails; tests never make one fail.",
  ["src/toss/ftntoss.c"], [("unpack", "src/toss/ftntoss.c"), ("unpack_file", "src/toss/ftntoss.c")], over=("inputs", "histories"))
p("B01", "A message body is taken apart and put together without losing text",
  "Reading a message body, every line comes out complete and in order, only 0 bytes are dropped, and the body ends exactly at its end mark. Kludges, the first AREA line, leading RFC headers, text, last tear line and Origin, and SEEN-BY, PATH or Via lines each go to their part in order; up to two blank lines before the text are dropped, and all text before the SEEN-BY, PATH or Via lines is kept, also a last line without line end, and tear lines and Origins that text follows. Missing SEEN-BY and PATH of echomail name us. A body without any control line is refused, as is one that cannot be read. Writing puts all parts unchanged in order, then the end mark.",
  "all bodies, all orders of kinds of lines, all line lengths",
  "What happens to a line depends on all lines before it; the tests do not parse bodies.",
  ["src/common/message.c"], [("pkt_get_line", "src/common/message.c"), ("pkt_get_body_parse", "src/common/message.c"), ("msg_put_msgbody, msg_xlate_line", "src/common/message.c")])
p("K02", "Addresses in kludges, Origin and MSGID are the ones used",
  "A kludge is found exactly if a line starts with its name after ^A, ignoring case, followed by blank or colon; the first one counts and its value starts after the separator. INTL gives the recipient's and then the sender's address, as far as they can be read, FMPT and TOPT their points; these kludges are removed if asked for, others are not. The origin address is the one in the last parentheses of the Origin line, from its first digit on, or the first word of the MSGID; anything else is no address.",
  "all kludge lines and Origin lines",
  "Where mail goes and comes from is decided by these lines, which other software writes in many ways.",
  ["src/common/kludge.c", "src/common/message.c"], [("kludge_get", "src/common/kludge.c"), ("kludge_pt_intl", "src/common/kludge.c"), ("msg_parse_origin, msg_parse_msgid", "src/common/message.c")])
p("G01", "The address used is ours that is closest to the destination",
  "For a destination, our address is the first configured one with its zone, net and node, else with its zone and net, else with its zone, else the first one, together with that address' uplink; setting the zone picks by zone only. Domains and outbound directory are those of the zone; unknown zones get the default domains and no outbound. Walking addresses or zones gives each once, in order. For gateways GateAddress, where given, becomes our address and Address its uplink; without Uplink and GateAddress our address is its own uplink.",
  "all lists of up to 32 addresses and zones, all destinations",
  "Which of several addresses matches best depends on all of them; tests configure one or two.",
  ["src/common/config.c"], [("cf_get_best, cf_set_best", "src/common/config.c"), ("cf_zones_inet_domain, cf_zones_out", "src/common/config.c"), ("cf_i_am_a_gateway_prog", "src/common/config.c")], over=("inputs", "configurations"))
p("G02", "Every configuration line takes effect exactly as written",
  "A configuration line changes just what its keyword, in any case, says: Address, Uplink, GateAddress, Zone and DosDrive each add one entry to their own list unless it is full or the line incomplete or its address unreadable; Gateway, Hostname, Domain (also the default for HostsDomain) and HostsDomain set theirs, with a leading dot; include reads the file. Every other line is kept, and asking for its keyword gives the values of all its lines in order.",
  "all configuration lines, all fillings of the lists",
  "Incomplete lines, full lists and repeated keywords are not covered by tests.",
  ["src/common/config.c"], [("cf_do_line", "src/common/config.c"), ("cf_get_string", "src/common/config.c")], over=("inputs", "configurations"))
p("R01", "Internet addresses and FTN addresses are translated by the rules",
  "An Internet address is taken apart into user, domain and real name from the forms user@domain (Name), Name <user@domain>, host!user, user%domain and a bare user, without the quotes and spaces around the name. An FTN name becomes one user word (control characters and spaces replaced, quoted when it must be), with the name itself as real name. A node becomes its registered host name, with its point where wanted, or else its p.f.n.z name in the domain of its zone; back, a name is looked up in the hosts, then tried as p.f.n.z in our own domains, and anything else is no FTN address. An address is local exactly when it has no domain or ours.",
  "all addresses, names and nodes; all outcomes of the lookups",
  "Brackets, quotes, spaces and separators combine freely; gateway replies go astray on one wrong combination, and no test covers this code.",
  ["src/common/rfcaddr.c", "src/common/address.c", "src/common/hosts.c"], [("rfcaddr_from_rfc, rfcaddr_from_ftn, s_rfcaddr_to_asc", "src/common/rfcaddr.c"), ("str_ftn_to_inet, inet_to_ftn, addr_is_local, addr_is_domain", "src/common/address.c"), ("hosts_lookup", "src/common/hosts.c")])
p("S01", "Temporary strings hold the whole text and can be freed in any order",
  "A temporary string made by printing holds every character of the text, whatever its length. Each temporary string stays listed and unchanged until it is freed; freeing any of them, by structure or by text, in any order, leaves the others in place and the list ready for further strings; freeing all leaves none.",
  "all texts of any length; all orders of making and freeing strings",
  "Texts longer than the first buffer and freeing the newest string are rare in tests; losing text or a stale pointer hits every caller.",
  ["src/common/tmps.c"], [("tmps_printf, s_printf", "src/common/tmps.c"), ("tmps_alloc, tmps_free, s_free, tmps_freeall", "src/common/tmps.c")], over=("inputs", "histories"))
p("D01", "AREAS.BBS is read and rewritten without loss, whatever call fails",
  "Every line of AREAS.BBS after the first becomes one area with exactly the options, linked nodes and passive nodes written on it, whatever their order; a missing argument is empty, incomplete lines are skipped. Printing the list gives the first line and then each area with every option that is set, quoted so that it is read back. Rewriting happens only after a change; success is reported exactly if the new list is in place, and after every single step, whichever calls fail, a complete list is on disk, the list in place is never a partial one, and older copies move up by one.",
  "all sequences of options, nodes and lines; all patterns of failing system calls; every crash point between calls",
  "A lost option or a destroyed list cuts off links; failing calls and crash points in the middle of a rewrite cannot be produced by tests.",
  ["src/common/areasbbs.c", "src/common/strtok_r.c"], [("areasbbs_parse_line, areasbbs_init, areasbbs_print", "src/common/areasbbs.c"), ("areasbbs_rewrite", "src/common/areasbbs.c"), ("areasbbs_add, areasbbs_remove1, areasbbs_chstate", "src/common/areasbbs.c"), ("strtok_r_ext", "src/common/strtok_r.c")], over=("inputs", "crash_points", "fault_sequences", "histories"))
p("X01", "AreaFix changes areas only for authorized nodes, and exactly as asked",
  "A node is authorized exactly when it gave the password of its entry (or none is needed), and gets exactly the level, key, limits and privileges of that entry; without that no command changes anything. Every command line selects one command and its argument. SUBSCRIBE, UNSUBSCRIBE, PASSIVE, ACTIVE, NEW and DELETE change exactly the matching areas the node may access, within its limits, link or unlink only the asking node, mark AREAS.BBS as changed exactly if something changed, and ask the uplink exactly when needed; each request reaches its uplink once, in one message per uplink.",
  "all combinations of areas, memberships, levels, keys, limits and states; all password entries; all command words and requests",
  "A privilege escalation or a wrongly dropped link needs particular combinations of configuration, membership and earlier commands that tests do not enumerate.",
  ["src/areafix/areafix.c"], [("areafix_auth_check, cmd_passwd", "src/areafix/areafix.c"), ("areafix_do, areafix_do_cmd", "src/areafix/areafix.c"), ("cmd_sub, cmd_unsub, cmd_passive, cmd_active, cmd_delete, cmd_new", "src/areafix/areafix.c"), ("send_request", "src/areafix/areafix.c")], over=("inputs", "configurations", "histories"))
p("O01", "Outbound files go to the right node, and no file attached is lost or sent twice",
  "The name of a node's outbound files and BSY file follows from its address, zone and outbound style alone; an existing file of the node is used before a new one is made, whatever its flavor. A FLO file opened is locked and is the file that has the name, whatever other programs create and delete in between; the node is left busy exactly by a successful open that asked for it. Attaching adds one complete entry with its mode unless the file already waits there, and reports success only if the entry was written. Reading gives every entry in order, marking changes only the first byte of the entry read last. ftnflo removes or truncates a file only after its command succeeded and deletes the FLO file only when nothing in it is left to send.",
  "all addresses, sets of existing files, interleavings with other programs while opening, failing calls, FLO file contents",
  "A FLO file or BSY file lost between two programs, or an entry not written, loses mail without a trace; tests see neither.",
  ["src/common/binkley.c", "src/common/flo.c", "src/util/ftnflo.c"], [("bink_out_name, bink_find_flo, bink_attach", "src/common/binkley.c"), ("flo_openx, flo_gets, flo_mark, flo_close", "src/common/flo.c"), ("do_flo", "src/util/ftnflo.c")], over=("inputs", "schedules", "fault_sequences"))
p("L01", "Locks are held by one program at a time, and no sequence number comes twice",
  "Whatever other programs and signals do in between, a lock is reported as got only if the lock file was created by this program, exclusively, and names its process; the lock of a live program is never overwritten or removed, a stale one is replaced, and without success no lock file is left behind; releasing a lock removes exactly that file. A file lock counts as held only when it is. A sequence number returned is one more than the highest number handed out so far and is in the file before the file is unlocked; where that fails the caller gets an error, not a number.",
  "all interleavings with the steps of other programs at every system call; all failing calls and signals",
  "Races between programs and failing system calls cannot be scheduled by tests, yet double locks destroy packets and repeated numbers overwrite files.",
  ["src/common/lock.c", "src/common/sequencer.c"], [("lock_lockfile, check_stale_lock", "src/common/lock.c"), ("lock_fd, unlock_fd", "src/common/lock.c"), ("sequencer_nx", "src/common/sequencer.c")], over=("schedules", "fault_sequences", "histories"))
