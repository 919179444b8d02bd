from ..specs import U, P
TS = ["src/common/%s.c" % x for x in "node parsenode routing misc tmps textlist".split()]
LG = [(x, "vf_zlog") for x in "znfp1 znfp2 znfp3 znf1 znf2 nf1".split()]
DIFF = [("node_to_asc_diff", "stub_to_diff"), ("asc_to_node_diff", "stub_from_diff")]
LOGS = "znfp1 etc. in log messages: text not considered"
CFS = "cf_* (configuration): our addresses and zone are arbitrary"
OUT = "outpkt_open, pkt_put_msg_hdr, msg_put_msgbody: record of the calls (headers and bodies themselves: P01-P03, B01)"
def u(name, fns, **k):
    k.setdefault("mode", "bounded"); k.setdefault("bound", 3); k.setdefault("native_bound", 3); k.setdefault("unwind", 12)
    k.setdefault("replace", LG); k.setdefault("stubs", [LOGS, CFS]); k.setdefault("entry", "h_" + name)
    src = TS + ["src/common/%s.c" % x for x in k.pop("more", [])]
    return U(name, k.pop("file", "toss.c"), k.pop("entry"), fns, src=src, **k)
ECHO = LG + [("kludge_to_lon", "stub_k2l"), ("lon_to_kludge_sorted", "stub_ws"), ("lon_to_kludge", "stub_wp"), ("tl_appendf", "stub_appendf"),
       ("do_4dpoint", "stub_4d"), ("do_seenby", "stub_seenby"), ("do_deleteseenby", "stub_delseen"), ("do_deletepath", "stub_delpath"),
       ("do_path", "stub_path"), ("do_check_path", "stub_check"), ("toss_echomail", "stub_toss"), ("do_bad_msg", "stub_bad")]
def e(i):
    return u("echomail%d" % i, ["do_echomail", "do_unknown_area"], entry="h_echomail", defs=["SAVELEN=32", "ECHO_CASE=%d" % i], replace=ECHO, unwind=70,
             more=["kludge", "crc32", "wildmat", "xstrnlen"], bound_text="area with at most 2 nodes and 1 passive node; SEEN-BY of at most 1, PATH of at most 2 nodes as received; all switches, addresses and outcomes of the lookups unrestricted",
             stubs=[LOGS, CFS, "do_4dpoint, do_seenby, do_deleteseenby, do_deletepath, do_path, do_check_path, toss_echomail: their contracts (units of E02)",
                    "kludge_to_lon, lon_to_kludge, lon_to_kludge_sorted: their contracts (units of E01)", "areasbbs_lookup, passwd_lookup, areafix_*, cmd_new_int, hi_test, hi_write, msg_parse_origin: any outcome"])
PROPS = {
    "E01": P(units=[
        u("put_path", ["lon_to_kludge"], entry="h_put", unwind=170, defs=["VF_STUB_DIFF", "VF_TOKMAX=36"], replace=DIFF + LG, sat="cadical", weight=5,
          stubs=[LOGS, CFS, "node_to_asc_diff, asc_to_node_diff: texts that read back (A02)"], bound_text="lists of at most 4 nodes; lengths of their texts around the line limit"),
        u("put_seenby", ["lon_to_kludge_sorted", "lon_sort"], entry="h_put", unwind=170, defs=["VF_STUB_DIFF", "VF_TOKMAX=36", "SORTED"], replace=DIFF + LG, weight=4,
          stubs=[LOGS, CFS, "node_to_asc_diff, asc_to_node_diff: texts that read back (A02)", "qsort: sorts by the comparison function"], bound_text="lists of at most 2 nodes; lengths of their texts around the line limit"),
        u("get", ["kludge_to_lon"], unwind=170, defs=["VF_STUB_DIFF", "VF_TOKMAX=36"], replace=DIFF + LG, stubs=[LOGS, CFS, "node_to_asc_diff, asc_to_node_diff: texts that read back (A02)"],
          bound_text="at most 2 lines of at most 2 words; a selection of layouts, addresses unrestricted"),
    ]),
    "E02": P(units=[
        u("seenby", ["do_seenby", "lon_search", "lon_search_echo"], bound=2, bound_t=3, sat="cadical", weight=6, bound_text="SEEN-BY of at most 2, area of at most 2 (thorough 3) nodes, 1 passive node, addresses unrestricted"),
        u("point", ["do_4dpoint", "do_path"], bound_text="lists of at most 2 nodes"),
        u("circ", ["do_check_path", "is_local_addr"], bound_text="PATH of at most 4 nodes, at most 2 own addresses"),
        u("delete", ["do_deleteseenby", "do_deletepath"], bound_text="lists of at most 3 nodes, at most 2 configuration lines"),
        u("toss", ["toss_echomail"], defs=["SAVELEN=8"], replace=LG + [("lon_to_kludge_sorted", "stub_sorted")], stubs=[LOGS, CFS, OUT, "lon_to_kludge_sorted: units of E01"], weight=4,
          bound_text="at most 3 recipients, 1 passive node, 1 zone gate"),
    ]),
    "E03": P(units=[e(i) for i in range(5)]),
}
def n(name, fns, rep=(), **k):
    k.setdefault("stubs", [LOGS, CFS]); k.setdefault("defs", ["SAVELEN=16"])
    return u(name, fns, file="netmail.c", replace=LG + [tuple(x.split(":")) for x in rep], **k)
WM = "wildmatch: any outcome per rule and name (what it decides: W01)"
PROPS["M01"] = P(units=[
    n("rewrite", ["do_rewrite", "change_addr", "node_match"], ["wildmatch:stub_wild"], stubs=[LOGS, WM], bound_text="at most 3 rules; addresses, patterns and match outcomes unrestricted"),
    n("remap", ["do_remap", "change_addr", "node_match"], ["wildmatch:stub_wild"], stubs=[LOGS, WM], bound_text="at most 3 rules; addresses, patterns and match outcomes unrestricted"),
    n("empty", ["check_empty"], bound_text="at most 2 body lines of at most 2 characters"),
    n("netmail", ["do_netmail"], "do_rewrite:stub_rewrite do_remap:stub_remap check_empty:stub_empty kludge_get:stub_kget add_via:stub_via is_local_addr:stub_local ping_generate_reply:stub_pingr".split(),
      mode="complete", unwind=20, stubs=[LOGS, CFS, OUT, "do_rewrite, do_remap, check_empty, is_local_addr: their contracts (other units)", "add_via, ping_generate_reply, kludge_get: calls recorded"]),
])
PROPS["F01"] = P(units=[
    n("unpack", ["unpack"], "str_printf:stub_printf pkt_get_int16:stub_int16 xfeof:stub_xfeof pkt_get_msg_hdr:stub_gethdr pkt_get_body_parse:stub_getbody kludge_pt_intl:stub_ptintl spyes_lookup:stub_spy msg_parse_origin:stub_origin msg_parse_msgid:stub_msgid kludge_get:stub_kget2 do_netmail:stub_netmail do_echomail:stub_echomail feof:stub_feof".split(),
      unwind=74, weight=3, bound_text="packets of at most 2 messages; all addresses, kinds of message and outcomes of every step unrestricted",
      stubs=[LOGS, "pkt_get_int16, pkt_get_msg_hdr, pkt_get_body_parse, xfeof, feof: the packet, any outcome (P02, P03, B01)", "kludge_pt_intl, msg_parse_origin, msg_parse_msgid, kludge_get, spyes_lookup: any outcome",
             "do_netmail, do_echomail: any outcome (M01, E03)"]),
    n("unpack_file", ["unpack_file"], "pkt_get_hdr:stub_getpkt unpack:stub_unpack rename_bad:stub_rename_bad check_size:stub_size fopen:stub_fopen fclose:stub_fclose unlink:stub_unlink GetTimeInfo:stub_time fglog:stub_log".split(),
      mode="complete", unwind=20, stubs=["fopen, fclose, unlink, rename_bad, check_size, GetTimeInfo: calls recorded, any outcome", "pkt_get_hdr, unpack: any outcome (P01, unit unpack)"]),
])
