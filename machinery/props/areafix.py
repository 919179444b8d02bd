from ..specs import U, P
SRC = ["src/common/%s.c" % x for x in "node misc textlist".split()]
AR = "lon_search:stub_search lon_add:stub_add lon_remove:stub_remove areasbbs_first:stub_first wildmatch:stub_wild is_wildcard:stub_iswild areasbbs_changed:stub_changed areasbbs_remove1:stub_rm1 uplinks_line_get:stub_line areasbbs_isstate:stub_isst areasbbs_chstate:stub_chst tl_appendf:stub_req str_upper:stub_upper send_rules:stub_rules snprintf:stub_snp str_append:stub_app time:stub_time znfp1:vf_zlog znf1:vf_zlog"
ST = ["lon_search, lon_add, lon_remove: membership in a list of nodes (N01)", "wildmatch, is_wildcard: a pattern matches an area or not (K01)", "areasbbs_first, areasbbs_remove1, areasbbs_isstate, areasbbs_chstate, areasbbs_changed: D01", "uplinks_line_get: an uplink entry or none", "tl_appendf: records the request to the uplink", "send_rules, time, snprintf: no effect on areas"]
Z = " znfp1:vf_zlog znf1:vf_zlog"
def u(name, fns, rep, **k):
    k.setdefault("unwind", 25); k.setdefault("native_bound", 12); k.setdefault("timeout", 300)
    return U(name, "areafix.c", k.pop("entry", "h_" + name), fns, src=k.pop("src", SRC), replace=[tuple(x.split(":")) for x in rep.split()], unwindset=["vf_node.0:34"], **k)
AREAS = dict(bound_text="lists of at most two areas, keys of at most two characters", stubs=ST)
DISP = "cf_get_string:s_cf cmd_list:s_list cmd_query:s_query cmd_unlinked:s_unl cmd_sub:s_sub cmd_unsub:s_unsub cmd_help:s_help cmd_passwd:s_pw cmd_listall:s_all cmd_new:s_new cmd_delete:s_del cmd_passive:s_pas cmd_active:s_act areafix_tlprintf:stub_pr" + Z
def disp(lo, hi):
    return u("disp%d" % lo, ["areafix_do_cmd"], DISP, entry="h_disp", unwind=30, defs=["DLO=%d" % lo, "DHI=%d" % hi], bound_text="the command words, followed by at most three blanks and an argument", stubs=["cmd_*: record which command is carried out, with what argument"])
def send(lo, hi):
    return u("send%d" % lo, ["send_request"], "asc_to_node:sr_a2n cf_set_best:sr_setbest cf_n_addr:sr_naddr_s tl_appendf:sr_appendf outpkt_netmail:sr_netmail cf_p_outpkt:sr_outpkt pkt_outdir:sr_outdir areafix_name:sr_afname time:stub_time strsave:sr_save tl_append:sr_append tl_clear:sr_clear" + Z, entry="h_send", unwind=26, defs=["CLO=%d" % lo, "CHI=%d" % hi], src=SRC + ["src/common/strtok_r.c"],
             bound_text="at most three requests to three uplinks, one address beginning with another", stubs=["outpkt_netmail: records the message", "asc_to_node: the address (A01)", "tl_append, tl_appendf, tl_clear, strsave: text kept"])
def new(lo, hi):
    return u("new%d" % lo, ["cmd_new"], "xstrtok:nw_xtok areasbbs_lookup:nw_lookup areafix_check_forbidden_area:nw_forbidden cf_get_string:nw_get areasbbs_new:nw_new areasbbs_add:nw_add lon_add:nw_lon run_system:nw_run asc_to_node_diff:nw_diff asc_to_node:nw_asc areasbbs_changed:stub_changed str_upper:stub_upper strsave:sr_save snprintf:stub_snp time:stub_time atoi:nw_atoi" + Z, entry="h_new", unwind=26, defs=["OLO=%d" % lo, "OHI=%d" % hi],
             bound_text="NEW with at most two options, echo areas", stubs=["xstrtok: the words of the command and of the configured list (words)", "areasbbs_lookup, areasbbs_new, areasbbs_add: D01", "areafix_check_forbidden_area, cf_get_string, run_system: any outcome", "asc_to_node, asc_to_node_diff: an address or not (A01)"])
PROPS = {
    "X01": P(units=[
        u("auth", ["areafix_auth_check", "areafix_auth_init"], "passwd_lookup:stub_pwl xstrtok:stub_tok strsave:stub_save strcasecmp:stub_ci atoi:stub_atoi" + Z, unwind=12, bound_text="password entries with at most four words, keys of at most three characters", stubs=["passwd_lookup: an entry or none", "strcasecmp: equal or not", "xstrtok: the words of the entry (words)"]),
        u("cpw", ["cmd_passwd"], "strtok:stub_stk asc_to_node:stub_a2n areafix_auth_check:stub_auth cf_set_zone:stub_setz" + Z, unwind=12, mode="complete", stubs=["areafix_auth_check: its contract (auth)", "asc_to_node: an address or not (A01)", "strtok: the words"]),
        u("do", ["areafix_do"], "strtok:stub_stk areafix_auth_check:s_authc areafix_do_cmd:s_do send_request:s_send cmd_query:s_q cmd_list:s_l strip_space:s_strip strip_crlf:s_crlf" + Z, unwind=12, bound_text="messages of at most two lines of at most five characters", stubs=["areafix_auth_check: its contract (auth)", "areafix_do_cmd: its contract (disp)", "send_request, cmd_query, cmd_list: recorded", "strip_space, strip_crlf: the line as it is"]),
        disp(0, 6), disp(7, 13), disp(14, 20), disp(21, 26),
        u("sub", ["cmd_sub"], AR, **AREAS),
        u("unsub", ["cmd_unsub"], AR, **AREAS),
        u("passive", ["cmd_passive"], AR, **AREAS),
        u("active", ["cmd_active"], AR, **AREAS),
        u("delete", ["cmd_delete"], AR, **AREAS),
        u("unauth", ["cmd_sub", "cmd_unsub", "cmd_passive", "cmd_active", "cmd_delete", "cmd_new"], AR + " areasbbs_new:stub_new areasbbs_add:stub_aadd areasbbs_lookup:stub_lookup", **AREAS),
        send(0, 6), send(7, 12), send(13, 20), send(21, 27),
        new(0, 13), new(14, 26),
    ]),
}
