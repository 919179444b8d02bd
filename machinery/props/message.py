from ..specs import U, P
TS = ["src/common/%s.c" % x for x in "node parsenode routing misc tmps textlist strtok_r".split()]
LG = [(x, "vf_zlog") for x in "znfp1 znfp2 znfp3 znf1 znf2 nf1".split()]
def u(name, fns, rep="", **k):
    k.setdefault("mode", "bounded"); k.setdefault("bound", 6); k.setdefault("native_bound", 8); k.setdefault("unwind", 40)
    return U(name, "message.c", k.pop("entry", "h_" + name), fns, src=TS, replace=LG + [tuple(x.split(":")) for x in rep.split()], **k)
PR = "pkt_get_line:stub_line feof:stub_feof2 tl_append:stub_append tl_clear:stub_tlclear strsave:stub_save xfree:stub_free"
PST = ["pkt_get_line: any sequence of lines of the 14 kinds of line and any end (unit line)", "tl_append, strsave, xfree: calls recorded (T01)", "line buffer of 24 bytes instead of 32768 (the texts of the lines are short)",
       "strncmp, strnicmp on the line just read: computed from its kind"]
def parse(name, lo, hi, b, elo, ehi, **k):
    return u(name, ["pkt_get_body_parse", "is_blank_line"], PR, entry="h_parse", defs=["VF_PARSE", "MBUF=24", "PARSE_LO=%d" % lo, "E_LO=%d" % elo, "E_HI=%d" % ehi], bound=b, native_bound=7, weight=3, stubs=PST,
             bound_text="messages of %d to %d lines, any kind each; end of body %s" % (lo, b, "kind %d to %d" % (elo, ehi)), **k)
PROPS = {
    "B01": P(units=[
        u("line", ["pkt_get_line"], unwind=18, weight=3, bound_text="at most 6 bytes of the packet from the start of the line; any bytes; buffers of 4 to 9 bytes", stubs=["ftell: only for the log"]),
        u("getbody", ["pkt_get_body"], "pkt_get_line:stub_gline tl_append:stub_gappend tl_clear:stub_gclear", defs=["VF_GETBODY", "MBUF=24"], bound=4, native_bound=4,
          bound_text="messages of at most 3 lines of at most 5 characters and any end", stubs=["pkt_get_line: any lines and any end (unit line)", "tl_append, tl_clear: calls recorded (T01)", "line buffer of 24 bytes instead of 32768"]),
        parse("parse2", 0, 2, 2, 0, 4),
        parse("parse3a", 3, 3, 3, 0, 0, bound_t=4), parse("parse3b", 3, 3, 3, 1, 1, bound_t=4), parse("parse3c", 3, 3, 3, 2, 2), parse("parse3d", 3, 3, 3, 3, 3, bound_t=4), parse("parse3e", 3, 3, 3, 4, 4),
        parse("parse4", 4, 4, 4, 0, 0, timeout=300),
        u("write", ["msg_put_msgbody", "msg_put_line", "tl_fput"], bound=4, weight=3, bound_text="at most 2 lines of 2 characters in each part"),
        u("xlate", ["msg_xlate_line"], bound=4, bound_text="lines of at most 4 characters, buffers of 1 to 10 bytes"),
    ]),
    "K02": P(units=[
        u("origin", ["msg_parse_origin"], "asc_to_node:stub_a2n", bound_text="lines of at most 6 characters", stubs=["asc_to_node: any outcome (A01)"]),
        u("msgid", ["msg_parse_msgid"], "asc_to_node:stub_a2n", bound_text="at most 6 characters", stubs=["asc_to_node: any outcome (A01)"]),
        u("kget", ["kludge_get", "kludge_from_tline"], bound_text="at most 2 lines of at most 6 characters"),
        u("intl", ["kludge_pt_intl"], "atoi:stub_atoi kludge_get:stub_kget tl_delete:stub_tldel asc_to_node:stub_a2n2", mode="complete", stubs=["kludge_get (unit kget), tl_delete (T01), asc_to_node (A01), atoi: any outcome"]),
    ]),
}
