from .areasbbs import WORDS
from ..specs import U, P
TS = ["src/common/%s.c" % x for x in "node parsenode routing misc tmps textlist strtok_r".split()]
LG = [(x, "vf_zlog") for x in "znfp1 znfp2 znfp3 znf1 znf2 nf1".split()]
def u(name, fns, rep="", **k):
    k.setdefault("mode", "complete"); k.setdefault("bound", 6); k.setdefault("native_bound", 6); k.setdefault("unwind", 40)
    return U(name, "config.c", k.pop("entry", "h_" + name), fns, src=TS, replace=LG + [tuple(x.split(":")) for x in rep.split()], **k)
ST = ["xstrtok: the words of the line", "asc_to_node: any outcome (A01)", "cf_read_config_file, strsave: calls recorded"]
def line(n, lo, hi):
    return u(n, ["cf_do_line"], "xstrtok:stub_tok asc_to_node:stub_a2n cf_read_config_file:stub_inc strsave:stub_save", entry="h_line", mode="bounded", defs=["KW_LO=%d" % lo, "KW_HI=%d" % hi], stubs=ST,
             bound_text="words of at most 3 characters; lists empty, with room for one entry, or full")
PROPS = {
    "G01": P(units=[
        u("best", ["cf_get_best"], sat="cadical", timeout=400), u("curr", ["cf_set_best", "cf_set_zone", "cf_set_curr", "cf_zone", "cf_defzone", "cf_addr", "cf_uplink", "cf_main_addr"], sat="cadical", timeout=500, weight=3),
        u("zones", ["cf_zones_inet_domain", "cf_zones_ftn_domain", "cf_zones_out", "cf_zones_check", "cf_out_get"], sat="cadical", timeout=300), u("trav", ["cf_addr_trav", "cf_zones_trav"]),
        u("gate", ["cf_i_am_a_gateway_prog"], sat="cadical", timeout=300),
    ]),
    "G02": P(units=[line("line_names", 0, 3), line("line_addr", 4, 6), line("line_zone", 7, 7), line("line_other", 8, 10),
        u("get", ["cf_get_string", "config_first"], "strcasecmp:stub_ci", mode="bounded", bound_text="at most 3 lines, any of which may be for the keyword", stubs=["stricmp: any outcome per line"], sat="cadical"),
        WORDS,
    ]),
}
