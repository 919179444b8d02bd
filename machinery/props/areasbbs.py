from ..specs import U, P
SRC = ["src/common/%s.c" % x for x in "node parsenode misc tmps textlist routing".split()]
Z = [("znfp1", "vf_zlog")]
def u(name, fns, rep="", **k):
    k.setdefault("unwind", 18); k.setdefault("native_bound", 12)
    r = [tuple(x.split(":")) for x in rep.split()]
    return U(name, "areasbbs.c", k.pop("entry", "h_" + name), fns, src=SRC, replace=r or Z, **k)
PARSE = "xstrtok:stub_tok asc_to_node_diff:stub_a2d asc_to_node:stub_a2n strsave:stub_save atoi:stub_atoi atol:stub_atol"
PSTUB = ["xstrtok: the words of the line (words)", "asc_to_node, asc_to_node_diff: an address or not (A01)", "atoi, atol: any number", "strsave: the text"]
PRINT = "lon_print_sorted:stub_psort lon_print_passive:stub_ppas znfp1:stub_znfp fprintf:stub_fprintf fputs:stub_fputs fputc:stub_fputc ferror:stub_ferror fwrite:stub_fwrite"
FILES = "str_expand_name:stub_exp fopen:stub_fopen fclose:stub_fclose areasbbs_print:stub_print unlink:stub_unlink rename:stub_rename"
FSTUB = ["fopen, fclose, unlink, rename: POSIX, each may fail at any call", "areasbbs_print: its contract (print)", "str_expand_name: a name ending in bbs"]
def parse(lo, hi):
    return u("parse%d" % lo, ["areasbbs_parse_line", "areasbbs_add_string", "areasbbs_add_passive", "areasbbs_new"], PARSE, entry="h_parse", unwind=15, unwindset=["vf_node.0:40"],
             defs=["ALO=(%d)" % lo, "AHI=%d" % hi], stubs=PSTUB, bound_text="lines with at most two options and two nodes", timeout=300)
WORDS = U("words", "words.c", "h_words", ["xstrtok", "strtok_r_ext"], src=["src/common/strtok_r.c"], replace=Z, unwind=6, unwind_t=7, bound=3, bound_t=4, native_bound=40,
          bound_text="lines of at most 3 (thorough 4) characters", cbmc=["--max-field-sensitivity-array-size", "64"], timeout=300, weight=2)
PROPS = {
    "D01": P(units=[
        parse(-1, 2), parse(3, 5), parse(6, 9), parse(10, 13),
        u("short", ["areasbbs_parse_line"], "xstrtok:stub_tok", unwind=15, mode="complete", stubs=PSTUB[:1]),
        WORDS,
        u("init", ["areasbbs_init"], "fopen_expand_name:stub_fexp areasbbs_parse_line:stub_parse", bound_text="files of at most 4 lines of one character", stubs=["areasbbs_parse_line: its contract (parse)"], timeout=300, weight=2),
        u("print_a", ["areasbbs_print"], PRINT, entry="h_print", unwind=91, defs=["PLO=0", "PHI=3"], bound_text="one area with one of eight sets of options", stubs=["lon_print_sorted, lon_print_passive, znfp1: text of the nodes (A02)"]),
        u("print_b", ["areasbbs_print"], PRINT, entry="h_print", unwind=91, defs=["PLO=4", "PHI=7"], bound_text="one area with one of eight sets of options", stubs=["lon_print_sorted, lon_print_passive, znfp1: text of the nodes (A02)"]),
        u("print_n", ["areasbbs_print"], PRINT, entry="h_print2", unwind=91, bound_text="at most two areas", stubs=["lon_print_sorted, lon_print_passive, znfp1: text of the nodes (A02)"]),
        u("rewrite", ["areasbbs_rewrite"], FILES, mode="complete", stubs=FSTUB),
        u("rotate", ["areasbbs_rewrite"], FILES, mode="complete", stubs=FSTUB),
        u("list", ["areasbbs_add", "areasbbs_remove", "areasbbs_remove1", "areasbbs_lookup", "areasbbs_first"], bound_text="at most 3 areas, names of at most 2 characters"),
        u("state", ["areasbbs_chstate", "areasbbs_isstate"], bound=4, native_bound=8, bound_text="at most 4 states"),
    ]),
}
