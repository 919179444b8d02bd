from ..specs import U, P
S = ["src/common/misc.c", "src/common/routing.c"]
NUM = "znfp_get_number: reads a whole number (proved: A01 number, numeral)"
PART = "znfp_parse_partial: some address or an error (bounded: A01 parse)"
TOK = "printf %d: a numeral that reads back (proved: A01 numeral)"
def u(name, fns, mode="complete", unwind=50, **k):
    k.setdefault("src", S)
    return U(name, "addr.c", "h_" + name, fns, mode=mode, unwind=unwind, **k)
GN = [("znfp_get_number", "stub_get_number")]
GP = [("znfp_parse_partial", "stub_parse_partial")]
def tok(name, fns, **k): return u(name, fns, unwind=34, defs=["VF_TOKEN"], replace=GN, stubs=[NUM, TOK], **k)
def anyn(name, fns, **k): return u(name, fns, mode="bounded", unwind=42, defs=["VF_ANYNUM"], replace=GN, stubs=[NUM], **k)
def anyp(name, fns, **k): return u(name, fns, unwind=42, defs=["VF_ANYPARSE"], replace=GP, stubs=[PART], **k)
PROPS = {
    "A01": P(units=[
        tok("roundtrip", ["str_znfp_print", "znfp_parse_partial"]),
        u("roundtrip_dom", ["str_znfp_print", "znfp_parse_partial"], mode="bounded", bound=4, bound_t=10, unwind=34, defs=["VF_TOKEN"], replace=GN, stubs=[NUM, TOK],
          bound_text="domain of at most 4 (quick) / 10 characters", native_bound=31),
        u("text", ["znfp1", "znfp2", "znf1", "znf2", "nf1", "str_znfp_print"], defs=["VF_FIXDIG=5"], stubs=[TOK]),
        anyn("parse", ["znfp_parse_partial"], bound=12, bound_t=24, bound_text="strings of at most 12 (quick) / 24 characters"),
        anyp("asc", ["asc_to_node"], bound=3),
        u("numeral", ["znfp_put_number", "znfp_get_number"], unwind=34),
        u("number", ["znfp_get_number"], mode="contract", unwind=8, unwindB=20),
    ]),
    "A02": P(units=[
        tok("diff", ["node_to_asc_diff", "asc_to_node_diff", "znfp_parse_diff"]),
        u("diff_text", ["node_to_asc_diff"], defs=["VF_FIXDIG=5"], stubs=[TOK]),
        anyp("parse_diff", ["znfp_parse_diff", "asc_to_node_diff"], bound=3),
    ]),
    "A03": P(units=[u("cmp", ["node_cmp", "node_eq", "node_np_eq"]), u("match", ["node_match", "wild_compare_node", "node_clear", "node_invalid"])]),
    "A04": P(units=[
        tok("pfnz", ["node_to_pfnz", "pfnz_to_node"]),
        u("pfnz_text", ["node_to_pfnz"], defs=["VF_FIXDIG=5"], stubs=[TOK]),
        anyn("pfnz_parse", ["pfnz_to_node"], bound=10, bound_t=24, bound_text="strings of at most 10 (quick) / 24 characters"),
    ]),
}
