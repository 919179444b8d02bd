from ..specs import U, P
S = ["src/common/parsenode.c", "src/common/routing.c", "src/common/misc.c", "src/common/tmps.c"]
DIFF = [("node_to_asc_diff", "stub_to_diff"), ("asc_to_node_diff", "stub_from_diff"), ("znf1", "stub_znf1")]
DS = ["node_to_asc_diff, asc_to_node_diff, znf1: texts that read back (proved: A01, A02)"]
B3 = "lists of at most 3 elements; element values unrestricted"
def u(name, fns, **k):
    k.setdefault("mode", "bounded"); k.setdefault("bound", 3); k.setdefault("unwind", 9); k.setdefault("bound_text", B3); k.setdefault("native_bound", 3)
    return U(name, "lists.c", "h_" + name, fns, src=S, **k)
def d(name, fns, **k): return u(name, fns, defs=["VF_STUB_DIFF", "VF_OUTCAP=16"], replace=DIFF, stubs=DS, unwind=17, **k)
PROPS = {
    "N01": P(units=[
        u("lon_ops", ["lon_add", "lon_remove", "lon_search", "lon_is_uplink"]),
        u("lon_join", ["lon_join", "lon_delete"]),
        u("lon_wild", ["lon_search_wild"]),
        d("lon_text", ["lon_print", "lon_add_string"]),
        U("lon_sorted", "lists.c", "h_lon_sorted", ["lon_print_sorted", "lon_sort"], src=S, mode="bounded", bound=2, bound_t=3, unwind=9, native_bound=3,
          defs=["VF_STUB_DIFF", "VF_OUTCAP=16"], replace=DIFF, stubs=DS + ["qsort: sorts by the comparison function"], bound_text="lists of at most 2 (quick) / 3 elements", weight=5),
        d("lon_passive", ["lon_print_passive"]),
    ]),
    "T01": P(units=[
        u("tl_ops", ["tl_add", "tl_remove", "tl_delete", "tl_append", "tl_addtl_move", "tl_iterator_next"]),
        u("tl_copy", ["tl_addtl", "tl_copy", "tl_dup", "tl_size", "tl_clear"]),
        u("tl_chars", ["tl_char_iterator_start", "tl_char_iterator_next"], defs=["VF_MEMCPY"], bound_text="lists of at most 3 lines of at most 2 characters; induction over the calls"),
        u("tl_get", ["tl_get", "tl_get_str"]),
    ]),
    "K01": P(units=[
        U("step", "crc.c", "h_step", ["crc32_update", "crc16_update", "crc16_update_ccitt", "crc32_init", "crc16_init"], mode="complete", unwind=10),
        U("buffer", "crc.c", "h_buffer", ["compute_crc32", "crc32_compute", "crc32_value"], mode="contract", unwind=10, unwindB=10, bound=1),
        U("file", "crc.c", "h_file", ["crc32_file", "crc32_update"], mode="contract", unwind=10, unwindB=10, bound=1),
    ]),
}
