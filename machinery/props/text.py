from ..specs import U, P
PROPS = {
    "W01": P(units=[
        U("match", "wildmat.c", "h_match", ["wildmatch", "wildmat", "is_wildcard"], mode="bounded", bound=4, bound_t=6, unwind=6, unwind_t=8, native_bound=9,
          defs=["VF_CUT"], bound_text="patterns and strings of at most 4 (quick) / 6 characters; the matching loop is proved by induction (invariant at a cut point)", timeout=300),
        U("safe", "wildmat.c", "h_safe", ["wildmatch"], mode="bounded", bound=5, bound_t=8, unwind=7, unwind_t=10, native_bound=9,
          defs=["VF_CUT", "VF_STR_EXACT"], bound_text="patterns (malformed ones too) and strings of at most 5 (quick) / 8 characters; induction over the matching loop"),
    ], note="The loop over backward gotos is cut at its head; the invariant (greedy last-star argument) is checked at every arrival, so the number of iterations is not bounded."),
}
