from ..specs import U, P

def c(name, fn, **k):
    k.setdefault("bound", 2)
    return U(name, "strings.c", "h_" + name, [fn], mode="contract", defs=["VF_STRC"], unwind=8, unwindB=12, sat="cadical",
             bound_text="strings of at most 2 characters, destination of at most 6 bytes", **k)

PROPS = {
    "C01": P(units=[
        c("copy", "str_copy"), c("copy2", "str_copy2"), c("copy3", "str_copy3"), c("copy4", "str_copy4"),
        c("copy5", "str_copy5"), c("append", "str_append"), c("append2", "str_append2"),
    ]),
}
