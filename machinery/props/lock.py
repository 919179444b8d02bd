from ..specs import U, P
KERN = ["system calls and stdio on the lock file: POSIX contracts over a ghost file, other programs may act before each call"]
def u(name, fns, rep="", **k):
    k.setdefault("unwind", 14); k.setdefault("native_bound", 12); k.setdefault("timeout", 300); k.setdefault("stubs", KERN)
    return U(name, "lock.c", k.pop("entry", "h_" + name), fns, src=k.pop("src", []), replace=[tuple(x.split(":")) for x in rep.split()], **k)
def lock(c, o):
    return u("lock%d%s" % (c, "fls"[o]), ["lock_lockfile", "check_stale_lock", "remove_stale_lock"], entry="h_lock", defs=["WLO=%d" % (3 * c + o), "WHI=%d" % (3 * c + o)], weight=2, bound=3 if c == 0 else 2, bound_t=4 if c == 0 else 3,
             bound_text="lock file " + ["absent", "held", "stale"][o] + " at the start, " + ["not waiting", "waiting for ever, over one wait", "waiting two seconds"][c] + "; at most " + ("three (thorough four)" if c == 0 else "two (thorough three)") + " steps of other programs and one signal")
PROPS = {
    "L01": P(units=[
        *[lock(c, o) for c in range(3) for o in range(3)],
        u("unlock", ["unlock_lockfile"], mode="complete"),
        u("fdlock", ["lock_fd", "unlock_fd", "lock_file", "unlock_file"], bound_text="at most three signals"),
        u("paths", ["lock_program", "unlock_program", "lock_path", "unlock_path"], "lock_lockfile:pa_lock unlock_lockfile:pa_unlock cf_p_lockdir:pa_dir str_expand_name:pa_exp", src=["src/common/misc.c"], unwind=12,
          stubs=["lock_lockfile, unlock_lockfile: their contracts (lock, unlock)", "str_expand_name: a path"], bound_text="names of at most three characters"),
        u("seq", ["sequencer", "sequencer_nx"], mode="complete", stubs=["system calls and stdio on the sequencer file: POSIX contracts over a ghost file, other programs may take numbers before each call", "lock_file: its contract (fdlock)", "numbers below 2^40 in the file at the start"]),
    ], assumptions=["other programs keep to the same protocol (they are FIDOGATE programs)", "process numbers are not reused while a lock file is examined", "kernel: open(O_EXCL), unlink, fcntl locks are atomic"]),
}
