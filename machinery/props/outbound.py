from ..specs import U, P
KERN = ["system calls and stdio on the FLO file: POSIX contracts over a ghost file"]
def u(name, fns, rep="", **k):
    k.setdefault("unwind", 42); k.setdefault("timeout", 300); k.setdefault("stubs", KERN)
    r = "fglog:stub_log debug:stub_debug znfp1:vf_zlog " + rep
    return U(name, "flo.c", k.pop("entry", "h_" + name), fns, src=k.pop("src", ["src/common/misc.c"]), replace=[tuple(x.split(":")) for x in r.split()], **k)
CF = "cf_get_string:st_get_string cf_zones_out:st_zones_out cf_p_btbasedir:st_btbase "
PROPS = {
    "O01": P(units=[
        *[u("outname" + "na"[a], ["bink_out_name"], CF, entry="h_outname", defs=["ASO=%d" % a], mode="complete", timeout=400, stubs=["configuration: any outbound style, zone directory, base directory", "str_printf: formats %s, %d, %04x (C01)"]) for a in (0, 1)],
        u("find", ["bink_find_flo", "bink_find_out"], "bink_out_name:st_outname", mode="complete", stubs=["bink_out_name: its contract (outname)", "access: any set of existing files"]),
        u("bsy", ["bink_bsy_name", "bink_bsy_create", "bink_bsy_delete"], "bink_out_name:st_outname bink_mkdir:st_mkdir lock_lockfile:st_lock", mode="complete", stubs=["bink_out_name, bink_mkdir: their contracts", "lock_lockfile: its contract (L01)"]),
        u("mkdir", ["bink_mkdir"], CF + "check_access:st_access", mode="complete", stubs=["check_access, mkdir: ghost directories"]),
        u("open", ["flo_openx", "flo_file"], "bink_find_flo:st_find bink_mkdir:st_mkdir bink_bsy_create:st_bsyc bink_bsy_delete:st_bsyd lock_file:st_lockf", bound=3, bound_t=5, native_bound=6, unwind=9,
          stubs=KERN + ["bink_find_flo, bink_bsy_create, bink_bsy_delete, lock_file: their contracts (find, bsy, L01)"], bound_text="at most three (thorough five) steps of other programs"),
        u("close", ["flo_close"], "bink_bsy_delete:st_bsyd", mode="complete"),
        u("read", ["flo_gets", "flo_mark"], bound=6, native_bound=9, bound_text="FLO files of at most 6 bytes, any bytes"),
        u("attach", ["bink_attach"], "cf_dos:st_dos cf_dos_xlate:st_dosx flo_openx:st_openx flo_file:st_file flo_gets:st_gets flo_close:st_close", bound=3, native_bound=6,
          stubs=["flo_openx, flo_gets, flo_close: their contracts (open, read, close)", "cf_dos_xlate: any outcome"], bound_text="FLO files of at most three entries, of 5 kinds and 5 names"),
        u("doflo", ["do_flo"], "flo_open:st_open flo_gets:st_gets flo_mark:st_mark flo_close:st_close cf_dos:st_dos run_system:st_system check_size:st_size", defs=["VF_DOFLO"], bound=3, native_bound=6,
          stubs=["flo_open, flo_gets, flo_mark, flo_close: their contracts", "run_system: any exit code"], bound_text="FLO files of at most three entries of 5 kinds"),
    ], assumptions=["other programs delete a FLO file only while they hold its lock (they are FIDOGATE programs)", "kernel: unlink, open, fcntl locks are atomic"]),
}
