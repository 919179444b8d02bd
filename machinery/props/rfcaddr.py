from ..specs import U, P
TS = ["src/common/%s.c" % x for x in "node parsenode routing misc tmps textlist strtok_r charset".split()]
LG = [(x, "vf_zlog") for x in "znfp1 znfp2 znfp3 znf1 znf2 nf1".split()]
FS = ["--max-field-sensitivity-array-size", "64"]
I2F = "hosts_lookup:stub_hosts2 pfnz_to_node:stub_pfnz2 cf_domainname:stub_dom cf_hostname:stub_host cf_fqdn:stub_fqdn cf_hostsdomain:stub_edom cf_zones_trav:stub_trav"
def u(name, fns, rep="", **k):
    k.setdefault("mode", "bounded"); k.setdefault("bound", 4); k.setdefault("native_bound", 60); k.setdefault("unwind", 40)
    return U(name, "rfcaddr.c", k.pop("entry", "h_" + name), fns, src=TS, unwindset=["vf_node.0:34", "strncpy.0:130"],
             replace=LG + [tuple(x.split(":")) for x in rep.split()], **k)
T = "src/common/tmps.c"
PROPS = {
    "R01": P(units=[
        u("from_rfc3", ["rfcaddr_from_rfc"], entry="h_from_rfc", bound=3, unwind=8, cbmc=FS, bound_text="texts of at most 3 characters", timeout=300),
        u("from_rfc4", ["rfcaddr_from_rfc"], entry="h_from_rfc", bound=4, bound_t=5, unwind=8, unwind_t=9, defs=["NLO=4"], cbmc=FS, bound_text="texts of 4 characters", timeout=500, weight=3),
        u("from_ftn", ["rfcaddr_from_ftn"], "str_ftn_to_inet:stub_f2i", bound=5, cbmc=FS, bound_text="names of at most 5 characters", stubs=["str_ftn_to_inet: its contract (f2i)"]),
        u("to_asc", ["s_rfcaddr_to_asc"], "s_printf:stub_sprintf", bound_text="parts of at most 3 characters", stubs=["s_printf: the text of the format (S01)"], native_bound=8),
        u("f2i", ["str_ftn_to_inet"], "hosts_lookup:stub_hosts node_to_pfnz:stub_pfnz cf_zones_inet_domain:stub_zdom cf_hostsdomain:stub_hdom", mode="complete", sat="cadical", stubs=["hosts_lookup, node_to_pfnz, cf_*: their contracts (hosts, A04, G01)"]),
        u("i2f", ["inet_to_ftn", "try_pfnz"], I2F, sat="cadical", bound_text="addresses of at most 4 characters", stubs=["hosts_lookup, pfnz_to_node, cf_*: their contracts (hosts, A04, G01)"], timeout=300, weight=2),
        u("local", ["addr_is_local", "addr_is_domain"], "rfcaddr_from_rfc:stub_fr s_rfcaddr_to_asc:stub_toasc cf_domainname:stub_dom cf_fqdn:stub_fqdn", bound_text="addresses of at most 4 characters", sat="cadical", stubs=["rfcaddr_from_rfc: its contract"]),
        u("hosts", ["hosts_lookup"], sat="cadical", bound_text="at most 3 hosts", native_bound=4),
    ]),
    "S01": P(units=[
        U("tmps_printf", "tmps.c", "h_printf", ["tmps_printf", "s_printf", "tmps_alloc", "tmps_realloc"], mode="complete", unwind=12,
          replace=[("vsnprintf", "stub_vsn"), ("strlen", "stub_strlen"), ("memset", "stub_memset")],
          stubs=["vsnprintf, strlen, memset: C library contracts, text of any length", "xmalloc, xrealloc: always succeed"]),
        U("tmps_list", "tmps.c", "h_list", ["tmps_alloc", "tmps_free", "tmps_find", "tmps_freeall", "s_free", "s_realloc", "s_freeall"], unwind=12, replace=[("fatal", "stub_fatal")], bound_text="lists of at most 5 strings"),
    ]),
}
