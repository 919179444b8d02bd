from ..specs import U, P
F = "packet_hdr.c"
PROPS = {
    "P01": P(units=[
        U("hdr_layout", F, "h_hdr_layout", ["pkt_put_hdr_raw", "pkt_put_string_padded", "pkt_put_int16"], mode="complete", unwind=60),
        U("hdr_put", F, "h_hdr_put", ["pkt_put_hdr", "pkt_fill_hdr"], mode="complete", unwind=60),
        U("hdr_read", F, "h_hdr_read", ["pkt_get_hdr", "pkt_get_nbytes", "pkt_get_int16"], mode="complete", unwind=60),
        U("hdr_rt", F, "h_hdr_rt", ["pkt_put_hdr", "pkt_get_hdr"], mode="complete", unwind=60),
        U("int16", F, "h_int16", ["pkt_put_int16", "pkt_get_int16"], mode="complete", unwind=60),
    ]),
    "P02": P(units=[
        U("msg_put", "packet_msg.c", "h_msg_put", ["pkt_put_msg_hdr", "pkt_put_date", "pkt_put_string", "pkt_msg_sanitize_strings"],
          mode="contract", loops=False, unwind=40, unwindB=80, defs=["VF_OUT_WITNESS", "VF_STRC"]),
        U("msg_get", "packet_msg.c", "h_msg_get", ["pkt_get_msg_hdr", "pkt_get_date"], mode="complete", unwind=40,
          defs=["VF_STUB_GETSTR"], replace=[("pkt_get_string", "stub_get_string")], stubs=["pkt_get_string (proved: unit get_string)"]),
        U("msg_kludge", "packet_msg.c", "h_msg_kludge", ["pkt_put_msg_hdr"],
          mode="bounded", unwind=40, defs=["VF_OUT_WITNESS", "VF_STUB_ZNF"], stubs=["znf1, znf2 (proved: A01)"],
          bound_text="area tag of at most 8 characters; addresses unrestricted (16 bits)"),
        U("msg_kludge_net", "packet_msg.c", "h_msg_kludge", ["pkt_put_msg_hdr"],
          mode="bounded", unwind=40, defs=["VF_OUT_WITNESS", "VF_STUB_ZNF", "NETMAIL"], stubs=["znf1, znf2 (proved: A01)"],
          bound_text="addresses unrestricted (16 bits)"),
    ]),
    "P03": P(units=[
        U("get_string", "packet_msg.c", "h_get_string", ["pkt_get_string"], mode="contract", bound=5, defs=["VF_OUT_WITNESS"]),
        U("put_line", "packet_msg.c", "h_put_line", ["pkt_put_line"], mode="contract", bound=5, defs=["VF_OUT_WITNESS"]),
    ]),
}
