/*
 * Loop contracts for the hooks FGC_LOOP/FGC_AT in /repo (see src/include/fgcontracts.h).
 * A harness defines the ghost variables a contract mentions before it includes the
 * source under contract; contracts not used by that harness are replaced by nothing
 * (VFC_<file> not defined).
 *
 * The obligations are quantifier free: a "for all k" in an invariant is carried by
 * one arbitrary but fixed witness index, and a "for all k" in a precondition is used
 * only through instances assumed at a FGC_AT (or in the C library contract that needs it).
 */
#ifndef FIDOGATE_LOOP_CONTRACTS_H
#define FIDOGATE_LOOP_CONTRACTS_H

#define VF_OFF(p)  ((size_t)__CPROVER_POINTER_OFFSET(p))

#ifdef VFC_MISC_CAT
/* d[0..i) holds the first i bytes of the concatenation; segment j starts at gh_off[j-1] */
# define VFC_CAT(j, iv, S) \
    __CPROVER_assigns(p, iv, __CPROVER_object_whole(d)) \
    __CPROVER_loop_invariant(__CPROVER_same_object(p, S) && VF_OFF(p) <= gh_l[j]) \
    __CPROVER_loop_invariant(iv >= 0 && (size_t)iv <= n - 1 && (size_t)iv == gh_off[j - 1] + VF_OFF(p)) \
    __CPROVER_loop_invariant(gh_K < (size_t)iv ==> d[gh_K] == gh_SK) \
    __CPROVER_decreases(n - (size_t)iv)
/* instance, at the position where the loop stopped, of "no NUL before the end of segment j" */
# define VFC_CAT_AT(j, iv) \
    { __CPROVER_assume(!(VF_OFF(p) < gh_l[j]) || *p != 0); gh_off[j] = (size_t)iv; }
#else
# define VFC_CAT(j, iv, S)
# define VFC_CAT_AT(j, iv)
#endif
#define FGC_LOOP_str_append2_1 VFC_CAT(1, sz, s1)
#define FGC_LOOP_str_append2_2 VFC_CAT(2, sz, s2)
#define FGC_AT_str_append2_1 VFC_CAT_AT(1, sz)
#define FGC_AT_str_append2_2 VFC_CAT_AT(2, sz)
#define FGC_LOOP_str_copy2_1 VFC_CAT(1, i, s1)
#define FGC_LOOP_str_copy2_2 VFC_CAT(2, i, s2)
#define FGC_AT_str_copy2_1 VFC_CAT_AT(1, i)
#define FGC_AT_str_copy2_2 VFC_CAT_AT(2, i)
#define FGC_LOOP_str_copy3_1 VFC_CAT(1, i, s1)
#define FGC_LOOP_str_copy3_2 VFC_CAT(2, i, s2)
#define FGC_LOOP_str_copy3_3 VFC_CAT(3, i, s3)
#define FGC_AT_str_copy3_1 VFC_CAT_AT(1, i)
#define FGC_AT_str_copy3_2 VFC_CAT_AT(2, i)
#define FGC_AT_str_copy3_3 VFC_CAT_AT(3, i)
#define FGC_LOOP_str_copy4_1 VFC_CAT(1, i, s1)
#define FGC_LOOP_str_copy4_2 VFC_CAT(2, i, s2)
#define FGC_LOOP_str_copy4_3 VFC_CAT(3, i, s3)
#define FGC_LOOP_str_copy4_4 VFC_CAT(4, i, s4)
#define FGC_AT_str_copy4_1 VFC_CAT_AT(1, i)
#define FGC_AT_str_copy4_2 VFC_CAT_AT(2, i)
#define FGC_AT_str_copy4_3 VFC_CAT_AT(3, i)
#define FGC_AT_str_copy4_4 VFC_CAT_AT(4, i)
#define FGC_LOOP_str_copy5_1 VFC_CAT(1, i, s1)
#define FGC_LOOP_str_copy5_2 VFC_CAT(2, i, s2)
#define FGC_LOOP_str_copy5_3 VFC_CAT(3, i, s3)
#define FGC_LOOP_str_copy5_4 VFC_CAT(4, i, s4)
#define FGC_LOOP_str_copy5_5 VFC_CAT(5, i, s5)
#define FGC_AT_str_copy5_1 VFC_CAT_AT(1, i)
#define FGC_AT_str_copy5_2 VFC_CAT_AT(2, i)
#define FGC_AT_str_copy5_3 VFC_CAT_AT(3, i)
#define FGC_AT_str_copy5_4 VFC_CAT_AT(4, i)
#define FGC_AT_str_copy5_5 VFC_CAT_AT(5, i)


/* ---- packet.c ---- */
#ifdef VFC_PACKET_STR
/* the specification runs in step with the loop: one input character per iteration */
# define VFC_SPEC_OUT(x) { if (gh_len == vf_files[0].wit) gh_c = (unsigned char)(x); gh_len++; }
# define FGC_AT_pkt_put_line_1 { \
    __CPROVER_assume(!(gh_off < gh_L) || gh_s[gh_off] != 0); \
    if (gh_s[gh_off] != '\n') VFC_SPEC_OUT(gh_s[gh_off]) \
    else if (gh_off == 0 || gh_s[gh_off - 1] != '\r') VFC_SPEC_OUT('\r') \
    gh_off++; }
# define FGC_AT_pkt_put_line_2 __CPROVER_assume(!(VF_OFF(s) < gh_L) || *s != 0);
# define FGC_LOOP_pkt_put_line_1 \
    __CPROVER_assigns(s, met_cr, gh_off, gh_len, gh_c, vf_files[0].len, vf_files[0].witc) \
    __CPROVER_loop_invariant(__CPROVER_same_object(s, gh_s) && VF_OFF(s) <= gh_L && gh_off == VF_OFF(s)) \
    __CPROVER_loop_invariant(met_cr == (gh_off > 0 && gh_s[gh_off - 1] == '\r')) \
    __CPROVER_loop_invariant(vf_files[0].len == gh_len && gh_len <= gh_off) \
    __CPROVER_loop_invariant(vf_files[0].wit < gh_len ==> vf_files[0].witc == gh_c) \
    __CPROVER_decreases(gh_L - VF_OFF(s))
# define FGC_LOOP_pkt_get_string_1 \
    __CPROVER_assigns(i, c, vf_files[0].pos, vf_files[0].eof, __CPROVER_object_whole(buf)) \
    __CPROVER_loop_invariant(i >= 0 && (size_t)i == vf_files[0].pos && vf_files[0].pos <= gh_L && !vf_files[0].eof) \
    __CPROVER_loop_invariant(gh_K < (size_t)i ==> vf_files[0].data[gh_K] != 0) \
    __CPROVER_loop_invariant(gh_K < (size_t)i && gh_K < nbytes - 1 ==> (unsigned char)buf[gh_K] == vf_files[0].data[gh_K]) \
    __CPROVER_loop_invariant((size_t)i >= nbytes ==> buf[nbytes - 1] == 0) \
    __CPROVER_decreases(gh_L - (size_t)i)
#else
# define FGC_AT_pkt_put_line_1
# define FGC_AT_pkt_put_line_2
# define FGC_LOOP_pkt_put_line_1
# define FGC_LOOP_pkt_get_string_1
#endif


/* ---- parsenode.c ---- */
#ifdef VFC_PARSENODE
# define FGC_LOOP_znfp_get_number_1 \
    __CPROVER_assigns(s, val) \
    __CPROVER_loop_invariant(__CPROVER_same_object(s, gh_s) && VF_OFF(s) <= gh_L && val >= 0) \
    __CPROVER_decreases(gh_L - VF_OFF(s))
#else
# define FGC_LOOP_znfp_get_number_1
#endif

/* ---- wildmat.c: cut point of the matching loop (backward gotos), see harness/wildmat.c ---- */
#ifdef VFC_WILDMAT
# define FGC_PRE_wildmatch_1 vfc_cut(&s, &p, &saved_s, &saved_p) &&
#else
# define FGC_PRE_wildmatch_1
#endif

/* ---- crc32.c: the specification runs in step with the loop ---- */
#ifdef VFC_CRC
# define VFC_CRC_STEP(ch) { gh_crc = sp_crc32(gh_crc, ch); gh_i++; }
# define VFC_CRC_LOOP \
    __CPROVER_assigns(s, len, crcval, gh_crc, gh_i) \
    __CPROVER_loop_invariant(__CPROVER_same_object(s, gh_s) && VF_OFF(s) == gh_i && gh_i + (size_t)len == gh_L && len >= 0) \
    __CPROVER_loop_invariant(crcval == gh_crc && crcval <= 0xffffffffUL) \
    __CPROVER_decreases(len)
# define FGC_LOOP_compute_crc32_1 VFC_CRC_LOOP
# define FGC_AT_compute_crc32_1 VFC_CRC_STEP(gh_s[gh_i])
# define FGC_LOOP_crc32_compute_1 VFC_CRC_LOOP
# define FGC_AT_crc32_compute_1 VFC_CRC_STEP(gh_s[gh_i])
# define FGC_LOOP_crc32_file_1 \
    __CPROVER_assigns(c, crcval, gh_crc, gh_i, vf_files[0].pos, vf_files[0].eof) \
    __CPROVER_loop_invariant(vf_files[0].pos == gh_i && gh_i <= gh_L && !vf_files[0].eof) \
    __CPROVER_loop_invariant(crcval == gh_crc && crcval <= 0xffffffffUL) \
    __CPROVER_decreases(gh_L - gh_i)
# define FGC_AT_crc32_file_1 VFC_CRC_STEP(gh_s[gh_i])
#else
# define FGC_LOOP_compute_crc32_1
# define FGC_AT_compute_crc32_1
# define FGC_LOOP_crc32_compute_1
# define FGC_AT_crc32_compute_1
# define FGC_LOOP_crc32_file_1
# define FGC_AT_crc32_file_1
#endif

#endif
