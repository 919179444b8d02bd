/* Contracts of the checksums. */
#include "vf.h"
#if VF_UNBOUNDED
# define VFC_CRC 1
#endif
static unsigned long gh_crc;
static size_t gh_i, gh_L;
static unsigned char *gh_s;
/* specification: one byte, bit by bit, reflected polynomial EDB88320 */
static unsigned long sp_crc32(unsigned long c, unsigned char b)
{
#define BIT c = (c & 1) ? (c >> 1) ^ 0xEDB88320UL : c >> 1;
    c ^= b;
    BIT BIT BIT BIT BIT BIT BIT BIT
    return c;
}
static unsigned int sp_crc16(unsigned int c, unsigned char b)          /* reflected A001 */
{
    c ^= b;
    for (int i = 0; i < 8; i++) c = (c & 1) ? (c >> 1) ^ 0xA001 : c >> 1;
    return c;
}
static unsigned int sp_ccitt(unsigned int c, unsigned char b)          /* 1021, high bit first */
{
    c ^= (unsigned int)b << 8;
    for (int i = 0; i < 8; i++) c = (c & 0x8000) ? ((c << 1) ^ 0x1021) & 0xffff : (c << 1) & 0xffff;
    return c;
}
#ifdef VF_CPROVER
static FILE *gh_fp;
# define fopen(n, m) gh_fp
#endif
#include "fg.h"
#include "src/common/crc16.c"
#include "src/common/crc32.c"
#undef fopen

void h_step(void)
{
    unsigned char b = nd_u8("b");
    crc32_init();
    ENSURES("empty", crc32_value() == 0);
    crcval = nd_range("s32", 0, 0xffffffffL);
    unsigned long e = sp_crc32(crcval, b);
    crc32_update(b);
    ENSURES("one byte of CRC-32", crcval == e && crc32_value() == (~e & 0xffffffffUL));
    crc16_init();
    ENSURES("empty", crc16_value() == 0 && crc16_value_ccitt() == 0);
    crc16 = (int)nd_range("s16", 0, 65535);
    unsigned int e1 = sp_crc16(crc16, b);
    crctt = (int)nd_range("stt", 0, 65535);
    unsigned int e2 = sp_ccitt(crctt, b), t0 = crctt;
    crc16_update(b);
    ENSURES("one byte of CRC-16", crc16_value() == e1 && crctt == t0);
    crc16_update_ccitt(b);
    ENSURES("one byte of CRC-CCITT", crc16_value_ccitt() == e2 && crc16_value() == e1);
    VF_REACH("step");
}
static void mkbuf(void)
{
#if VF_UNBOUNDED
    gh_L = nondet_vf_size();
    REQUIRES(gh_L < 1000000);
#else
    gh_L = nd_range("L", 0, VF_BOUND);
#endif
    gh_s = (unsigned char *)vf_buf("s", gh_L);
    gh_i = 0;
    gh_crc = 0xffffffffUL;
}
static unsigned long fold(void)       /* bounded stage: the specification folded over the buffer */
{
    while (gh_i < gh_L) gh_crc = sp_crc32(gh_crc, gh_s[gh_i++]);
    return ~gh_crc & 0xffffffffUL;
}
void h_buffer(void)
{
    mkbuf();
    unsigned long r;
    if (nd_bool("which")) r = compute_crc32(gh_s, gh_L);
    else { crc32_init(); crc32_compute(gh_s, gh_L); r = crc32_value(); }
#if VF_UNBOUNDED
    ENSURES("all bytes, once, in order", gh_i == gh_L);
#endif
    ENSURES("CRC-32 of the buffer", r == fold());
    VF_REACH("buffer");
}
void h_file(void)
{
    mkbuf();
    unsigned long r;
#ifdef VF_CPROVER
    gh_fp = vf_open_in(gh_s, gh_L);
    r = crc32_file("f");
    ENSURES("closed", !vf_files[0].open);
#else
    char n[] = "/tmp/vfcrcXXXXXX";
    int fd = mkstemp(n);
    if (write(fd, gh_s, gh_L) < 0) vf_reject();
    close(fd);
    r = crc32_file(n);
    unlink(n);
#endif
#if VF_UNBOUNDED
    ENSURES("all bytes, once, in order", gh_i == gh_L);
#endif
    ENSURES("CRC-32 of the file", r == fold());
    VF_REACH("file");
}
