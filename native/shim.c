/*
 * Native side of the contract oracles: linked with the library built from
 * /repo's current working tree (malloc/realloc/free of the library are
 * redirected here with -D on the command line).
 */
#undef malloc
#undef realloc
#undef free
#undef calloc
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdio.h>
#include <sys/mman.h>
#include <cry/aes.h>
#include <cry/affine.h>
#include <cry/arc4.h>
#include <cry/cbc.h>
#include <cry/cfb.h>
#include <cry/cmac.h>
#include <cry/crc.h>
#include <cry/ctr.h>
#include <cry/des.h>
#include <cry/dh.h>
#include <cry/dsa.h>
#include <cry/ecdh.h>
#include <cry/ecdsa.h>
#include <cry/ecp.h>
#include <cry/elgamal.h>
#include <cry/gcm.h>
#include <cry/hash.h>
#include <cry/hill.h>
#include <cry/hmac.h>
#include <cry/md5.h>
#include <cry/mpi.h>
#include <cry/rsa.h>
#include <cry/sha1.h>
#include <cry/sha256.h>
#include <cry/sha512.h>
#include <cry/trivium.h>

struct hdr { struct hdr *next, *prev; size_t size; uint64_t magic; };
#define MAGIC 0x5be7c0de12345678ULL
#define TAIL 32
static struct hdr list = { &list, &list, 0, 0 };
static long live, fail_at = -1, count, freed_bad, corrupt;

static void *raw_alloc(size_t n)
{
    struct hdr *h = malloc(sizeof(*h) + n + TAIL);
    h->size = n; h->magic = MAGIC;
    h->next = list.next; h->prev = &list; list.next->prev = h; list.next = h;
    memset(h + 1, 0xA5, n);
    memset((char *)(h + 1) + n, 0xC3, TAIL);
    live++;
    return h + 1;
}
static struct hdr *find(void *p)
{
    struct hdr *h;
    for (h = list.next; h != &list; h = h->next)
        if ((void *)(h + 1) == p) return h;
    return NULL;
}
static void chk(struct hdr *h)
{
    size_t i; unsigned char *t = (unsigned char *)(h + 1) + h->size;
    for (i = 0; i < TAIL; i++) if (t[i] != 0xC3) { corrupt++; break; }
    if (h->magic != MAGIC) corrupt++;
}
static int should_fail(void)
{
    count++;
    return fail_at >= 0 && count > fail_at;
}
void *vp_malloc(size_t n) { return (should_fail() || n > (1UL << 32)) ? NULL : raw_alloc(n); }
void vp_free(void *p)
{
    struct hdr *h;
    if (p == NULL) return;
    if ((h = find(p)) == NULL) { freed_bad++; return; }
    chk(h);
    h->prev->next = h->next; h->next->prev = h->prev;
    memset(p, 0xDD, h->size);
    live--;
    free(h);
}
void *vp_calloc(size_t a, size_t b) { void *p = vp_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void *vp_realloc(void *p, size_t n)
{
    struct hdr *h; void *q;
    if (p != NULL && (h = find(p)) == NULL) { freed_bad++; return NULL; }
    if (should_fail() || n > (1UL << 32)) return NULL;
    q = raw_alloc(n);
    if (p != NULL) { memcpy(q, p, h->size < n ? h->size : n); vp_free(p); }
    return q;
}
long vp_live(void) { return live; }
long vp_bad(void) { struct hdr *h; for (h = list.next; h != &list; h = h->next) chk(h); long r = freed_bad + corrupt; freed_bad = corrupt = 0; return r; }
void vp_fail_at(long n) { fail_at = n; count = 0; }
long vp_count(void) { return count; }
void vp_reset(void) { while (list.next != &list) vp_free(list.next + 1); freed_bad = corrupt = 0; fail_at = -1; }

/* guarded buffers: end right before an unmapped page */
static size_t gsz = 1 << 20;
void *vp_guard_new(void)
{
    char *p = mmap(NULL, gsz + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) return NULL;
    mprotect(p, 4096, PROT_NONE);
    mprotect(p + 4096 + gsz, 4096, PROT_NONE);
    return p + 4096 + gsz; /* end */
}

/* mpi helpers */
cry_mpi *vp_mpi_new(int sign, size_t n, const cry_mpi_digit *d, size_t alloc)
{
    cry_mpi *m = malloc(sizeof(*m));
    m->sign = sign; m->used = n; m->alloc = alloc;
    m->data = alloc ? raw_alloc(alloc * sizeof(cry_mpi_digit)) : NULL;
    if (n) memcpy(m->data, d, n * sizeof(cry_mpi_digit));
    return m;
}
void vp_mpi_del(cry_mpi *m) { if (m->data && m->alloc) vp_free(m->data); free(m); }
/* set an initialized mpi in place */
void vp_mpi_set(cry_mpi *m, int sign, size_t n, const cry_mpi_digit *d)
{
    if (m->alloc < n || m->data == NULL) {
        if (m->data && m->alloc) vp_free(m->data);
        m->data = raw_alloc((n ? n : 1) * sizeof(cry_mpi_digit)); m->alloc = n ? n : 1;
    }
    if (n) memcpy(m->data, d, n * sizeof(cry_mpi_digit));
    m->used = n; m->sign = sign;
}

/* interfaces */
const cry_ciph_itf vp_aes_itf = { (cry_ciph_init_f)cry_aes_init, (cry_ciph_clear_f)cry_aes_clear,
  (cry_ciph_key_set_f)cry_aes_key_set, (cry_ciph_encrypt_f)cry_aes_encrypt, (cry_ciph_decrypt_f)cry_aes_decrypt };
const cry_ciph_itf vp_des_itf = { (cry_ciph_init_f)cry_des_init, (cry_ciph_clear_f)cry_des_clear,
  (cry_ciph_key_set_f)cry_des_key_set, (cry_ciph_encrypt_f)cry_des_encrypt, (cry_ciph_decrypt_f)cry_des_decrypt };
const cry_hash_itf vp_md5_itf = { (cry_hash_init_f)cry_md5_init, (cry_hash_clear_f)cry_md5_clear,
  (cry_hash_update_f)cry_md5_update, (cry_hash_digest_f)cry_md5_digest };
const cry_hash_itf vp_sha1_itf = { (cry_hash_init_f)cry_sha1_init, (cry_hash_clear_f)cry_sha1_clear,
  (cry_hash_update_f)cry_sha1_update, (cry_hash_digest_f)cry_sha1_digest };
const cry_hash_itf vp_sha256_itf = { (cry_hash_init_f)cry_sha256_init, (cry_hash_clear_f)cry_sha256_clear,
  (cry_hash_update_f)cry_sha256_update, (cry_hash_digest_f)cry_sha256_digest };

#define SZ(t) if (!strcmp(n, #t)) return sizeof(t);
size_t vp_sizeof(const char *n)
{
    SZ(cry_aes_ctx) SZ(cry_affine_ctx) SZ(cry_arc4_ctx) SZ(cry_cbc_ctx) SZ(cry_cfb_ctx) SZ(cry_cmac_ctx)
    SZ(cry_crc16_ctx) SZ(cry_crc32_ctx) SZ(cry_ctr_ctx) SZ(cry_des_ctx) SZ(cry_dh_ctx) SZ(cry_dsa_ctx)
    SZ(cry_dsa_sig) SZ(cry_ecdh_ctx) SZ(cry_ecdsa_ctx) SZ(cry_ecdsa_sig) SZ(cry_ecp) SZ(cry_ecp_grp)
    SZ(cry_elgamal_ctx) SZ(cry_elgamal_sig) SZ(cry_gcm_ctx) SZ(cry_hill_ctx) SZ(cry_hmac_ctx) SZ(cry_md5_ctx)
    SZ(cry_mpi) SZ(cry_rsa_ctx) SZ(cry_sha1_ctx) SZ(cry_sha256_ctx) SZ(cry_sha512_ctx) SZ(cry_trivium_ctx)
    return 0;
}
#define OFF(t, m) if (!strcmp(n, #t "." #m)) return __builtin_offsetof(t, m);
size_t vp_offsetof(const char *n)
{
    OFF(cry_ecp, x) OFF(cry_ecp, y) OFF(cry_ecp, z)
    OFF(cry_ecp_grp, p) OFF(cry_ecp_grp, a) OFF(cry_ecp_grp, b) OFF(cry_ecp_grp, g) OFF(cry_ecp_grp, n)
    OFF(cry_dsa_ctx, p) OFF(cry_dsa_ctx, q) OFF(cry_dsa_ctx, g) OFF(cry_dsa_ctx, pvt) OFF(cry_dsa_ctx, pub)
    OFF(cry_dsa_sig, r) OFF(cry_dsa_sig, s)
    OFF(cry_ecdsa_ctx, grp) OFF(cry_ecdsa_ctx, d) OFF(cry_ecdsa_ctx, q) OFF(cry_ecdsa_sig, r) OFF(cry_ecdsa_sig, s)
    OFF(cry_elgamal_ctx, p) OFF(cry_elgamal_ctx, g) OFF(cry_elgamal_ctx, y) OFF(cry_elgamal_ctx, d)
    OFF(cry_elgamal_sig, r) OFF(cry_elgamal_sig, s)
    OFF(cry_rsa_ctx, n) OFF(cry_rsa_ctx, e) OFF(cry_rsa_ctx, d) OFF(cry_rsa_ctx, p) OFF(cry_rsa_ctx, q) OFF(cry_rsa_ctx, padding)
    OFF(cry_dh_ctx, p) OFF(cry_dh_ctx, g) OFF(cry_dh_ctx, e) OFF(cry_dh_ctx, Y) OFF(cry_dh_ctx, Z)
    OFF(cry_ecdh_ctx, ec) OFF(cry_ecdh_ctx, d) OFF(cry_ecdh_ctx, q) OFF(cry_ecdh_ctx, z)
    OFF(cry_sha512_ctx, len) OFF(cry_sha256_ctx, bitlen) OFF(cry_sha1_ctx, len) OFF(cry_md5_ctx, len)
    OFF(cry_gcm_ctx, auth_len) OFF(cry_gcm_ctx, ciph_len) OFF(cry_gcm_ctx, ctr) OFF(cry_ctr_ctx, ctr)
    OFF(cry_cbc_ctx, ctr) OFF(cry_cfb_ctx, v)
    OFF(cry_hill_ctx, n) OFF(cry_hill_ctx, key) OFF(cry_hill_ctx, ikey)
    return (size_t)-1;
}
size_t vp_qsiz(void) { return gsz; }
/* macro-only API */
int vp_mpi_mod(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return cry_mpi_mod(r, a, b); }
size_t vp_mpi_count_bytes(const cry_mpi *a) { return cry_mpi_count_bytes(a); }
void vp_cfb_encrypt(cry_cfb_ctx *c, unsigned char *d, const unsigned char *s, size_t n) { cry_cfb_encrypt(c, d, s, n); }
void vp_cfb_decrypt(cry_cfb_ctx *c, unsigned char *d, const unsigned char *s, size_t n) { cry_cfb_decrypt(c, d, s, n); }
void vp_ctr_decrypt(cry_ctr_ctx *c, unsigned char *d, const unsigned char *s, size_t n) { cry_ctr_decrypt(c, d, s, n); }
int vp_mpi_is_odd(const cry_mpi *a) { return cry_mpi_is_odd(a); }
