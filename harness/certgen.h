/* Certificates made at run time. */
#ifndef CERTGEN_H
#define CERTGEN_H
#include <openssl/ssl.h>
#include <openssl/x509v3.h>
#include <openssl/pem.h>
#include <openssl/err.h>
#include <openssl/ec.h>
typedef struct {
    const char *cn;         /* NULL: an empty subject */
    const char *san;        /* "DNS:a,IP:1.2.3.4" or NULL */
    X509 *issuer; EVP_PKEY *issuer_key; /* NULL: self-signed */
    EVP_PKEY *key;
    long from, to;          /* seconds relative to now */
    int ca;                 /* 0 no basic constraints, 1 CA:TRUE, -1 CA:FALSE */
    int pathlen;            /* -1 none */
    const char *ku, *eku;
    const char *critical;   /* an unknown critical extension (an OID) */
    const char *nc;         /* name constraints */
    int breaksig;
    const char *issuer_cn;  /* only the name of another issuer */
} cg_t;
static EVP_PKEY *cg_key(int rsa){ EVP_PKEY *k = rsa ? EVP_RSA_gen(2048) : EVP_EC_gen("P-256"); if(!k) vh_fatal("key"); return k; }
static void cg_ext(X509 *x, X509 *issuer, int nid, const char *v){
    X509V3_CTX c; X509V3_set_ctx_nodb(&c); X509V3_set_ctx(&c, issuer, x, NULL, NULL, 0);
    X509_EXTENSION *e = X509V3_EXT_conf_nid(NULL, &c, nid, v);
    if(!e){ ERR_print_errors_fp(stderr); vh_fatal("extension"); }
    X509_add_ext(x, e, -1); X509_EXTENSION_free(e);
}
static X509 *cg_make(cg_t s){
    static long serial = 1000;
    X509 *x = X509_new(); X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), serial++);
    X509_gmtime_adj(X509_getm_notBefore(x), s.from); X509_gmtime_adj(X509_getm_notAfter(x), s.to);
    X509_NAME *n = X509_get_subject_name(x);
    if(s.cn) X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_UTF8, (const unsigned char*)s.cn, -1, -1, 0);
    else X509_NAME_add_entry_by_txt(n, "O", MBSTRING_UTF8, (const unsigned char*)"nobody", -1, -1, 0);
    if(s.issuer_cn){ X509_NAME *in = X509_NAME_new(); X509_NAME_add_entry_by_txt(in, "CN", MBSTRING_UTF8, (const unsigned char*)s.issuer_cn, -1, -1, 0); X509_set_issuer_name(x, in); X509_NAME_free(in); }
    else X509_set_issuer_name(x, s.issuer ? X509_get_subject_name(s.issuer) : n);
    X509_set_pubkey(x, s.key);
    X509 *is = s.issuer ? s.issuer : x;
    char b[64];
    if(s.ca == 1){ if(s.pathlen >= 0) snprintf(b, 64, "critical,CA:TRUE,pathlen:%d", s.pathlen); else snprintf(b, 64, "critical,CA:TRUE"); cg_ext(x, is, NID_basic_constraints, b); }
    if(s.ca == -1) cg_ext(x, is, NID_basic_constraints, "critical,CA:FALSE");
    cg_ext(x, is, NID_subject_key_identifier, "hash");
    if(s.ku) cg_ext(x, is, NID_key_usage, s.ku);
    if(s.eku) cg_ext(x, is, NID_ext_key_usage, s.eku);
    if(s.san) cg_ext(x, is, NID_subject_alt_name, s.san);
    if(s.nc) cg_ext(x, is, NID_name_constraints, s.nc);
    if(s.critical){
        ASN1_OBJECT *o = OBJ_txt2obj(s.critical, 1); ASN1_OCTET_STRING *d = ASN1_OCTET_STRING_new(); ASN1_OCTET_STRING_set(d, (const unsigned char*)"\x05\x00", 2);
        X509_EXTENSION *e = X509_EXTENSION_create_by_OBJ(NULL, o, 1, d); X509_add_ext(x, e, -1); X509_EXTENSION_free(e); ASN1_OCTET_STRING_free(d); ASN1_OBJECT_free(o);
    }
    if(!X509_sign(x, s.issuer_key ? s.issuer_key : s.key, EVP_sha256())) vh_fatal("sign");
    if(s.breaksig){
        const ASN1_BIT_STRING *sig; X509_get0_signature(&sig, NULL, x);
        ((ASN1_BIT_STRING*)(uintptr_t)sig)->data[sig->length - 5] ^= 0x10;
    }
    return x;
}
static void cg_pem(BIO *b, X509 *x){ if(!PEM_write_bio_X509(b, x)) vh_fatal("pem"); }
static void cg_keypem(BIO *b, EVP_PKEY *k){ if(!PEM_write_bio_PrivateKey(b, k, NULL, NULL, 0, NULL, NULL)) vh_fatal("pem"); }
static dstr_t cg_dstr(BIO *b){ char *p; long n = BIO_get_mem_data(b, &p); return (dstr_t){.data = p, .len = (size_t)n, .size = (size_t)n, .fixed_size = true}; }
static char CG_TMP[64];
static void cg_file(X509 *x){ /* to CG_TMP */
    snprintf(CG_TMP, sizeof(CG_TMP), "/tmp/vh_ca_XXXXXX"); int fd = mkstemp(CG_TMP); if(fd < 0) vh_fatal("mkstemp"); close(fd);
    BIO *b = BIO_new_file(CG_TMP, "w"); cg_pem(b, x); BIO_free(b);
}
#define CG_DAY 86400L
#endif
