/* C01/C02: message encryption format.
   args: roundtrip | tamper */
#include "vh.h"
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rand.h>
#include <openssl/rsa.h>
#include "libdstr/libdstr.h"
#include "libcrypto/libcrypto.h"

#define NK 8
static const char *names[NK] = {"r1024_0","r1024_1","r1024_2","r2048_0","r2048_1","r2048_2","r3072_0","r4096_0"};
static keypair_t *priv[NK], *pub[NK];
static EVP_PKEY *pk[NK];          /* loaded independently, for the reference */
static unsigned char fpr[NK][32];

typedef struct { unsigned char *p; size_t n, cap; } buf_t;
static void bput(buf_t *b, const void *p, size_t n){
    if(b->n + n > b->cap){ b->cap = (b->n + n) * 2 + 64; b->p = realloc(b->p, b->cap); }
    if(n) memcpy(b->p + b->n, p, n);
    b->n += n;
}
static void bputs(buf_t *b, const char *s){ bput(b, s, strlen(s)); }
static void bfree(buf_t *b){ free(b->p); *b = (buf_t){0}; }

static void load_keys(void){
    const char *dir = getenv("VERIF_DATA");
    for(int i = 0; i < NK; i++){
        char path[4096];
        snprintf(path, sizeof(path), "%s/keys/%s.pem", dir, names[i]);
        derr_t e = keypair_load_private(&priv[i], path);
        if(is_error(e)) vh_fatal("load private");
        e = keypair_load_public(&pub[i], path);
        if(is_error(e)) vh_fatal("load public");
        FILE *f = fopen(path, "r");
        pk[i] = PEM_read_PrivateKey(f, NULL, NULL, NULL);
        fclose(f);
        if(!pk[i]) vh_fatal("PEM_read");
        /* documented fingerprint: sha256 of the public key bits */
        unsigned char *der = NULL;
        int n = i2d_PublicKey(pk[i], &der);
        unsigned dn;
        EVP_Digest(der, (size_t)n, fpr[i], &dn, EVP_sha256(), NULL);
        OPENSSL_free(der);
        for(int j = 0; j < 2; j++){
            keypair_t *kp = j ? priv[i] : pub[i];
            VH_CHECK(kp->fingerprint->len == 32 && !memcmp(kp->fingerprint->data, fpr[i], 32),
                "fingerprint", "key %s (%d): fingerprint is not the sha256 of its public key", names[i], j);
        }
    }
}

/* ---------------- reference implementation of the documented format -------- */
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static void ref_b64(buf_t *out, const unsigned char *p, size_t n, size_t width, const char *nl){
    char *s = malloc(n * 4 / 3 + 8); size_t k = 0;
    for(size_t i = 0; i < n; i += 3){
        unsigned v = (unsigned)p[i] << 16 | (i+1<n ? (unsigned)p[i+1] << 8 : 0) | (i+2<n ? p[i+2] : 0);
        s[k++] = B64[v >> 18]; s[k++] = B64[(v >> 12) & 63];
        s[k++] = i+1<n ? B64[(v >> 6) & 63] : '='; s[k++] = i+2<n ? B64[v & 63] : '=';
    }
    for(size_t i = 0; i < k; i += width){
        size_t m = k - i < width ? k - i : width;
        bput(out, s + i, m); bputs(out, nl);
    }
    free(s);
}
static int ref_unb64(buf_t *out, const char *p, size_t n){
    unsigned v = 0, k = 0, pad = 0;
    for(size_t i = 0; i < n; i++){
        if(p[i] == '\n' || p[i] == '\r') continue;
        if(p[i] == '='){ v <<= 6; k++; pad++; }
        else {
            const char *c = strchr(B64, p[i]);
            if(!c || !p[i] || pad) return -1;
            v = v << 6 | (unsigned)(c - B64); k++;
        }
        if(k == 4){
            unsigned char o[3] = { (unsigned char)(v >> 16), (unsigned char)(v >> 8), (unsigned char)v };
            if(pad > 2) return -1;
            bput(out, o, 3 - pad);
            v = 0; k = 0;
        }
    }
    return k ? -1 : 0;
}
static void ref_encrypt(buf_t *out, const int *ks, size_t nk, const unsigned char *pt, size_t n, size_t width, const char *nl, vh_rng_t *r){
    unsigned char key[32], iv[12], tag[16];
    RAND_bytes(key, 32); RAND_bytes(iv, 12);
    buf_t pre = {0};
    bputs(&pre, "V:1\n");
    bool ivfirst = vh_pct(r, 10);
    char h[64];
    for(int pass = 0; pass < 2; pass++){
        if((pass == 0) == ivfirst){ bputs(&pre, "IV:12:"); bput(&pre, iv, 12); bputs(&pre, "\n"); }
        else for(size_t i = 0; i < nk; i++){
            unsigned char ek[1024]; size_t eklen = sizeof(ek);
            EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(pk[ks[i]], NULL);
            EVP_PKEY_encrypt_init(c);
            EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PADDING);
            if(EVP_PKEY_encrypt(c, ek, &eklen, key, 32) != 1) vh_fatal("ref rsa");
            EVP_PKEY_CTX_free(c);
            bputs(&pre, "R:32:"); bput(&pre, fpr[ks[i]], 32);
            snprintf(h, sizeof(h), ":%zu:", eklen); bputs(&pre, h);
            bput(&pre, ek, eklen); bputs(&pre, "\n");
        }
    }
    bputs(&pre, "M:");
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    EVP_EncryptInit_ex(c, EVP_aes_256_gcm(), NULL, key, iv);
    unsigned char *ct = malloc(n + 32); int m = 0, m2 = 0;
    if(n) EVP_EncryptUpdate(c, ct, &m, pt, (int)n);
    EVP_EncryptFinal_ex(c, ct + m, &m2);
    EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_GET_TAG, 16, tag);
    EVP_CIPHER_CTX_free(c);
    bput(&pre, ct, (size_t)(m + m2));
    free(ct);
    bputs(out, "-----BEGIN SPLINTERMAIL MESSAGE-----"); bputs(out, nl);
    ref_b64(out, pre.p, pre.n, width, nl);
    bputs(out, "="); ref_b64(out, tag, 16, 64, nl);
    bputs(out, "-----END SPLINTERMAIL MESSAGE-----"); bputs(out, nl);
    bfree(&pre);
}
/* strict: 0 ok, -1 malformed, -2 not a recipient, -3 authentication */
typedef struct { buf_t pt; size_t nrecip; size_t raw_n; } ref_out_t;
static int ref_decrypt(const char *msg, size_t n, int k, ref_out_t *o){
    static const char H[] = "-----BEGIN SPLINTERMAIL MESSAGE-----\n", F[] = "-----END SPLINTERMAIL MESSAGE-----\n";
    if(n < sizeof(H) - 1 || memcmp(msg, H, sizeof(H) - 1)) return -1;
    const char *p = msg + sizeof(H) - 1, *end = msg + n, *body = p;
    int rc = -1;
    buf_t raw = {0}, tag = {0};
    while(p < end && *p != '='){
        const char *q = memchr(p, '\n', (size_t)(end - p));
        if(!q || q - p > 64) goto cu;
        p = q + 1;
    }
    if(p >= end || ref_unb64(&raw, body, (size_t)(p - body))) goto cu;
    p++;
    const char *q = memchr(p, '\n', (size_t)(end - p));
    if(!q || ref_unb64(&tag, p, (size_t)(q - p)) || tag.n != 16) goto cu;
    p = q + 1;
    if((size_t)(end - p) != sizeof(F) - 1 || memcmp(p, F, sizeof(F) - 1)) goto cu;
    bput(&raw, "", 1); raw.n--;
    unsigned char *b = raw.p, *be = raw.p + raw.n;
    if(raw.n < 4 || memcmp(b, "V:1\n", 4)) goto cu;
    b += 4;
    unsigned char *ek = NULL, *iv = NULL; size_t eklen = 0;
    while(b < be){
        if(!memcmp(b, "M:", 2)){ b += 2; break; }
        if(!memcmp(b, "IV:12:", 6) && be - b > 18 && b[18] == '\n'){ iv = b + 6; b += 19; continue; }
        if(!memcmp(b, "R:32:", 5) && be - b > 38 && b[37] == ':'){
            unsigned char *f = b + 5;
            char *e2; unsigned long l = strtoul((char*)b + 38, &e2, 10);
            if(*e2 != ':' || l > 4096 || (size_t)((char*)be - e2) < l + 2 || e2[1 + l] != '\n') goto cu;
            if(!memcmp(f, fpr[k], 32)){ ek = (unsigned char*)e2 + 1; eklen = l; }
            o->nrecip++;
            b = (unsigned char*)e2 + 1 + l + 1;
            continue;
        }
        goto cu;
    }
    if(!iv) goto cu;
    if(!ek){ rc = -2; goto cu; }
    unsigned char key[1024]; size_t keylen = sizeof(key);
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(pk[k], NULL);
    EVP_PKEY_decrypt_init(c);
    EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PADDING);
    int ret = EVP_PKEY_decrypt(c, key, &keylen, ek, eklen);
    EVP_PKEY_CTX_free(c);
    if(ret != 1 || keylen != 32){ rc = -3; goto cu; }
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
    EVP_DecryptInit_ex(x, EVP_aes_256_gcm(), NULL, key, iv);
    unsigned char *pt = malloc((size_t)(be - b) + 32); int m = 0, m2 = 0;
    if(be > b) EVP_DecryptUpdate(x, pt, &m, b, (int)(be - b));
    EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_SET_TAG, 16, tag.p);
    ret = EVP_DecryptFinal_ex(x, pt + m, &m2);
    EVP_CIPHER_CTX_free(x);
    if(ret == 1){ bput(&o->pt, pt, (size_t)(m + m2)); rc = 0; } else rc = -3;
    free(pt);
cu:
    bfree(&raw); bfree(&tag);
    return rc;
}

/* ---------------- the code under test -------------------------------------- */
static void gen_plain(vh_rng_t *r, buf_t *b){
    size_t n;
    switch(vh_n(r, 8)){
        case 0: n = vh_n(r, 4); break;
        case 1: n = 0; break;
        case 2: n = 40 + vh_n(r, 16); break;
        case 3: n = 970 + vh_n(r, 12); break;
        case 4: n = vh_n(r, 9000); break;
        default: n = vh_n(r, 400); break;
    }
    int kind = (int)vh_n(r, 3);
    for(size_t i = 0; i < n; i++){
        unsigned char c = kind == 0 ? (unsigned char)vh_n(r, 256) : kind == 1 ? (unsigned char)("\r\n-=RVIM:abc"[vh_n(r, 12)]) : (unsigned char)('a' + i % 26);
        bput(b, &c, 1);
    }
}
static size_t next_chunk(vh_rng_t *r, int mode, size_t left){
    size_t k = mode == 0 ? left : mode == 1 ? 1 : mode == 2 ? 1 + vh_n(r, 80) : mode == 3 ? vh_n(r, 2000) : 4096;
    return k < left ? k : left;
}
/* encrypt with the repo's code; returns false on error */
static encrypter_t EC; static bool EC_made;
static derr_type_t do_encrypt(vh_rng_t *r, const int *ks, size_t nk, const buf_t *pt, dstr_t *out){
    link_t keys; link_init(&keys);
    derr_t e = E_OK;
    if(!EC_made){ EC = (encrypter_t){0}; e = encrypter_new(&EC); if(is_error(e)) vh_fatal("encrypter_new"); EC_made = true; }
    for(size_t i = 0; i < nk; i++){
        keypair_t *kp;
        e = keypair_copy(vh_pct(r, 50) ? pub[ks[i]] : priv[ks[i]], &kp);
        if(is_error(e)) vh_fatal("keypair_copy");
        link_list_append(&keys, &kp->link);
    }
    e = encrypter_start(&EC, &keys, out);
    /* the caller's keys are its own again after start */
    link_t *l;
    while((l = link_list_pop_first(&keys))){ keypair_t *kp = CONTAINER_OF(l, keypair_t, link); keypair_free(&kp); }
    int mode = (int)vh_n(r, 5);
    size_t pos = 0;
    while(!is_error(e) && pos < pt->n){
        size_t k = next_chunk(r, mode, pt->n - pos);
        char *cp = malloc(k ? k : 1); memcpy(cp, pt->p + pos, k);
        dstr_t in = { .data = cp, .len = k, .size = k, .fixed_size = true };
        if(vh_pct(r, 50)) e = encrypter_update(&EC, &in, out);
        else { e = encrypter_update_stream(&EC, &in, out); if(!is_error(e)) VH_CHECK(in.len == 0, "enc-leftover", "update_stream left %zu", in.len); }
        free(cp);
        pos += k;
    }
    if(!is_error(e)) e = encrypter_finish(&EC, out);
    derr_type_t t = e.type;
    DROP_VAR(&e);
    if(t){ encrypter_free(&EC); EC_made = false; }
    else if(vh_pct(r, 20)){ encrypter_free(&EC); EC_made = false; }
    return t;
}
static decrypter_t DC; static bool DC_made;
typedef struct { derr_type_t t; dstr_t pt; LIST(dstr_t) recips; dstr_t block; bool have_recips; } dec_t;
static void dec_free(dec_t *d){ dstr_free(&d->pt); LIST_FREE(dstr_t, &d->recips); dstr_free(&d->block); }
static void do_decrypt(vh_rng_t *r, int k, const char *msg, size_t n, int mode, dec_t *d){
    derr_t e = E_OK;
    *d = (dec_t){0};
    if(!DC_made){ DC = (decrypter_t){0}; e = decrypter_new(&DC); if(is_error(e)) vh_fatal("decrypter_new"); DC_made = true; }
    d->have_recips = vh_pct(r, 70);
    dstr_new(&d->pt, 1 + vh_n(r, 64));
    if(d->have_recips){ LIST_NEW(dstr_t, &d->recips, 1); dstr_new(&d->block, 1); }
    e = decrypter_start(&DC, priv[k], d->have_recips ? &d->recips : NULL, d->have_recips ? &d->block : NULL);
    dstr_t in = {0};
    dstr_new(&in, 16);
    size_t pos = 0;
    while(!is_error(e) && pos < n){
        size_t c = next_chunk(r, mode, n - pos);
        dstr_t sub = { .data = (char*)msg + pos, .len = c, .size = c, .fixed_size = true };
        dstr_append_quiet(&in, &sub);
        pos += c;
        e = decrypter_update(&DC, &in, &d->pt);
    }
    if(!is_error(e)) e = decrypter_finish(&DC, &d->pt);
    d->t = e.type;
    DROP_VAR(&e);
    dstr_free(&in);
    if(vh_pct(r, 10)){ decrypter_free(&DC); DC_made = false; }
}
static const char *tn(derr_type_t t){ return t ? error_to_dstr(t).data : "OK"; }

static void pick_keys(vh_rng_t *r, int *ks, size_t *nk){
    switch(vh_n(r, 40)){
        case 0: *nk = 128; break;
        case 1: *nk = 5 + vh_n(r, 60); break;
        case 2: *nk = 37; break;
        default: *nk = 1 + vh_n(r, 5); break;
    }
    bool only2048 = *nk == 37 || vh_pct(r, 50);
    for(size_t i = 0; i < *nk; i++) ks[i] = only2048 ? 3 + (int)vh_n(r, 3) : (int)vh_n(r, NK);
}

static void roundtrip(vh_rng_t *r, uint64_t i){
    (void)i;
    int ks[128]; size_t nk;
    pick_keys(r, ks, &nk);
    buf_t pt = {0}; gen_plain(r, &pt);
    dstr_t msg = {0};
    bool ours = vh_pct(r, 65);
    dstr_new(&msg, 64);
    if(vh_pct(r, 1)){
        int many[129]; for(int j = 0; j < 129; j++) many[j] = 0;
        derr_type_t t = do_encrypt(r, many, 129, &pt, &msg);
        VH_CHECK(t == E_FIXEDSIZE, "too-many-keys", "129 recipients: %s", tn(t));
        vh_count("too_many_recipients");
        msg.len = 0;
    }
    if(ours){
        derr_type_t t = do_encrypt(r, ks, nk, &pt, &msg);
        VH_CHECK(!t, "encrypt-failed", "nk=%zu n=%zu: %s", nk, pt.n, tn(t));
        if(t) goto cu;
        /* documented format, read back by the independent reader */
        for(int j = 0; j < 2; j++){
            int k = ks[vh_n(r, nk)];
            ref_out_t o = {0};
            int rc = ref_decrypt(msg.data, msg.len, k, &o);
            VH_CHECK(rc == 0 && o.pt.n == pt.n && !memcmp(o.pt.p ? (void*)o.pt.p : "", pt.p ? (void*)pt.p : "", pt.n) && o.nrecip == nk,
                "format", "reference reader: rc=%d len=%zu/%zu recips=%zu/%zu", rc, o.pt.n, pt.n, o.nrecip, nk);
            bfree(&o.pt);
        }
        vh_count("encrypted");
    }else{
        buf_t b = {0};
        size_t widths[] = {4, 16, 60, 64, 64, 64, 72, 76};
        ref_encrypt(&b, ks, nk, pt.p, pt.n, widths[vh_n(r, 8)], vh_pct(r, 40) ? "\r\n" : "\n", r);
        if(vh_pct(r, 15)) bputs(&b, "\r\n");
        dstr_t w = { .data = (char*)b.p, .len = b.n, .size = b.n, .fixed_size = true };
        dstr_append_quiet(&msg, &w);
        bfree(&b);
        vh_count("reference_encrypted");
    }
    vh_distinct(vh_hash(msg.data, msg.len, 0));
    if(vh_want_sample()) vh_sample("n=%zu recipients=%zu writer=%s: %.160s", pt.n, nk, ours ? "repo" : "reference", msg.data);
    for(int j = 0; j < 3; j++){
        int k = j == 2 ? (int)vh_n(r, NK) : ks[vh_n(r, nk)];
        bool isrecip = false;
        for(size_t q = 0; q < nk; q++) if(ks[q] == k) isrecip = true;
        dec_t d;
        int mode = (int)vh_n(r, 5);
        /* an exact-size copy, so that overreads are seen */
        char *cp = malloc(msg.len); memcpy(cp, msg.data, msg.len);
        do_decrypt(r, k, cp, msg.len, mode, &d);
        free(cp);
        if(isrecip){
            VH_CHECK(!d.t, "decrypt-failed", "writer=%s n=%zu nk=%zu mode=%d: %s", ours ? "repo" : "ref", pt.n, nk, mode, tn(d.t));
            if(!d.t){
                VH_CHECK(d.pt.len == pt.n && (!pt.n || !memcmp(d.pt.data, pt.p, pt.n)), "plaintext", "n=%zu got %zu mode=%d", pt.n, d.pt.len, mode);
                vh_count("decrypted");
            }
            if(d.have_recips && !d.t){
                bool same = d.recips.len == nk;
                for(size_t q = 0; same && q < nk; q++)
                    same = d.recips.data[q].len == 32 && !memcmp(d.recips.data[q].data, fpr[ks[q]], 32);
                VH_CHECK(same, "recipients", "recipient list of %zu does not match the %zu written", d.recips.len, nk);
            }
        }else{
            VH_CHECK(d.t == E_NOT4ME, "not4me", "non-recipient got %s", tn(d.t));
            VH_CHECK(d.pt.len == 0, "not4me-output", "non-recipient got %zu bytes", d.pt.len);
            vh_count("not_recipient");
        }
        dec_free(&d);
    }
cu:
    bfree(&pt);
    dstr_free(&msg);
}

static size_t line_starts(const buf_t *b, size_t *out, size_t max){
    size_t n = 0;
    for(size_t i = 0; i < b->n && n < max; i++) if(i == 0 || b->p[i-1] == '\n') out[n++] = i;
    return n;
}
static void bsplice(buf_t *b, size_t pos, size_t del, const void *ins, size_t n){
    buf_t o = {0};
    if(del > b->n - pos) del = b->n - pos;
    bput(&o, b->p, pos); bput(&o, ins, n); bput(&o, b->p + pos + del, b->n - pos - del);
    bfree(b); *b = o;
}
static void tamper(vh_rng_t *r, uint64_t i){
    (void)i;
    int ks[128]; size_t nk = 1 + vh_n(r, 3);
    for(size_t q = 0; q < nk; q++) ks[q] = (int)vh_n(r, NK);
    buf_t pt = {0}; gen_plain(r, &pt);
    dstr_t msg = {0};
    dstr_new(&msg, 64);
    if(do_encrypt(r, ks, nk, &pt, &msg)){ vh_violation("encrypt-failed", "n=%zu", pt.n); goto cu; }
    int k = ks[0];
    /* the raw layers, so that changes can be aimed */
    buf_t raw = {0};
    const char *body = msg.data + 37;
    const char *tagl = memchr(msg.data, '=', msg.len);
    const char *q0 = tagl;
    while(q0 && q0[-1] != '\n') q0 = memchr(q0 + 1, '=', msg.len - (size_t)(q0 + 1 - msg.data));
    if(!q0){ vh_violation("format", "no tag line"); goto cu; }
    tagl = q0;
    ref_unb64(&raw, body, (size_t)(tagl - body));
    unsigned char tag[18]; buf_t tb = {0};
    ref_unb64(&tb, tagl + 1, 24); memcpy(tag, tb.p, 16); bfree(&tb);
    size_t hdr = raw.n - pt.n; /* metadata length */
    for(int t = 0; t < 12; t++){
        buf_t m = {0};
        const char *what;
        int kind = (int)vh_n(r, 13);
        buf_t rw = {0}; bput(&rw, raw.p, raw.n);
        size_t taglen = 16; unsigned char tg[16]; memcpy(tg, tag, 16);
        bool rebuilt = true;
        switch(kind){
            case 0: what = "ciphertext bit"; if(pt.n) rw.p[hdr + vh_n(r, pt.n)] ^= (unsigned char)(1u << vh_n(r, 8)); break;
            case 1: what = "ciphertext truncated"; rw.n -= vh_n(r, pt.n + 1); break;
            case 2: what = "ciphertext extended"; { unsigned char x[64]; for(int z = 0; z < 64; z++) x[z] = (unsigned char)vh_n(r, 256); bput(&rw, x, 1 + vh_n(r, 64)); } break;
            case 3: what = "tag bit"; tg[vh_n(r, 16)] ^= (unsigned char)(1u << vh_n(r, 8)); break;
            case 4: what = "metadata bit"; rw.p[vh_n(r, hdr)] ^= (unsigned char)(1u << vh_n(r, 8)); break;
            case 5: what = "metadata bytes"; bsplice(&rw, vh_n(r, hdr), vh_n(r, 4), "4294967295:9", vh_n(r, 13)); break;
            case 6: what = "ciphertext byte removed"; if(pt.n) bsplice(&rw, hdr + vh_n(r, pt.n), 1, "", 0); break;
            case 7: what = "length field";
                { /* replace a decimal length by an extreme one */
                  const char *L[] = {"4294967295","4294967294","4294967296","0","18446744073709551615","99999","65536","-1",""};
                  unsigned char *p = NULL;
                  size_t start = vh_n(r, hdr);
                  for(size_t z = start; z < hdr; z++) if(rw.p[z] == ':' && z + 1 < hdr && rw.p[z+1] >= '0' && rw.p[z+1] <= '9'){ p = rw.p + z + 1; break; }
                  if(p){ size_t off = (size_t)(p - rw.p), d = 0; while(off + d < hdr && p[d] >= '0' && p[d] <= '9') d++; const char *s = L[vh_n(r, 9)]; bsplice(&rw, off, d, s, strlen(s)); }
                } break;
            default: rebuilt = false; what = "text"; break;
        }
        if(rebuilt){
            bputs(&m, "-----BEGIN SPLINTERMAIL MESSAGE-----\n");
            ref_b64(&m, rw.p, rw.n, 64, "\n");
            bputs(&m, "="); ref_b64(&m, tg, taglen, 64, "\n");
            bputs(&m, "-----END SPLINTERMAIL MESSAGE-----\n");
        }else{
            bput(&m, msg.data, msg.len);
            size_t ls[600]; size_t nl = line_starts(&m, ls, 600);
            size_t a = vh_n(r, nl), b = vh_n(r, nl);
            switch(kind){
                case 8: what = "truncated text"; m.n = vh_n(r, m.n); break;
                case 9: what = "line removed"; bsplice(&m, ls[a], (a + 1 < nl ? ls[a+1] : m.n) - ls[a], "", 0); break;
                case 10: what = "line duplicated"; { size_t l = (a + 1 < nl ? ls[a+1] : m.n) - ls[a]; char *c = malloc(l); memcpy(c, m.p + ls[a], l); bsplice(&m, ls[b], 0, c, l); free(c); } break;
                case 11: what = "bytes changed"; for(uint64_t z = 1 + vh_n(r, 3); z; z--) m.p[vh_n(r, m.n)] = (unsigned char)vh_n(r, 256); break;
                default: what = "long line"; { size_t l = 1 + vh_n(r, 6000); char *c = malloc(l); memset(c, 'A', l); bsplice(&m, ls[a], 0, c, l); free(c); } break;
            }
        }
        bfree(&rw);
        dec_t d;
        char *cp = malloc(m.n ? m.n : 1); memcpy(cp, m.p, m.n);
        do_decrypt(r, k, cp, m.n, (int)vh_n(r, 5), &d);
        if(!d.t){
            vh_count("accepted_unchanged");
            VH_CHECK(d.pt.len == pt.n && (!pt.n || !memcmp(d.pt.data, pt.p, pt.n)), "tampered-accepted", "%s: accepted with different plaintext (%zu bytes, was %zu)", what, d.pt.len, pt.n);
        }else vh_count("rejected");
        char cn[64]; snprintf(cn, 64, "kind_%02d", kind); vh_count(cn);
        vh_distinct(vh_hash(m.p, m.n, 0));
        if(vh_want_sample()) vh_sample("%s -> %s", what, tn(d.t));
        dec_free(&d);
        free(cp);
        bfree(&m);
    }
    /* the authentication tag cut short must not weaken the check */
    if(vh_pct(r, 60)){
        size_t tl = vh_n(r, 16);
        bool forge = vh_pct(r, 25) && pt.n;
        unsigned char tg[16]; memcpy(tg, tag, 16);
        if(forge) tl = 1;
        for(int v = 0; v < (forge ? 256 : 1); v++){
            buf_t m = {0}, rw = {0};
            bput(&rw, raw.p, raw.n);
            if(forge){ tg[0] = (unsigned char)v; rw.p[rw.n - 1] ^= 1; }
            bputs(&m, "-----BEGIN SPLINTERMAIL MESSAGE-----\n");
            ref_b64(&m, rw.p, rw.n, 64, "\n");
            bputs(&m, "="); if(tl) ref_b64(&m, tg, tl, 64, "\n"); else bputs(&m, "\n");
            bputs(&m, "-----END SPLINTERMAIL MESSAGE-----\n");
            dec_t d;
            do_decrypt(r, k, (char*)m.p, m.n, 0, &d);
            VH_CHECK(d.t, forge ? "short-tag-forgery" : "short-tag-accepted", "tag of %zu bytes accepted (plaintext %s)", tl, forge ? "modified" : "original");
            dec_free(&d);
            bfree(&m); bfree(&rw);
            vh_count("short_tags");
        }
    }
    /* tag of another message */
    if(vh_pct(r, 30)){
        dstr_t msg2 = {0}; dstr_new(&msg2, 64);
        if(!do_encrypt(r, ks, nk, &pt, &msg2)){
            const char *t2 = msg2.data + msg2.len - (msg.len - (size_t)(tagl - msg.data));
            buf_t m = {0};
            bput(&m, msg.data, (size_t)(tagl - msg.data)); bput(&m, t2, msg2.len - (size_t)(t2 - msg2.data));
            dec_t d; do_decrypt(r, k, (char*)m.p, m.n, 0, &d);
            VH_CHECK(d.t, "foreign-tag", "tag of another message accepted");
            dec_free(&d); bfree(&m);
            vh_count("foreign_tags");
        }
        dstr_free(&msg2);
    }
    /* and after all of that the decrypter still works */
    dec_t d; do_decrypt(r, k, msg.data, msg.len, (int)vh_n(r, 5), &d);
    VH_CHECK(!d.t && d.pt.len == pt.n && (!pt.n || !memcmp(d.pt.data, pt.p, pt.n)), "valid-after-tampered", "valid message after damaged ones: %s", tn(d.t));
    dec_free(&d);
    bfree(&raw);
cu:
    bfree(&pt);
    dstr_free(&msg);
}

int main(int argc, char **argv){
    vh_init(argc, argv);
    load_keys();
    if(vh_has_arg("roundtrip")) return vh_main(argc, argv, "roundtrip", roundtrip);
    return vh_main(argc, argv, "tamper", tamper);
}
