/* canonical JSON dump of parsed IMAP commands and responses */
#ifndef IMAP_DUMP_H
#define IMAP_DUMP_H
#include <stdarg.h>
#include "libimap/libimap.h"

typedef struct { char *p; size_t len, cap; } buf_t;
static void bput(buf_t *b, const char *s, size_t n){
    if(b->len + n + 1 > b->cap){ b->cap = (b->len + n + 1) * 2; b->p = realloc(b->p, b->cap); }
    if(n) memcpy(b->p + b->len, s, n);
    b->len += n; b->p[b->len] = 0;
}
static void bs(buf_t *b, const char *s){ bput(b, s, strlen(s)); }
static void bf(buf_t *b, const char *fmt, ...){
    char t[256]; va_list ap; va_start(ap, fmt); vsnprintf(t, sizeof(t), fmt, ap); va_end(ap); bs(b, t);
}
static void bhex(buf_t *b, const dstr_t d){
    bs(b, "\"");
    for(size_t i = 0; i < d.len; i++){ char t[4]; snprintf(t, 4, "%02x", (unsigned char)d.data[i]); bput(b, t, 2); }
    bs(b, "\"");
}
static void dstrp(buf_t *b, const ie_dstr_t *d){ if(d) bhex(b, d->dstr); else bs(b, "null"); }
static void dlist(buf_t *b, const ie_dstr_t *d){
    bs(b, "[");
    for(; d; d = d->next){ bhex(b, d->dstr); if(d->next) bs(b, ","); }
    bs(b, "]");
}
static void dmbox(buf_t *b, const ie_mailbox_t *m){
    if(!m) bs(b, "null"); else if(m->inbox) bs(b, "\"INBOX\""); else { bs(b, "[\"m\","); bhex(b, m->dstr); bs(b, "]"); }
}
static void dseq(buf_t *b, const ie_seq_set_t *s){
    if(!s){ bs(b, "null"); return; }
    bs(b, "[");
    for(; s; s = s->next){ bf(b, "[%u,%u]", s->n1, s->n2); if(s->next) bs(b, ","); }
    bs(b, "]");
}
static void itime(buf_t *b, imap_time_t t){
    bf(b, "[%d,%d,%d,%d,%d,%d,%d,%d]", t.year, t.month, t.day, t.hour, t.min, t.sec, t.z_hour, t.z_min);
}
#define FLAGDUMP(T, EXTRA) { if(!f){ bs(b, "null"); return; } \
    bs(b, "[\""); if(f->answered) bs(b, "A"); if(f->flagged) bs(b, "F"); if(f->deleted) bs(b, "D"); \
    if(f->seen) bs(b, "S"); if(f->draft) bs(b, "R"); EXTRA bs(b, "\","); \
    dlist(b, f->keywords); bs(b, ","); dlist(b, f->extensions); bs(b, "]"); }
static void dflags(buf_t *b, const ie_flags_t *f) FLAGDUMP(ie_flags_t, )
static void dpflags(buf_t *b, const ie_pflags_t *f) FLAGDUMP(ie_pflags_t, if(f->asterisk) bs(b, "*");)
static void dfflags(buf_t *b, const ie_fflags_t *f) FLAGDUMP(ie_fflags_t, if(f->recent) bs(b, "N");)
static void dmflags(buf_t *b, const ie_mflags_t *f){
    if(!f){ bs(b, "null"); return; }
    bf(b, "[%d,%d,", (int)f->noinferiors, (int)f->selectable); dlist(b, f->extensions); bs(b, "]");
}
static void dparams(buf_t *b, const ie_select_params_t *p){
    bs(b, "[");
    for(; p; p = p->next){
        if(p->type == IE_SELECT_PARAM_CONDSTORE) bs(b, "\"CONDSTORE\"");
        else {
            bf(b, "[\"QRESYNC\",%u,%llu,", p->arg.qresync.uidvld, (unsigned long long)p->arg.qresync.last_modseq);
            dseq(b, p->arg.qresync.known_uids); bs(b, ","); dseq(b, p->arg.qresync.seq_keys); bs(b, ","); dseq(b, p->arg.qresync.uid_vals); bs(b, "]");
        }
        if(p->next) bs(b, ",");
    }
    bs(b, "]");
}
static void dkey(buf_t *b, const ie_search_key_t *k){
    static const char *names[] = {"ALL","ANSWERED","DELETED","FLAGGED","NEW","OLD","RECENT","SEEN","UNANSWERED","UNDELETED","UNFLAGGED","UNSEEN","DRAFT","UNDRAFT",
        "SUBJECT","BCC","BODY","CC","FROM","KEYWORD","TEXT","TO","UNKEYWORD","HEADER","BEFORE","ON","SINCE","SENTBEFORE","SENTON","SENTSINCE","LARGER","SMALLER",
        "UID","SEQ_SET","NOT","GROUP","OR","AND","MODSEQ"};
    if(!k){ bs(b, "null"); return; }
    bf(b, "[\"%s\"", names[k->type]);
    if(k->type >= IE_SEARCH_SUBJECT && k->type <= IE_SEARCH_UNKEYWORD){ bs(b, ","); dstrp(b, k->param.dstr); }
    else if(k->type == IE_SEARCH_HEADER){ bs(b, ","); dstrp(b, k->param.header.name); bs(b, ","); dstrp(b, k->param.header.value); }
    else if(k->type >= IE_SEARCH_BEFORE && k->type <= IE_SEARCH_SENTSINCE){ bf(b, ",[%d,%d,%d]", k->param.date.year, k->param.date.month, k->param.date.day); }
    else if(k->type == IE_SEARCH_LARGER || k->type == IE_SEARCH_SMALLER) bf(b, ",%u", k->param.num);
    else if(k->type == IE_SEARCH_UID || k->type == IE_SEARCH_SEQ_SET){ bs(b, ","); dseq(b, k->param.seq_set); }
    else if(k->type == IE_SEARCH_NOT || k->type == IE_SEARCH_GROUP){ bs(b, ","); dkey(b, k->param.key); }
    else if(k->type == IE_SEARCH_OR || k->type == IE_SEARCH_AND){ bs(b, ","); dkey(b, k->param.pair.a); bs(b, ","); dkey(b, k->param.pair.b); }
    else if(k->type == IE_SEARCH_MODSEQ){
        bs(b, ",");
        if(k->param.modseq.ext){ bs(b, "["); dstrp(b, k->param.modseq.ext->entry_name); bf(b, ",%d]", (int)k->param.modseq.ext->entry_type); } else bs(b, "null");
        bf(b, ",%llu", (unsigned long long)k->param.modseq.modseq);
    }
    bs(b, "]");
}
static void dsect(buf_t *b, const ie_sect_t *s){
    if(!s){ bs(b, "null"); return; }
    bs(b, "[[");
    for(const ie_sect_part_t *p = s->sect_part; p; p = p->next) bf(b, p->next ? "%u," : "%u", p->n);
    bs(b, "],");
    if(s->sect_txt){
        static const char *n[] = {"MIME","TEXT","HEADER","HEADER.FIELDS","HEADER.FIELDS.NOT"};
        bf(b, "[\"%s\",", n[s->sect_txt->type]); dlist(b, s->sect_txt->headers); bs(b, "]");
    } else bs(b, "null");
    bs(b, "]");
}
static void dattrs(buf_t *b, const ie_fetch_attrs_t *a){
    if(!a){ bs(b, "null"); return; }
    bs(b, "[\"");
    if(a->envelope) bs(b, "E"); if(a->flags) bs(b, "F"); if(a->intdate) bs(b, "I"); if(a->uid) bs(b, "U"); if(a->rfc822) bs(b, "R");
    if(a->rfc822_header) bs(b, "H"); if(a->rfc822_size) bs(b, "Z"); if(a->rfc822_text) bs(b, "T"); if(a->body) bs(b, "B");
    if(a->bodystruct) bs(b, "S"); if(a->modseq) bs(b, "M");
    bs(b, "\",[");
    for(const ie_fetch_extra_t *x = a->extras; x; x = x->next){
        bf(b, "[%d,", (int)x->peek); dsect(b, x->sect); bs(b, ",");
        if(x->partial) bf(b, "[%u,%u]", x->partial->a, x->partial->b); else bs(b, "null");
        bs(b, x->next ? "]," : "]");
    }
    bs(b, "]]");
}

static const char *cmd_names[] = {
    [IMAP_CMD_ERROR] = "ERROR",
    [IMAP_CMD_PLUS_REQ] = "PLUS_REQ",
    [IMAP_CMD_CAPA] = "CAPABILITY",
    [IMAP_CMD_NOOP] = "NOOP",
    [IMAP_CMD_LOGOUT] = "LOGOUT",
    [IMAP_CMD_STARTTLS] = "STARTTLS",
    [IMAP_CMD_LOGIN] = "LOGIN",
    [IMAP_CMD_SELECT] = "SELECT",
    [IMAP_CMD_EXAMINE] = "EXAMINE",
    [IMAP_CMD_CREATE] = "CREATE",
    [IMAP_CMD_DELETE] = "DELETE",
    [IMAP_CMD_RENAME] = "RENAME",
    [IMAP_CMD_SUB] = "SUBSCRIBE",
    [IMAP_CMD_UNSUB] = "UNSUBSCRIBE",
    [IMAP_CMD_LIST] = "LIST",
    [IMAP_CMD_LSUB] = "LSUB",
    [IMAP_CMD_STATUS] = "STATUS",
    [IMAP_CMD_APPEND] = "APPEND",
    [IMAP_CMD_CHECK] = "CHECK",
    [IMAP_CMD_CLOSE] = "CLOSE",
    [IMAP_CMD_EXPUNGE] = "EXPUNGE",
    [IMAP_CMD_SEARCH] = "SEARCH",
    [IMAP_CMD_FETCH] = "FETCH",
    [IMAP_CMD_STORE] = "STORE",
    [IMAP_CMD_COPY] = "COPY",
    [IMAP_CMD_ENABLE] = "ENABLE",
    [IMAP_CMD_UNSELECT] = "UNSELECT",
    [IMAP_CMD_IDLE] = "IDLE",
    [IMAP_CMD_IDLE_DONE] = "IDLE_DONE",
    [IMAP_CMD_XKEYSYNC] = "XKEYSYNC",
    [IMAP_CMD_XKEYSYNC_DONE] = "XKEYSYNC_DONE",
    [IMAP_CMD_XKEYADD] = "XKEYADD",
};
static const char *resp_names[] = {
    [IMAP_RESP_PLUS] = "PLUS",
    [IMAP_RESP_STATUS_TYPE] = "STATUS_TYPE",
    [IMAP_RESP_CAPA] = "CAPABILITY",
    [IMAP_RESP_LIST] = "LIST",
    [IMAP_RESP_LSUB] = "LSUB",
    [IMAP_RESP_STATUS] = "STATUS",
    [IMAP_RESP_FLAGS] = "FLAGS",
    [IMAP_RESP_SEARCH] = "SEARCH",
    [IMAP_RESP_EXISTS] = "EXISTS",
    [IMAP_RESP_EXPUNGE] = "EXPUNGE",
    [IMAP_RESP_RECENT] = "RECENT",
    [IMAP_RESP_FETCH] = "FETCH",
    [IMAP_RESP_ENABLED] = "ENABLED",
    [IMAP_RESP_VANISHED] = "VANISHED",
    [IMAP_RESP_XKEYSYNC] = "XKEYSYNC",
};
static void dump_cmd(buf_t *b, const imap_cmd_t *c){
    const imap_cmd_arg_t *a = &c->arg;
    bs(b, "["); dstrp(b, c->tag);
    bf(b, ",\"%s\"", cmd_names[c->type]);
    #define A bs(b, ",")
    switch(c->type){
        case IMAP_CMD_ERROR: A; dstrp(b, a->error); break;
        case IMAP_CMD_PLUS_REQ: A; dstrp(b, a->plus); break;
        case IMAP_CMD_LOGIN: A; dstrp(b, a->login->user); A; dstrp(b, a->login->pass); break;
        case IMAP_CMD_SELECT: A; dmbox(b, a->select->m); A; dparams(b, a->select->params); break;
        case IMAP_CMD_EXAMINE: A; dmbox(b, a->examine->m); A; dparams(b, a->examine->params); break;
        case IMAP_CMD_CREATE: A; dmbox(b, a->create); break;
        case IMAP_CMD_DELETE: A; dmbox(b, a->delete); break;
        case IMAP_CMD_RENAME: A; dmbox(b, a->rename->old); A; dmbox(b, a->rename->new); break;
        case IMAP_CMD_SUB: A; dmbox(b, a->sub); break;
        case IMAP_CMD_UNSUB: A; dmbox(b, a->unsub); break;
        case IMAP_CMD_LIST: A; dmbox(b, a->list->m); A; dstrp(b, a->list->pattern); break;
        case IMAP_CMD_LSUB: A; dmbox(b, a->lsub->m); A; dstrp(b, a->lsub->pattern); break;
        case IMAP_CMD_STATUS: A; dmbox(b, a->status->m); bf(b, ",%u", a->status->status_attr); break;
        case IMAP_CMD_APPEND: A; dmbox(b, a->append->m); A; dflags(b, a->append->flags); A; itime(b, a->append->time); A; dstrp(b, a->append->content); break;
        case IMAP_CMD_EXPUNGE: A; dseq(b, a->uid_expunge); break;
        case IMAP_CMD_SEARCH: bf(b, ",%d,", (int)a->search->uid_mode); dstrp(b, a->search->charset); A; dkey(b, a->search->search_key); break;
        case IMAP_CMD_FETCH:
            bf(b, ",%d,", (int)a->fetch->uid_mode); dseq(b, a->fetch->seq_set); A; dattrs(b, a->fetch->attr); bs(b, ",[");
            for(ie_fetch_mods_t *m = a->fetch->mods; m; m = m->next){
                if(m->type == IE_FETCH_MOD_CHGSINCE) bf(b, "%llu", (unsigned long long)m->arg.chgsince); else bs(b, "\"VANISHED\"");
                if(m->next) A;
            }
            bs(b, "]");
            break;
        case IMAP_CMD_STORE:
            bf(b, ",%d,", (int)a->store->uid_mode); dseq(b, a->store->seq_set); bs(b, ",[");
            for(ie_store_mods_t *m = a->store->mods; m; m = m->next) bf(b, m->next ? "%llu," : "%llu", (unsigned long long)m->arg.unchgsince);
            bf(b, "],%d,%d,", a->store->sign, (int)a->store->silent); dflags(b, a->store->flags);
            break;
        case IMAP_CMD_COPY: bf(b, ",%d,", (int)a->copy->uid_mode); dseq(b, a->copy->seq_set); A; dmbox(b, a->copy->m); break;
        case IMAP_CMD_ENABLE: A; dlist(b, a->enable); break;
        case IMAP_CMD_IDLE_DONE: A; dstrp(b, a->idle_done); break;
        case IMAP_CMD_XKEYSYNC: A; dlist(b, a->xkeysync); break;
        case IMAP_CMD_XKEYSYNC_DONE: A; dstrp(b, a->xkeysync_done); break;
        case IMAP_CMD_XKEYADD: A; dstrp(b, a->xkeyadd); break;
        default: break;
    }
    bs(b, "]");
}
static void dcode(buf_t *b, const ie_st_code_t *c){
    if(!c){ bs(b, "null"); return; }
    static const char *n[] = {"ALERT","PARSE","READ-ONLY","READ-WRITE","TRYCREATE","UIDNEXT","UIDVALIDITY","UNSEEN","PERMANENTFLAGS","CAPABILITY","ATOM",
        "UIDNOTSTICKY","APPENDUID","COPYUID","NOMODSEQ","HIGHESTMODSEQ","MODIFIED","CLOSED"};
    bf(b, "[\"%s\"", n[c->type]);
    switch(c->type){
        case IE_ST_CODE_UIDNEXT: bf(b, ",%u", c->arg.uidnext); break;
        case IE_ST_CODE_UIDVLD: bf(b, ",%u", c->arg.uidvld); break;
        case IE_ST_CODE_UNSEEN: bf(b, ",%u", c->arg.unseen); break;
        case IE_ST_CODE_PERMFLAGS: A; dpflags(b, c->arg.pflags); break;
        case IE_ST_CODE_CAPA: A; dlist(b, c->arg.capa); break;
        case IE_ST_CODE_ATOM: A; dstrp(b, c->arg.atom.name); A; dstrp(b, c->arg.atom.text); break;
        case IE_ST_CODE_APPENDUID: bf(b, ",%u,%u", c->arg.appenduid.uidvld, c->arg.appenduid.uid); break;
        case IE_ST_CODE_COPYUID: bf(b, ",%u,", c->arg.copyuid.uidvld); dseq(b, c->arg.copyuid.uids_in); A; dseq(b, c->arg.copyuid.uids_out); break;
        case IE_ST_CODE_HIMODSEQ: bf(b, ",%llu", (unsigned long long)c->arg.himodseq); break;
        case IE_ST_CODE_MODIFIED: A; dseq(b, c->arg.modified); break;
        default: break;
    }
    bs(b, "]");
}
static void dlistresp(buf_t *b, const ie_list_resp_t *l){ dmflags(b, l->mflags); bf(b, ",%d,", (int)(unsigned char)l->sep); dmbox(b, l->m); }

static void dump_resp(buf_t *b, const imap_resp_t *r){
    const imap_resp_arg_t *a = &r->arg;
    bf(b, "[\"%s\"", resp_names[r->type]);
    switch(r->type){
        case IMAP_RESP_PLUS: A; dcode(b, a->plus->code); A; dstrp(b, a->plus->text); break;
        case IMAP_RESP_STATUS_TYPE: {
            dstr_t s = ie_status_to_dstr(a->status_type->status);
            A; dstrp(b, a->status_type->tag); bs(b, ",\""); bput(b, s.data, s.len); bs(b, "\","); dcode(b, a->status_type->code); A; dstrp(b, a->status_type->text);
            break; }
        case IMAP_RESP_CAPA: A; dlist(b, a->capa); break;
        case IMAP_RESP_LIST: A; dlistresp(b, a->list); break;
        case IMAP_RESP_LSUB: A; dlistresp(b, a->lsub); break;
        case IMAP_RESP_STATUS: {
            const ie_status_attr_resp_t *s = &a->status->sa;
            A; dmbox(b, a->status->m); bf(b, ",%u,[", s->attrs);
            /* values are only meaningful for attributes that are present */
            bf(b, "%u,", s->attrs & IE_STATUS_ATTR_MESSAGES ? s->messages : 0);
            bf(b, "%u,", s->attrs & IE_STATUS_ATTR_RECENT ? s->recent : 0);
            bf(b, "%u,", s->attrs & IE_STATUS_ATTR_UIDNEXT ? s->uidnext : 0);
            bf(b, "%u,", s->attrs & IE_STATUS_ATTR_UIDVLD ? s->uidvld : 0);
            bf(b, "%u,", s->attrs & IE_STATUS_ATTR_UNSEEN ? s->unseen : 0);
            bf(b, "%llu]", (unsigned long long)(s->attrs & IE_STATUS_ATTR_HIMODSEQ ? s->himodseq : 0));
            break; }
        case IMAP_RESP_FLAGS: A; dflags(b, a->flags); break;
        case IMAP_RESP_SEARCH:
            bs(b, ",[");
            if(a->search) for(ie_nums_t *n = a->search->nums; n; n = n->next) bf(b, n->next ? "%u," : "%u", n->num);
            bf(b, "],%d,%llu", a->search ? (int)a->search->modseq_present : 0, (unsigned long long)(a->search ? a->search->modseqnum : 0));
            break;
        case IMAP_RESP_EXISTS: bf(b, ",%u", a->exists); break;
        case IMAP_RESP_EXPUNGE: bf(b, ",%u", a->expunge); break;
        case IMAP_RESP_RECENT: bf(b, ",%u", a->recent); break;
        case IMAP_RESP_FETCH: {
            const ie_fetch_resp_t *f = a->fetch;
            bf(b, ",%u,", f->seq_num); dfflags(b, f->flags); bf(b, ",%u,", f->uid); itime(b, f->intdate); A;
            dstrp(b, f->rfc822); A; dstrp(b, f->rfc822_hdr); A; dstrp(b, f->rfc822_text);
            bf(b, ",%lld,%llu,[", f->rfc822_size ? (long long)f->rfc822_size->num : -1, (unsigned long long)f->modseq);
            for(const ie_fetch_resp_extra_t *x = f->extras; x; x = x->next){
                bs(b, "["); dsect(b, x->sect); bf(b, ",%lld,", x->offset ? (long long)x->offset->num : -1); dstrp(b, x->content); bs(b, x->next ? "]," : "]");
            }
            bs(b, "]");
            break; }
        case IMAP_RESP_ENABLED: A; dlist(b, a->enabled); break;
        case IMAP_RESP_VANISHED: bf(b, ",%d,", (int)a->vanished->earlier); dseq(b, a->vanished->uids); break;
        case IMAP_RESP_XKEYSYNC:
            if(!a->xkeysync) bs(b, ",\"OK\"");
            else if(a->xkeysync->created){ bs(b, ",\"CREATED\","); dstrp(b, a->xkeysync->created); }
            else { bs(b, ",\"DELETED\","); dstrp(b, a->xkeysync->deleted); }
            break;
    }
    bs(b, "]");
    #undef A
}
#endif
