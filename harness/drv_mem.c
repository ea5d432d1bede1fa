/* String buffers and variable vectors: performs the script's operations, one JSON event each. */
#include "common.h"
#include <stdarg.h>
#include <arpa/inet.h>
#include <time.h>
#define N 3

static size_t hexlen(int i){ return i < nargs && argvv[i][0]=='x' ? (strlen(argvv[i])-1)/2 : 0; }
static char *opt(int i){ return i < nargs && argvv[i][0]=='~' ? NULL : ARG(i); }

/* ---- buffers ---- */
static cbuf *B[N+1];
static int vf(cbuf *cb, const char *fmt, ...)
{
    va_list ap; int r;
    va_start(ap, fmt); r = vcprintf(cb, fmt, ap); va_end(ap);
    return r;
}
static void b_op(char *op)
{
    int i = IARG(1), ret = 0, k, zero = 1, room = 1;
    int vary = !strcmp(op, "vfmt");
    if (!strcmp(op, "alloc")) ret = cbuf_alloc_set(IARG(1), IARG(2));
    else if (!strcmp(op, "new") || !strcmp(op, "newdef")) {
        if (B[i]) cbuf_free(B[i]);
        B[i] = op[3] ? cbuf_new() : cbuf_new_alloc(IARG(2));
        if (!B[i]) ret = -2;
    }
    else if (!strcmp(op, "free")) { cbuf_free(B[i]); B[i] = NULL; }
    else if (!strcmp(op, "str")) ret = cbuf_append_str(B[i], ARG(2));
    else if (!strcmp(op, "run")) {
        int n = IARG(2), c = IARG(3); char *s = malloc(n+1);
        for (k=0;k<n;k++) s[k] = ((c+k+1) % 90) + 33;
        s[n] = 0;
        ret = cbuf_append_str(B[i], s);
        free(s);
    }
    else if (!strcmp(op, "chr")) ret = cbuf_append(B[i], IARG(2));
    else if (!strcmp(op, "null")) ret = !strcmp(ARG(2), "str") ? cbuf_append_str(B[i], NULL) : cbuf_append_buf(B[i], NULL, 3);
    else if (!strcmp(op, "raw")) { size_t n = hexlen(2); char *s, *c; s = ARG(2); c = malloc(n?n:1); memcpy(c, s, n); ret = cbuf_append_buf(B[i], c, n); free(c); }
    else if (!strcmp(op, "buf")) ret = cbuf_append_buf(B[i], cbuf_get(B[IARG(2)]), cbuf_len(B[IARG(2)]));
    else if (!strcmp(op, "fmt") || vary) {
        char *f = ARG(2), *s = ARG(3); int n = IARG(4);
        int (*p)(cbuf *, const char *, ...) = vary ? vf : cprintf;
        if (!strcmp(f, "s")) ret = p(B[i], "%s", s);
        else if (!strcmp(f, "d")) ret = p(B[i], "%d", n);
        else if (!strcmp(f, "x")) ret = p(B[i], "%x", n);
        else if (!strcmp(f, "s=d")) ret = p(B[i], "%s=%d;", s, n);
        else if (!strcmp(f, "width")) ret = p(B[i], "%*s", n, s);
        else if (!strcmp(f, "prec")) ret = p(B[i], "%.*s", n, s);
        else if (!strcmp(f, "pct")) ret = p(B[i], "%%%s%%", s);
        else ret = p(B[i], "");
    }
    else if (!strcmp(op, "nofmt")) ret = cprintf(NULL, "%s", "abc") || vf(NULL, "%d", 3) ? -1 : 0;
    else if (!strcmp(op, "trunc")) ret = cbuf_trunc(B[i], IARG(2));
    else if (!strcmp(op, "reset")) cbuf_reset(B[i]);
    else die("op");
    fprintf(ev, "{\"ret\":%d,\"bufs\":[", ret);
    for (k=1;k<=N;k++){
        if (k>1) fputc(',', ev);
        fputc('[', ev);
        if (B[k]) {
            j_str(cbuf_get(B[k]), cbuf_len(B[k]));
            if (cbuf_buflen(B[k]) <= cbuf_len(B[k])) room = 0;
            else if (cbuf_get(B[k])[cbuf_len(B[k])]) zero = 0;
        }
        fputc(']', ev);
    }
    fprintf(ev, "],\"zero\":%d,\"room\":%d}\n", zero, room);
}

/* ---- vectors ---- */
static cvec *V[N+1];
static cg_var *R;
static void j_opt(const char *s){ fputc('[', ev); if (s) j_cstr(s); fputc(']', ev); }
static void j_cv(cg_var *cv)
{
    enum cv_type t = cv_type_get(cv);
    char *s = NULL; int b, first = 1;
    fprintf(ev, "{\"t\":\"%s\",\"n\":", t == CGV_ERR ? "err" : cv_type2str(t));
    j_opt(cv_name_get(cv));
    fprintf(ev, ",\"k\":%d,\"f\":[", cv_const_get(cv));
    for (b=0;b<7;b++)
        if (cv_flag(cv, 1<<b)) { fprintf(ev, "%s%d", first?"":",", b); first = 0; }
    fprintf(ev, "],\"v\":");
    if (t == CGV_ERR || (cv_isstring(t) && cv_string_get(cv) == NULL) || (t == CGV_URL && cv_urlproto_get(cv) == NULL)) j_opt(NULL);
    else { s = cv2str_dup(cv); j_opt(s ? s : "?"); }
    free(s);
    fputc('}', ev);
}
static int idx(cvec *v, cg_var *cv)
{
    int i;
    for (i=0; cv && i<cvec_len(v); i++) if (cvec_i(v, i) == cv) return i+1;
    return cv ? -5 : 0;
}
static int setval(cg_var *cv, char *s)
{
    if (cv_type_get(cv) == CGV_VOID) return cv_void_set(cv, (void*)strtoul(s, NULL, 16)), 0;
    if (cv_type_get(cv) == CGV_EMPTY) return 0;
    if (cv_type_get(cv) == CGV_DEC64) cv_dec64_n_set(cv, strchr(s, '.') ? strlen(strchr(s, '.')+1) : 1);
    return cv_parse(s, cv);
}
static void put(int i, cvec *v){ if (V[i]) cvec_free(V[i]); V[i] = v; }
/* the value through the typed accessors, as its canonical text; NULL: not for this type */
static char *tget(cg_var *cv)
{
    char b[512], a[INET6_ADDRSTRLEN]; struct timeval tv; unsigned char *u; char *m; time_t tt; struct tm *tm; int n;
    int64_t i; uint64_t ui;
    switch (cv_type_get(cv)){
    case CGV_INT8: sprintf(b, "%d", cv_int8_get(cv)); break;
    case CGV_INT16: sprintf(b, "%d", cv_int16_get(cv)); break;
    case CGV_INT32: sprintf(b, "%d", cv_int32_get(cv)); break;
    case CGV_INT64: sprintf(b, "%lld", (long long)cv_int64_get(cv)); break;
    case CGV_UINT8: sprintf(b, "%u", cv_uint8_get(cv)); break;
    case CGV_UINT16: sprintf(b, "%u", cv_uint16_get(cv)); break;
    case CGV_UINT32: sprintf(b, "%u", cv_uint32_get(cv)); break;
    case CGV_UINT64: sprintf(b, "%llu", (unsigned long long)cv_uint64_get(cv)); break;
    case CGV_DEC64:
        i = cv_dec64_i_get(cv); n = cv_dec64_n_get(cv); ui = i<0 ? -(uint64_t)i : (uint64_t)i;
        { uint64_t p = 1; int k; for (k=0;k<n;k++) p *= 10;
          sprintf(b, "%s%llu.%0*llu", i<0?"-":"", (unsigned long long)(ui/p), n, (unsigned long long)(ui%p)); }
        break;
    case CGV_BOOL: sprintf(b, "%s", cv_bool_get(cv) ? "true" : "false"); break;
    case CGV_STRING: case CGV_REST: case CGV_INTERFACE: return cv_string_get(cv) ? strdup(cv_string_get(cv)) : strdup("");
    case CGV_IPV4ADDR: inet_ntop(AF_INET, cv_ipv4addr_get(cv), b, sizeof(b)); break;
    case CGV_IPV4PFX: inet_ntop(AF_INET, cv_ipv4addr_get(cv), a, sizeof(a)); sprintf(b, "%s/%u", a, cv_ipv4masklen_get(cv)); break;
    case CGV_IPV6ADDR: inet_ntop(AF_INET6, cv_ipv6addr_get(cv), b, sizeof(b)); break;
    case CGV_IPV6PFX: inet_ntop(AF_INET6, cv_ipv6addr_get(cv), a, sizeof(a)); sprintf(b, "%s/%u", a, cv_ipv6masklen_get(cv)); break;
    case CGV_MACADDR: m = cv_mac_get(cv); sprintf(b, "%02x:%02x:%02x:%02x:%02x:%02x", (uint8_t)m[0], (uint8_t)m[1], (uint8_t)m[2], (uint8_t)m[3], (uint8_t)m[4], (uint8_t)m[5]); break;
    case CGV_URL: sprintf(b, "%s://%s:%s@%s/%s", cv_urlproto_get(cv), cv_urluser_get(cv), cv_urlpasswd_get(cv), cv_urladdr_get(cv), cv_urlpath_get(cv)); break;
    case CGV_UUID: u = cv_uuid_get(cv);
        sprintf(b, "%02x%02x%02x%02x-%02x%02x-%02x%02x-%02x%02x-%02x%02x%02x%02x%02x%02x", u[0],u[1],u[2],u[3],u[4],u[5],u[6],u[7],u[8],u[9],u[10],u[11],u[12],u[13],u[14],u[15]); break;
    case CGV_TIME: tv = cv_time_get(cv); tt = tv.tv_sec; tm = gmtime(&tt);
        sprintf(b, "%04d-%02d-%02dT%02d:%02d:%02d.%06ldZ", tm->tm_year+1900, tm->tm_mon+1, tm->tm_mday, tm->tm_hour, tm->tm_min, tm->tm_sec, (long)tv.tv_usec); break;
    case CGV_VOID: sprintf(b, "%p", cv_void_get(cv)); break;
    default: return NULL;
    }
    return strdup(b);
}
/* sets a value through the typed accessors; -1: not for this type, -8: not what was set */
static int tset(cg_var *cv, char *s)
{
    long long v = strtoll(s, NULL, 10); unsigned long long u = strtoull(s, NULL, 10);
    struct in_addr in; char *sl;
    switch (cv_type_get(cv)){
    case CGV_INT8: return cv_int8_set(cv, v) == v ? 0 : -8;
    case CGV_INT16: return cv_int16_set(cv, v) == v ? 0 : -8;
    case CGV_INT32: return cv_int32_set(cv, v) == v ? 0 : -8;
    case CGV_INT64: return cv_int64_set(cv, v) == v ? 0 : -8;
    case CGV_UINT8: return cv_uint8_set(cv, u) == u ? 0 : -8;
    case CGV_UINT16: return cv_uint16_set(cv, u) == u ? 0 : -8;
    case CGV_UINT32: return cv_uint32_set(cv, u) == u ? 0 : -8;
    case CGV_UINT64: return cv_uint64_set(cv, u) == u ? 0 : -8;
    case CGV_BOOL: cv_bool_set(cv, s[0] == 't'); return 0;
    case CGV_DEC64: { char t[64]; int n = strchr(s, '.') ? strlen(strchr(s, '.')+1) : 1; char *p, *q = t;
        for (p=s;*p;p++) if (*p != '.') *q++ = *p;
        *q = 0;
        cv_dec64_n_set(cv, n); cv_dec64_i_set(cv, strtoll(t, NULL, 10)); return 0; }
    case CGV_STRING: case CGV_REST: return cv_strncpy(cv, s, strlen(s)) ? 0 : -8;
    case CGV_INTERFACE: return cv_string_set_direct(cv, strdup(s));
    case CGV_IPV4ADDR: inet_pton(AF_INET, s, &in); cv_ipv4addr_set(cv, &in); return 0;
    case CGV_IPV4PFX: s = strdup(s); sl = strchr(s, '/'); *sl = 0; inet_pton(AF_INET, s, &in); cv_ipv4addr_set(cv, &in); cv_ipv4masklen_set(cv, atoi(sl+1)); free(s); return 0;
    case CGV_UUID: { uuid_t x; str2uuid(s, x); cv_uuid_set(cv, x); return 0; }
    case CGV_TIME: { struct timeval t; str2time(s, &t); cv_time_set(cv, t); return 0; }
    case CGV_URL: { char *p = strdup(s), *q = strstr(p, "://"), *x;
        *q = 0; cv_urlproto_set(cv, p); q += 3;
        x = strchr(q, '/'); *x = 0; cv_urlpath_set(cv, x+1);
        if ((x = strchr(q, '@'))) { char *y; *x = 0; y = strchr(q, ':'); *y = 0; cv_urluser_set(cv, q); cv_urlpasswd_set(cv, y+1); q = x+1; }
        else { cv_urluser_set(cv, ""); cv_urlpasswd_set(cv, ""); }
        cv_urladdr_set(cv, q); free(p); return 0; }
    case CGV_VOID: return cv_void_set(cv, (void*)strtoul(s, NULL, 16)), 0;
    default: return -1;
    }
}
static int sgn(int x){ return x<0?-1:x>0; }
#define SKIP { ret = -9; goto out; }
#define EL(i,k) (V[i] && (k) >= 1 && (k) <= cvec_len(V[i]) ? cvec_i(V[i], (k)-1) : NULL)
static void v_op(char *op)
{
    int i = IARG(1), ret = 0, k, visits[256], nv = 0;
    char *text = NULL; size_t textn = 0; cg_var *cv = NULL;
    if (!strcmp(op, "new")) { put(i, cvec_new(IARG(2))); ret = cvec_len(V[i]); }
    else if (!strcmp(op, "start")) { put(i, cvec_start(ARG(2))); ret = cvec_len(V[i]); }
    else if (!strcmp(op, "txt")) {
        if (!V[i]) V[i] = cvec_new(1);
        ret = cligen_txt2cvv(ARG(2), &V[i]);
        if (ret == 0) ret = cvec_len(V[i]);
    }
    else if (!strcmp(op, "words")) {
        cvec *a = NULL, *b = NULL;
        if ((ret = cligen_str2cvv(ARG(3), &a, &b)) == 0) { put(i, a); put(IARG(2), b); ret = cvec_len(a) == cvec_len(b) ? cvec_len(a) : -7; }
    }
    else if (!strcmp(op, "fromvar")) { if (!R) SKIP; put(i, cvec_from_var(R)); ret = cvec_len(V[i]); }
    else if (!V[i]) SKIP
    else if (!strcmp(op, "free")) put(i, NULL);
    else if (!strcmp(op, "empty")) ret = cvec_reset(V[i]);
    else if (!strcmp(op, "add")) {
        cv = cvec_add(V[i], cv_str2type(ARG(2)));
        if (!cv) ret = -6;
        else {
            if (opt(3)) cv_name_set(cv, opt(3));
            if (setval(cv, ARG(4)) < 0) ret = -8;
            else ret = cv == cvec_i(V[i], cvec_len(V[i])-1) ? cvec_len(V[i]) : -5;
        }
    }
    else if (!strcmp(op, "append")) {
        if (!(cv = EL(IARG(2), IARG(3)))) SKIP;
        cv = cvec_append_var(V[i], cv);
        ret = idx(V[i], cv);
    }
    else if (!strcmp(op, "put")) { if (!R) SKIP; cv = cvec_append_var(V[i], R); ret = idx(V[i], cv); }
    else if (!strcmp(op, "take")) { if (!(cv = EL(i, IARG(2)))) SKIP; cv_free(R); R = cv_dup(cv); }
    else if (!strcmp(op, "del")) { if (!(cv = EL(i, IARG(2)))) SKIP; cv_reset(cv); ret = cvec_del(V[i], cv); }
    else if (!strcmp(op, "deli")) { if ((cv = EL(i, IARG(2)))) cv_reset(cv); ret = cvec_del_i(V[i], IARG(2)-1); }
    else if (!strcmp(op, "delother")) { cv = cv_new(CGV_STRING); ret = cvec_del(V[i], cv); cv_free(cv); }
    else if (!strcmp(op, "len")) ret = cvec_len(V[i]);
    else if (!strcmp(op, "get")) ret = idx(V[i], cvec_i(V[i], IARG(2)-1));
    else if (!strcmp(op, "gets")) {
        char *s;
        if ((cv = EL(i, IARG(2))) && !cv_isstring(cv_type_get(cv))) SKIP;
        s = cvec_i_str(V[i], IARG(2)-1);
        ret = cv != NULL; if (s) { text = strdup(s); textn = strlen(s); }
        if (s && !cv) ret = -5;
    }
    else if (!strcmp(op, "each") || !strcmp(op, "each1")) {
        while ((cv = op[4] ? cvec_each1(V[i], cv) : cvec_each(V[i], cv)) != NULL && nv < 255) visits[nv++] = idx(V[i], cv);
    }
    else if (!strcmp(op, "next")) {
        if (IARG(2) && !(cv = EL(i, IARG(2)))) SKIP;
        ret = idx(V[i], cvec_next(V[i], cv));
    }
    else if (!strcmp(op, "find")) ret = idx(V[i], cvec_find(V[i], opt(2)));
    else if (!strcmp(op, "findkw")) ret = idx(V[i], cvec_find_keyword(V[i], ARG(2)));
    else if (!strcmp(op, "findvar")) ret = idx(V[i], cvec_find_var(V[i], ARG(2)));
    else if (!strcmp(op, "findstr")) {
        char *s = cvec_find_str(V[i], ARG(2));
        cv = cvec_find(V[i], ARG(2));
        ret = cv && cv_isstring(cv_type_get(cv)); if (s) { text = strdup(s); textn = strlen(s); }
    }
    else if (!strcmp(op, "dup")) { put(IARG(2), cvec_dup(V[i])); ret = cvec_len(V[IARG(2)]); }
    else if (!strcmp(op, "name")) { char *s = opt(2), *r = cvec_name_set(V[i], s); ret = (r == NULL) != (s == NULL); }
    else if (!strcmp(op, "selfname")) {
        cvec_name_set(V[i], cvec_name_get(V[i]));
        while ((cv = cvec_each(V[i], cv))) cv_name_set(cv, cv_name_get(cv));
    }
    else if (!strcmp(op, "print")) {
        FILE *f = open_memstream(&text, &textn);
        ret = cvec_print(f, V[i]);
        fclose(f);
    }
    else if (!strcmp(op, "tobuf")) {
        cbuf *cb;
        while ((cv = cvec_each(V[i], cv)))
            if (!cv_name_get(cv) || (cv_isstring(cv_type_get(cv)) && !cv_string_get(cv))) SKIP;
        cb = cbuf_new();
        ret = cvec2cbuf(cb, V[i]);
        textn = cbuf_len(cb); text = malloc(textn+1); memcpy(text, cbuf_get(cb), textn);
        cbuf_free(cb);
    }
    else if (!strcmp(op, "nokeys")) ret = cvec_exclude_keys(V[i]);
    else if (!strcmp(op, "first")) {
        if (cvec_len(V[i]) == 0 || !cv_isstring(cv_type_get(cvec_i(V[i], 0)))) SKIP;
        while ((cv = cvec_each(V[i], cv))) if (cv_isstring(cv_type_get(cv)) && !cv_string_get(cv)) SKIP;
        ret = cvec_expand_first(V[i]);
    }
    else if (!(cv = EL(i, IARG(2)))) SKIP
    else if (!strcmp(op, "elname")) { char *s = opt(3), *r = cv_name_set(cv, s); ret = (r == NULL) != (s == NULL); }
    else if (!strcmp(op, "const")) cv_const_set(cv, IARG(3));
    else if (!strcmp(op, "flag")) cv_flag_set(cv, IARG(3));
    else if (!strcmp(op, "unflag")) cv_flag_clr(cv, IARG(3));
    else if (!strcmp(op, "set")) { if (!cv_isstring(cv_type_get(cv))) SKIP; ret = cv_string_set(cv, ARG(3)) ? 0 : -8; }
    else if (!strcmp(op, "tget")) {
        if (cv_type_get(cv) == CGV_URL && (cv_urlproto_get(cv) == NULL || !*cv_urluser_get(cv))) SKIP;
        if (!(text = tget(cv))) SKIP;
        textn = strlen(text);
    }
    else if (!strcmp(op, "tset")) { if (strcmp(cv_type2str(cv_type_get(cv)), ARG(3))) SKIP; ret = tset(cv, ARG(4)); }
    else if (!strcmp(op, "clear")) {
        enum cv_type t = cv_type_get(cv);
        if (!cv_isint(t) && t != CGV_STRING && t != CGV_REST) SKIP;
        ret = cv_reset(cv);
    }
    else if (!strcmp(op, "cmp")) {
        cg_var *c2 = EL(IARG(3), IARG(4)); enum cv_type t, u; int a, b;
        if (!c2) SKIP;
        t = cv_type_get(cv); u = cv_type_get(c2);
        if ((cv_isstring(t) && !cv_string_get(cv)) || (cv_isstring(u) && !cv_string_get(c2))) SKIP;
        a = sgn(cv_cmp(cv, c2)); b = sgn(cv_cmp(c2, cv));
        if ((t != u && !(cv_isstring(t) && cv_isstring(u))) || !(cv_isint(t) || t == CGV_DEC64 || cv_isstring(t))) ret = a ? 2 : 0;
        else ret = a == -b ? a : -7;
    }
    else die("op");
 out:
    fprintf(ev, "{\"ret\":%d,\"out\":", ret);
    if (nv) { fputc('[', ev); for (k=0;k<nv;k++) fprintf(ev, "%s%d", k?",":"", visits[k]); fputc(']', ev); }
    else j_str(text ? text : "", textn);
    free(text);
    fprintf(ev, ",\"v\":[");
    for (k=1;k<=N;k++){
        if (k>1) fputc(',', ev);
        fputc('[', ev);
        if (V[k]) {
            int j;
            fprintf(ev, "{\"name\":"); j_opt(cvec_name_get(V[k]));
            fprintf(ev, ",\"els\":[");
            for (j=0;j<cvec_len(V[k]);j++) { if (j) fputc(',', ev); j_cv(cvec_i(V[k], j)); }
            fprintf(ev, "]}");
        }
        fputc(']', ev);
    }
    fprintf(ev, "],\"r\":[");
    if (R) j_cv(R);
    fprintf(ev, "]}\n");
}

int main(int argc, char **argv)
{
    int k, vec = argc > 1 && !strcmp(argv[1], "vec");
    size_t a, b;
    common_init(120);
    cbuf_alloc_get(&a, &b);
    while (next_op()){
        if (!nargs) continue;
        if (!strcmp(argvv[0], "begin")) {
            for (k=1;k<=N;k++) { cbuf_free(B[k]); B[k] = NULL; cvec_free(V[k]); V[k] = NULL; }
            cv_free(R); R = NULL;
            cbuf_alloc_set(a, b);
            fprintf(ev, "{\"begin\":1}\n");
        }
        else if (vec) v_op(argvv[0]);
        else b_op(argvv[0]);
        fflush(ev);
    }
    return 0;
}
