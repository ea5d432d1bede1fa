/* Driver of the command interpreter: specifications, lines, keys, trees, aliases.
 * One JSON event per script operation. */
#include "common.h"

static cligen_handle h;
static char uh_mark[4];               /* address used as user handle */
static void *expected_uh(void){ void *u = cligen_userhandle(h); return u ? (u == (void*)uh_mark ? u : NULL) : (void*)h; }
static FILE *rec; static char *recbuf; static size_t reclen; static int nrec;
static FILE *xrec; static char *xrecbuf; static size_t xreclen; static int nxrec;
static int cbret[10];                 /* return value of each callback */
static int cbexit[10];                /* callback asks the loop to exit */
static char *cbtree[10];              /* callback activates this tree */
static char *exval[10]; static char *exhelp[10];   /* newline separated */
static int exret[10];

static void j_cv(FILE *f, cg_var *cv)
{
    char *s = cv2str_dup(cv), *n = cv_name_get(cv); size_t i;
    fprintf(f, "{\"n\":[");
    for (i=0; n && n[i]; i++) fprintf(f, "%s%u", i?",":"", (unsigned char)n[i]);
    fprintf(f, "],\"t\":\"%s\",\"s\":[", cv_type2str(cv_type_get(cv)));
    for (i=0; s && s[i]; i++) fprintf(f, "%s%u", i?",":"", (unsigned char)s[i]);
    fprintf(f, "]}");
    free(s);
}
static void j_cvec(FILE *f, cvec *cvv)
{
    cg_var *cv = NULL; int n = 0;
    fputc('[', f);
    while (cvv && (cv = cvec_each(cvv, cv)) != NULL){ if (n++) fputc(',', f); j_cv(f, cv); }
    fputc(']', f);
}
static void rec_reset(void)
{
    if (rec) fclose(rec);
    free(recbuf); recbuf = NULL; nrec = 0;
    rec = open_memstream(&recbuf, &reclen);
    if (xrec) fclose(xrec);
    free(xrecbuf); xrecbuf = NULL; nxrec = 0;
    xrec = open_memstream(&xrecbuf, &xreclen);
}
static int cb_common(int i, void *hh, cvec *cvv, cvec *argv)
{
    char *fs = cligen_fn_str_get(h);
    cvec *pa = cligen_callback_arguments_get(h);
    (void)pa;
    fprintf(rec, "%s{\"fn\":%d,\"uh\":%d,\"fs\":%d,\"cvv\":", nrec++?",":"", i, hh == expected_uh(),
            fs && fs[0]=='c' && fs[1]=='b' ? fs[2]-'0' : -1);
    j_cvec(rec, cvv);
    fprintf(rec, ",\"argv\":");
    j_cvec(rec, argv);
    fprintf(rec, ",\"hasargv\":%d,\"at\":%zu}", argv != NULL, cap_len());
    if (cbexit[i]) cligen_exiting_set(h, 1);
    if (cbtree[i]) cligen_ph_active_set_byname(h, cbtree[i]);
    return cbret[i];
}
#define CB(i) static int cb##i(cligen_handle hh, cvec *cvv, cvec *argv){ return cb_common(i, hh, cvv, argv); }
CB(0) CB(1) CB(2) CB(3) CB(4) CB(5) CB(6) CB(7) CB(8) CB(9)
/* prints its arguments, one per line */
static int out0(cligen_handle hh, cvec *cvv, cvec *argv)
{
    cg_var *cv = NULL;
    while (argv && (cv = cvec_each(argv, cv)) != NULL) cligen_output(stdout, "%s\n", cv_string_get(cv));
    return cb_common(9, hh, cvv, argv);
}
/* prints <n> lines "line <k> of <tag>", in pieces */
static int out1(cligen_handle hh, cvec *cvv, cvec *argv)
{
    int n = argv && cvec_len(argv) > 0 ? atoi(cv_string_get(cvec_i(argv,0))) : 0, k;
    char *tag = argv && cvec_len(argv) > 1 ? cv_string_get(cvec_i(argv,1)) : "";
    for (k=1;k<=n;k++){ cligen_output(stdout, "line %d", k); cligen_output(stdout, " of %s\n", tag); }
    return cb_common(8, hh, cvv, argv);
}
/* pipe functions: run in a child, standard input to standard output */
static int rd(void){ unsigned char c; return read(0, &c, 1) == 1 ? c : -1; }
static void wr(int c){ unsigned char b = c; if (write(1, &b, 1) != 1) _exit(9); }
static int pf0(cligen_handle hh, cvec *cvv, cvec *argv){ int c; while ((c = rd()) >= 0) wr(c>='a'&&c<='z' ? c-32 : c); return 0; }
static int pf1(cligen_handle hh, cvec *cvv, cvec *argv)   /* each line prefixed by the argument */
{
    char *a = argv && cvec_len(argv) ? cv_string_get(cvec_i(argv,0)) : "", *p; int c, bol = 1;
    while ((c = rd()) >= 0){ if (bol) for (p=a;*p;p++) wr(*p); wr(c); bol = c=='\n'; }
    return 0;
}
static int pf2(cligen_handle hh, cvec *cvv, cvec *argv){ return 0; }            /* reads nothing */
static int pf3(cligen_handle hh, cvec *cvv, cvec *argv)   /* the first <arg> lines */
{
    int n = argv && cvec_len(argv) ? atoi(cv_string_get(cvec_i(argv,0))) : 0, c;
    while (n > 0 && (c = rd()) >= 0){ wr(c); if (c=='\n') n--; }
    return 0;
}
static int pf4(cligen_handle hh, cvec *cvv, cvec *argv)   /* counts lines, printed at the end */
{
    int n = 0, c; char b[32], *p;
    while ((c = rd()) >= 0) n += c=='\n';
    sprintf(b, "%d\n", n); for (p=b;*p;p++) wr(*p);
    return 0;
}
static int pf5(cligen_handle hh, cvec *cvv, cvec *argv)   /* lines containing the word typed after the pipe */
{
    char *pat = cvv && cvec_len(cvv) ? cv_string_get(cvec_i(cvv, cvec_len(cvv)-1)) : "", *p; static char l[1<<20]; int n = 0, c;
    while ((c = rd()) >= 0){
        if (n < (1<<20)-1) l[n++] = c;
        if (c=='\n'){ l[n] = 0; if (strstr(l, pat)) for (p=l;*p;p++) wr(*p); n = 0; }
    }
    return 0;
}
static int wp_set(cligen_handle hh, cvec *cvv, cvec *argv){ int r = cligen_wp_set(h, cvv, argv); fprintf(rec, "%s{\"wp\":\"set\",\"ret\":%d,\"at\":%zu}", nrec++?",":"", r, cap_len()); return r; }
static int wp_show(cligen_handle hh, cvec *cvv, cvec *argv){ int r = cligen_wp_show(h, cvv, argv); fprintf(rec, "%s{\"wp\":\"show\",\"ret\":%d,\"at\":%zu}", nrec++?",":"", r, cap_len()); return r; }
static int wp_up(cligen_handle hh, cvec *cvv, cvec *argv){ int r = cligen_wp_up(h, cvv, argv); fprintf(rec, "%s{\"wp\":\"up\",\"ret\":%d,\"at\":%zu}", nrec++?",":"", r, cap_len()); return r; }
static int wp_top(cligen_handle hh, cvec *cvv, cvec *argv){ int r = cligen_wp_top(h, cvv, argv); fprintf(rec, "%s{\"wp\":\"top\",\"ret\":%d,\"at\":%zu}", nrec++?",":"", r, cap_len()); return r; }

static cgv_fnstype_t *str2fn(char *name, void *arg, char **error)
{
    static cgv_fnstype_t *t[] = {cb0,cb1,cb2,cb3,cb4,cb5,cb6,cb7,cb8,cb9};
    *error = NULL;
    if (name[0]=='c' && name[1]=='b' && name[2]>='0' && name[2]<='9' && !name[3]) return t[name[2]-'0'];
    if (!strcmp(name, "out0")) return out0;
    if (!strcmp(name, "out1")) return out1;
    if (!strcmp(name, "pf0")) return pf0;
    if (!strcmp(name, "pf1")) return pf1;
    if (!strcmp(name, "pf2")) return pf2;
    if (!strcmp(name, "pf3")) return pf3;
    if (!strcmp(name, "pf4")) return pf4;
    if (!strcmp(name, "pf5")) return pf5;
    if (!strcmp(name, "wp_set")) return wp_set;
    if (!strcmp(name, "wp_show")) return wp_show;
    if (!strcmp(name, "wp_up")) return wp_up;
    if (!strcmp(name, "wp_top")) return wp_top;
    return NULL;
}
static int tr0(cligen_handle hh, cg_var *cv)
{
    char *s = cv_string_get(cv), b[4096];
    snprintf(b, sizeof(b), "t_%s", s ? s : "");
    return cv_string_set(cv, b) == NULL ? -1 : 0;
}
static int tr1(cligen_handle hh, cg_var *cv)
{
    char *s = cv_string_get(cv);
    for (; s && *s; s++) if (*s >= 'a' && *s <= 'z') *s -= 32;
    return 0;
}
static translate_cb_t *str2tr(char *name, void *arg, char **error)
{
    *error = NULL;
    return !strcmp(name, "tr0") ? tr0 : !strcmp(name, "tr1") ? tr1 : NULL;
}
static int ex_common(int i, void *hh, char *name, cvec *cvv, cvec *argv, cvec *commands, cvec *helptexts)
{
    char *p, *q; int last = -1;
    fprintf(xrec, "%s{\"fn\":%d,\"uh\":%d,\"name\":%d,\"cvv\":", nxrec++?",":"", i, hh == expected_uh(),
            name && name[0]=='e' && name[1]=='x' ? name[2]-'0' : -1);
    j_cvec(xrec, cvv);
    fprintf(xrec, ",\"argv\":");
    j_cvec(xrec, argv);
    fprintf(xrec, "}");
    if (exret[i] < 0) return -1;
    if (exval[i] && exval[i][0]=='\001') {   /* the values entered so far, prefixed */
        cg_var *cv = NULL; int n = 0;
        while ((cv = cvec_each(cvv, cv)) != NULL)
            if (n++) { char *s = cv2str_dup(cv), *z = malloc(strlen(s)+3); sprintf(z, "%s%s", exval[i]+1, s);
                cvec_add_string(commands, NULL, z); free(z); free(s); }
        cvec_add_string(commands, NULL, "base");
        return 0;
    }
    for (p = exval[i]; p && *p; ){
        q = strchr(p, '\n');
        { char b[256]; size_t n = q ? q-p : strlen(p); memcpy(b, p, n); b[n]=0; cvec_add_string(commands, NULL, b); }
        p = q ? q+1 : NULL;
    }
    for (p = exhelp[i]; p && *p; ){
        q = strchr(p, '\n');
        { char b[256]; size_t n = q ? q-p : strlen(p); memcpy(b, p, n); b[n]=0; cvec_add_string(helptexts, NULL, b); }
        p = q ? q+1 : NULL;
    }
    return 0;
}
#define EX(i) static int ex##i(cligen_handle hh, char *name, cvec *cvv, cvec *argv, cvec *c, cvec *t){ return ex_common(i, hh, name, cvv, argv, c, t); }
EX(0) EX(1) EX(2) EX(3) EX(4) EX(5) EX(6) EX(7) EX(8) EX(9)
static expandv_cb *str2ex(char *name, void *arg, char **error)
{
    static expandv_cb *t[] = {ex0,ex1,ex2,ex3,ex4,ex5,ex6,ex7,ex8,ex9};
    *error = NULL;
    if (name[0]=='e' && name[1]=='x' && name[2]>='0' && name[2]<='9' && !name[3]) return t[name[2]-'0'];
    return NULL;
}
/* maps functions in every tree that is loaded */
static int mapfns(void)
{
    pt_head *ph = NULL; parse_tree *pt;
    while ((ph = cligen_ph_each(h, ph)) != NULL)
        if ((pt = cligen_ph_parsetree_get(ph)) != NULL){
            if (cligen_callbackv_str2fn(pt, str2fn, NULL) < 0) return -1;
            if (cligen_expandv_str2fn(pt, str2ex, NULL) < 0) return -1;
            if (cligen_translate_str2fn(pt, str2tr, NULL) < 0) return -1;
        }
    return 0;
}
static void ev_common(void)
{
    uint64_t cr=0, nr=0; char *o; size_t n;
    fflush(rec); fflush(xrec);
    fprintf(ev, ",\"calls\":[%s],\"xcalls\":[%s]", recbuf?recbuf:"", xrecbuf?xrecbuf:"");
    co_stats_global(&cr, &nr);
    o = cap_get(&n);
    fprintf(ev, ",\"live\":%ld,\"out\":", (long)nr);
    j_str(o, n);
    free(o);
}
static int my_hist(cligen_handle hh, char *cmd, void *arg)
{
    fprintf(rec, "%s{\"hist\":", nrec++?",":"");
    { size_t i; fputc('[', rec); for (i=0;cmd[i];i++) fprintf(rec, "%s%u", i?",":"", (unsigned char)cmd[i]); fputc(']', rec); }
    fprintf(rec, ",\"arg\":%d,\"at\":%zu}", arg == (void*)uh_mark && hh == h, cap_len());
    return 0;
}
static void j_marks(void)
{
    size_t i;
    fprintf(ev, ",\"marks\":[");
    for (i=0;i<=nkeys;i++) fprintf(ev, "%s%zu", i?",":"", marks[i]);
    fprintf(ev, "]");
}
int main(int argc, char **argv)
{
    int opn = 0;
    common_init(120);
    /* errors of the library go nowhere */
    if (!getenv("DRV_STDERR")) { int fd = open("/dev/null", O_WRONLY); (void)fd; }
    while (next_op()){
        char *op;
        if (nargs == 0) continue;
        op = argvv[0];
        rec_reset(); cap_reset(); 
        fprintf(ev, "{\"i\":%d,\"op\":\"%s\"", opn++, op);
        fflush(ev);             /* the library forks */
        if (!strcmp(op, "new")){
            h = cligen_init();
            cligen_userhandle_set(h, uh_mark);
            cligen_terminal_rows_set(h, 0);
            cligen_terminal_width_set(h, 80);
            feeder_on();
        }
        else if (!strcmp(op, "handle")){    /* another interface in the same process */
            static cligen_handle hs[4]; static int cur = 0; int i = IARG(1);
            hs[cur] = h; cur = i;
            if ((h = hs[i]) == NULL) h = cligen_init();
        }
        else if (!strcmp(op, "exit")){ cligen_exit(h); h = NULL; }
        else if (!strcmp(op, "set")){
            char *k = ARG(1); int v = IARG(2);
            if (!strcmp(k,"lexicalorder")) cligen_lexicalorder_set(h, v);
            else if (!strcmp(k,"ignorecase")) cligen_ignorecase_set(h, v);
            else if (!strcmp(k,"caseignore")) cligen_caseignore_set(h, v);
            else if (!strcmp(k,"pref")) cligen_preference_mode_set(h, v);
            else if (!strcmp(k,"tabmode")) cligen_tabmode_set(h, v);
            else if (!strcmp(k,"width")) cligen_terminal_width_set(h, v);
            else if (!strcmp(k,"scroll")) cligen_line_scrolling_set(h, v);
            else if (!strcmp(k,"exkeys")) cligen_exclude_keys_set(h, v);
            else if (!strcmp(k,"exfirst")) cligen_expand_first_set(h, v);
            else if (!strcmp(k,"comment")) cligen_comment_set(h, v);
            else if (!strcmp(k,"delim")) cligen_delimiter_set(h, v);
            else if (!strcmp(k,"htrunc")) cligen_helpstring_truncate_set(h, v);
            else if (!strcmp(k,"hlines")) cligen_helpstring_lines_set(h, v);
            else if (!strcmp(k,"exitchar")) cligen_exitchar_add(h, v);
            else if (!strcmp(k,"utf8")) gl_utf8_set(v);
            else if (!strcmp(k,"hist")) cligen_hist_init(h, v);
            else if (!strcmp(k,"uh")) cligen_userhandle_set(h, v ? uh_mark : NULL);
            else if (!strcmp(k,"histfn")) cligen_hist_fn_set(h, my_hist, uh_mark);
            else if (!strcmp(k,"prompt")) cligen_prompt_set(h, ARG(2));
            else if (!strcmp(k,"cbret")) cbret[v] = IARG(3);
            else if (!strcmp(k,"cbexit")) cbexit[v] = IARG(3);
            else if (!strcmp(k,"cbtree")) cbtree[v] = nargs > 3 ? strdup(ARG(3)) : NULL;
            else if (!strcmp(k,"exret")) exret[v] = IARG(3);
            else if (!strcmp(k,"ex")) { free(exval[v]); free(exhelp[v]); exval[v] = strdup(ARG(3)); exhelp[v] = strdup(ARG(4)); }
            else { errno = EINVAL; die(k); }
        }
        else if (!strcmp(op, "spec")){
            cvec *globals = cvec_new(0); int r; char *s;
            r = clispec_parse_str(h, ARG(1), "spec", NULL, NULL, globals);
            if (r == 0) r = mapfns();
            if (r == 0 && (s = cvec_find_str(globals, "comment")) != NULL) cligen_comment_set(h, *s);
            cvec_free(globals);
            fprintf(ev, ",\"ret\":%d", r);
        }
        else if (!strcmp(op, "trees")){     /* names in iteration order, active */
            pt_head *ph = NULL, *ac; int n = 0;
            fprintf(ev, ",\"names\":[");
            while ((ph = cligen_ph_each(h, ph)) != NULL){ if (n++) fputc(',', ev); j_cstr(cligen_ph_name_get(ph)); }
            fprintf(ev, "],\"active\":");
            ac = cligen_ph_active_get(h);
            if (ac) j_cstr(cligen_ph_name_get(ac)); else fprintf(ev, "[]");
        }
        else if (!strcmp(op, "active")) fprintf(ev, ",\"ret\":%d", cligen_ph_active_set_byname(h, ARG(1)));
        else if (!strcmp(op, "eval") || !strcmp(op, "evalin")){
            int in = op[4] == 'i';
            char *line = strdup(ARG(1+in)), *reason = NULL; cvec *cvv = NULL; cg_obj *co = NULL;
            cligen_result res = CG_ERROR; parse_tree *pt; int r, er = 0;
            if (in) { pt_head *ph = cligen_ph_find(h, ARG(1)); pt = ph ? cligen_ph_parsetree_get(ph) : NULL; }
            else pt = cligen_pt_active_get(h);
            r = cliread_parse(h, line, pt, &co, &cvv, &res, &reason);
            fprintf(ev, ",\"ret\":%d,\"res\":%d,\"reason\":", r, res);
            j_cstr(reason);
            fprintf(ev, ",\"cvv\":");
            j_cvec(ev, cvv);
            if (r == 0 && res == CG_MATCH) er = cligen_eval(h, co, cvv);
            fprintf(ev, ",\"eret\":%d", er);
            if (co) co_free(co, 0);
            if (cvv) cvec_free(cvv);
            free(reason); free(line);
        }
        else if (!strcmp(op, "type") || !strcmp(op, "typeopen")){
            /* keys through the line reader, then execution */
            char *k = ARG(1), *line = NULL, *reason = NULL; int r, cr = -77; cligen_result res = CG_ERROR;
            eof_at_end = 1;
            keys_set(k, strlen(k));
            r = cliread_eval(h, &line, &cr, &res, &reason);
            fprintf(ev, ",\"ret\":%d,\"res\":%d,\"eret\":%d,\"line\":", r, res, cr);
            j_cstr(line);
            fprintf(ev, ",\"reason\":"); j_cstr(reason);
            fprintf(ev, ",\"used\":%zu", keypos); j_marks();
            free(reason);
            if (keyfd != -1) { close(keyfd); keyfd = -1; }
            keys_open();
        }
        else if (!strcmp(op, "loop")){
            char *k = ARG(1); int r;
            eof_at_end = 1;
            cligen_exiting_set(h, 0);
            keys_set(k, strlen(k));
            r = cligen_loop(h);
            fprintf(ev, ",\"ret\":%d,\"used\":%zu", r, keypos); j_marks();
            if (keyfd != -1) { close(keyfd); keyfd = -1; }
            keys_open();
        }
        else if (!strcmp(op, "histsave")){  /* what is saved */
            char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n);
            int r = cligen_hist_file_save(h, f);
            fclose(f);
            fprintf(ev, ",\"ret\":%d,\"text\":", r); j_str(b, n);
            free(b);
        }
        else if (!strcmp(op, "histload")){
            char *t = ARG(1); FILE *f = strlen(t) ? fmemopen(t, strlen(t), "r") : fopen("/dev/null", "r");
            int r = cligen_hist_file_load(h, f);
            fclose(f);
            fprintf(ev, ",\"ret\":%d", r);
        }
        else if (!strcmp(op, "alias")){  /* tree("-" none) name help(“-” none) command cb(-1 default) */
            char *t = nargs>1 && strcmp(argvv[1],"-") ? ARG(1) : NULL;
            char *hs = nargs>3 && strcmp(argvv[3],"-") ? ARG(3) : NULL;
            static cgv_fnstype_t *tb[] = {cb0,cb1,cb2,cb3,cb4,cb5,cb6,cb7,cb8,cb9};
            int cb = nargs > 5 ? IARG(5) : -1, r;
            errno = 0;
            r = cligen_alias_add(h, t, ARG(2), hs, ARG(4), cb >= 0 ? tb[cb] : NULL);
            fprintf(ev, ",\"ret\":%d,\"eexist\":%d", r, r < 0 && errno == EEXIST);
        }
        else { errno = EINVAL; die(op); }
        ev_common();
        fprintf(ev, "}\n");
        fflush(ev);
    }
    fprintf(ev, "{\"op\":\"end\"}\n");
    fflush(ev);
    _exit(0);
}
