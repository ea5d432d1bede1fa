/* Shared by the drivers: script reading, JSON events, capture of stdout, key feeder.
 * The driver's script arrives on the original stdin; events leave on the original stdout. */
#ifndef VCOMMON_H
#define VCOMMON_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <cligen/cligen.h>
#include "cligen_getline.h"

static FILE *ev;            /* event stream */
static char *script; static size_t scriptlen; static char *scriptp;
static int capfd = -1;      /* capture of fd 1 */
static int keyfd = -1;      /* write side of fd 0 */

static void die(const char *m){ fprintf(stderr, "driver: %s: %s\n", m, strerror(errno)); _exit(70); }

/* ---- script ---- */
#define MAXARG 64
static char *argvv[MAXARG]; static int nargs;
static int hexv(int c){ return c<='9'?c-'0':(c|32)-'a'+10; }
/* "-" is the empty string, "x<hex>" is hex encoded, anything else is literal */
static char *dec(char *s)
{
    if (s[0]=='-' && !s[1]) { s[0]=0; return s; }
    if (s[0]=='x'){
        char *d = s, *p = s+1;
        while (p[0] && p[1]) { *d++ = hexv(p[0])*16+hexv(p[1]); p += 2; }
        *d = 0;
    }
    return s;
}
static int next_op(void)
{
    char *e, *p;
    nargs = 0;
    if (scriptp == NULL || *scriptp == 0) return 0;
    p = scriptp;
    e = strchr(p, '\n');
    if (e) { *e = 0; scriptp = e+1; } else scriptp = p + strlen(p);
    for (p = strtok(p, " "); p && nargs < MAXARG; p = strtok(NULL, " "))
        argvv[nargs++] = p;
    return 1;
}
#define ARG(i) ((i) < nargs ? dec(argvv[i]) : (char*)"")
#define IARG(i) ((i) < nargs ? atoi(argvv[i]) : 0)

/* ---- json ---- */
static void j_str(const char *s, size_t n)
{
    size_t i;
    fputc('[', ev);
    for (i=0;i<n;i++) fprintf(ev, "%s%u", i?",":"", (unsigned char)s[i]);
    fputc(']', ev);
}
static void j_cstr(const char *s){ j_str(s?s:"", s?strlen(s):0); }

/* ---- capture ---- */
static void cap_reset(void)
{
    fflush(stdout);
    if (ftruncate(capfd, 0) < 0) die("ftruncate");
    lseek(capfd, 0, SEEK_SET);
}
static size_t cap_len(void){ fflush(stdout); return lseek(capfd, 0, SEEK_END); }
static char *cap_get(size_t *n)
{
    char *b; ssize_t r; size_t l = cap_len();
    b = malloc(l+1);
    r = pread(capfd, b, l, 0);
    if (r < 0) r = 0;
    b[r] = 0; *n = r;
    return b;
}

/* ---- key feeder: the next key is written when the library waits for a key ---- */
static unsigned char *keys; static size_t nkeys, keypos;
static size_t *marks;      /* capture length when key i was handed over */
static int feeder_r = -1, feeder_w = -1;
static int eof_at_end = 1;
static int feeder_cb(int fd, void *arg)
{
    int n = 0;
    ioctl(0, FIONREAD, &n);
    if (n > 0) return 0;
    if (keypos < nkeys){
        if (marks) marks[keypos] = cap_len();
        if (write(keyfd, &keys[keypos++], 1) != 1) die("key");
    }
    else if (keyfd != -1) {
        if (marks) marks[nkeys] = cap_len();
        if (eof_at_end){ close(keyfd); keyfd = -1; }
    }
    return 0;
}
static void keys_open(void)
{
    int p[2];
    if (pipe(p) < 0) die("pipe");
    if (dup2(p[0], 0) < 0) die("dup2");
    close(p[0]);
    if (keyfd != -1) close(keyfd);
    keyfd = p[1];
    clearerr(stdin);
}
static void keys_set(const char *k, size_t n)
{
    if (keyfd == -1) keys_open();
    free(keys); free(marks);
    keys = malloc(n+1); memcpy(keys, k, n); nkeys = n; keypos = 0;
    marks = calloc(n+1, sizeof(size_t));
}
static void feeder_on(void)
{
    int p[2];
    if (feeder_r != -1) return;
    if (pipe(p) < 0) die("pipe");
    feeder_r = p[0]; feeder_w = p[1];
    if (write(feeder_w, "x", 1) != 1) die("feeder");
    cligen_regfd(feeder_r, feeder_cb, NULL);
}

static void common_init(int limit)
{
    size_t cap = 1<<16; ssize_t r; int o;
    script = malloc(cap+1);
    while ((r = read(0, script+scriptlen, cap-scriptlen)) > 0){
        scriptlen += r;
        if (scriptlen == cap) { cap *= 2; script = realloc(script, cap+1); }
    }
    script[scriptlen] = 0; scriptp = script;
    if ((o = fcntl(1, F_DUPFD_CLOEXEC, 20)) < 0) die("dup");
    if ((ev = fdopen(o, "w")) == NULL) die("fdopen");
    if ((capfd = memfd_create("cap", MFD_CLOEXEC)) < 0) die("memfd");
    { int f = fcntl(capfd, F_DUPFD_CLOEXEC, 30); close(capfd); capfd = f; }
    if (dup2(capfd, 1) < 0) die("dup2");
    fcntl(1, F_SETFD, 0);
    setvbuf(stdout, NULL, _IONBF, 0);
    keys_open();
    if (limit) alarm(limit);
}
#endif
