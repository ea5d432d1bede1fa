/* Paged output on a terminal of its own: standard input and output are a pseudo terminal. After every step what
 * arrived at the terminal, what went to another file, the keys left and whether the terminal is as it was. */
#include "common.h"
#include <pthread.h>
#include <termios.h>

static int pm;
static char *got; static size_t ngot, cgot;
static int mark;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cd = PTHREAD_COND_INITIALIZER;

static void *reader(void *a)
{
    char b[4096]; ssize_t n, i;
    while ((n = read(pm, b, sizeof(b))) > 0 || (n < 0 && errno == EINTR)){
        pthread_mutex_lock(&mx);
        for (i = 0; i < n; i++) {
            if (b[i] == 0) { mark = 1; pthread_cond_signal(&cd); continue; }
            if (ngot == cgot) got = realloc(got, cgot = cgot*2 + 4096);
            got[ngot++] = b[i];
        }
        pthread_mutex_unlock(&mx);
    }
    return NULL;
}
static void settle(void)
{
    fflush(stdout);
    pthread_mutex_lock(&mx);
    mark = 0;
    if (write(1, "", 1) != 1) die("mark");
    while (!mark) pthread_cond_wait(&cd, &mx);
    pthread_mutex_unlock(&mx);
}
static int left(void){ int n = 0; if (ioctl(0, FIONREAD, &n) < 0) die("FIONREAD"); return n; }
static void winsz(int h, int w)
{
    struct winsize ws;
    memset(&ws, 0, sizeof(ws)); ws.ws_row = h; ws.ws_col = w;
    if (ioctl(pm, TIOCSWINSZ, &ws) < 0) die("TIOCSWINSZ");
}
static cligen_handle h;

static void op(void)
{
    struct termios t0, t1;
    int ret = 0, n;
    char *o = argvv[0], *ft = NULL; size_t fn = 0; FILE *f;
    tcgetattr(0, &t0);
    if (!strcmp(o, "resize")) { winsz(IARG(1), IARG(2)); raise(SIGWINCH); }
    else if (!strcmp(o, "paging")) ret = cligen_paging_set(h, IARG(1));
    else if (!strcmp(o, "rows")) ret = cligen_terminal_rows_set(h, IARG(1));
    else if (!strcmp(o, "width")) ret = cligen_terminal_width_set(h, IARG(1));
    else if (!strcmp(o, "out")) ret = cligen_output(stdout, "%s", ARG(1));
    else if (!strcmp(o, "fmt")) { char *a = ARG(1), *b = ARG(2); ret = cligen_output(stdout, "%s=%s\n", a, b); }
    else if (!strcmp(o, "basic")) { char *a = ARG(1); ret = cligen_output_basic(stdout, a, strlen(a)); }
    else if (!strcmp(o, "other")) {
        f = open_memstream(&ft, &fn);
        ret = cligen_output(f, "%s", ARG(1));
        fclose(f);
    }
    else if (!strcmp(o, "reset")) ret = cli_output_reset();
    else if (!strcmp(o, "status")) ret = cli_output_status() < 0;
    else if (!strcmp(o, "keys")) {
        char *a = ARG(1); int k = left() + strlen(a);
        if (write(pm, a, strlen(a)) != strlen(a)) die("keys");
        while (left() != k) usleep(50);
    }
    else if (!strcmp(o, "drain")) tcflush(0, TCIFLUSH);
    else die("op");
    tcgetattr(0, &t1);
    settle();
    fprintf(ev, "{\"ret\":%d,\"out\":", ret);
    pthread_mutex_lock(&mx);
    j_str(got, ngot); ngot = 0;
    pthread_mutex_unlock(&mx);
    fprintf(ev, ",\"f\":"); j_str(ft ? ft : "", fn); free(ft);
    n = t0.c_iflag == t1.c_iflag && t0.c_oflag == t1.c_oflag && t0.c_lflag == t1.c_lflag && t0.c_cflag == t1.c_cflag
        && t0.c_cc[VMIN] == t1.c_cc[VMIN] && t0.c_cc[VTIME] == t1.c_cc[VTIME];
    fprintf(ev, ",\"left\":%d,\"tty\":%d}\n", left(), n);
}

int main(int argc, char **argv)
{
    struct termios t; int s; pthread_t th;
    common_init(300);
    pm = posix_openpt(O_RDWR|O_NOCTTY|O_CLOEXEC);
    if (pm < 0 || grantpt(pm) < 0 || unlockpt(pm) < 0) die("pty");
    if ((s = open(ptsname(pm), O_RDWR|O_NOCTTY)) < 0) die("pts");
    tcgetattr(s, &t); cfmakeraw(&t); t.c_cc[VMIN] = 1; t.c_cc[VTIME] = 0; tcsetattr(s, TCSANOW, &t);
    dup2(s, 0); dup2(s, 1); close(s);
    if (pthread_create(&th, NULL, reader, NULL)) die("thread");
    while (next_op()){
        if (!nargs) continue;
        if (!strcmp(argvv[0], "begin")) {
            if (h) cligen_exit(h);
            winsz(0, 0);
            tcflush(0, TCIFLUSH);
            if ((h = cligen_init()) == NULL) die("init");
            cligen_paging_set(h, 1);
            cli_output_reset();
            settle(); ngot = 0;
            fprintf(ev, "{\"begin\":1}\n");
        }
        else op();
        fflush(ev);
    }
    fflush(ev);
    _exit(0);
}
