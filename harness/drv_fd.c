/* Descriptors registered with the line reader: scripted handlers, keys and arrivals; what happens is recorded in
 * order. While the reader has nothing to do a timer interrupts it, and its interrupt hook lets the next things arrive. */
#include "common.h"
#include <sys/time.h>
#define NF 3
static cligen_handle h;
static int rd[NF+1], wr[NF+1];
static int args[10] = {0,1,2,3,4,5,6,7,8,9};
static char *calls[256], *idles[256]; static int ncall, ncalls, nidle, nidles, events;

static int left(void){ int n = 0; ioctl(0, FIONREAD, &n); return n; }
static int cur;
static int num(int fd){ int k; for (k=1;k<=NF;k++) if (rd[k] == fd) return k; return -1; }
static int byh(int n, int fd, void *arg);
static int h1(int fd, void *arg){ return byh(1, fd, arg); }
static int h2(int fd, void *arg){ return byh(2, fd, arg); }
static int h3(int fd, void *arg){ return byh(3, fd, arg); }
static cligen_fd_cb_t *H[4] = {NULL, h1, h2, h3};
static void over(void){ if (++events > 4000) { fprintf(stderr, "endless: more than 4000 events\n"); fflush(ev); _exit(98); } }

/* r<f><h><a> register, u<f> unregister, p<f> a byte arrives, t<f> take one, k<c> key, n key newline, f fail */
static int acts(const char *s)
{
    int ret = 0, f, r; char c;
    for (; s && *s; s++){
        over();
        f = s[1] - '0';
        switch (*s){
        case 'r':
            r = cligen_regfd(f == 8 ? 1024 : f == 9 ? -1 : f == 7 ? 100000 : rd[f], H[s[2]-'0'], &args[s[3]-'0']);
            fprintf(ev, "{\"op\":\"reg\",\"f\":%d,\"h\":%d,\"a\":%d,\"r\":%d}\n", f, s[2]-'0', s[3]-'0', r);
            s += 3; break;
        case 'u':
            r = cligen_unregfd(f == 8 ? 1024 : f == 9 ? -1 : f == 7 ? 100000 : rd[f]);
            fprintf(ev, "{\"op\":\"unreg\",\"f\":%d,\"r\":%d}\n", f, r);
            s++; break;
        case 'p':
            if (write(wr[f], "x", 1) != 1) die("put");
            fprintf(ev, "{\"op\":\"put\",\"f\":%d}\n", f);
            s++; break;
        case 't':
            if (f == 0) f = cur;
            r = 0; ioctl(rd[f], FIONREAD, &r);
            if (r > 0) { if (read(rd[f], &c, 1) != 1) die("take"); fprintf(ev, "{\"op\":\"take\",\"f\":%d}\n", f); }
            s++; break;
        case 'k': case 'n':
            c = *s == 'n' ? '\n' : s[1];
            if (write(keyfd, &c, 1) != 1) die("key");
            fprintf(ev, "{\"op\":\"key\",\"c\":%d}\n", c);
            if (*s == 'k') s++;
            break;
        case 'f': ret = -1; break;
        default: break;
        }
    }
    return ret;
}
static int byh(int n, int fd, void *arg)
{
    int f = num(fd), r, c0 = cur;
    cur = f;
    over();
    fprintf(ev, "{\"op\":\"call\",\"f\":%d,\"h\":%d,\"a\":%d,\"left\":%d}\n", f, n, arg ? *(int*)arg : -1, left());
    r = acts(ncall < ncalls ? calls[ncall] : "t0");
    ncall++;
    fprintf(ev, "{\"op\":\"return\",\"r\":%d}\n", r);
    return r;
}
static int hook(cligen_handle hh)
{
    int r;
    over();
    fprintf(ev, "{\"op\":\"hook\",\"left\":%d}\n", left());
    r = acts(nidle < nidles ? idles[nidle] : "kzn");
    nidle++;
    fprintf(ev, "{\"op\":\"hookret\",\"r\":%d}\n", r);
    return r;
}
static void tick(int s){ }
static void timer(int us)
{
    struct itimerval it;
    memset(&it, 0, sizeof(it));
    it.it_interval.tv_usec = it.it_value.tv_usec = us;
    setitimer(ITIMER_REAL, &it, NULL);
}
static void begin(void)
{
    int k, p[2], j, dead;
    for (k=1;k<=NF;k++) if (rd[k]) cligen_unregfd(rd[k]);
    for (k=1;k<=NF;k++){
        if (rd[k]) { close(rd[k]); close(wr[k]); }
        if (pipe(p) < 0) die("pipe");
        rd[k] = p[0]; wr[k] = p[1];
    }
    close(keyfd); keyfd = -1; keys_open();
    if (h) cligen_exit(h);
    h = cligen_init();
    cligen_prompt_set(h, "");
    cligen_interrupt_hook(h, hook);
    ncall = ncalls = nidle = nidles = events = 0;
    fprintf(ev, "{\"op\":\"begin\"}\n");
}
int main(int argc, char **argv)
{
    struct sigaction sa; char *s, lim[64];
    common_init(0);
    setvbuf(ev, NULL, _IOFBF, 1<<20);  /* not written while the timer runs */
    memset(&sa, 0, sizeof(sa)); sa.sa_handler = tick;
    sigaction(SIGALRM, &sa, NULL);
    while (next_op()){
        if (!nargs) continue;
        if (!strcmp(argvv[0], "begin")) begin();
        else if (!strcmp(argvv[0], "call")) calls[ncalls++] = nargs > 1 ? argvv[1] : "";
        else if (!strcmp(argvv[0], "idle")) idles[nidles++] = nargs > 1 ? argvv[1] : "";
        else if (!strcmp(argvv[0], "do")) acts(argvv[1]);
        else if (!strcmp(argvv[0], "read")) {
            fprintf(ev, "{\"op\":\"read\"}\n");
            s = NULL;
            timer(500);
            if (cliread(h, &s) < 0) fprintf(ev, "{\"op\":\"failed\"}\n");
            else if (!s) fprintf(ev, "{\"op\":\"eof\"}\n");
            else { fprintf(ev, "{\"op\":\"line\",\"s\":"); j_cstr(s); fprintf(ev, ",\"left\":%d}\n", left()); }
            timer(0);
            cap_reset();
        }
        fflush(ev);
    }
    return 0;
}
