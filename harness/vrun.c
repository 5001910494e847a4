/* Case server: initialises one interpreter, then forks once per case.
 *
 *   vrun --lib DIR [--enc ENC] [--heap SIZE,THRESH,MAX,INIT] [--preload FILE]
 *
 * Request on stdin :  "<mode> <cpu_sec> <as_mb> <len>\n" + <len> bytes
 * Reply on stdout  :  "<exit> <signal> <outlen> <errlen>\n" + out + err
 *
 * mode: any combination of
 *   f  read forms through a file port       (default: string port)
 *   q  do not write the result of each form
 *   F  scm_finalize() at the end
 *   gN collect garbage at every Nth allocation (GC stress builds only)
 *   GN collect garbage once, at the Nth allocation (GC stress builds only)
 *   r  only read and write every datum; go on after up to 50 parse errors
 *   c  report the number of allocations on stderr (GC stress builds only)
 *   n  no guard: the first error is fatal, as in a script
 * Each top-level form is read, evaluated and its value written as "=> VAL".
 * An error becomes "!E" (error object), "!R VAL" (raised object) or
 * "!P" (while reading); the interpreter then goes on with the next form.
 * A completed case ends with "#DONE".
 */
#define _GNU_SOURCE
#include <config.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include "sigscheme.h"
#include "sigschemeinternal.h"
#include "scmport-config.h"
#include "scmport.h"
#include "scmport-file.h"
#include "scmport-str.h"
#ifdef VERIF_CAPI
#include "capi.h"
#endif

extern unsigned long verif_alloc_count __attribute__((weak));
extern int verif_gc_period __attribute__((weak)), verif_gc_once __attribute__((weak));
static ScmObj proc_step, cond_catch, port_in, port_out, form, eof_form;
static int quiet, stage, read_only, perrs;
static const char *preload, *lib;

static ScmObj
step(void)
{
    ScmObj val;

    stage = 0;
    form = scm_read(port_in);
    if (SCM_EOFP(form))
        return SCM_EOF;
    if (read_only) {
        val = form;
    } else {
        stage = 1;
        val = scm_eval(form, SCM_INTERACTION_ENV);
        stage = 2;
    }
    if (!quiet) {
        fputs("=> ", stdout);
        if (SCM_VALUEPACKETP(val))
            fputs("#<values>", stdout);
        else
            scm_write(port_out, val);
        fputs("\n", stdout);
    }
    return SCM_TRUE;
}

static ScmObj
handler(ScmObj err)
{
    fprintf(stdout, "!%c", stage ? (SCM_TRUEP(scm_p_error_objectp(err)) ? 'E' : 'R') : 'P');
    if (stage && !SCM_TRUEP(scm_p_error_objectp(err))) {
        fputs(" ", stdout);
        scm_write(port_out, err);
    }
    fputs("\n", stdout);
    if (SCM_TRUEP(scm_p_error_objectp(err)))
        scm_p_inspect_error(err);
    /* a parse error leaves the rest of the text unsynchronised */
    return (stage || (read_only && ++perrs < 50)) ? SCM_TRUE : SCM_EOF;
}

static void
run_body(const char *mode, char *body, size_t len)
{
    ScmObj r;
    ScmEvalState es;

    quiet = strchr(mode, 'q') != NULL;
    read_only = strchr(mode, 'r') != NULL;
    if (strchr(mode, 'f')) {
        FILE *f;
        int fd = memfd_create("body", 0);
        if (fd < 0 || write(fd, body, len) != (ssize_t)len)
            _exit(99);
        lseek(fd, 0, SEEK_SET);
        f = fdopen(fd, "rb");
        port_in = scm_make_shared_file_port(f, "case", SCM_PORTFLAG_INPUT);
    } else {
        port_in = SCM_MAKE_PORT(scm_make_char_port(ScmInputStrPort_new_const(body, NULL)),
                                SCM_PORTFLAG_INPUT);
    }
    port_out = scm_make_shared_file_port(stdout, "vout", SCM_PORTFLAG_OUTPUT);
    if (&verif_alloc_count)
        verif_alloc_count = 0;
    if (strchr(mode, 'g') && &verif_gc_period)
        verif_gc_period = atoi(strchr(mode, 'g') + 1);
    if (strchr(mode, 'G') && &verif_gc_period) {
        verif_gc_once = 1;
        verif_gc_period = atoi(strchr(mode, 'G') + 1);
    }
#ifdef VERIF_CAPI
    capi_register();
#endif
    do {
        if (strchr(mode, 'n')) {
            r = step();
        } else {
            SCM_EVAL_STATE_INIT1(es, SCM_INTERACTION_ENV);
            r = scm_s_srfi34_guard(cond_catch, LIST_1(LIST_1(proc_step)), &es);
            r = SCM_FINISH_TAILREC_CALL(r, &es);
        }
        fflush(stdout);
    } while (!SCM_EOFP(r));
}

static int
read_full(char *buf, size_t n)
{
    size_t got = 0;
    while (got < n) {
        ssize_t r = read(0, buf + got, n - got);
        if (r <= 0)
            return 0;
        got += r;
    }
    return 1;
}

static void
write_full(const char *buf, size_t n)
{
    while (n) {
        ssize_t r = write(3, buf, n);
        if (r <= 0)
            _exit(3);
        buf += r;
        n -= r;
    }
}

static void
lim(int res, rlim_t v)
{
    struct rlimit l;
    l.rlim_cur = l.rlim_max = v;
    setrlimit(res, &l);
}

static void
send_fd(int fd, size_t cap)
{
    off_t sz = lseek(fd, 0, SEEK_END);
    char *p;
    if ((size_t)sz > cap)
        sz = cap;
    if (sz <= 0)
        return;
    p = mmap(NULL, sz, PROT_READ, MAP_SHARED, fd, 0);
    write_full(p, sz);
    munmap(p, sz);
}

static size_t
fdlen(int fd, size_t cap)
{
    off_t sz = lseek(fd, 0, SEEK_END);
    return (size_t)sz > cap ? cap : (size_t)sz;
}

#define CAP ((size_t)8 << 20)

static void *
server(void *dummy)
{
    ScmObj r;

    scm_require_module("srfi-34");
    scm_intern("guard");
    scm_gc_protect_with_init(&proc_step, SCM_MAKE_FUNC(SCM_PROCEDURE_FIXED_0, (ScmFuncType)step));
    scm_gc_protect_with_init(&cond_catch,
        LIST_2(scm_intern("%%vrun-err"),
               LIST_1(LIST_2(SCM_MAKE_FUNC(SCM_PROCEDURE_FIXED_1, (ScmFuncType)handler),
                             scm_intern("%%vrun-err")))));
    scm_gc_protect_with_init(&port_in, SCM_FALSE);
    scm_gc_protect_with_init(&port_out, SCM_FALSE);
    scm_gc_protect_with_init(&form, SCM_FALSE);

    if (preload)
        scm_load(preload);
    fflush(stdout);

    write_full("READY\n", 6);
    for (;;) {
        char hdr[128], mode[16];
        int cpu, as_mb, i, fo, fe, st;
        size_t len;
        char *body;
        pid_t pid;

        for (i = 0; i < (int)sizeof(hdr) - 1; i++) {
            if (!read_full(hdr + i, 1))
                exit(0);
            if (hdr[i] == '\n')
                break;
        }
        hdr[i] = '\0';
        if (sscanf(hdr, "%15s %d %d %zu", mode, &cpu, &as_mb, &len) != 4)
            exit(4);
        body = malloc(len + 1);
        if (!read_full(body, len))
            exit(5);
        body[len] = '\0';

        fo = memfd_create("out", 0);
        fe = memfd_create("err", 0);
        pid = fork();
        if (pid < 0)
            exit(6);
        if (!pid) {
            close(3);
            dup2(open("/dev/null", O_RDONLY), 0);
            dup2(fo, 1);
            dup2(fe, 2);
            close(fo);
            close(fe);
            lim(RLIMIT_CORE, 0);
            if (cpu)
                lim(RLIMIT_CPU, cpu);
            if (as_mb)
                lim(RLIMIT_AS, (rlim_t)as_mb << 20);
            lim(RLIMIT_FSIZE, (rlim_t)64 << 20);
            run_body(mode, body, len);
            if (strchr(mode, 'F')) {
                puts("#FIN");
                fflush(stdout);
                scm_finalize();
            }
            if (strchr(mode, 'c') && &verif_alloc_count)
                fprintf(stderr, "#ALLOCS %lu\n", verif_alloc_count);
            puts("#DONE");
            fflush(stdout);
            _exit(0);
        }
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
            ;
        snprintf(hdr, sizeof(hdr), "%d %d %zu %zu\n",
                 WIFEXITED(st) ? WEXITSTATUS(st) : -1,
                 WIFSIGNALED(st) ? WTERMSIG(st) : 0, fdlen(fo, CAP), fdlen(fe, CAP));
        write_full(hdr, strlen(hdr));
        send_fd(fo, CAP);
        send_fd(fe, CAP);
        close(fo);
        close(fe);
        free(body);
    }
    return NULL;
}

int
main(int argc, char **argv)
{
    ScmStorageConf conf = { 16384, 16384 / 2, 4096, 1, 1024 };
    const char *av[8];
    int ac = 0, i;
    static char cwd[4096];

    av[ac++] = "sscm";
    for (i = 1; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "--lib")) {
            av[ac++] = "--system-load-path";
            av[ac++] = lib = argv[i + 1];
        } else if (!strcmp(argv[i], "--enc")) {
            av[ac++] = "-C";
            av[ac++] = argv[i + 1];
        } else if (!strcmp(argv[i], "--preload")) {
            preload = argv[i + 1];
        } else if (!strcmp(argv[i], "--heap")) {
            if (sscanf(argv[i + 1], "%zu,%zu,%zu,%zu", &conf.heap_size, &conf.heap_alloc_threshold,
                       &conf.n_heaps_max, &conf.n_heaps_init) != 4)
                return 2;
        } else
            return 2;
    }
    av[ac] = NULL;
    /* replies go to fd 3; fd 1 belongs to the interpreter */
    dup2(1, 3);
    dup2(2, 1);
    signal(SIGPIPE, SIG_DFL);

    scm_initialize(&conf, av);
    if (!getcwd(cwd, sizeof cwd))
        return 2;
    scm_set_lib_path(cwd);
    scm_call_with_gc_ready_stack(server, NULL);
    return 0;
}
