/*
 * Monitoring driver: executes scripts of public API calls against generated option tables, one
 * forked child per script, and records every observable: return codes, values, user callbacks,
 * output, exit status, sanitizer reports, and the heap blocks the library holds.
 */
#define _GNU_SOURCE
#include "driver.h"
#include <errno.h>
#include <fcntl.h>
#include <fenv.h>
#include <locale.h>
#include <setjmp.h>
#include <stdio_ext.h>
#include <sys/stat.h>
#include <signal.h>
#include <sys/time.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#ifdef VT_MSAN
#include <sanitizer/msan_interface.h>
#elif !defined VT_PLAIN
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#endif

extern vt_schema_t *vt_schemas[];

/* ---------------------------------------------------------------- coverage */
static uint8_t *cov_map;
static uint32_t cov_n;
#define COV_MAX (1 << 16)
void __sanitizer_cov_trace_pc_guard_init(uint32_t *s, uint32_t *e)
{
    if (s == e || *s)
        return;
    if (!cov_map)
        cov_map = mmap(NULL, COV_MAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (; s < e; s++)
        *s = ++cov_n;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g)
{
    if (cov_map && *g < COV_MAX)
        cov_map[*g] = 1;
}

/* ------------------------------------------------- heap monitor of library */
static int      in_lib;      /* a library call is in progress */
static int      in_cb;       /* ... but a user callback is running */
static int      monitoring, track_user;
#define LIVE_MAX (1 << 18)
static struct { uintptr_t p; size_t n; } live[LIVE_MAX]; /* open addressing */
static long  live_count, live_total, free_total;
static size_t h_of(uintptr_t p) { return (p >> 4) * 0x9E3779B97F4A7C15ull >> 46; }

static void on_malloc(const volatile void *ptr, size_t n)
{
#if !defined VT_MSAN && !defined VT_PLAIN
    static unsigned tick;
    if (in_lib && (n >= 65536 || ++tick % 1024 == 0) && __sanitizer_get_current_allocated_bytes() > ((size_t)3 << 29))
        _exit(93); /* growing without end: stop before the machine does */
#endif
    if (!monitoring || !ptr || !((in_lib && !in_cb) || track_user))
        return;
    uintptr_t p = (uintptr_t)ptr;
    if (live_count > LIVE_MAX / 2)
        return;
    size_t i = h_of(p), n_ = 0;
    while (live[i].p > 1 && n_++ < LIVE_MAX)
        i = (i + 1) & (LIVE_MAX - 1);
    live[i].p = p;
    live[i].n = n;
    live_count++;
    live_total++;
}
static void on_free(const volatile void *ptr)
{
    if (!monitoring || !ptr)
        return;
    uintptr_t p = (uintptr_t)ptr;
    size_t n_ = 0;
    for (size_t i = h_of(p); live[i].p && n_++ < LIVE_MAX; i = (i + 1) & (LIVE_MAX - 1))
        if (live[i].p == p) {
            live[i].p = 1;
            live_count--;
            free_total++;
            return;
        }
}

/* --------------------------------------------------------- fault injection */
static long alloc_seen, fault_at = -1, fault_hits;
static int  fault_mode; /* 0: only that one; 1: from that one on */
static bool inject(void)
{
    if (!in_lib || in_cb)
        return false;
    long k = alloc_seen++;
    if (fault_at < 0)
        return false;
    if (k == fault_at || (fault_mode == 1 && k > fault_at)) {
        fault_hits++;
        return true;
    }
    return false;
}
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
char *__real_strdup(const char *);
char *__real_strndup(const char *, size_t);
void *__wrap_malloc(size_t n) { if (inject()) { errno = ENOMEM; return NULL; } return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (inject()) { errno = ENOMEM; return NULL; } return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (inject()) { errno = ENOMEM; return NULL; } return __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { if (inject()) { errno = ENOMEM; return NULL; } return __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { if (inject()) { errno = ENOMEM; return NULL; } return __real_strndup(s, n); }

/* --------------------------------------------------------------------- log */
static int  log_fd, out_fd, err_fd;
static char log_buf[1 << 16];
static size_t log_len;
static void log_flush(void)
{
    size_t o = 0;
    while (o < log_len) {
        ssize_t w = write(log_fd, log_buf + o, log_len - o);
        if (w <= 0)
            _exit(97);
        o += (size_t)w;
    }
    log_len = 0;
}
static void log_c(char c)
{
    if (log_len == sizeof log_buf)
        log_flush();
    log_buf[log_len++] = c;
}
static void log_raw(const char *s) { while (*s) log_c(*s++); }
static void log_num(long long n)
{
    char b[32];
    snprintf(b, sizeof b, " %lld", n);
    log_raw(b);
}
/* a string field: space, then '~' for NULL, else '=' and percent-escaped bytes */
static void log_str(const char *s)
{
    static const char hex[] = "0123456789abcdef";
    log_c(' ');
    if (!s) { log_c('~'); return; }
    log_c('=');
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c <= ' ' || c >= 127 || c == '%') {
            log_c('%'); log_c(hex[c >> 4]); log_c(hex[c & 15]);
        } else
            log_c((char)c);
    }
}
static void log_val(argus_value_t v, char kind)
{
    char     b[32];
    uint64_t raw;
    memcpy(&raw, &v, sizeof raw);
#ifdef VT_MSAN
    __msan_unpoison((char *)&raw + 1, 7); /* a bool defines only its own byte of the union */
#endif
    snprintf(b, sizeof b, " %016llx", (unsigned long long)raw);
    log_raw(b);
    if (kind == 's')
        log_str(v.as_string);
}
static int cur_op;
static void ev(const char *tag, const char *id)
{
    log_raw("E");
    log_num(cur_op);
    log_c(' ');
    log_raw(tag);
    log_str(id);
}

/* ------------------------------------------------------ recording callbacks */
static char *dup_exact(const char *s)
{
    size_t n = strlen(s) + 1;
    char  *r = __real_malloc(n);
    memcpy(r, s, n);
    return r;
}

static void *cb_data_expected;
static void *cb_ctx_expected;
static argus_t *cur_ctx;

/* reading calls from inside a callback; only the calls themselves count as the library's */
static void peek(argus_t *a, const char *id, const vt_peek_t *p)
{
    argus_value_t v;
    if (a != cur_ctx) {
        ev("H", "called with another context");
        log_str("");
        log_c('\n');
    }
    for (; p && p->code; p++) {
        int  r = 0;
        size_t n = 0, i = 0;
        bool more;
        ev("Q", id);
        log_c(' ');
        log_c(p->code);
        log_str(p->name);
        log_c(' ');
        log_c(p->kind);
        log_str(p->arg);
        errno = EINVAL;
        in_cb--;
        switch (p->code) {
            case 'S': r = argus_is_set(a, p->name); break;
            case 'K': n = argus_count(a, p->name); break;
            case 'X': v = argus_array_get(a, p->name, (size_t)atoi(p->arg)); break;
            case 'M': v = argus_map_get(a, p->name, p->arg); break;
            case 'G': v = argus_get(a, p->name); break;
        }
        in_cb++;
        if (p->code == 'S') log_num(r);
        else if (p->code == 'K') log_num((long long)n);
        else if (strchr("XMG", p->code)) { log_val(v, p->kind); log_num(a->error_code); }
        else if (p->code == 'T') {
            argus_array_it_t it = argus_array_it(a, p->name);
            for (log_raw(" ("); (more = argus_array_next(&it)) && i < 100000; i++) log_val(it.value, p->kind);
            log_raw(more ? " !" : " )");
        } else {
            argus_map_it_t it = argus_map_it(a, p->name);
            for (log_raw(" ("); (more = argus_map_next(&it)) && i < 100000; i++) { log_str(it.key); log_val(it.value, p->kind); }
            log_raw(more ? " !" : " )");
        }
        log_c('\n');
    }
}

static bool refuses(int rc, const char *trigger, const char *text)
{
    return rc && (!trigger || (text && strcmp(trigger, text) == 0));
}

int vt_handle(argus_t *a, argus_option_t *o, char *v, const char *id, int rc, const char *trigger, char mode, const char *say)
{
    bool no = refuses(rc, trigger, v);
    in_cb++;
    ev("H", id);
    log_str(v);
    log_c('\n');
    peek(a, id, NULL);
    log_flush();
    if (no && say)
        ARGUS_PARSING_ERROR(a, (argus_error_type_t)rc, "%s '%s'", say, v ? v : "(none)");
    in_cb--;
    if (no && mode != 'E')
        return rc;
    in_cb++;
    switch (mode) {
        case 'E': /* as the documentation advises: keep first, look after */
        case 'D': /* own a copy */
            if (o->is_allocated)
                free(o->value.as_string);
            track_user = 1;
            o->value.as_string = v ? __real_strdup(v) : NULL;
            track_user = 0;
            o->is_allocated    = true;
            break;
        case 'N': /* acts on the text, stores nothing */
            o->value.as_string = NULL;
            break;
        case 'I':
            o->value.as_int64 = v ? (int64_t)strlen(v) : -1;
            break;
        default:
            o->value.as_string = v;
    }
    in_cb--;
    errno = ERANGE;
    return no ? rc : ARGUS_SUCCESS;
}

char *vt_format(validator_data_t d)
{
    vt_val_t *r = (vt_val_t *)d.custom;
    return r->fmt && strcmp(r->fmt, "NULL") ? dup_exact(r->fmt) : NULL;
}

int vt_validate(argus_t *a, void *p, validator_data_t d)
{
    vt_val_t   *r = (vt_val_t *)d.custom;
    const char *text;
    char        b[32];
    in_cb++;
    ev(r->post ? "P" : "V", r->id);
    if (!r->post)
        text = (const char *)p;
    else {
        argus_option_t *o = (argus_option_t *)p;
        if (r->kind == 's')
            text = o->value.as_string;
        else if (r->kind == 'n') { /* a collection: how many */
            snprintf(b, sizeof b, "%zu", o->value_count);
            text = b;
        } else {
            snprintf(b, sizeof b, "%lld", (long long)o->value.as_int64);
            text = b;
        }
    }
    log_str(text);
    log_c('\n');
    peek(a, r->id, r->peek);
    log_flush();
    bool no = refuses(r->rc, r->trigger, text);
    if (no && r->say)
        ARGUS_PARSING_ERROR(a, (argus_error_type_t)r->rc, "%s '%s'", r->say, text ? text : "(none)");
    in_cb--;
    errno = ERANGE;
    return no ? r->rc : ARGUS_SUCCESS;
}

int vt_free(argus_option_t *o, const char *id)
{
    in_cb++;
    ev("F", id);
    log_str(o->value.as_string);
    log_c('\n');
    free(o->value.as_string);
    in_cb--;
    return ARGUS_SUCCESS;
}

int vt_action(argus_t *a, void *data, const char *id, int rc, const vt_peek_t *p)
{
    in_cb++;
    ev("A", id);
    log_num(data == cb_data_expected);
    log_num((void *)a == cb_ctx_expected);
    log_num(argus_has_command(a));
    log_c('\n');
    peek(a, id, p);
    log_flush();
    in_cb--;
    return rc;
}

/* --------------------------------------------------------- script execution */
typedef struct { char code; int n; char **f; } op_t;
#define MAXCTX 4
static argus_t      ctx[MAXCTX];
static vt_schema_t *ctx_schema[MAXCTX];
static char         stdout_buf[1 << 16];

/* ------------------------------------------------ what a call must not touch */
extern char **environ;
static bool watching, armed;
typedef struct { char **vec; int n; char **ptr, **txt; } frozen_t;

static frozen_t freeze(char **vec)
{
    frozen_t f = {vec, 0, NULL, NULL};
    while (vec && vec[f.n]) f.n++;
    f.ptr = __real_malloc(((size_t)f.n + 1) * sizeof(char *));
    f.txt = __real_malloc(((size_t)f.n + 1) * sizeof(char *));
    for (int i = 0; i < f.n; i++) { f.ptr[i] = vec[i]; f.txt[i] = dup_exact(vec[i]); }
    return f;
}
static void thaw(frozen_t *f)
{
    for (int i = 0; i < f->n; i++) free(f->txt[i]);
    free(f->ptr); free(f->txt);
    memset(f, 0, sizeof *f);
}
static const char *differs(frozen_t *f)
{
    for (int i = 0; i < f->n; i++) {
        if (f->vec[i] != f->ptr[i]) return "another pointer";
        if (strcmp(f->vec[i], f->txt[i])) return f->vec[i];
    }
    return f->vec && f->vec[f->n] ? "longer" : NULL;
}

#define H(x) (h = (h ^ (uint64_t)(uintptr_t)(x)) * 1099511628211ull)
static uint64_t h_bytes(uint64_t h, const void *p, size_t n) { for (size_t i = 0; i < n; i++) H(((const unsigned char *)p)[i]); return h; }
static uint64_t h_text(uint64_t h, const char *t) { H(t); return t ? h_bytes(h, t, strlen(t)) : h; }
/* everything the program wrote into a table, without what a parse fills in */
static uint64_t definitions(vt_schema_t *s)
{
    uint64_t h = 1469598103934665603ull;
    for (vt_table_t *t = s->tables; t->ptr; t++)
        for (argus_option_t *o = t->ptr; o < (argus_option_t *)t->ptr + t->size / sizeof *o; o++) {
            H(o->type); H(o->sname); H(o->value_type); H(o->default_value.raw); H(o->have_default); H(o->handler); H(o->free_handler);
            H(o->flags); H(o->action); H(o->sub_options); H(o->line); H(o->validators); H(o->conflict); H(o->require);
            h = h_text(h, o->name); h = h_text(h, o->lname); h = h_text(h, o->help); h = h_text(h, o->hint);
            h = h_text(h, o->env_name); h = h_text(h, o->file);
            if (o->have_default && o->value_type == VALUE_TYPE_STRING) h = h_text(h, o->default_value.as_string);
            for (int i = 0; o->conflict && o->conflict[i]; i++) h = h_text(h, o->conflict[i]);
            for (int i = 0; o->require && o->require[i]; i++) h = h_text(h, o->require[i]);
            for (int i = 0; o->validators && o->validators[i]; i++) {
                validator_entry_t *v = o->validators[i];
                H(v); H(v->func); H(v->formatter); H(v->order);
                h = h_bytes(h, &v->data, sizeof v->data);
                if (v->func == choices_string_validator)
                    for (size_t k = 0; k < v->data.choices.count; k++) h = h_text(h, v->data.choices.as_strings[k]);
                else if (v->func == choices_int_validator)
                    h = h_bytes(h, v->data.choices.as_ints, v->data.choices.count * sizeof(int64_t));
                else if (v->func == choices_float_validator)
                    h = h_bytes(h, v->data.choices.as_floats, v->data.choices.count * sizeof(double));
            }
        }
    return h;
}
static uint64_t hash_tables(vt_schema_t *s)
{
    uint64_t h = 1469598103934665603ull;
    for (vt_table_t *t = s->tables; t->ptr; t++)
        h = h_bytes(h, t->ptr, t->size);
    return h;
}

#define NFD 40
typedef struct {
    char     cwd[512], locale[256];
    mode_t   mask;
    struct { void *fn; int flags; } sig[32];
    sigset_t blocked;
    int      rounding, line_buffered, tz;
    size_t   bufsize;
    off_t    in;
    struct { int there; dev_t dev; ino_t ino; int fl, fd; } fd[NFD];
} world_t;
static world_t  before;
static frozen_t env_before, argvs[32];
static int      nargvs;
static argus_t  ctx_before[MAXCTX];
static uint64_t defs_before[MAXCTX], tabs_before[MAXCTX];
static char     code_before;
static int      ctx_at;

static void look(world_t *w)
{
    memset(w, 0, sizeof *w);
    if (!getcwd(w->cwd, sizeof w->cwd)) strcpy(w->cwd, "?");
    snprintf(w->locale, sizeof w->locale, "%s", setlocale(LC_ALL, NULL));
    umask(w->mask = umask(077));
    for (int i = 1; i < 32; i++) {
        struct sigaction sa;
        if (sigaction(i, NULL, &sa) == 0) { w->sig[i].fn = (void *)sa.sa_handler; w->sig[i].flags = sa.sa_flags; }
    }
    sigprocmask(SIG_BLOCK, NULL, &w->blocked);
    w->rounding = fegetround();
    w->line_buffered = __flbf(stdout);
    w->bufsize = __fbufsize(stdout);
    w->in = lseek(0, 0, SEEK_CUR);
    for (int i = 0; i < NFD; i++) {
        struct stat st;
        if (fstat(i, &st) == 0) {
            w->fd[i].there = 1; w->fd[i].dev = st.st_dev; w->fd[i].ino = st.st_ino;
            w->fd[i].fl = fcntl(i, F_GETFL); w->fd[i].fd = fcntl(i, F_GETFD);
        }
    }
}
static void touched(const char *what, const char *text)
{
    ev("W", what);
    log_str(text);
    log_c('\n');
}
static void watch_before(char code, int c)
{
    armed = watching && strchr("IAGSKXMTYBRFHWVZ", code);
    if (!armed)
        return;
    code_before = code;
    ctx_at = c;
    look(&before);
    env_before = freeze(environ);
    memcpy(ctx_before, ctx, sizeof ctx);
    for (int i = 0; i < MAXCTX; i++)
        if (ctx_schema[i]) { defs_before[i] = definitions(ctx_schema[i]); tabs_before[i] = hash_tables(ctx_schema[i]); }
    putchar('\002'); /* text of the program, not yet written out */
}
static void watch_after(void)
{
    world_t     now;
    char        b[64];
    const char *d;
    if (!armed)
        return;
    armed = false;
    look(&now);
    if (strcmp(now.cwd, before.cwd)) touched("the working directory", now.cwd);
    if (strcmp(now.locale, before.locale)) touched("the locale", now.locale);
    if (now.mask != before.mask) touched("the file creation mask", "");
    for (int i = 1; i < 32; i++)
        if (now.sig[i].fn != before.sig[i].fn || now.sig[i].flags != before.sig[i].flags) {
            snprintf(b, sizeof b, "%d", i);
            touched("the handling of a signal", b);
        }
    if (memcmp(&now.blocked, &before.blocked, sizeof now.blocked)) touched("the blocked signals", "");
    if (now.rounding != before.rounding) touched("the rounding mode", "");
    if (now.line_buffered != before.line_buffered || now.bufsize != before.bufsize) touched("the buffering of standard output", "");
    if (now.in != before.in) touched("standard input", "");
    for (int i = 0; i < NFD; i++)
        if (memcmp(&now.fd[i], &before.fd[i], sizeof now.fd[i])) {
            snprintf(b, sizeof b, "%d %s", i, !now.fd[i].there ? "closed" : !before.fd[i].there ? "left open" : "changed");
            touched("a file descriptor", b);
        }
    if (environ != env_before.vec) touched("the environment", "another vector");
    else if ((d = differs(&env_before))) touched("the environment", d);
    thaw(&env_before);
    for (int i = 0; i < nargvs; i++)
        if ((d = differs(&argvs[i]))) { touched("the argument vector", d); }
    for (int i = 0; i < MAXCTX; i++) {
        if (!ctx_schema[i]) continue;
        argus_t *n = &ctx[i], *o = &ctx_before[i];
        bool cur = i == ctx_at, same = ctx_schema[i] == ctx_schema[ctx_at];
        if (cur && code_before == 'I') continue;
        if (n->program_name != o->program_name || n->version != o->version || n->description != o->description ||
            n->env_prefix != o->env_prefix || n->options != o->options)
            touched("a field of the context", "");
        argus_helper_config_t *a = &n->helper.config, *z = &o->helper.config;
        if (a->max_line_width != z->max_line_width || a->description_column != z->description_column ||
            a->option_indent != z->option_indent || a->smart_hint_max_length != z->smart_hint_max_length ||
            a->smart_hint_allow_spaces != z->smart_hint_allow_spaces)
            touched("the display settings", "");
        if (definitions(ctx_schema[i]) != defs_before[i]) touched("the definitions in a table", ctx_schema[i]->id);
        bool reads = !strchr("AF", code_before);
        if ((reads || !same) && hash_tables(ctx_schema[i]) != tabs_before[i])
            touched(cur || same ? "the state of the options, by a reading call" : "the options of another context", ctx_schema[i]->id);
        if ((cur ? reads : true) && (n->subcommand_depth != o->subcommand_depth ||
                                     memcmp(n->subcommand_stack, o->subcommand_stack, sizeof n->subcommand_stack[0] * n->subcommand_depth) ||
                                     (!cur && n->error_code != o->error_code)))
            touched(cur ? "the selected command, by a reading call" : "another context", "");
    }
}

static off_t pos(int fd) { return lseek(fd, 0, SEEK_CUR); }
static void op_end(void)
{
    watch_after();
    fflush(stdout);
    fflush(stderr);
    log_raw("O");
    log_num(cur_op);
    log_num((long long)pos(out_fd));
    log_num((long long)pos(err_fd));
}

/* a program calls the library with whatever errno its own calls left behind */
static unsigned errno_turn;
static int some_errno(void)
{
    static const int kinds[] = {ERANGE, 0, EINVAL, ERANGE, ENOMEM, ENOENT, ERANGE};
    return kinds[errno_turn++ % (sizeof kinds / sizeof *kinds)];
}
#define LIB(x) do { in_lib = 1; errno = some_errno(); x; in_lib = 0; } while (0)

static jmp_buf exit_jmp;
static int     can_jump, exit_status;
void __real_exit(int);
/* exit() called by the library ends the script, with everything a real exit would flush */
void __wrap_exit(int code)
{
    if (!can_jump)
        __real_exit(code);
    in_lib = in_cb = 0;
    monitoring    = 0;
    op_end();
    log_raw(" x");
    log_num(live_count);
    log_num(live_total);
    log_c('\n');
    log_flush();
    exit_status = code;
    longjmp(exit_jmp, 1);
}

static void run_op(op_t *op)
{
    int    c = op->n > 0 && op->f[0] && op->f[0][0] >= '0' && op->f[0][0] <= '9' && !op->f[0][1]
                   ? op->f[0][0] - '0' : 0;
    argus_t *a = cur_ctx = &ctx[c < MAXCTX ? c : 0];
    char   **f = op->f;
    argus_value_t v;
    int    r;

    errno_turn += (unsigned)op->n;
    for (int i = 0; i < op->n; i++)
        errno_turn += f[i] ? (unsigned)strlen(f[i]) : 1;
    watch_before(op->code, c < MAXCTX ? c : 0);
    switch (op->code) {
        case 'w': setlocale(LC_ALL, "C.UTF-8"); watching = true; op_end(); break;
        case 'I': { /* init: ctx schema prog version */
            vt_schema_t *s = NULL;
            for (int i = 0; vt_schemas[i]; i++)
                if (strcmp(vt_schemas[i]->id, f[1]) == 0) s = vt_schemas[i];
            if (!s) { fprintf(stderr, "no schema %s\n", f[1]); _exit(96); }
            ctx_schema[c] = s;
            uint64_t h0 = hash_tables(s);
            LIB(*a = s->init(f[2], f[3]));
            uint64_t h1 = hash_tables(s);
            op_end(); log_num(h0 == h1); log_num(a->error_code);
            break;
        }
        case 'C': /* context fields */
            if (strcmp(f[1], "desc") == 0) a->description = f[2];
            else if (strcmp(f[1], "prefix") == 0) a->env_prefix = f[2];
            op_end();
            break;
        case 'L': /* layout: width column indent hintlen spaces */
            a->helper.config.max_line_width         = strtoull(f[1], NULL, 10);
            a->helper.config.description_column     = strtoull(f[2], NULL, 10);
            a->helper.config.option_indent          = strtoull(f[3], NULL, 10);
            a->helper.config.smart_hint_max_length  = strtoull(f[4], NULL, 10);
            a->helper.config.smart_hint_allow_spaces = f[5][0] == '1';
            op_end();
            break;
        case 'E': setenv(f[0], f[1], 1); op_end(); break;
        case 'U': unsetenv(f[0]); op_end(); break;
        case 'A': { /* parse */
            int    argc = op->n - 1;
            char **av   = __real_malloc((size_t)(argc + 1) * sizeof *av);
            for (int i = 0; i < argc; i++)
                av[i] = dup_exact(f[i + 1]);
            av[argc] = NULL;
            if (watching && nargvs < 32)
                argvs[nargvs++] = freeze(av);
            LIB(r = argus_parse(a, argc, av));
            op_end(); log_num(r); log_num(a->error_code);
            break;
        }
        case 'G': LIB(v = argus_get(a, f[1])); op_end(); log_val(v, f[2][0]); log_num(a->error_code); break;
        case 'S': LIB(r = argus_is_set(a, f[1])); op_end(); log_num(r); break;
        case 'K': { size_t n; LIB(n = argus_count(a, f[1])); op_end(); log_num((long long)n); break; }
        case 'X': LIB(v = argus_array_get(a, f[1], strtoull(f[2], NULL, 10)));
            op_end(); log_val(v, f[3][0]); log_num(a->error_code); break;
        case 'M': LIB(v = argus_map_get(a, f[1], f[2]));
            op_end(); log_val(v, f[3][0]); log_num(a->error_code); break;
        case 'T': {
            argus_array_it_t it, other;
            LIB(it = argus_array_it(a, f[1]));
            LIB(other = argus_array_it(a, f[1]));
            op_end();
            for (int pass = 0; pass < 4; pass++) {
                bool more;
                long n = 0;
                argus_array_it_t *p = pass == 3 ? &other : &it;
                log_raw(" (");
                while (n < 1000000) {
                    LIB(more = argus_array_next(p));
                    if (!more) break;
                    n++;
                    log_val(p->value, f[2][0]);
                    if (pass == 2 && n % 2)     /* a second iterator is not disturbed, and does not disturb */
                        LIB(argus_array_next(&other));
                }
                LIB(more = argus_array_next(p));
                log_raw(more ? " !" : " )");
                LIB(argus_array_reset(&it));
                if (pass == 1) {    /* reset from the middle */
                    for (long k = 0; k < n / 2 + 1 && n; k++)
                        LIB(argus_array_next(&it));
                    LIB(argus_array_reset(&it));
                }
                if (pass == 2)
                    LIB(argus_array_reset(&other));
            }
            break;
        }
        case 'Y': {
            argus_map_it_t it, other;
            LIB(it = argus_map_it(a, f[1]));
            LIB(other = argus_map_it(a, f[1]));
            op_end();
            for (int pass = 0; pass < 4; pass++) {
                bool more;
                long n = 0;
                argus_map_it_t *p = pass == 3 ? &other : &it;
                log_raw(" (");
                while (n < 1000000) {
                    LIB(more = argus_map_next(p));
                    if (!more) break;
                    n++;
                    log_str(p->key);
                    log_val(p->value, f[2][0]);
                    if (pass == 2 && n % 2)
                        LIB(argus_map_next(&other));
                }
                LIB(more = argus_map_next(p));
                log_raw(more ? " !" : " )");
                LIB(argus_map_reset(&it));
                if (pass == 1) {
                    for (long k = 0; k < n / 2 + 1 && n; k++)
                        LIB(argus_map_next(&it));
                    LIB(argus_map_reset(&it));
                }
                if (pass == 2)
                    LIB(argus_map_reset(&other));
            }
            break;
        }
        case 'B': LIB(r = argus_has_command(a)); op_end(); log_num(r); break;
        case 'R': /* exec */
            cb_data_expected = &live_total;
            cb_ctx_expected  = a;
            LIB(r = argus_exec(a, &live_total));
            op_end(); log_num(r);
            break;
        case 'F': LIB(argus_free(a)); op_end(); break;
        case 'H': LIB(argus_print_help(a)); op_end(); break;
        case 'W': LIB(argus_print_usage(a)); op_end(); break;
        case 'V': LIB(argus_print_version(a)); op_end(); break;
        case 'Z': { const char *s; LIB(s = argus_strerror((argus_error_type_t)atoi(f[0]))); op_end(); log_str(s); break; }
        case 'm':
            if (live_total) memset(live, 0, sizeof live);
            monitoring = 1; live_count = live_total = free_total = 0; op_end(); break;
        case 'q': op_end(); log_num(live_count); log_num(live_total); break;
        case 'O': alloc_seen = 0; fault_hits = 0; fault_at = atol(f[0]); fault_mode = atoi(f[1]); op_end(); break;
        case 'o': op_end(); log_num(alloc_seen); log_num(fault_hits); fault_at = -1; break;
        case 'h': { uint64_t h = hash_tables(ctx_schema[c]); op_end(); log_num((long long)(h & 0x7fffffffffffffff)); break; }
        default: _exit(95);
    }
    log_c('\n');
    log_flush();
    log_flush();
}

static char *unesc(char *s)
{
    if (s[0] == '~')
        return NULL;
    char *w = s + 1, *r = s + 1, *base = s + 1;
    while (*r) {
        if (*r == '%') {
            char h[3] = {r[1], r[2], 0};
            *w++ = (char)strtol(h, NULL, 16);
            r += 3;
        } else
            *w++ = *r++;
    }
    *w = 0;
    return base;
}


/* one script after another in a child; a child that dies costs only its current script */
typedef struct { char *id; int nops; op_t *ops; } case_t;
static case_t *cases;
static int     ncases, cap_cases;
static volatile int *progress; /* shared: index of the script being run */
static int     res_fd, limit = 10, of, ef, lf;

static void res_write(const void *p, size_t n)
{
    const char *c = p;
    while (n) {
        ssize_t w = write(res_fd, c, n);
        if (w < 0 && errno == EINTR) continue;
        if (w <= 0) _exit(94);
        c += w;
        n -= (size_t)w;
    }
}
static void cat_fd(int fd, off_t n)
{
    static char b[1 << 16];
    off_t o = 0;
    while (o < n) {
        ssize_t r = pread(fd, b, sizeof b < (size_t)(n - o) ? sizeof b : (size_t)(n - o), o);
        if (r <= 0) _exit(93);
        res_write(b, (size_t)r);
        o += r;
    }
}
static void report(const char *id, int code, int sig)
{
    char  h[512];
    off_t l = lseek(lf, 0, SEEK_END), o = lseek(of, 0, SEEK_END), e = lseek(ef, 0, SEEK_END);
    int   n = snprintf(h, sizeof h, "RES %s %d %d %lld %lld %lld\n", id, code, sig, (long long)l, (long long)o, (long long)e);
    res_write(h, (size_t)n);
    cat_fd(lf, l); cat_fd(of, o); cat_fd(ef, e);
    res_write("\n", 1);
}
static void reset_fds(void)
{
    if (ftruncate(lf, 0) || ftruncate(of, 0) || ftruncate(ef, 0)) _exit(92);
    lseek(lf, 0, SEEK_SET); lseek(of, 0, SEEK_SET); lseek(ef, 0, SEEK_SET);
}
static void save_tables(bool restore)
{
    static void **copy;
    static int    n;
    int k = 0;
    if (!copy) {
        for (int i = 0; vt_schemas[i]; i++)
            for (vt_table_t *t = vt_schemas[i]->tables; t->ptr; t++) n++;
        copy = __real_calloc((size_t)n + 1, sizeof *copy);
    }
    for (int i = 0; vt_schemas[i]; i++)
        for (vt_table_t *t = vt_schemas[i]->tables; t->ptr; t++, k++) {
            if (!restore) { copy[k] = __real_malloc(t->size); memcpy(copy[k], t->ptr, t->size); }
            else memcpy(t->ptr, copy[k], t->size);
        }
}
static void run_case(case_t *c)
{
    struct itimerval it = {{0, 0}, {limit, 0}};
    clearenv();
    memset(ctx, 0, sizeof ctx);
    memset(ctx_schema, 0, sizeof ctx_schema);
    for (int i = 0; i < nargvs; i++) thaw(&argvs[i]);
    nargvs = 0;
    watching = armed = false;
    fault_at = -1; alloc_seen = fault_hits = 0; monitoring = 0; in_lib = in_cb = track_user = 0;
    log_len = 0;
    setitimer(ITIMER_PROF, &it, NULL); /* cpu time, so that a loaded machine makes no verdict */
    alarm((unsigned)limit * 6);
    if (setjmp(exit_jmp) == 0) {
        can_jump = 1;
        for (cur_op = 0; cur_op < c->nops; cur_op++)
            run_op(&c->ops[cur_op]);
        fflush(stdout);
        log_raw("D\n");
        log_flush();
        exit_status = 0;
    }
    can_jump = 0;
}

static void read_cases(FILE *in)
{
    char  *line = NULL;
    size_t cap = 0;
    while (getline(&line, &cap, in) > 0) {
        if (strncmp(line, "CASE ", 5) != 0) _exit(3);
        line[strcspn(line, "\n")] = 0;
        if (ncases == cap_cases) {
            cap_cases = cap_cases ? cap_cases * 2 : 256;
            cases = __real_realloc(cases, (size_t)cap_cases * sizeof *cases);
        }
        case_t *c = &cases[ncases++];
        int     cap_ops = 0;
        c->id = __real_strdup(line + 5);
        c->nops = 0;
        c->ops = NULL;
        while (getline(&line, &cap, in) > 0) {
            line[strcspn(line, "\n")] = 0;
            if (strcmp(line, "END") == 0) break;
            if (c->nops == cap_ops) {
                cap_ops = cap_ops ? cap_ops * 2 : 16;
                c->ops = __real_realloc(c->ops, (size_t)cap_ops * sizeof *c->ops);
            }
            op_t *op = &c->ops[c->nops++];
            op->code = line[0];
            op->n    = 0;
            size_t k = 0;
            for (char *p = line; *p; p++) if (*p == ' ') k++;
            op->f = __real_malloc((k + 1) * sizeof(char *));
            char *p = strchr(line, ' ');
            while (p) {
                *p++ = 0;
                char *next = strchr(p, ' ');
                if (next) *next = 0;
                char *tmp = __real_strdup(p), *u = unesc(tmp);
                op->f[op->n++] = u ? dup_exact(u) : NULL;
                free(tmp);
                if (next) *next = ' ';
                p = next;
            }
        }
    }
    free(line);
}

int main(int argc, char **argv)
{
    if (argc < 2) return 2;
    if (argc > 2) limit = atoi(argv[2]);
    int   chunk = argc > 3 ? atoi(argv[3]) : 100; /* scripts per process */
    FILE *in = fopen(argv[1], "r");
    if (!in) return 2;
    read_cases(in);
    fclose(in);
    save_tables(false);
    progress = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    lf = memfd_create("log", 0), of = memfd_create("out", 0), ef = memfd_create("err", 0);
    int inf = memfd_create("in", 0);
    if (write(inf, "text\n", 5) != 5 || lseek(inf, 0, SEEK_SET)) return 2;
    res_fd = 1;
#if !defined VT_MSAN && !defined VT_PLAIN
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    int hangs = 0;
    for (int next = 0; next < ncases && hangs < 3;) { /* the reader treats what is left as not run */
        int end = next + chunk < ncases ? next + chunk : ncases;
        *progress = next;
        reset_fds();
        pid_t pid = fork();
        if (pid < 0) return 6;
        if (pid == 0) {
            res_fd = dup(1);
            dup2(of, 1); dup2(ef, 2); dup2(inf, 0);
            log_fd = lf; out_fd = of; err_fd = ef;
            setvbuf(stdout, stdout_buf, _IOFBF, sizeof stdout_buf);
            struct rlimit rl = {256 << 20, 256 << 20};
            setrlimit(RLIMIT_FSIZE, &rl);
#ifdef VT_PLAIN
            struct rlimit as = {(rlim_t)3 << 29, (rlim_t)3 << 29};
            setrlimit(RLIMIT_AS, &as);
#endif
            for (int i = next; i < end; i++) {
                *progress = i;
                if (i > next) { reset_fds(); save_tables(true); }
                run_case(&cases[i]);
                report(cases[i].id, exit_status, 0);
                *progress = i + 1;
            }
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
        int at = *progress;
        if (at < end) { /* died in script 'at' */
            if ((WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXFSZ)) ||
                (WIFEXITED(st) && WEXITSTATUS(st) == 93))
                hangs++;
            report(cases[at].id, WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
            at++;
        }
        next = at;
    }
    uint32_t hit = 0;
    for (uint32_t i = 1; cov_map && i <= cov_n && i < COV_MAX; i++) hit += cov_map[i];
    printf("COV %u %u\n", hit, cov_n);
    for (uint32_t i = 1; cov_map && i <= cov_n && i < COV_MAX; i++) putchar(cov_map[i] ? '1' : '0');
    printf("\n");
    fflush(stdout);
    _exit(0);
}
