/* Procedures that expose the C API to the programs of vrun (mode A). */
#include "scmport-mbchar.h"
#include "encoding.h"

static const char *cstr(ScmObj s) { return SCM_STRING_STR(s); }
static ScmObj mkstr(const char *s) { return SCM_MAKE_STRING_COPYING(s, SCM_STRLEN_UNKNOWN); }

/* ((type . value) ...) -> machine words; numbers are given as decimal strings */
static int cargs(ScmObj l, uintptr_t *a)
{
    int n = 0;
    for (; SCM_CONSP(l) && n < 12; l = SCM_CDR(l)) {
        ScmObj t = SCM_CAR(SCM_CAR(l)), v = SCM_CDR(SCM_CAR(l));
        switch (*cstr(t)) {
        case 's': a[n++] = (uintptr_t)cstr(v); break;
        case 'o': a[n++] = (uintptr_t)v; break;
        default: a[n++] = *cstr(v) == '-' ? (uintptr_t)strtoll(cstr(v), NULL, 10) : (uintptr_t)strtoull(cstr(v), NULL, 10);
        }
    }
    return n;
}
#define A12 a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]

/* (c-format port cap fmt args) */
static ScmObj capi_format(ScmObj port, ScmObj cap, ScmObj fmt, ScmObj args)
{
    uintptr_t a[12] = { 0 };
    cargs(args, a);
    return scm_format(port, (enum ScmFormatCapability)SCM_INT_VALUE(cap), cstr(fmt), A12);
}

/* (c-lformat port cap fmt objs): the arguments are a Scheme list */
static ScmObj capi_lformat(ScmObj port, ScmObj cap, ScmObj fmt, ScmObj objs)
{
    return scm_lformat(port, (enum ScmFormatCapability)SCM_INT_VALUE(cap), cstr(fmt), objs);
}

/* (c-error func-or-#f fmt args) (c-error-obj func msg obj) */
static ScmObj capi_error(ScmObj func, ScmObj fmt, ScmObj args)
{
    uintptr_t a[12] = { 0 };
    cargs(args, a);
    if (SCM_FALSEP(func))
        scm_plain_error(cstr(fmt), A12);
    scm_error(cstr(func), cstr(fmt), A12);
    return SCM_UNDEF;
}
static ScmObj capi_error_obj(ScmObj func, ScmObj msg, ScmObj obj)
{
    scm_error_obj(cstr(func), cstr(msg), obj);
    return SCM_UNDEF;
}
/* (c-raise reason objs): an error object made and raised by the client */
static ScmObj capi_raise(ScmObj reason, ScmObj objs)
{
    scm_raise_error(scm_make_error_obj(reason, objs));
    return SCM_UNDEF;
}

/* (c-int2string n width pad signed radix) */
static ScmObj capi_int2string(ScmObj n, ScmObj width, ScmObj pad, ScmObj sgn, ScmObj radix)
{
    ScmValueFormat v;
    uintptr_t a[12];
    char *s;
    ScmObj r;
    cargs(SCM_LIST_1(SCM_CONS(SCM_CONST_STRING("j"), n)), a);
    SCM_VALUE_FORMAT_INIT4(v, SCM_INT_VALUE(width), -1, *cstr(pad), SCM_TRUEP(sgn));
    s = scm_int2string(v, a[0], SCM_INT_VALUE(radix));
    r = mkstr(s);
    free(s);
    return r;
}
/* (c-string2number str radix) -> decimal digits or #f */
static ScmObj capi_string2number(ScmObj str, ScmObj radix)
{
    scm_bool err = 2;
    scm_int_t n = scm_string2number(cstr(str), SCM_INT_VALUE(radix), &err);
    char b[40];
    if (err)
        return SCM_FALSE;
    sprintf(b, "%lld", (long long)n);
    return mkstr(b);
}

/* (c-length obj): n, (dotted n) or circular */
static ScmObj capi_length(ScmObj obj)
{
    scm_int_t n = scm_length(obj);
    int p = SCM_PROPER_LISTP(obj) ? 1 : 0, d = SCM_DOTTED_LISTP(obj) ? 1 : 0, c = SCM_CIRCULAR_LISTP(obj) ? 1 : 0;
    if (p + d + c != 1)
        return scm_intern("inconsistent");
    if (SCM_LISTLEN_PROPERP(n))
        return p ? SCM_MAKE_INT(n) : scm_intern("bad");
    if (SCM_LISTLEN_DOTTEDP(n))
        return d ? SCM_LIST_2(scm_intern("dotted"), SCM_MAKE_INT(SCM_LISTLEN_DOTTED(n))) : scm_intern("bad");
    return c && SCM_LISTLEN_CIRCULARP(n) ? scm_intern("circular") : scm_intern("bad");
}
static ScmObj capi_list_tail(ScmObj l, ScmObj k)
{
    ScmObj r = scm_list_tail(l, SCM_INT_VALUE(k));
    return !SCM_EQ(r, SCM_INVALID) ? r : scm_intern("invalid");
}

/* pointers */
static uintptr_t word(ScmObj s)
{
    uintptr_t a[12];
    cargs(SCM_LIST_1(SCM_CONS(SCM_CONST_STRING("p"), s)), a);
    return a[0];
}
static ScmObj unword(uintptr_t w)
{
    char b[40];
    sprintf(b, "%llu", (unsigned long long)w);
    return mkstr(b);
}
static ScmObj capi_ptr(ScmObj n) { return SCM_MAKE_C_POINTER((void *)word(n)); }
static ScmObj capi_fptr(ScmObj n) { return SCM_MAKE_C_FUNCPOINTER((ScmCFunc)word(n)); }
static ScmObj capi_ptr_set(ScmObj p, ScmObj n)
{
    if (SCM_C_POINTERP(p))
        SCM_C_POINTER_SET_VALUE(p, (void *)word(n));
    else
        SCM_C_FUNCPOINTER_SET_VALUE(p, (ScmCFunc)word(n));
    return p;
}
/* (ptr "n") or (fptr "n") or no */
static ScmObj capi_ptr_value(ScmObj p)
{
    if (SCM_C_POINTERP(p))
        return SCM_C_FUNCPOINTERP(p) || SCM_TYPE(p) != ScmCPointer ? scm_intern("both")
            : SCM_LIST_2(scm_intern("ptr"), unword((uintptr_t)SCM_C_POINTER_VALUE(p)));
    if (SCM_C_FUNCPOINTERP(p))
        return SCM_TYPE(p) != ScmCFuncPointer ? scm_intern("type")
            : SCM_LIST_2(scm_intern("fptr"), unword((uintptr_t)SCM_C_FUNCPOINTER_VALUE(p)));
    return scm_intern("no");
}

/* ports on the client's own byte ports */
typedef struct {
    const ScmBytePortVTbl *vptr;
    unsigned char b[512];
    int len, pos, avail, blocked, closed, flushed, id;
} TPort;
static TPort *tports[64];
static int ntport;
static ScmBytePort *tp_cast(ScmBytePort *p, const ScmBytePortVTbl *v);
static void tp_close(TPort *p) { p->closed++; }
static char *tp_inspect(TPort *p) { return strdup("client"); }
static scm_ichar_t tp_peek(TPort *p)
{
    if (p->pos == p->len)
        return SCM_ICHAR_EOF;
    if (p->pos >= p->avail) {
        p->blocked++;
        p->avail = p->pos + 1;
    }
    return p->b[p->pos];
}
static scm_ichar_t tp_get(TPort *p)
{
    scm_ichar_t c = tp_peek(p);
    if (c != SCM_ICHAR_EOF)
        p->pos++;
    return c;
}
static scm_bool tp_ready(TPort *p) { return (p->pos == p->len || p->pos < p->avail) ? scm_true : scm_false; }
static void tp_write(TPort *p, size_t n, const char *buf)
{
    if (p->len + n > sizeof p->b)
        n = sizeof p->b - p->len;
    memcpy(p->b + p->len, buf, n);
    p->len += n;
}
static void tp_puts(TPort *p, const char *s) { tp_write(p, strlen(s), s); }
static void tp_flush(TPort *p) { p->flushed++; }
static const ScmBytePortVTbl tp_vtbl = {
    (ScmBytePortMethod_dyn_cast)tp_cast, (ScmBytePortMethod_close)tp_close, (ScmBytePortMethod_inspect)tp_inspect,
    (ScmBytePortMethod_get_byte)tp_get, (ScmBytePortMethod_peek_byte)tp_peek,
    (ScmBytePortMethod_byte_readyp)tp_ready, (ScmBytePortMethod_puts)tp_puts,
    (ScmBytePortMethod_write)tp_write, (ScmBytePortMethod_flush)tp_flush
};
static ScmBytePort *tp_cast(ScmBytePort *p, const ScmBytePortVTbl *v) { return v == &tp_vtbl ? p : NULL; }

/* (c-port id (byte ...) avail codec flags) */
static ScmObj capi_port(ScmObj id, ScmObj bytes, ScmObj avail, ScmObj codec, ScmObj flags)
{
    TPort *p = calloc(1, sizeof *p);
    p->vptr = &tp_vtbl;
    for (; SCM_CONSP(bytes) && p->len < 500; bytes = SCM_CDR(bytes))
        p->b[p->len++] = SCM_INT_VALUE(SCM_CAR(bytes));
    p->avail = SCM_INT_VALUE(avail);
    p->id = SCM_INT_VALUE(id);
    tports[p->id] = p;
    return SCM_MAKE_PORT(ScmMultiByteCharPort_new((ScmBytePort *)p, scm_mb_find_codec(cstr(codec))),
                         (enum ScmPortFlag)SCM_INT_VALUE(flags));
}
/* (c-feed id k): k more bytes are available */
static ScmObj capi_feed(ScmObj id, ScmObj k)
{
    TPort *p = tports[SCM_INT_VALUE(id)];
    p->avail = (p->avail > p->pos ? p->avail : p->pos) + SCM_INT_VALUE(k);
    if (p->avail > p->len)
        p->avail = p->len;
    return SCM_UNDEF;
}
/* (c-port-state id) -> (waits closed) and forgets the waits */
static ScmObj capi_port_state(ScmObj id)
{
    TPort *p = tports[SCM_INT_VALUE(id)];
    int b = p->blocked;
    p->blocked = 0;
    return SCM_LIST_2(SCM_MAKE_INT(b), SCM_MAKE_INT(p->closed));
}
/* (c-port-bytes id) -> bytes written since the last call, as a list */
static ScmObj capi_port_bytes(ScmObj id)
{
    TPort *p = tports[SCM_INT_VALUE(id)];
    ScmObj r = SCM_NULL;
    int i;
    for (i = p->len - 1; i >= 0; i--)
        r = SCM_CONS(SCM_MAKE_INT(p->b[i]), r);
    p->len = 0;
    return r;
}

/* string ports with finalizers */
static int finals[64];
static void ifin(char **str, scm_bool own, void **opaque)
{
    finals[(uintptr_t)*opaque]++;
    if (own)
        free(*str);
}
static void ofin(char **str, size_t size, void **opaque)
{
    finals[(uintptr_t)*opaque]++;
    free(*str);
}
/* (c-string-port id text kind): 0 own, 1 copying, 2 const, 3 output */
static ScmObj capi_string_port(ScmObj id, ScmObj text, ScmObj kind)
{
    ScmBytePort *b;
    int k = SCM_INT_VALUE(kind);
    if (k == 3) {
        b = ScmOutputStrPort_new(ofin);
        *ScmOutputStrPort_ref_opaque(b) = (void *)(uintptr_t)SCM_INT_VALUE(id);
        return SCM_MAKE_PORT(scm_make_char_port(b), SCM_PORTFLAG_OUTPUT);
    }
    b = k == 0 ? ScmInputStrPort_new(strdup(cstr(text)), ifin)
        : k == 1 ? ScmInputStrPort_new_copying(cstr(text), ifin)
        : ScmInputStrPort_new_const(strdup(cstr(text)), ifin);
    *ScmInputStrPort_ref_opaque(b) = (void *)(uintptr_t)SCM_INT_VALUE(id);
    return SCM_MAKE_PORT(scm_make_char_port(b), SCM_PORTFLAG_INPUT);
}
/* how often the port was finalized */
static ScmObj capi_finals(ScmObj id) { return SCM_MAKE_INT(finals[SCM_INT_VALUE(id)]); }

/* a FILE shared by the client and ports */
static FILE *cfile;
static ScmObj capi_file(ScmObj text)
{
    if (cfile)
        fclose(cfile);
    cfile = tmpfile();
    fputs(cstr(text), cfile);
    rewind(cfile);
    return SCM_UNDEF;
}
static ScmObj capi_file_port(ScmObj flags)
{
    fseek(cfile, 0, SEEK_CUR);
    return scm_make_shared_file_port(cfile, "client", (enum ScmPortFlag)SCM_INT_VALUE(flags));
}
static ScmObj capi_getc(void)
{
    int c = fgetc(cfile);
    return c == EOF ? SCM_EOF : SCM_MAKE_CHAR(c);
}
static ScmObj capi_putc(ScmObj c) { fputc(SCM_CHAR_VALUE(c), cfile); return SCM_UNDEF; }
static ScmObj capi_seek(ScmObj n) { fflush(cfile); fseek(cfile, SCM_INT_VALUE(n), SEEK_SET); return SCM_UNDEF; }
static ScmObj capi_contents(void)
{
    char b[4096];
    size_t n;
    long at = ftell(cfile);
    fflush(cfile);
    rewind(cfile);
    n = fread(b, 1, sizeof b - 1, cfile);
    b[n] = '\0';
    fseek(cfile, at, SEEK_SET);
    return mkstr(b);
}
/* the C entry points of ports */
static ScmObj ich(scm_ichar_t c) { return c == SCM_ICHAR_EOF ? SCM_EOF : SCM_MAKE_CHAR(c); }
static ScmObj capi_get_char(ScmObj p) { return ich(scm_port_get_char(p)); }
static ScmObj capi_peek_char(ScmObj p) { return ich(scm_port_peek_char(p)); }
static ScmObj capi_readyp(ScmObj p) { return SCM_MAKE_BOOL(scm_port_char_readyp(p)); }
static ScmObj capi_put_char(ScmObj p, ScmObj c) { scm_port_put_char(p, SCM_CHAR_VALUE(c)); return SCM_UNDEF; }
static ScmObj capi_puts(ScmObj p, ScmObj s) { scm_port_puts(p, cstr(s)); return SCM_UNDEF; }
static ScmObj capi_close(ScmObj p) { scm_port_close(p); return SCM_UNDEF; }
static ScmObj capi_codec(ScmObj p) { return mkstr(SCM_CHARCODEC_ENCODING(scm_port_codec(p))); }
static ScmObj capi_inspect(ScmObj p)
{
    char *s = scm_port_inspect(p);
    ScmObj r = mkstr(s);
    free(s);
    return r;
}
/* (c-set-codec port codec) */
static ScmObj capi_set_codec(ScmObj p, ScmObj codec)
{
    ScmMultiByteCharPort_set_codec(SCM_PORT_IMPL(p), scm_mb_find_codec(cstr(codec)));
    return SCM_UNDEF;
}

#include "capifunc.h"

static void
capi_register(void)
{
    capifunc_register();
#define R(n, f, t) scm_register_func(n, (ScmFuncType)f, t)
    R("c-format", capi_format, SCM_PROCEDURE_FIXED_4);
    R("c-lformat", capi_lformat, SCM_PROCEDURE_FIXED_4);
    R("c-error", capi_error, SCM_PROCEDURE_FIXED_3);
    R("c-error-obj", capi_error_obj, SCM_PROCEDURE_FIXED_3);
    R("c-raise", capi_raise, SCM_PROCEDURE_FIXED_2);
    R("c-int2string", capi_int2string, SCM_PROCEDURE_FIXED_5);
    R("c-string2number", capi_string2number, SCM_PROCEDURE_FIXED_2);
    R("c-length", capi_length, SCM_PROCEDURE_FIXED_1);
    R("c-list-tail", capi_list_tail, SCM_PROCEDURE_FIXED_2);
    R("c-ptr", capi_ptr, SCM_PROCEDURE_FIXED_1);
    R("c-fptr", capi_fptr, SCM_PROCEDURE_FIXED_1);
    R("c-ptr-set!", capi_ptr_set, SCM_PROCEDURE_FIXED_2);
    R("c-ptr-value", capi_ptr_value, SCM_PROCEDURE_FIXED_1);
    R("c-port", capi_port, SCM_PROCEDURE_FIXED_5);
    R("c-feed", capi_feed, SCM_PROCEDURE_FIXED_2);
    R("c-port-state", capi_port_state, SCM_PROCEDURE_FIXED_1);
    R("c-port-bytes", capi_port_bytes, SCM_PROCEDURE_FIXED_1);
    R("c-string-port", capi_string_port, SCM_PROCEDURE_FIXED_3);
    R("c-finals", capi_finals, SCM_PROCEDURE_FIXED_1);
    R("c-file", capi_file, SCM_PROCEDURE_FIXED_1);
    R("c-file-port", capi_file_port, SCM_PROCEDURE_FIXED_1);
    R("c-getc", capi_getc, SCM_PROCEDURE_FIXED_0);
    R("c-putc", capi_putc, SCM_PROCEDURE_FIXED_1);
    R("c-seek", capi_seek, SCM_PROCEDURE_FIXED_1);
    R("c-contents", capi_contents, SCM_PROCEDURE_FIXED_0);
    R("c-get-char", capi_get_char, SCM_PROCEDURE_FIXED_1);
    R("c-peek-char", capi_peek_char, SCM_PROCEDURE_FIXED_1);
    R("c-ready?", capi_readyp, SCM_PROCEDURE_FIXED_1);
    R("c-put-char", capi_put_char, SCM_PROCEDURE_FIXED_2);
    R("c-puts", capi_puts, SCM_PROCEDURE_FIXED_2);
    R("c-close", capi_close, SCM_PROCEDURE_FIXED_1);
    R("c-codec", capi_codec, SCM_PROCEDURE_FIXED_1);
    R("c-set-codec", capi_set_codec, SCM_PROCEDURE_FIXED_2);
    R("c-inspect", capi_inspect, SCM_PROCEDURE_FIXED_1);
#undef R
}
