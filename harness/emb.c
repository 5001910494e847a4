/* A libsscm client driven by a list of operations on stdin, one per line:
 *
 *   I heap thresh max init hash [argv...]   initialize (heap 0: default storage)
 *   F                    finalize
 *   E s text             slot s := scm_eval_c_string(text)
 *   S s                  write slot s
 *   P s / U s            protect (initialized with #f) / unprotect slot s
 *   G n                  allocate n garbage cells in a GC ready stack
 *   C d f n a...         slot d := scm_call(slot f, list of slots)
 *   L d s                slot d := array2list(list2array(slot s)), writes the length
 *   M d s                the same, with converters doubling integers
 *   V s name / W s name  set the toplevel variable to slot s / slot s := its value
 *   B name               the symbol bound to the value of the variable
 *   R name kind          register a C procedure
 *   A new old            alias
 *   m mod / v feat / p feat / u mod   require_module / providedp / provide / use
 *   r file / l file      scm_require / scm_load
 *   Q path / q           set the library path / print it
 *   X                    is the context protected? outside and inside
 *   K n                  objects kept only on the C stack survive n allocations
 *   N s type val...      slot s := object made with the C API
 *   Y s                  describe slot s with the C accessors
 *   O s                  is the object in slot s protected? outside and inside
 *   w s                  slot s written by scm_write_ss() and, if it has no strings or chars, by scm_display()
 *   T                    set the fatal error callback
 *   t text               print text
 */
#include <config.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "sigscheme.h"
#include "sigschemeinternal.h"

#define NSLOT 64
static ScmObj slot[NSLOT];
static ScmObj nested[2];
static char *words[64];
static int nwords;
static char *rest_of_line;

static ScmObj c0(void) { return SCM_MAKE_INT(42); }
static ScmObj c1(ScmObj a) { return SCM_LIST_2(a, a); }
static ScmObj c2(ScmObj a, ScmObj b) { return SCM_CONS(a, b); }
static ScmObj c3(ScmObj a, ScmObj b, ScmObj c) { return SCM_LIST_3(c, b, a); }
static ScmObj c4(ScmObj a, ScmObj b, ScmObj c, ScmObj d) { return SCM_LIST_4(d, c, b, a); }
static ScmObj c5(ScmObj a, ScmObj b, ScmObj c, ScmObj d, ScmObj e) { return SCM_LIST_5(e, d, c, b, a); }
static ScmObj v0(ScmObj args)
{
    ScmObj r = SCM_NULL;
    for (; SCM_CONSP(args); args = SCM_CDR(args))
        r = SCM_CONS(SCM_CAR(args), r);
    return r;
}
static ScmObj v1(ScmObj a, ScmObj args) { return SCM_LIST_2(a, args); }
static ScmObj v2(ScmObj a, ScmObj b, ScmObj args) { return SCM_LIST_3(a, b, args); }
static ScmObj v3(ScmObj a, ScmObj b, ScmObj c, ScmObj args) { return SCM_LIST_4(a, b, c, args); }
/* (tail proc . args): a tail call */
static ScmObj tail1(ScmObj proc, ScmObj args, ScmEvalState *st)
{
    ScmObj q = SCM_NULL;
    args = v0(args);
    for (; SCM_CONSP(args); args = SCM_CDR(args))
        q = SCM_CONS(SCM_LIST_2(SCM_SYM_QUOTE, SCM_CAR(args)), q);
    st->ret_type = SCM_VALTYPE_NEED_EVAL;
    return SCM_CONS(proc, q);
}
static ScmObj syn1(ScmObj exp, ScmObj env) { return SCM_LIST_2(exp, scm_eval(exp, env)); }
static ScmObj synv(ScmObj exp, ScmEvalState *st)
{
    ScmObj last = SCM_FALSE;
    for (; SCM_CONSP(exp); exp = SCM_CDR(exp))
        last = SCM_CAR(exp);
    /* the last expression, evaluated as a tail expression */
    return last;
}
static ScmObj evlis(ScmObj args, ScmObj env)
{
    ScmObj v;
    if (!SCM_CONSP(args))
        return SCM_NULL;
    v = scm_eval(SCM_CAR(args), env);
    return SCM_CONS(v, evlis(SCM_CDR(args), env));
}
/* one function of every other type */
static ScmObj v4(ScmObj a, ScmObj b, ScmObj c, ScmObj d, ScmObj args) { return SCM_CONS(a, SCM_CONS(b, SCM_CONS(c, SCM_CONS(d, SCM_CONS(args, SCM_NULL))))); }
static ScmObj v5(ScmObj a, ScmObj b, ScmObj c, ScmObj d, ScmObj e, ScmObj args) { return SCM_CONS(a, SCM_CONS(b, SCM_CONS(c, SCM_CONS(d, SCM_CONS(e, SCM_CONS(args, SCM_NULL)))))); }
static ScmObj ft0(ScmEvalState *st)
{
    st->ret_type = SCM_VALTYPE_NEED_EVAL;
    return SCM_LIST_2(SCM_SYM_QUOTE, SCM_NULL);
}
static ScmObj vt0(ScmObj args, ScmEvalState *st)
{
    st->ret_type = SCM_VALTYPE_NEED_EVAL;
    return SCM_LIST_2(SCM_SYM_QUOTE, SCM_CONS(args, SCM_NULL));
}
static ScmObj sf0(ScmObj env)
{
    return SCM_NULL;
}
static ScmObj st0(ScmEvalState *st) { return SCM_LIST_2(SCM_SYM_QUOTE, scm_intern("none")); }
static ScmObj sv0(ScmObj args, ScmObj env)
{
    return SCM_CONS(evlis(args, env), SCM_NULL);
}
static ScmObj ft1(ScmObj a, ScmEvalState *st)
{
    st->ret_type = SCM_VALTYPE_NEED_EVAL;
    return SCM_LIST_2(SCM_SYM_QUOTE, SCM_CONS(a, SCM_NULL));
}
static ScmObj vt1(ScmObj a, ScmObj args, ScmEvalState *st)
{
    st->ret_type = SCM_VALTYPE_NEED_EVAL;
    return SCM_LIST_2(SCM_SYM_QUOTE, SCM_CONS(a, SCM_CONS(args, SCM_NULL)));
}
static ScmObj sf1(ScmObj a, ScmObj env)
{
    a = scm_eval(a, env);
    return SCM_CONS(a, SCM_NULL);
}
static ScmObj st1(ScmObj a, ScmEvalState *st) { return a; }
static ScmObj sv1(ScmObj a, ScmObj args, ScmObj env)
{
    a = scm_eval(a, env);
    return SCM_CONS(a, SCM_CONS(evlis(args, env), SCM_NULL));
}
static ScmObj sw1(ScmObj a, ScmObj args, ScmEvalState *st) { return SCM_CONSP(args) ? synv(args, st) : a; }
static ScmObj ft2(ScmObj a, ScmObj b, ScmEvalState *st)
{
    st->ret_type = SCM_VALTYPE_NEED_EVAL;
    return SCM_LIST_2(SCM_SYM_QUOTE, SCM_CONS(a, SCM_CONS(b, SCM_NULL)));
}
static ScmObj vt2(ScmObj a, ScmObj b, ScmObj args, ScmEvalState *st)
{
    st->ret_type = SCM_VALTYPE_NEED_EVAL;
    return SCM_LIST_2(SCM_SYM_QUOTE, SCM_CONS(a, SCM_CONS(b, SCM_CONS(args, SCM_NULL))));
}
static ScmObj sf2(ScmObj a, ScmObj b, ScmObj env)
{
    a = scm_eval(a, env);
    b = scm_eval(b, env);
    return SCM_CONS(b, SCM_CONS(a, SCM_NULL));
}
static ScmObj st2(ScmObj a, ScmObj b, ScmEvalState *st) { return b; }
static ScmObj sv2(ScmObj a, ScmObj b, ScmObj args, ScmObj env)
{
    a = scm_eval(a, env);
    b = scm_eval(b, env);
    return SCM_CONS(a, SCM_CONS(b, SCM_CONS(evlis(args, env), SCM_NULL)));
}
static ScmObj sw2(ScmObj a, ScmObj b, ScmObj args, ScmEvalState *st) { return SCM_CONSP(args) ? synv(args, st) : b; }
static ScmObj ft3(ScmObj a, ScmObj b, ScmObj c, ScmEvalState *st)
{
    st->ret_type = SCM_VALTYPE_NEED_EVAL;
    return SCM_LIST_2(SCM_SYM_QUOTE, SCM_CONS(a, SCM_CONS(b, SCM_CONS(c, SCM_NULL))));
}
static ScmObj vt3(ScmObj a, ScmObj b, ScmObj c, ScmObj args, ScmEvalState *st)
{
    st->ret_type = SCM_VALTYPE_NEED_EVAL;
    return SCM_LIST_2(SCM_SYM_QUOTE, SCM_CONS(a, SCM_CONS(b, SCM_CONS(c, SCM_CONS(args, SCM_NULL)))));
}
static ScmObj sf3(ScmObj a, ScmObj b, ScmObj c, ScmObj env)
{
    a = scm_eval(a, env);
    b = scm_eval(b, env);
    c = scm_eval(c, env);
    return SCM_CONS(c, SCM_CONS(b, SCM_CONS(a, SCM_NULL)));
}
static ScmObj st3(ScmObj a, ScmObj b, ScmObj c, ScmEvalState *st) { return c; }
static ScmObj sv3(ScmObj a, ScmObj b, ScmObj c, ScmObj args, ScmObj env)
{
    a = scm_eval(a, env);
    b = scm_eval(b, env);
    c = scm_eval(c, env);
    return SCM_CONS(a, SCM_CONS(b, SCM_CONS(c, SCM_CONS(evlis(args, env), SCM_NULL))));
}
static ScmObj sw3(ScmObj a, ScmObj b, ScmObj c, ScmObj args, ScmEvalState *st) { return SCM_CONSP(args) ? synv(args, st) : c; }
static ScmObj ft4(ScmObj a, ScmObj b, ScmObj c, ScmObj d, ScmEvalState *st)
{
    st->ret_type = SCM_VALTYPE_NEED_EVAL;
    return SCM_LIST_2(SCM_SYM_QUOTE, SCM_CONS(a, SCM_CONS(b, SCM_CONS(c, SCM_CONS(d, SCM_NULL)))));
}
static ScmObj vt4(ScmObj a, ScmObj b, ScmObj c, ScmObj d, ScmObj args, ScmEvalState *st)
{
    st->ret_type = SCM_VALTYPE_NEED_EVAL;
    return SCM_LIST_2(SCM_SYM_QUOTE, SCM_CONS(a, SCM_CONS(b, SCM_CONS(c, SCM_CONS(d, SCM_CONS(args, SCM_NULL))))));
}
static ScmObj sf4(ScmObj a, ScmObj b, ScmObj c, ScmObj d, ScmObj env)
{
    a = scm_eval(a, env);
    b = scm_eval(b, env);
    c = scm_eval(c, env);
    d = scm_eval(d, env);
    return SCM_CONS(d, SCM_CONS(c, SCM_CONS(b, SCM_CONS(a, SCM_NULL))));
}
static ScmObj st4(ScmObj a, ScmObj b, ScmObj c, ScmObj d, ScmEvalState *st) { return d; }
static ScmObj sv4(ScmObj a, ScmObj b, ScmObj c, ScmObj d, ScmObj args, ScmObj env)
{
    a = scm_eval(a, env);
    b = scm_eval(b, env);
    c = scm_eval(c, env);
    d = scm_eval(d, env);
    return SCM_CONS(a, SCM_CONS(b, SCM_CONS(c, SCM_CONS(d, SCM_CONS(evlis(args, env), SCM_NULL)))));
}
static ScmObj sw4(ScmObj a, ScmObj b, ScmObj c, ScmObj d, ScmObj args, ScmEvalState *st) { return SCM_CONSP(args) ? synv(args, st) : d; }
static ScmObj ft5(ScmObj a, ScmObj b, ScmObj c, ScmObj d, ScmObj e, ScmEvalState *st)
{
    st->ret_type = SCM_VALTYPE_NEED_EVAL;
    return SCM_LIST_2(SCM_SYM_QUOTE, SCM_CONS(a, SCM_CONS(b, SCM_CONS(c, SCM_CONS(d, SCM_CONS(e, SCM_NULL))))));
}
static ScmObj vt5(ScmObj a, ScmObj b, ScmObj c, ScmObj d, ScmObj e, ScmObj args, ScmEvalState *st)
{
    st->ret_type = SCM_VALTYPE_NEED_EVAL;
    return SCM_LIST_2(SCM_SYM_QUOTE, SCM_CONS(a, SCM_CONS(b, SCM_CONS(c, SCM_CONS(d, SCM_CONS(e, SCM_CONS(args, SCM_NULL)))))));
}
static ScmObj sf5(ScmObj a, ScmObj b, ScmObj c, ScmObj d, ScmObj e, ScmObj env)
{
    a = scm_eval(a, env);
    b = scm_eval(b, env);
    c = scm_eval(c, env);
    d = scm_eval(d, env);
    e = scm_eval(e, env);
    return SCM_CONS(e, SCM_CONS(d, SCM_CONS(c, SCM_CONS(b, SCM_CONS(a, SCM_NULL)))));
}
static ScmObj st5(ScmObj a, ScmObj b, ScmObj c, ScmObj d, ScmObj e, ScmEvalState *st) { return e; }
static ScmObj sv5(ScmObj a, ScmObj b, ScmObj c, ScmObj d, ScmObj e, ScmObj args, ScmObj env)
{
    a = scm_eval(a, env);
    b = scm_eval(b, env);
    c = scm_eval(c, env);
    d = scm_eval(d, env);
    e = scm_eval(e, env);
    return SCM_CONS(a, SCM_CONS(b, SCM_CONS(c, SCM_CONS(d, SCM_CONS(e, SCM_CONS(evlis(args, env), SCM_NULL))))));
}
static ScmObj sw5(ScmObj a, ScmObj b, ScmObj c, ScmObj d, ScmObj e, ScmObj args, ScmEvalState *st) { return SCM_CONSP(args) ? synv(args, st) : e; }
static ScmObj red(ScmObj l, ScmObj r, enum ScmReductionState *state)
{
    switch (*state) {
    case SCM_REDUCE_0:
        return SCM_LIST_1(SCM_MAKE_INT(0));
    case SCM_REDUCE_1:
        return SCM_LIST_2(SCM_MAKE_INT(1), r);
    case SCM_REDUCE_PARTWAY:
        if (SCM_INTP(r) && SCM_INT_VALUE(r) == 99) {
            *state = SCM_REDUCE_STOP;
            return SCM_LIST_2(scm_intern("stop"), l);
        }
        return SCM_LIST_3(scm_intern("part"), l, r);
    case SCM_REDUCE_LAST:
        return SCM_LIST_3(scm_intern("last"), l, r);
    default:
        return SCM_FALSE;
    }
}
static ScmObj callback(ScmObj proc)
{
    ScmObj a = SCM_LIST_1(SCM_MAKE_INT(7)), b;
    b = scm_call(proc, a);
    return SCM_LIST_3(scm_intern("cb"), a, b);
}
static ScmObj fail(ScmObj obj) { scm_error_obj("cfail", "failed with", obj); }
static ScmObj nest(ScmObj str)
{
    ScmObj keep = SCM_LIST_1(str), v;
    v = scm_eval_c_string(SCM_STRING_STR(str));
    return SCM_LIST_2(v, keep);
}

static struct { const char *kind; ScmFuncType f; enum ScmFuncTypeCode type; } kinds[] = {
    { "c0", (ScmFuncType)c0, SCM_PROCEDURE_FIXED_0 },
    { "c1", (ScmFuncType)c1, SCM_PROCEDURE_FIXED_1 },
    { "c2", (ScmFuncType)c2, SCM_PROCEDURE_FIXED_2 },
    { "c3", (ScmFuncType)c3, SCM_PROCEDURE_FIXED_3 },
    { "c4", (ScmFuncType)c4, SCM_PROCEDURE_FIXED_4 },
    { "c5", (ScmFuncType)c5, SCM_PROCEDURE_FIXED_5 },
    { "v0", (ScmFuncType)v0, SCM_PROCEDURE_VARIADIC_0 },
    { "v1", (ScmFuncType)v1, SCM_PROCEDURE_VARIADIC_1 },
    { "v2", (ScmFuncType)v2, SCM_PROCEDURE_VARIADIC_2 },
    { "v3", (ScmFuncType)v3, SCM_PROCEDURE_VARIADIC_3 },
    { "tail1", (ScmFuncType)tail1, SCM_PROCEDURE_VARIADIC_TAILREC_1 },
    { "syn1", (ScmFuncType)syn1, SCM_SYNTAX_FIXED_1 },
    { "synv", (ScmFuncType)synv, SCM_SYNTAX_VARIADIC_TAILREC_0 },
    { "red", (ScmFuncType)red, SCM_REDUCTION_OPERATOR },
    { "callback", (ScmFuncType)callback, SCM_PROCEDURE_FIXED_1 },
    { "fail", (ScmFuncType)fail, SCM_PROCEDURE_FIXED_1 },
    { "nest", (ScmFuncType)nest, SCM_PROCEDURE_FIXED_1 },
    { "v4", (ScmFuncType)v4, SCM_PROCEDURE_VARIADIC_4 },
    { "v5", (ScmFuncType)v5, SCM_PROCEDURE_VARIADIC_5 },
    { "ft0", (ScmFuncType)ft0, SCM_PROCEDURE_FIXED_TAILREC_0 },
    { "vt0", (ScmFuncType)vt0, SCM_PROCEDURE_VARIADIC_TAILREC_0 },
    { "sf0", (ScmFuncType)sf0, SCM_SYNTAX_FIXED_0 },
    { "st0", (ScmFuncType)st0, SCM_SYNTAX_FIXED_TAILREC_0 },
    { "sv0", (ScmFuncType)sv0, SCM_SYNTAX_VARIADIC_0 },
    { "ft1", (ScmFuncType)ft1, SCM_PROCEDURE_FIXED_TAILREC_1 },
    { "vt1", (ScmFuncType)vt1, SCM_PROCEDURE_VARIADIC_TAILREC_1 },
    { "sf1", (ScmFuncType)sf1, SCM_SYNTAX_FIXED_1 },
    { "st1", (ScmFuncType)st1, SCM_SYNTAX_FIXED_TAILREC_1 },
    { "sv1", (ScmFuncType)sv1, SCM_SYNTAX_VARIADIC_1 },
    { "sw1", (ScmFuncType)sw1, SCM_SYNTAX_VARIADIC_TAILREC_1 },
    { "ft2", (ScmFuncType)ft2, SCM_PROCEDURE_FIXED_TAILREC_2 },
    { "vt2", (ScmFuncType)vt2, SCM_PROCEDURE_VARIADIC_TAILREC_2 },
    { "sf2", (ScmFuncType)sf2, SCM_SYNTAX_FIXED_2 },
    { "st2", (ScmFuncType)st2, SCM_SYNTAX_FIXED_TAILREC_2 },
    { "sv2", (ScmFuncType)sv2, SCM_SYNTAX_VARIADIC_2 },
    { "sw2", (ScmFuncType)sw2, SCM_SYNTAX_VARIADIC_TAILREC_2 },
    { "ft3", (ScmFuncType)ft3, SCM_PROCEDURE_FIXED_TAILREC_3 },
    { "vt3", (ScmFuncType)vt3, SCM_PROCEDURE_VARIADIC_TAILREC_3 },
    { "sf3", (ScmFuncType)sf3, SCM_SYNTAX_FIXED_3 },
    { "st3", (ScmFuncType)st3, SCM_SYNTAX_FIXED_TAILREC_3 },
    { "sv3", (ScmFuncType)sv3, SCM_SYNTAX_VARIADIC_3 },
    { "sw3", (ScmFuncType)sw3, SCM_SYNTAX_VARIADIC_TAILREC_3 },
    { "ft4", (ScmFuncType)ft4, SCM_PROCEDURE_FIXED_TAILREC_4 },
    { "vt4", (ScmFuncType)vt4, SCM_PROCEDURE_VARIADIC_TAILREC_4 },
    { "sf4", (ScmFuncType)sf4, SCM_SYNTAX_FIXED_4 },
    { "st4", (ScmFuncType)st4, SCM_SYNTAX_FIXED_TAILREC_4 },
    { "sv4", (ScmFuncType)sv4, SCM_SYNTAX_VARIADIC_4 },
    { "sw4", (ScmFuncType)sw4, SCM_SYNTAX_VARIADIC_TAILREC_4 },
    { "ft5", (ScmFuncType)ft5, SCM_PROCEDURE_FIXED_TAILREC_5 },
    { "vt5", (ScmFuncType)vt5, SCM_PROCEDURE_VARIADIC_TAILREC_5 },
    { "sf5", (ScmFuncType)sf5, SCM_SYNTAX_FIXED_5 },
    { "st5", (ScmFuncType)st5, SCM_SYNTAX_FIXED_TAILREC_5 },
    { "sv5", (ScmFuncType)sv5, SCM_SYNTAX_VARIADIC_5 },
    { "sw5", (ScmFuncType)sw5, SCM_SYNTAX_VARIADIC_TAILREC_5 },
    { NULL }
};

static void *show(void *p)
{
    scm_write(scm_out, *(ScmObj *)p);
    scm_port_newline(scm_out);
    return NULL;
}
static void *garbage(void *p)
{
    long n = *(long *)p;
    char buf[32];
    ScmObj o;
    while (n-- > 0) {
        o = SCM_CONS(SCM_NULL, SCM_NULL);
        if (n % 16 == 0) {
            sprintf(buf, "garbage %ld", n);
            o = SCM_CONS(SCM_MAKE_STRING_COPYING(buf, SCM_STRLEN_UNKNOWN), o);
        }
    }
    return NULL;
}
static void *do_call(void *p)
{
    ScmObj args = SCM_NULL;
    int i;
    for (i = nwords - 1; i >= 4; i--)
        args = SCM_CONS(slot[atoi(words[i])], args);
    slot[atoi(words[1])] = scm_call(slot[atoi(words[2])], args);
    return NULL;
}
static void *dbl_out(ScmObj o) { return (void *)(intptr_t)(SCM_INT_VALUE(o) * 2); }
static ScmObj dbl_in(void *p) { return SCM_MAKE_INT((intptr_t)p); }
static void *do_array(void *p)
{
    size_t len;
    int m = *(int *)p;
    void **a = scm_list2array(slot[atoi(words[2])], &len, m ? dbl_out : NULL);
    printf("%lu\n", (unsigned long)len);
    slot[atoi(words[1])] = scm_array2list(a, len, m ? dbl_in : NULL);
    free(a);
    return NULL;
}
static void *do_setv(void *p)
{
    SCM_SYMBOL_SET_VCELL(scm_intern(words[2]), slot[atoi(words[1])]);
    return NULL;
}
static void *do_getv(void *p)
{
    slot[atoi(words[1])] = scm_symbol_value(scm_intern(words[2]), SCM_INTERACTION_ENV);
    return NULL;
}
static void *do_bound(void *p)
{
    ScmObj r = scm_symbol_bound_to(scm_symbol_value(scm_intern(words[1]), SCM_INTERACTION_ENV));
    return show(&r);
}
static void *do_reg(void *p)
{
    int i;
    for (i = 0; kinds[i].kind; i++)
        if (!strcmp(kinds[i].kind, words[2]))
            scm_register_func(words[1], kinds[i].f, kinds[i].type);
    return NULL;
}
static void *do_alias(void *p)
{
    scm_define_alias(words[1], words[2]);
    return NULL;
}
static void *do_prov(void *p)
{
    scm_provide(SCM_MAKE_IMMUTABLE_STRING_COPYING(words[1], SCM_STRLEN_UNKNOWN));
    return NULL;
}
static void *do_provp(void *p)
{
    printf("%d\n", !!scm_providedp(SCM_CONST_STRING(words[1])));
    return NULL;
}
static void *do_qpath(void *p)
{
    ScmObj s = scm_p_load_path();
    return show(&s);
}
static void *ctx(void *p)
{
    printf("%d\n", !!scm_gc_protected_contextp());
    return p;
}
static void *do_frame(void *p)
{
    ScmObj v[8];
    char buf[32];
    long n = atol(words[1]);
    int i;
    for (i = 0; i < 8; i++) {
        sprintf(buf, "object %d", i);
        v[i] = i % 2 ? SCM_MAKE_STRING_COPYING(buf, SCM_STRLEN_UNKNOWN)
            : SCM_LIST_2(SCM_MAKE_INT(i), SCM_MAKE_STRING_COPYING(buf, SCM_STRLEN_UNKNOWN));
    }
    garbage(&n);
    for (i = 0; i < 8; i++)
        show(&v[i]);
    return NULL;
}
static void *do_make(void *p)
{
    int s = atoi(words[1]), i;
    const char *t = words[2];
    ScmObj o = SCM_FALSE, *vec;

    if (!strcmp(t, "int"))
        o = SCM_MAKE_INT(atol(words[3]));
    else if (!strcmp(t, "char"))
        o = SCM_MAKE_CHAR(atol(words[3]));
    else if (!strcmp(t, "str"))
        o = SCM_MAKE_STRING_COPYING(words[3], SCM_STRLEN_UNKNOWN);
    else if (!strcmp(t, "istr"))
        o = SCM_MAKE_IMMUTABLE_STRING(scm_strdup(words[3]), SCM_STRLEN_UNKNOWN);
    else if (!strcmp(t, "sym"))
        o = scm_intern(words[3]);
    else if (!strcmp(t, "bool"))
        o = SCM_MAKE_BOOL(atoi(words[3]));
    else if (!strcmp(t, "nil"))
        o = SCM_NULL;
    else if (!strcmp(t, "cons"))
        o = SCM_CONS(slot[atoi(words[3])], slot[atoi(words[4])]);
    else if (!strcmp(t, "list"))
        o = SCM_LIST_3(slot[atoi(words[3])], slot[atoi(words[4])], slot[atoi(words[5])]);
    else if (!strcmp(t, "vec")) {
        vec = scm_malloc(sizeof(ScmObj) * (nwords - 3));
        for (i = 3; i < nwords; i++)
            vec[i - 3] = slot[atoi(words[i])];
        o = SCM_MAKE_VECTOR(vec, nwords - 3);
    } else if (!strcmp(t, "err"))
        o = scm_make_error_obj(SCM_MAKE_STRING_COPYING("reason", SCM_STRLEN_UNKNOWN), SCM_LIST_1(slot[atoi(words[3])]));
    slot[s] = o;
    return NULL;
}
static void describe(ScmObj o)
{
    scm_int_t i;
    if (SCM_INTP(o)) printf("I%ld", (long)SCM_INT_VALUE(o));
    else if (SCM_CHARP(o)) printf("C%ld", (long)SCM_CHAR_VALUE(o));
    else if (SCM_STRINGP(o)) printf("S%ld:%s", (long)SCM_STRING_LEN(o), SCM_STRING_STR(o));
    else if (SCM_SYMBOLP(o)) printf("Y%s", SCM_SYMBOL_NAME(o));
    else if (SCM_NULLP(o)) printf("N");
    else if (SCM_EQ(o, SCM_TRUE)) printf("T");
    else if (SCM_EQ(o, SCM_FALSE)) printf("F");
    else if (SCM_CONSP(o)) {
        printf("(");
        for (; SCM_CONSP(o); o = SCM_CDR(o)) {
            describe(SCM_CAR(o));
            printf(" ");
        }
        describe(o);
        printf(")");
    } else if (SCM_VECTORP(o)) {
        printf("#(");
        for (i = 0; i < SCM_VECTOR_LEN(o); i++) {
            describe(SCM_VECTOR_VEC(o)[i]);
            printf(" ");
        }
        printf(")");
    } else printf("?");
}
static void *do_describe(void *p)
{
    describe(slot[atoi(words[1])]);
    printf("\n");
    return NULL;
}
static void *protp(void *p)
{
    printf("%d\n", !!scm_gc_protectedp(*(ScmObj *)p));
    return NULL;
}
static void *do_write(void *p)
{
    scm_write_ss(scm_out, *(ScmObj *)p);
    scm_port_newline(scm_out);
    scm_display(scm_out, SCM_LIST_2(*(ScmObj *)p, SCM_CONST_STRING("a b")));
    scm_port_newline(scm_out);
    scm_port_flush(scm_out);
    return NULL;
}
static void fatal(void) { printf("fatal callback\n"); fflush(stdout); }

int main(int argc, char **argv)
{
    static char line[65536], copy[65536];
    static char *keep[64];      /* argv of the interpreter */
    int i, one = 1, zero = 0;

    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = '\0';
        strcpy(copy, line);
        nwords = 0;
        for (char *p = strtok(copy, " "); p && nwords < 63; p = strtok(NULL, " "))
            words[nwords++] = p;
        words[nwords] = NULL;
        if (!nwords)
            continue;
        switch (line[0]) {
        case 'I': {
            ScmStorageConf conf = { atol(words[1]), atol(words[2]), atol(words[3]), atol(words[4]), atol(words[5]) };
            char **rest;
            for (i = 6; i <= nwords; i++)
                keep[i - 6] = words[i] ? strdup(words[i]) : NULL;
            rest = scm_initialize(conf.heap_size ? &conf : NULL, nwords > 6 ? (const char *const *)keep : NULL);
            printf("init %s\n", rest && rest[0] ? rest[0] : "-");
            break;
        }
        case 'F': scm_finalize(); printf("fin\n"); break;
        case 'E': slot[atoi(words[1])] = scm_eval_c_string(strchr(line + 2, ' ') + 1); break;
        case 'S': scm_call_with_gc_ready_stack(show, &slot[atoi(words[1])]); break;
        case 'P': scm_gc_protect_with_init(&slot[atoi(words[1])], SCM_FALSE); break;
        case 'U': scm_gc_unprotect(&slot[atoi(words[1])]); slot[atoi(words[1])] = SCM_FALSE; break;
        case 'G': { long n = atol(words[1]); scm_call_with_gc_ready_stack(garbage, &n); break; }
        case 'C': scm_call_with_gc_ready_stack(do_call, NULL); break;
        case 'L': scm_call_with_gc_ready_stack(do_array, &zero); break;
        case 'M': scm_call_with_gc_ready_stack(do_array, &one); break;
        case 'V': scm_call_with_gc_ready_stack(do_setv, NULL); break;
        case 'W': scm_call_with_gc_ready_stack(do_getv, NULL); break;
        case 'B': scm_call_with_gc_ready_stack(do_bound, NULL); break;
        case 'R': scm_call_with_gc_ready_stack(do_reg, NULL); break;
        case 'A': scm_call_with_gc_ready_stack(do_alias, NULL); break;
        case 'm': printf("%d\n", !!scm_require_module(words[1])); break;
        case 'u': printf("%d\n", !!scm_use(words[1])); break;
        case 'v': scm_call_with_gc_ready_stack(do_provp, NULL); break;
        case 'p': scm_call_with_gc_ready_stack(do_prov, NULL); break;
        case 'r': scm_require(words[1]); break;
        case 'l': scm_load(words[1]); break;
        case 'Q': scm_set_lib_path(words[1]); break;
        case 'q': scm_call_with_gc_ready_stack(do_qpath, NULL); break;
        case 'X': printf("%d\n", !!scm_gc_protected_contextp()); scm_call_with_gc_ready_stack(ctx, NULL); break;
        case 'K': scm_call_with_gc_ready_stack(do_frame, NULL); break;
        case 'N': scm_call_with_gc_ready_stack(do_make, NULL); break;
        case 'Y': scm_call_with_gc_ready_stack(do_describe, NULL); break;
        case 'O':
            printf("%d\n", !!scm_gc_protectedp(slot[atoi(words[1])]));
            scm_call_with_gc_ready_stack(protp, &slot[atoi(words[1])]);
            break;
        case 'w': scm_call_with_gc_ready_stack(do_write, &slot[atoi(words[1])]); break;
        case 'T': scm_set_fatal_error_callback(fatal); break;
        case 't': printf("%s\n", line + 2); break;
        default: return 2;
        }
    }
    fflush(stdout);
    return 0;
}
