/* C functions of every type a client can register; each answers what it was called with. */
static ScmObj cf_sym(const char *n) { return scm_intern(n); }
static ScmObj cf_list(int n, ScmObj *v, ScmObj tail)
{
    while (n--)
        tail = scm_p_cons(v[n], tail);
    return tail;
}
static ScmObj cf_q(ScmObj x) { return scm_p_cons(cf_sym("quote"), scm_p_cons(x, SCM_NULL)); }
/* (<list> (quote name) here (quote a) ...), to be evaluated where the call is */
static ScmObj cf_exp(const char *name, int n, ScmObj *v)
{
    ScmObj r = SCM_NULL;
    while (n--)
        r = scm_p_cons(cf_q(v[n]), r);
    r = scm_p_cons(cf_sym("here"), r);
    r = scm_p_cons(cf_q(cf_sym(name)), r);
    return scm_p_cons(scm_eval(cf_sym("list"), SCM_INTERACTION_ENV), r);
}
static ScmObj cf_vals(const char *name, int n, ScmObj *v) { return scm_p_cons(cf_sym(name), cf_list(n, v, SCM_NULL)); }
static ScmObj cf_syn(const char *name, ScmObj env, int n, ScmObj *v)
{
    ScmObj here = scm_eval(cf_sym("here"), env);
    return scm_p_cons(cf_sym(name), scm_p_cons(here, cf_list(n, v, SCM_NULL)));
}
#define V(...) ScmObj v[] = { SCM_NULL, ##__VA_ARGS__ }
#define P0
#define P1 ScmObj a
#define P2 P1, ScmObj b
#define P3 P2, ScmObj c
#define P4 P3, ScmObj d
#define P5 P4, ScmObj e
#define N0
#define N1 a
#define N2 N1, b
#define N3 N2, c
#define N4 N3, d
#define N5 N4, e
#define FAMILY(n, K, Pc, Nc) \
static ScmObj cp##n(K(P##n)) { V(K(N##n)); return cf_vals("cp" #n, n, v + 1); } \
static ScmObj cv##n(Pc ScmObj r) { V(Nc r); return cf_vals("cv" #n, n + 1, v + 1); } \
static ScmObj ct##n(Pc ScmEvalState *s) { V(K(N##n)); (void)s; return cf_exp("ct" #n, n, v + 1); } \
static ScmObj cw##n(Pc ScmObj r, ScmEvalState *s) { V(Nc r); (void)s; return cf_exp("cw" #n, n + 1, v + 1); } \
static ScmObj sf##n(Pc ScmObj env) { V(K(N##n)); return cf_syn("sf" #n, env, n, v + 1); } \
static ScmObj sv##n(Pc ScmObj r, ScmObj env) { V(Nc r); return cf_syn("sv" #n, env, n + 1, v + 1); } \
static ScmObj st##n(Pc ScmEvalState *s) { V(K(N##n)); (void)s; return cf_exp("st" #n, n, v + 1); } \
static ScmObj sw##n(Pc ScmObj r, ScmEvalState *s) { V(Nc r); (void)s; return cf_exp("sw" #n, n + 1, v + 1); }
#define ID(...) __VA_ARGS__
#define C ,
FAMILY(0, ID, , )
FAMILY(1, ID, P1 C, N1 C)
FAMILY(2, ID, P2 C, N2 C)
FAMILY(3, ID, P3 C, N3 C)
FAMILY(4, ID, P4 C, N4 C)
FAMILY(5, ID, P5 C, N5 C)
#undef C
/* functions whose address is odd */
__asm__(".text\n.balign 16\n.byte 0xcc\ncf_odd2:\njmp cp2_even\n.balign 16\n.byte 0xcc\ncf_oddt:\njmp sw1_even\n"
        ".type cf_odd2, @function\n.type cf_oddt, @function\n");
extern ScmObj cf_odd2(ScmObj, ScmObj) __attribute__((visibility("hidden")));
extern ScmObj cf_oddt(ScmObj, ScmObj, ScmEvalState *) __attribute__((visibility("hidden")));
__attribute__((used, visibility("hidden"))) ScmObj cp2_even(ScmObj a, ScmObj b) { return cp2(a, b); }
__attribute__((used, visibility("hidden"))) ScmObj sw1_even(ScmObj a, ScmObj r, ScmEvalState *s) { return sw1(a, r, s); }
/* a reduction operator that tells how it was driven */
static ScmObj cf_reduce(ScmObj l, ScmObj r, enum ScmReductionState *st)
{
    ScmObj v[2];
    v[0] = l, v[1] = r;
    switch (*st) {
    case SCM_REDUCE_0: return cf_vals("r0", 0, v);
    case SCM_REDUCE_1: return cf_vals("r1", 1, v);
    case SCM_REDUCE_PARTWAY:
        if (SCM_EQ(r, cf_sym("stop"))) {
            *st = SCM_REDUCE_STOP;
            return cf_vals("rs", 1, v);
        }
        return cf_vals("rp", 2, v);
    case SCM_REDUCE_LAST: return cf_vals("rl", 2, v);
    default: return SCM_FALSE;
    }
}
/* (c-tail exp): exp in tail position; (c-bind var exp body): body with var bound */
static ScmObj cf_tail(ScmObj exp, ScmEvalState *s) { (void)s; return exp; }
static ScmObj cf_bind(ScmObj var, ScmObj exp, ScmObj body, ScmEvalState *s)
{
    ScmObj x = scm_eval(exp, s->env);
    s->env = scm_extend_environment(scm_p_cons(var, SCM_NULL), scm_p_cons(x, SCM_NULL), s->env);
    return body;
}
/* (c-asis obj): a tail-recursive function that answers a value */
static ScmObj cf_asis(ScmObj x, ScmEvalState *s) { s->ret_type = SCM_VALTYPE_AS_IS; return x; }
/* (c-eval exp): a procedure whose result is evaluated in tail position */
static ScmObj cf_peval(ScmObj x, ScmEvalState *s) { s->env = SCM_INTERACTION_ENV; return x; }
static ScmObj cf_call(ScmObj proc, ScmObj args) { return scm_call(proc, args); }

static const struct scm_func_registration_info cf_table[] = {
#define T(p, n, t) { #p #n, (ScmFuncType)p##n, t##_##n },
#define ROW(n) T(cp, n, SCM_PROCEDURE_FIXED) T(cv, n, SCM_PROCEDURE_VARIADIC) \
    T(ct, n, SCM_PROCEDURE_FIXED_TAILREC) T(cw, n, SCM_PROCEDURE_VARIADIC_TAILREC) \
    T(sf, n, SCM_SYNTAX_FIXED) T(sv, n, SCM_SYNTAX_VARIADIC) \
    T(st, n, SCM_SYNTAX_FIXED_TAILREC) T(sw, n, SCM_SYNTAX_VARIADIC_TAILREC)
    ROW(0) ROW(1) ROW(2) ROW(3) ROW(4) ROW(5)
    { NULL, NULL, SCM_FUNCTYPE_INVALID }
};
static void
capifunc_register(void)
{
    static char names[400][8];
    char *n;
    const struct scm_func_registration_info *i;
    int k = 0;

    scm_register_funcs(cf_table);
    for (i = cf_table; i->funcname; i++) {
        /* once more one by one (x...) and as an alias (y...) */
        n = names[k++];
        snprintf(n, 8, "x%s", i->funcname);
        scm_register_func(n, i->c_func, i->typecode);
        n = names[k++];
        snprintf(n, 8, "y%s", i->funcname);
        scm_define_alias(n, i->funcname);
    }
    scm_register_func("zcp2", (ScmFuncType)cf_odd2, SCM_PROCEDURE_FIXED_2);
    scm_register_func("zsw1", (ScmFuncType)cf_oddt, SCM_SYNTAX_VARIADIC_TAILREC_1);
    scm_register_func("c-reduce", (ScmFuncType)cf_reduce, SCM_REDUCTION_OPERATOR);
    scm_register_func("c-tail", (ScmFuncType)cf_tail, SCM_SYNTAX_FIXED_TAILREC_1);
    scm_register_func("c-bind", (ScmFuncType)cf_bind, SCM_SYNTAX_FIXED_TAILREC_3);
    scm_register_func("c-asis", (ScmFuncType)cf_asis, SCM_PROCEDURE_FIXED_TAILREC_1);
    scm_register_func("c-eval", (ScmFuncType)cf_peval, SCM_PROCEDURE_FIXED_TAILREC_1);
    scm_register_func("c-call", (ScmFuncType)cf_call, SCM_PROCEDURE_FIXED_2);
}
