// The only file that sees perl.h: the embedded interpreter and the SIM:: functions.
#include <string.h>
#include <stdint.h>
#include <EXTERN.h>
#include <perl.h>
#include <XSUB.h>
extern "C" {
int64_t dsim_pl_req(int op, int64_t a, int64_t b, int64_t c, const char *s, size_t n);
void boot_DynaLoader(pTHX_ CV *cv);
static PerlInterpreter *my_perl_;
enum { OP_CHOOSE = 100, OP_NOTE, OP_POINT, OP_NOW, OP_FAULTS, OP_KILLABLE, OP_VIOLATE, OP_PROBE, OP_ROLE, OP_FAULTBAR, OP_LIVE, OP_CALL };
const char *dsim_pl_answer(size_t *n);
XS(xs_choose) { dXSARGS; if (items != 2) croak("SIM::choose(sub,n)"); XSRETURN_IV(dsim_pl_req(OP_CHOOSE, SvIV(ST(0)), SvIV(ST(1)), 0, "", 0)); }
XS(xs_note) { dXSARGS; STRLEN n; const char *p = SvPV(ST(0), n); (void)items; dsim_pl_req(OP_NOTE, 0, 0, 0, p, n); XSRETURN_EMPTY; }
XS(xs_point) { dXSARGS; (void)items; dsim_pl_req(OP_POINT, 0, 0, 0, "", 0); XSRETURN_EMPTY; }
XS(xs_now) { dXSARGS; (void)items; XSRETURN_NV(dsim_pl_req(OP_NOW, 0, 0, 0, "", 0) * 1e-9); }
XS(xs_faults) { dXSARGS; (void)items; XSRETURN_IV(dsim_pl_req(OP_FAULTS, 0, 0, 0, "", 0)); }
XS(xs_live) { dXSARGS; (void)items; XSRETURN_IV(dsim_pl_req(OP_LIVE, 0, 0, 0, "", 0)); }
XS(xs_killable) { dXSARGS; (void)items; dsim_pl_req(OP_KILLABLE, SvIV(ST(0)), 0, 0, "", 0); XSRETURN_EMPTY; }
XS(xs_role) { dXSARGS; (void)items; dsim_pl_req(OP_ROLE, SvIV(ST(0)), 0, 0, "", 0); XSRETURN_EMPTY; }
XS(xs_faultbar) { dXSARGS; (void)items; dsim_pl_req(OP_FAULTBAR, SvIV(ST(0)), 0, 0, "", 0); XSRETURN_EMPTY; }
XS(xs_probe) { dXSARGS; STRLEN n; const char *p = SvPV(ST(0), n); (void)items; dsim_pl_req(OP_PROBE, 0, 0, 0, p, n); XSRETURN_EMPTY; }
XS(xs_violate) { dXSARGS; STRLEN n; const char *p = SvPV(ST(0), n); (void)items; dsim_pl_req(OP_VIOLATE, 0, 0, 0, p, n); XSRETURN_EMPTY; }
XS(xs_call) { dXSARGS; STRLEN n; const char *p = SvPV(ST(0), n); (void)items; dsim_pl_req(OP_CALL, 0, 0, 0, p, n); size_t m; const char *r = dsim_pl_answer(&m); ST(0) = sv_2mortal(newSVpvn(r, m)); XSRETURN(1); }
static void xs_init(pTHX) {
    newXS("DynaLoader::boot_DynaLoader", boot_DynaLoader, __FILE__);
    newXS("SIM::choose", xs_choose, __FILE__); newXS("SIM::note", xs_note, __FILE__); newXS("SIM::point", xs_point, __FILE__);
    newXS("SIM::now", xs_now, __FILE__); newXS("SIM::faults", xs_faults, __FILE__); newXS("SIM::killable", xs_killable, __FILE__);
    newXS("SIM::live", xs_live, __FILE__); newXS("SIM::call", xs_call, __FILE__);
    newXS("SIM::probe", xs_probe, __FILE__); newXS("SIM::violate", xs_violate, __FILE__); newXS("SIM::role", xs_role, __FILE__); newXS("SIM::faultbar", xs_faultbar, __FILE__);
}
int dsim_perl_init(const char *script) {
    static char a0[] = "", *argv[] = {a0, NULL, NULL}; static char *env0[] = {NULL}; int argc = 2; char **av = argv, **en = env0; static int once;
    argv[1] = strdup(script);
    if (!once++) PERL_SYS_INIT3(&argc, &av, &en);
    PerlInterpreter *my_perl = my_perl_ = perl_alloc();
    perl_construct(my_perl);
    PL_exit_flags |= PERL_EXIT_DESTRUCT_END;
    return perl_parse(my_perl, xs_init, 2, argv, NULL);
}
// runs main::fn as the whole program of this process; returns the process' exit status
int dsim_perl_main(const char *fn) {
    PerlInterpreter *my_perl = my_perl_;
    sv_setpv(get_sv("main::SIM_FN", GV_ADD), fn);
    int st = perl_run(my_perl);
    // scripts without objects that matter at exit spare the release of the whole interpreter
    if (SvTRUE(get_sv("main::QUICKEXIT", GV_ADD))) { PerlIO_flush((PerlIO *)NULL); return st; }
    return perl_destruct(my_perl);
}
}
