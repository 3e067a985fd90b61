// Interface between the worlds for mutex / deconstruct / trackable and their
// instrumented adapter (adapter_x.cpp).
#ifndef VERIF_XAPI_HPP
#define VERIF_XAPI_HPP
#include "rt.hpp"
enum { NMX = 3, NBOX = 4, NDV = 4, ND_REF = 6, NDARG = 9, NTO = 5, NTC = 16, NTS = 2, NTI = 2, NTSP = 2 };
enum MaskBit { PB_MUTEX = 19, PB_DECON = 18, PB_TRACK = 20 };
enum XExc { XX_NONE = 0, XX_CTOR, XX_POST, XX_BADALLOC, XX_USER, XX_OTHER };
// ---- mutex ------------------------------------------------------------------
enum MxEv { MX_LOCK, MX_LOCKED, MX_TRY, MX_TRIED, MX_REL, MX_RELEASED, MX_CRIT, MX_BOX, MX_DLOCK, MX_DLOCKED, MX_DTRY, MX_DTRIED, MX_DREL, MX_DRELEASED };
enum MxKind { M_RAW, M_TRY, M_GUARD, M_UTRY, M_STDLOCK, M_NEST, M_NESTTRY, M_PUB, M_CONS, M_DUMMY, M_DEFER, M_LOCAL, M_RETRY, M_SPACE, M_KINDS };
void h_mx(int ev, int m, int ok);
void mx_setup(); void mx_reset(); void mx_op(int kind, int m, int m2, int n, int order, int thr);
// ---- deconstruct --------------------------------------------------------------
enum DKind { DK_PLAIN, DK_SHARED, DK_LEGACY, DK_PREONLY, DK_NOPRE, DK_CONST, DK_PRIVATE, DK_ALIGN, DK_FWD, DK_MAKE_KINDS, DK_PTR = DK_MAKE_KINDS, DK_PTR_DEL, DK_PTR_NULL, DK_PTR_PLAIN, DK_PTR_PRE, DK_PTR_POST, DK_KINDS };
int  h_d_ctor(const void* self, int n, const int* a);       // >=0: id; -1: throw
void h_d_dtor(int id, bool ok);
int  h_d_post(int id, const void* spget, const void* raw, int n, const int* a, bool extra_ok);  // 0 ok, 1 throw, 2 connect a slot first, 3 both
void h_d_post_ok(int id);
void h_d_pre(int id, const void* raw, bool ok);
void h_d_deleter(int id);
void h_d_slot(int id, bool ok); void h_d_slot_leave(int id);
bool h_d_bad(const char*);
void d_setup(); void d_reset();
int  d_make(int var, int kind, int mode, int n, const int* a, int pn, const int* pa, int t, bool* null_ok);
int  d_post(int var, int pn, const int* pa, int t, bool* same);
bool d_has_inv(int var); void d_drop_inv(int var);
bool d_has_ref(int var, int r); int d_copy(int var, int from, int to); int d_drop(int var, int r);
bool d_touch(int var, int r, int t); int d_weak(int var, int t, int* got); int d_signal(); void d_bind(int var, const void* core);
// ---- trackable ----------------------------------------------------------------
enum TKind { TK_PTR, TK_REF, TK_TWO, TK_NESTED, TK_VISIT, TK_CONST, TK_DERIVED, TK_SIGNAL, TK_NULL, TK_SLOTCTOR, TK_MIXED, TK_EXT, TK_REFFN, TK_SIGREF, TK_KINDS };
void h_t_slot(int conn, int inv, bool ok);
void h_t_dtor(int o);
void t_setup(); void t_reset();
int t_new(int o, int der); int t_del(int o); int t_copy(int dst, int src); int t_assign(int dst, int src); bool t_exists(int o);
int t_connect(int c, int s, int kind, int o1, int o2, int sp); int t_disc(int c); int t_invoke(int s, int inv); int t_connected(int c, int* out); int t_num(int s, int* n, int* e); int t_disc_all(int s);
int t_inner_del(int i); bool t_inner_exists(int i); int t_inner_new(int i); int t_sp_drop(int p); bool t_sp_exists(int p); int t_sig_del(int s); bool t_sig_exists(int s);
int t_slot_make(int k, int c, int kind, int o1, int o2, int sp); int t_slot_connect(int k, int c, int s); int t_slot_expired(int k, int* out); int t_slot_drop(int k);
#endif
