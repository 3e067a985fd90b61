// Instrumented adapter for signals2::mutex, deconstruct and trackable.
#include "xapi.hpp"
#include <boost/signals2.hpp>
#include <boost/signals2/deconstruct.hpp>
#include <boost/signals2/deconstruct_ptr.hpp>
#include <boost/signals2/dummy_mutex.hpp>
#include <boost/signals2/mutex.hpp>
#include <boost/signals2/trackable.hpp>
#include <boost/bind/bind.hpp>
#include <boost/make_shared.hpp>
#include <boost/enable_shared_from_this.hpp>
#include <boost/visit_each.hpp>
#include <mutex>
#include <memory>
#include <functional>
using namespace boost::signals2;

struct AV { int v[9]; const int* p() const { return v; } };
struct XUser {}; struct XCtor {}; struct XPost {};
static int xclassify() {
  try { throw; }
  catch(const XUser&) { return XX_USER; } catch(const XCtor&) { return XX_CTOR; } catch(const XPost&) { return XX_POST; }
  catch(const std::bad_alloc&) { return XX_BADALLOC; } catch(...) { return XX_OTHER; }
}

// =============================== mutex ===========================================
static boost::signals2::mutex* M[NMX]; struct MData { long v, w; }; static MData* D[NMX];
struct MBoxes { int flag[NBOX]; }; static MBoxes* FL; struct MBox { long a, b; }; static MBox* BX[NBOX];
static dummy_mutex* DM;
void mx_setup() { for(int i = 0; i < NMX; i++) { M[i] = new boost::signals2::mutex; D[i] = new MData(); } FL = new MBoxes(); for(int i = 0; i < NBOX; i++) { BX[i] = new MBox(); BX[i]->a = BX[i]->b = 0; } DM = new dummy_mutex; }
void mx_reset() { for(int i = 0; i < NMX; i++) { delete M[i]; delete D[i]; M[i] = 0; } delete FL; for(int i = 0; i < NBOX; i++) delete BX[i]; delete DM; }
struct Spy {
  int i; Spy(int x) : i(x) {}
  void lock() { h_mx(MX_LOCK, i, 0); M[i]->lock(); h_mx(MX_LOCKED, i, 1); }
  bool try_lock() { h_mx(MX_TRY, i, 0); bool r = M[i]->try_lock(); h_mx(MX_TRIED, i, r); return r; }
  void unlock() { h_mx(MX_REL, i, 0); M[i]->unlock(); h_mx(MX_RELEASED, i, 0); }
};
struct DSpy {
  void lock() { h_mx(MX_DLOCK, 0, 0); DM->lock(); h_mx(MX_DLOCKED, 0, 1); }
  bool try_lock() { h_mx(MX_DTRY, 0, 0); bool r = DM->try_lock(); h_mx(MX_DTRIED, 0, r); return r; }
  void unlock() { h_mx(MX_DREL, 0, 0); DM->unlock(); h_mx(MX_DRELEASED, 0, 0); }
};
static void crit(int i, int n) { MData* d = D[i]; long v = d->v; bool ok = d->w == v; for(int k = 0; k < n; k++) { d->v = ++v; rt::point(rt::USER); if(d->v != v) ok = false; d->w = v; } if(d->v != v || d->w != v) ok = false; h_mx(MX_CRIT, i, ok); }
void mx_op(int kind, int m, int m2, int n, int order, int thr) {
  Spy a(m), b(m2); int lo = m < m2 ? m : m2, hi = m < m2 ? m2 : m; Spy L(lo), H(hi);
  try {
    switch(kind) {
      case M_RAW: a.lock(); crit(m, n); a.unlock(); break;
      case M_TRY: if(a.try_lock()) { crit(m, n); a.unlock(); } break;
      case M_RETRY: for(int k = 0; k < 4; k++) { if(a.try_lock()) { crit(m, n); a.unlock(); break; } rt::point(rt::USER); } break;
      case M_GUARD: { std::lock_guard<Spy> g(a); crit(m, n); if(thr) throw XUser(); break; }
      case M_UTRY: { std::unique_lock<Spy> g(a, std::try_to_lock); if(g.owns_lock()) { crit(m, n); if(thr) throw XUser(); } break; }
      case M_STDLOCK: if(lo != hi) { std::lock(a, b); crit(m, n); crit(m2, n); if(order) { a.unlock(); b.unlock(); } else { b.unlock(); crit(m, 1); a.unlock(); } } break;
      case M_NEST: { std::lock_guard<Spy> g(L); crit(lo, n); if(lo != hi) { std::lock_guard<Spy> g2(H); crit(hi, n); if(thr) throw XUser(); } break; }
      case M_NESTTRY: { std::lock_guard<Spy> g(H); crit(hi, n); if(lo != hi && L.try_lock()) { crit(lo, n); L.unlock(); } break; }
      case M_PUB: { BX[n % NBOX]->a = 7; BX[n % NBOX]->b = 11; a.lock(); FL->flag[n % NBOX] = 1; a.unlock(); break; }
      case M_CONS: { int f; if(order) { a.lock(); f = FL->flag[n % NBOX]; a.unlock(); } else { if(!a.try_lock()) break; f = FL->flag[n % NBOX]; a.unlock(); } if(f) h_mx(MX_BOX, m, BX[n % NBOX]->a == 7 && BX[n % NBOX]->b == 11); break; }
      case M_DUMMY: { DSpy d; d.lock(); bool t = d.try_lock(); for(int k = 0; k < n; k++) rt::point(rt::USER); if(t) d.unlock(); d.unlock(); break; }
      case M_DEFER: { std::unique_lock<Spy> g(a, std::defer_lock); g.lock(); crit(m, n); g.unlock(); if(order ? (g.lock(), true) : g.try_lock()) crit(m, 1); break; }
      case M_LOCAL: { std::unique_ptr<boost::signals2::mutex> x(new boost::signals2::mutex); x->lock(); rt::point(rt::USER); x->unlock(); if(!x->try_lock()) h_mx(MX_CRIT, m, 0); else x->unlock(); break; }
      case M_SPACE: for(int k = 0; k < n; k++) rt::point(rt::USER); break;
    }
  } catch(const XUser&) {}
}

// =============================== deconstruct =======================================
struct DCore {
  int id; unsigned magic; long touch[rt::MAXT]; const void* self;
  DCore(int n, const int* a) : magic(0xDEC0), self(this) { for(int i = 0; i < rt::MAXT; i++) touch[i] = 0; id = h_d_ctor(this, n, a); if(id < 0) throw XCtor(); }
  ~DCore() { long s = 0; for(int i = 0; i < rt::MAXT; i++) s += touch[i]; bool ok = magic == 0xDEC0 && s >= 0 && self == this; magic = 0xDEAD; h_d_dtor(id, ok); }
};
static signal<void()>* dsig;
struct DSlot { DCore* p; int id; DSlot(DCore* q) : p(q), id(q->id) {} void operator()() const { h_d_slot(id, p->magic == 0xDEC0 && p->id == id); rt::point(rt::USER); bool ok = p->magic == 0xDEC0; if(!ok) h_d_bad("an object was destroyed while its slot ran"); h_d_slot_leave(id); } };
template<class T> static void do_post(const boost::shared_ptr<T>& sp, DCore* p, const void* raw, int n, const int* a, bool extra = true) {
  int how = h_d_post(p->id, static_cast<const void*>(sp.get()), raw, n, a, extra && p->magic == 0xDEC0);
  if(how & 2) dsig->connect(signal<void()>::slot_type(DSlot(p)).track(boost::const_pointer_cast<typename boost::remove_const<T>::type>(sp)));
  rt::point(rt::USER);
  if(how & 1) throw XPost();
  h_d_post_ok(p->id);
}
namespace userns {
#define CTORS(X) \
  X() : DCore(0, 0) {} \
  X(int a) : DCore(1, AV{{a}}.p()) {} X(int a, int b) : DCore(2, AV{{a,b}}.p()) {} X(int a, int b, int c) : DCore(3, AV{{a,b,c}}.p()) {} \
  X(int a, int b, int c, int d) : DCore(4, AV{{a,b,c,d}}.p()) {} X(int a, int b, int c, int d, int e) : DCore(5, AV{{a,b,c,d,e}}.p()) {} \
  X(int a, int b, int c, int d, int e, int f) : DCore(6, AV{{a,b,c,d,e,f}}.p()) {} X(int a, int b, int c, int d, int e, int f, int g) : DCore(7, AV{{a,b,c,d,e,f,g}}.p()) {} \
  X(int a, int b, int c, int d, int e, int f, int g, int h) : DCore(8, AV{{a,b,c,d,e,f,g,h}}.p()) {} X(int a, int b, int c, int d, int e, int f, int g, int h, int i) : DCore(9, AV{{a,b,c,d,e,f,g,h,i}}.p()) {}
#define POSTS(X, EXTRA) \
  template<class T> void adl_postconstruct(const boost::shared_ptr<T>& s, X* p) { do_post(s, p, p, 0, 0, EXTRA); } \
  template<class T> void adl_postconstruct(const boost::shared_ptr<T>& s, X* p, int a) { do_post(s, p, p, 1, AV{{a}}.p(), EXTRA); } \
  template<class T> void adl_postconstruct(const boost::shared_ptr<T>& s, X* p, int a, int b) { do_post(s, p, p, 2, AV{{a,b}}.p(), EXTRA); } \
  template<class T> void adl_postconstruct(const boost::shared_ptr<T>& s, X* p, int a, int b, int c) { do_post(s, p, p, 3, AV{{a,b,c}}.p(), EXTRA); } \
  template<class T> void adl_postconstruct(const boost::shared_ptr<T>& s, X* p, int a, int b, int c, int d) { do_post(s, p, p, 4, AV{{a,b,c,d}}.p(), EXTRA); } \
  template<class T> void adl_postconstruct(const boost::shared_ptr<T>& s, X* p, int a, int b, int c, int d, int e) { do_post(s, p, p, 5, AV{{a,b,c,d,e}}.p(), EXTRA); } \
  template<class T> void adl_postconstruct(const boost::shared_ptr<T>& s, X* p, int a, int b, int c, int d, int e, int f) { do_post(s, p, p, 6, AV{{a,b,c,d,e,f}}.p(), EXTRA); } \
  template<class T> void adl_postconstruct(const boost::shared_ptr<T>& s, X* p, int a, int b, int c, int d, int e, int f, int g) { do_post(s, p, p, 7, AV{{a,b,c,d,e,f,g}}.p(), EXTRA); } \
  template<class T> void adl_postconstruct(const boost::shared_ptr<T>& s, X* p, int a, int b, int c, int d, int e, int f, int g, int h) { do_post(s, p, p, 8, AV{{a,b,c,d,e,f,g,h}}.p(), EXTRA); } \
  template<class T> void adl_postconstruct(const boost::shared_ptr<T>& s, X* p, int a, int b, int c, int d, int e, int f, int g, int h, int i) { do_post(s, p, p, 9, AV{{a,b,c,d,e,f,g,h,i}}.p(), EXTRA); }
#define PRE(X) void adl_predestruct(X* p) { h_d_pre(p->id, p, p->magic == 0xDEC0); rt::point(rt::USER); }
struct DPlain : DCore { CTORS(DPlain) };
POSTS(DPlain, true) PRE(DPlain)
struct DShared : DCore, boost::enable_shared_from_this<DShared> { CTORS(DShared) bool sft(const void* sp) { try { return shared_from_this().get() == sp; } catch(...) { return false; } } };
POSTS(DShared, p->sft(s.get())) PRE(DShared)
struct DNoPre : DCore { CTORS(DNoPre) };
POSTS(DNoPre, true)
struct Pad { virtual ~Pad() {} long x; };
class DPrivate : public Pad, public DCore { friend class boost::signals2::deconstruct_access; CTORS(DPrivate) };
POSTS(DPrivate, true) PRE(DPrivate)
struct DAlign : DCore { CTORS(DAlign) alignas(16) char v[16]; };
POSTS(DAlign, reinterpret_cast<uintptr_t>(p->v) % 16 == 0) PRE(DAlign)
struct MoveOnly { int* tag; MoveOnly(int* t) : tag(t) {} MoveOnly(MoveOnly&& o) : tag(o.tag) { o.tag = 0; } MoveOnly(const MoveOnly&) = delete; };
struct DFwd : DCore {
#if !defined(BOOST_NO_CXX11_VARIADIC_TEMPLATES)
  DFwd(int& lv, MoveOnly&& m, const int& c) : DCore(1, AV{{c}}.p()) { MoveOnly t(std::move(m)); if(t.tag != &lv) h_d_bad("constructor arguments not forwarded perfectly"); lv = 77; }
#else
  DFwd(const boost::reference_wrapper<int>& lv, const int& c) : DCore(1, AV{{c}}.p()) { lv.get() = 77; }
#endif
};
template<class T> void adl_postconstruct(const boost::shared_ptr<T>& s, DFwd* p) { do_post(s, p, p, 0, 0); }
#if !defined(BOOST_NO_CXX11_VARIADIC_TEMPLATES)
template<class T> void adl_postconstruct(const boost::shared_ptr<T>& s, DFwd* p, int& r, MoveOnly&& m) { MoveOnly t(std::move(m)); if(t.tag != &r) h_d_bad("postconstructor arguments not forwarded perfectly"); r = 78; do_post(s, p, p, 0, 0); }
#endif
PRE(DFwd)
}
struct DLegacy : userns::Pad, DCore, postconstructible, predestructible { CTORS(DLegacy)
  void postconstruct() { int how = h_d_post(id, this->self, self, 0, 0, magic == 0xDEC0); rt::point(rt::USER); if(how & 1) throw XPost(); h_d_post_ok(id); }
  void predestruct() { h_d_pre(id, self, magic == 0xDEC0); rt::point(rt::USER); } };
struct DPreOnly : DCore, predestructible { CTORS(DPreOnly) void predestruct() { h_d_pre(id, self, magic == 0xDEC0); rt::point(rt::USER); } };
struct DPostOnly : DCore, postconstructible { CTORS(DPostOnly) void postconstruct() { int how = h_d_post(id, this->self, self, 0, 0, magic == 0xDEC0); rt::point(rt::USER); if(how & 1) throw XPost(); h_d_post_ok(id); } };
struct DBare : DCore { CTORS(DBare) };
struct CustomDel { int id; template<class T> void operator()(T* p) const { if(!p) { h_d_deleter(-1); return; } h_d_deleter(p->id); delete p; } };

struct InvBase { virtual ~InvBase() {} virtual int post(int n, const int* a, boost::shared_ptr<const void>& out) = 0; };
#define APPLY(R, F, A, n) switch(n) { case 0: R F(); break; case 1: R F(A[0]); break; case 2: R F(A[0],A[1]); break; case 3: R F(A[0],A[1],A[2]); break; case 4: R F(A[0],A[1],A[2],A[3]); break; case 5: R F(A[0],A[1],A[2],A[3],A[4]); break; \
  case 6: R F(A[0],A[1],A[2],A[3],A[4],A[5]); break; case 7: R F(A[0],A[1],A[2],A[3],A[4],A[5],A[6]); break; case 8: R F(A[0],A[1],A[2],A[3],A[4],A[5],A[6],A[7]); break; default: R F(A[0],A[1],A[2],A[3],A[4],A[5],A[6],A[7],A[8]); }
template<class T, bool PARGS> struct PostCall { static void go(const postconstructor_invoker<T>& i, int n, const int* a, boost::shared_ptr<T>& r) { APPLY(r =, i.postconstruct, a, n) } };
template<class T> struct PostCall<T, false> { static void go(const postconstructor_invoker<T>& i, int, const int*, boost::shared_ptr<T>& r) { r = i.postconstruct(); } };
template<class T, bool PARGS> struct Inv : InvBase { postconstructor_invoker<T> i; Inv(const postconstructor_invoker<T>& x) : i(x) {}
  int post(int n, const int* a, boost::shared_ptr<const void>& out) { try { boost::shared_ptr<T> r; if(n < 0) { r = i; } else PostCall<T, PARGS>::go(i, n, a, r); out = r; return XX_NONE; } catch(...) { return xclassify(); } } };
struct DVar { InvBase* inv; boost::shared_ptr<const void> ref[ND_REF]; boost::weak_ptr<const void> wk; DCore* core; rt::HB hb; bool haswk; };
static DVar DV[NDV];
template<class T> static postconstructor_invoker<T> mk(int n, const int* a) {
  switch(n) { case 0: return deconstruct<T>(); case 1: return deconstruct<T>(a[0]); case 2: return deconstruct<T>(a[0],a[1]); case 3: return deconstruct<T>(a[0],a[1],a[2]); case 4: return deconstruct<T>(a[0],a[1],a[2],a[3]); case 5: return deconstruct<T>(a[0],a[1],a[2],a[3],a[4]);
    case 6: return deconstruct<T>(a[0],a[1],a[2],a[3],a[4],a[5]); case 7: return deconstruct<T>(a[0],a[1],a[2],a[3],a[4],a[5],a[6]); case 8: return deconstruct<T>(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]); default: return deconstruct<T>(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8]); } }
struct MkFwd { static postconstructor_invoker<userns::DFwd> go(int c) { int lv = 1;
#if !defined(BOOST_NO_CXX11_VARIADIC_TEMPLATES)
    userns::MoveOnly m(&lv); postconstructor_invoker<userns::DFwd> r(deconstruct<userns::DFwd>(lv, std::move(m), c)); if(lv != 77 || m.tag) h_d_bad("constructor arguments not forwarded perfectly"); return r;
#else
    postconstructor_invoker<userns::DFwd> r(deconstruct<userns::DFwd>(boost::ref(lv), c)); if(lv != 77) h_d_bad("constructor arguments not forwarded"); return r;
#endif
  } };
static void set_ref(int var, int t, const boost::shared_ptr<const void>& sp) {
  rt::NoPreempt np; rt::Harness hh; DVar& v = DV[var]; v.ref[0] = sp; if(t) v.ref[t] = sp; v.wk = sp; v.haswk = true; rt::hb_release(v.hb); }
template<class T, bool PARGS> static int finish(int var, int mode, const postconstructor_invoker<T>& i, int pn, const int* pa, int t) {
  if(mode == 3) return XX_NONE;
  if(mode == 2) { rt::NoPreempt np; void* p = rt::raw_alloc(sizeof(Inv<T, PARGS>)); DV[var].inv = new(p) Inv<T, PARGS>(i); rt::hb_release(DV[var].hb); return XX_NONE; }
  boost::shared_ptr<T> r; if(mode == 0) r = i; else PostCall<T, PARGS>::go(i, pn, pa, r);
  set_ref(var, t, r); return XX_NONE;
}
template<class T> static int direct(int var, boost::shared_ptr<T> r, int t) { set_ref(var, t, r); return XX_NONE; }
int d_make(int var, int kind, int mode, int n, const int* a, int pn, const int* pa, int t, bool* null_ok) {
  *null_ok = true;
  try {
    switch(kind) {
      case DK_PLAIN: return finish<userns::DPlain, true>(var, mode, mk<userns::DPlain>(n, a), pn, pa, t);
      case DK_SHARED: return finish<userns::DShared, true>(var, mode, mk<userns::DShared>(n, a), pn, pa, t);
      case DK_LEGACY: return finish<DLegacy, false>(var, mode, mk<DLegacy>(n, a), 0, 0, t);
      case DK_PREONLY: return finish<DPreOnly, false>(var, mode, mk<DPreOnly>(n, a), 0, 0, t);
      case DK_NOPRE: return finish<userns::DNoPre, true>(var, mode, mk<userns::DNoPre>(n, a), pn, pa, t);
      case DK_CONST: return finish<const userns::DPlain, true>(var, mode, mk<const userns::DPlain>(n, a), pn, pa, t);
      case DK_PRIVATE: return finish<userns::DPrivate, true>(var, mode, mk<userns::DPrivate>(n, a), pn, pa, t);
      case DK_ALIGN: return finish<userns::DAlign, true>(var, mode, mk<userns::DAlign>(n, a), pn, pa, t);
      case DK_FWD: {
#if !defined(BOOST_NO_CXX11_VARIADIC_TEMPLATES)
        if(mode == 1) { postconstructor_invoker<userns::DFwd> i(MkFwd::go(a[0])); int lv = 1; userns::MoveOnly m(&lv); boost::shared_ptr<userns::DFwd> r = i.postconstruct(lv, std::move(m)); if(lv != 78 || m.tag) h_d_bad("postconstructor arguments not forwarded perfectly"); return direct(var, r, t); }
#endif
        return finish<userns::DFwd, false>(var, mode == 1 ? 0 : mode, MkFwd::go(a[0]), 0, 0, t); }
      case DK_PTR: { DLegacy* p = new DLegacy(); return direct(var, deconstruct_ptr(p), t); }
      case DK_PTR_DEL: { CustomDel d; return direct(var, deconstruct_ptr(new DLegacy(), d), t); }
      case DK_PTR_NULL: { boost::shared_ptr<DLegacy> r = n & 1 ? deconstruct_ptr(static_cast<DLegacy*>(0)) : deconstruct_ptr(static_cast<DLegacy*>(0), CustomDel()); *null_ok = r.get() == 0; return XX_NONE; }
      case DK_PTR_PLAIN: return direct(var, deconstruct_ptr(new DBare()), t);
      case DK_PTR_PRE: return direct(var, deconstruct_ptr(new DPreOnly()), t);
      case DK_PTR_POST: return direct(var, deconstruct_ptr(new DPostOnly()), t);
    }
  } catch(...) { return xclassify(); }
  return XX_OTHER;
}
int d_post(int var, int pn, const int* pa, int t, bool* same) { DVar& v = DV[var]; boost::shared_ptr<const void> r; { rt::NoPreempt np; rt::hb_acquire(v.hb); } int e = v.inv->post(pn, pa, r); *same = true; if(e == XX_NONE) { if(!r) *same = false; else set_ref(var, t, r); } return e; }
bool d_has_inv(int var) { return DV[var].inv != 0; }
void d_drop_inv(int var) { InvBase* i = DV[var].inv; DV[var].inv = 0; if(i) { rt::hb_acquire(DV[var].hb); i->~InvBase(); rt::raw_free(i); } }
bool d_has_ref(int var, int r) { return DV[var].ref[r].get() != 0; }
int d_copy(int var, int from, int to) { DVar& v = DV[var]; boost::shared_ptr<const void> old; { rt::NoPreempt np; rt::hb_acquire(v.hb); old.swap(v.ref[to]); v.ref[to] = v.ref[from]; } old.reset(); return 0; }
int d_drop(int var, int r) { boost::shared_ptr<const void> old; { rt::NoPreempt np; rt::hb_acquire(DV[var].hb); old.swap(DV[var].ref[r]); } try { old.reset(); return XX_NONE; } catch(...) { return xclassify(); } }
void d_bind(int var, const void* core) { DV[var].core = static_cast<DCore*>(const_cast<void*>(core)); }
bool d_touch(int var, int r, int t) { DCore* c = DV[var].core; (void)r; c->touch[t]++; return c->magic == 0xDEC0 && c->self == c; }
int d_weak(int var, int t, int* got) { boost::weak_ptr<const void> w; DCore* c; { rt::NoPreempt np; rt::hb_acquire(DV[var].hb); w = DV[var].wk; c = DV[var].core; } boost::shared_ptr<const void> s = w.lock(); *got = s ? 1 : 0; if(s) { c->touch[t]++; if(c->magic != 0xDEC0) *got = 2; rt::point(rt::USER); } try { s.reset(); } catch(...) { return xclassify(); } return XX_NONE; }
int d_signal() { try { (*dsig)(); return XX_NONE; } catch(...) { return xclassify(); } }
void d_setup() { dsig = new signal<void()>(); for(int i = 0; i < NDV; i++) { DV[i].inv = 0; DV[i].core = 0; DV[i].haswk = false; rt::hb_clear(DV[i].hb); } }
void d_reset() { for(int i = 0; i < NDV; i++) { d_drop_inv(i); for(int r = 0; r < ND_REF; r++) DV[i].ref[r].reset(); DV[i].wk.reset(); } delete dsig; dsig = 0; }

// =============================== trackable ==========================================
struct TObj : trackable {
  int id; unsigned magic;
  TObj(int i) : id(i), magic(0x7AC) {}
  TObj(const TObj& o, int i) : trackable(o), id(i), magic(0x7AC) {}
  TObj& operator=(const TObj& o) { trackable::operator=(o); return *this; }
  virtual ~TObj() { magic = 0xDEAD; h_t_dtor(id); }
  void f(int c, int inv) { h_t_slot(c, inv, magic == 0x7AC); }
  void fc(int c, int inv) const { h_t_slot(c, inv, magic == 0x7AC); }
  void operator()(int c, int inv) { f(c, inv); }
  TObj* self() { return this; }
};
struct TOther { virtual ~TOther() {} long x[3]; };
struct TDer : TOther, TObj { TDer(int i) : TObj(i) {} };
struct TFunc { typedef void result_type; TObj* o; int c; TFunc(TObj* p, int k) : o(p), c(k) {} void operator()(int inv) const { o->f(c, inv); } };
template<class V> inline void visit_each(V& v, const TFunc& f, int) { using boost::visit_each; visit_each(v, f.o, 0); }
static void free1(TObj* o, int c, int inv) { o->f(c, inv); }
static TObj* same(TObj* o) { return o; }
static void free2(TObj* a, TObj* b, int c, int inv) { bool ok = a->magic == 0x7AC && (!b || b->magic == 0x7AC); h_t_slot(c, inv, ok); }
static void freec(const TObj* a, int c, int inv) { a->fc(c, inv); }
typedef signal<void(int)> TSig;
static void fsig(TSig* s, int c, int inv) { h_t_slot(c, inv, s != 0); }
static void fsigc(const TSig* s, int c, int inv) { h_t_slot(c, inv, s != 0); }
static void fsign(TObj* a, TSig* n, int c, int inv) { h_t_slot(c, inv, a->magic == 0x7AC && !n); }
static void fsigr(const TSig& s, int c, int inv) { (void)s; h_t_slot(c, inv, true); }
static void fext(const connection& k, TObj* o, int c, int inv) { h_t_slot(c, inv, o->magic == 0x7AC && k.connected()); }
static TObj* TO[NTO]; static TSig* TS[NTS]; static TSig* TI[NTI]; static boost::shared_ptr<int> TP[NTSP]; static connection TC[NTC]; static TSig::slot_type* TSL[2];
void t_setup() { for(int i = 0; i < NTS; i++) TS[i] = new TSig(); for(int i = 0; i < NTI; i++) TI[i] = new TSig(); for(int i = 0; i < NTSP; i++) TP[i].reset(new int(i)); }
void t_reset() { for(int i = 0; i < 2; i++) t_slot_drop(i); for(int i = 0; i < NTC; i++) TC[i] = connection(); for(int i = 0; i < NTO; i++) t_del(i); for(int i = 0; i < NTS; i++) { delete TS[i]; TS[i] = 0; } for(int i = 0; i < NTI; i++) { delete TI[i]; TI[i] = 0; } for(int i = 0; i < NTSP; i++) TP[i].reset(); }
int t_new(int o, int der) { try { TO[o] = der ? new TDer(o) : new TObj(o); return 0; } catch(...) { return xclassify(); } }
int t_del(int o) { TObj* p = TO[o]; TO[o] = 0; delete p; return 0; }
int t_copy(int d, int s) { try { TO[d] = new TObj(*TO[s], d); return 0; } catch(...) { return xclassify(); } }
int t_assign(int d, int s) { try { *TO[d] = *TO[s]; return 0; } catch(...) { return xclassify(); } }
bool t_exists(int o) { return TO[o] != 0; } bool t_inner_exists(int i) { return TI[i] != 0; } bool t_sp_exists(int p) { return TP[p].get() != 0; } bool t_sig_exists(int s) { return TS[s] != 0; }
using boost::bind; using namespace boost::placeholders;
template<class F> static int with_slot(int c, int kind, int o1, int o2, int sp, F use) {
  TObj* a = o1 >= 0 ? TO[o1] : 0; TObj* b = o2 >= 0 ? TO[o2] : 0; typedef TSig::slot_type S;
  switch(kind) {
    case TK_PTR: use(S(bind(&TObj::f, a, c, _1))); break;
    case TK_REF: switch(c % 3) { case 0: use(S(bind(&TObj::f, boost::ref(*a), c, _1))); break; case 1: use(S(bind(&TObj::fc, boost::cref(*a), c, _1))); break; default: use(S(boost::bind<void>(boost::ref(*a), c, _1))); } break;
    case TK_TWO: use(S(bind(&free2, a, b, c, _1))); break;
    case TK_NESTED: if(c & 1) use(S(bind(&free1, bind(&same, bind(&TObj::self, boost::ref(*a))), c, _1))); else use(S(bind(&free1, bind(&TObj::self, a), c, _1))); break;
    case TK_VISIT: use(S(TFunc(a, c))); break;
    case TK_CONST: use(S(bind(&freec, static_cast<const TObj*>(a), c, _1))); break;
    case TK_DERIVED: { TDer* d = dynamic_cast<TDer*>(a); if(d) use(S(bind(&TDer::f, d, c, _1))); else use(S(bind(&TObj::f, a, c, _1))); break; }
    case TK_SIGNAL: if(c & 1) use(S(bind(&fsigc, static_cast<const TSig*>(TI[sp]), c, _1))); else use(S(bind(&fsig, TI[sp], c, _1))); break;
    case TK_SIGREF: if(c & 1) use(S(bind(&fsigr, boost::ref(*TI[sp]), c, _1))); else use(S(bind(&fsigr, boost::cref(*TI[sp]), c, _1))); break;
    case TK_NULL: if(c & 1) use(S(bind(&fsign, a, static_cast<TSig*>(0), c, _1))); else use(S(bind(&free2, a, static_cast<TObj*>(0), c, _1))); break;
    case TK_SLOTCTOR: use(S(&TObj::f, a, c, _1)); break;
    case TK_MIXED: { S s(bind(&TObj::f, a, c, _1)); s.track(TP[sp]); use(s); break; }
    case TK_REFFN: use(S(bind(TFunc(a, c), _1))); break;
    default: return XX_OTHER;
  }
  return 0;
}
struct UseConnect { int c, s; void operator()(const TSig::slot_type& x) const { connection k = TS[s]->connect(x); TC[c] = k; } };
struct UseKeep { int k; void operator()(const TSig::slot_type& x) const { TSig::slot_type* p = new TSig::slot_type(x); t_slot_drop(k); TSL[k] = p; } };
int t_connect(int c, int s, int kind, int o1, int o2, int sp) { try {
    if(kind == TK_EXT) { connection k = TS[s]->connect_extended(bind(&fext, _1, TO[o1], c, _2)); TC[c] = k; return 0; }
    UseConnect u = { c, s }; return with_slot(c, kind, o1, o2, sp, u);
  } catch(...) { return xclassify(); } }
int t_disc(int c) { try { TC[c].disconnect(); return 0; } catch(...) { return xclassify(); } }
int t_invoke(int s, int inv) { try { (*TS[s])(inv); return 0; } catch(...) { return xclassify(); } }
int t_connected(int c, int* o) { try { *o = TC[c].connected(); return 0; } catch(...) { return xclassify(); } }
int t_num(int s, int* n, int* e) { try { *n = (int)TS[s]->num_slots(); *e = TS[s]->empty(); return 0; } catch(...) { return xclassify(); } }
int t_disc_all(int s) { try { TS[s]->disconnect_all_slots(); return 0; } catch(...) { return xclassify(); } }
int t_inner_del(int i) { TSig* p = TI[i]; TI[i] = 0; delete p; return 0; }
int t_inner_new(int i) { try { TI[i] = new TSig(); return 0; } catch(...) { return xclassify(); } }
int t_sp_drop(int p) { TP[p].reset(); return 0; }
int t_sig_del(int s) { TSig* p = TS[s]; TS[s] = 0; delete p; return 0; }
int t_slot_make(int k, int c, int kind, int o1, int o2, int sp) { try { UseKeep u = { k }; return with_slot(c, kind, o1, o2, sp, u); } catch(...) { return xclassify(); } }
int t_slot_connect(int k, int c, int s) { try { connection x = TS[s]->connect(*TSL[k]); TC[c] = x; return 0; } catch(...) { return xclassify(); } }
int t_slot_expired(int k, int* o) { try { *o = TSL[k]->expired(); return 0; } catch(...) { return xclassify(); } }
int t_slot_drop(int k) { TSig::slot_type* p = TSL[k]; TSL[k] = 0; delete p; return 0; }
