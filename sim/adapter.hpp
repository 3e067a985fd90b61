// Instrumented adapter: user-side types (functors, combiners, tracked objects) and
// the calls into the library.
#ifndef VERIF_ADAPTER_HPP
#define VERIF_ADAPTER_HPP
#include "sigapi.hpp"
#include <boost/signals2.hpp>
#include <boost/signals2/shared_connection_block.hpp>
#include <boost/make_shared.hpp>
#include <memory>
#include <string>
#include <functional>

enum { NCHURN = 320 };
struct Obj { int id; unsigned magic; Obj(int i) : id(i), magic(0x0B1EC7) {} ~Obj(); };
struct Handles {
  boost::signals2::connection H[NCONN]; bool pub[NCONN];
  boost::signals2::connection hv[NH]; boost::signals2::scoped_connection* sv[NS];
  boost::signals2::shared_connection_block* B[NBLK];
  boost::shared_ptr<Obj> ob[NOBJ][NREF]; std::shared_ptr<Obj> os[NOBJ][NREF];
  boost::weak_ptr<Obj> wb[NOBJ]; std::weak_ptr<Obj> ws[NOBJ];
  boost::signals2::connection ch[NCHURN]; boost::shared_ptr<int> cho[NCHURN];
};
extern Handles HS;
int classify();
void throw_user(int id);    // UserEx, alone or together with a standard or library exception type
void throw_expired();
void publish(int c, const boost::signals2::connection& x);

// another library's smart pointer, copies of which may fail
struct ForeignShared { typedef Obj element_type; std::shared_ptr<Obj> p; unsigned magic; ForeignShared() : magic(0xF5) {}
  ForeignShared(const ForeignShared& o) : p(o.p), magic(o.magic) { h_foreign_use(magic == 0xF5); } ~ForeignShared() { magic = 0xDEAD; } };
struct ForeignWeak { typedef Obj element_type; std::weak_ptr<Obj> p; unsigned magic; ForeignWeak() : magic(0xF0) {}
  ForeignWeak(const ForeignShared& s) : p(s.p), magic(0xF0) {}
  ForeignWeak(const ForeignWeak& o) : p(o.p), magic(o.magic) { h_foreign_copy(magic == 0xF0); } ~ForeignWeak() { magic = 0xDEAD; }
  ForeignShared lock() const { h_foreign_use(magic == 0xF0); ForeignShared s; s.p = p.lock(); return s; }
  bool expired() const { h_foreign_use(magic == 0xF0); return p.expired(); } };
namespace boost { namespace signals2 {
  template<> struct weak_ptr_traits<ForeignWeak> { typedef ForeignShared shared_type; };
  template<> struct shared_ptr_traits<ForeignShared> { typedef ForeignWeak weak_type; };
} }

// an argument type that notices being moved from or clobbered
struct Payload {
  int v, ok;
  explicit Payload(int x) : v(x), ok(1) {}
  Payload(const Payload& o) : v(o.v), ok(o.ok) {}
  Payload(Payload&& o) : v(o.v), ok(o.ok) { o.ok = 0; o.v = -1; }
  Payload& operator=(const Payload& o) { v = o.v; ok = o.ok; return *this; }
};
// an argument passed by reference: a copy is noticed
struct RefArg { const void* self; int inv; explicit RefArg(int i) : self(this), inv(i) {} RefArg(const RefArg& o) : self(o.self), inv(o.inv) {} bool same(int i) const { return self == this && inv == i; } };
// The pre-variadic implementation forwards to extended slots by const reference only.
#ifdef BOOST_NO_CXX11_VARIADIC_TEMPLATES
typedef const RefArg& RefParam;
#else
typedef RefArg& RefParam;
#endif
template<class R> struct Ret { static R make(int v) { return v; } };
template<> struct Ret<void> { static void make(int) {} };
// a result type with a resource of its own, which notices being used after it was moved from
struct Res {
  int* p; Res() : p(h_box(-5)) {} explicit Res(int v) : p(h_box(v)) {} Res(const Res& o) : p(h_box(o.get())) {} Res(Res&& o) : p(o.p) { o.p = 0; }
  Res& operator=(const Res& o) { int v = o.get(); if(p) *p = v; else p = h_box(v); return *this; } Res& operator=(Res&& o) { int* q = o.p; o.p = p; p = q; return *this; }
  ~Res() { h_unbox(p); }
  int get() const { if(!p) { h_comb_bad("a result was used after it was moved from"); return -1; } return *p; } };
template<> struct Ret<Res> { static Res make(int v) { return Res(v); } };
template<> struct Ret<int&> { static int& make(int v) { return h_cell(v); } };

template<class R, int PAD> struct Fn {
  typedef R result_type;
  int conn, fid; unsigned magic; mutable int running; char pad[PAD];
  Fn(int c, int f) : conn(c), fid(f), magic(0xF00D), running(0) { if(conn != -9) h_fn_new(conn); }
  Fn(const Fn& o) : conn(o.conn), fid(o.fid), magic(o.magic), running(0) { if(conn != -9) h_fn_copy(conn); }
  ~Fn() { if(conn != -9) h_fn_dtor(conn, h_run(&running, 0)); magic = 0xDEAD; }
  Fn& operator=(const Fn&) = delete;
  bool operator==(const Fn& o) const { return fid == o.fid; }
  int enter(int inv, const Payload& p, const void* ext) const {
    int val = 0; h_run(&running, 1);
    int how = h_slot(conn, inv, p.v, p.ok == 1 && magic == 0xF00D, ext, &val);
    h_run(&running, -1);
    h_slot_leave(conn, how);
    if(how == 1) throw_user(val);
    if(how == 2) throw_expired();
    return val;
  }
  R operator()(int inv, Payload p) const { return Ret<R>::make(enter(inv, p, 0)); }
  R operator()(RefParam r, int inv, const Payload& p) const { Payload q(p); if(!r.same(inv)) q.ok = 0; return Ret<R>::make(enter(inv, q, 0)); }
  R operator()() const { int inv = h_root(); return Ret<R>::make(enter(inv, Payload(inv * 7 + 3), 0)); }   // no arguments to check
};
template<class R> struct FnX : Fn<R, 1> {
  FnX(int c, int f) : Fn<R, 1>(c, f) {}
  R operator()(const boost::signals2::connection& c, int inv, Payload p) const { return Ret<R>::make(this->enter(inv, p, &c)); }
  R operator()(const boost::signals2::connection& c, RefParam r, int inv, const Payload& p) const { Payload q(p); if(!r.same(inv)) q.ok = 0; return Ret<R>::make(this->enter(inv, q, &c)); }
  R operator()(const boost::signals2::connection& c) const { int inv = h_root(); return Ret<R>::make(this->enter(inv, Payload(inv * 7 + 3), &c)); }
};

// plain functions, one for each connection
template<class R, class S> struct FP;
template<class R> int fp_enter(int conn, int inv, const Payload& p) {
  int val = 0, how = h_slot(conn, inv, p.v, p.ok == 1, 0, &val);
  h_slot_leave(conn, how);
  if(how == 1) throw_user(val);
  if(how == 2) throw_expired();
  return val;
}
template<class R> struct FP<R, R(int, Payload)> { template<int I> static R f(int inv, Payload p) { return Ret<R>::make(fp_enter<R>(I, inv, p)); } };
template<class R> struct FP<R, R(RefParam, int, const Payload&)> { template<int I> static R f(RefParam r, int inv, const Payload& p) { Payload q(p); if(!r.same(inv)) q.ok = 0; return Ret<R>::make(fp_enter<R>(I, inv, q)); } };
template<class R> struct FP<R, R()> { template<int I> static R f() { int inv = h_root(); return Ret<R>::make(fp_enter<R>(I, inv, Payload(inv * 7 + 3))); } };
template<class R, class S, int I> struct FPtab { static S* get(int i) { return i == I ? static_cast<S*>(&FP<R, S>::template f<I>) : FPtab<R, S, I - 1>::get(i); } };
template<class R, class S> struct FPtab<R, S, -1> { static S* get(int) { return 0; } };
// an object the slot only refers to (boost::ref): the library must call this very object and never copy it
template<class R> struct FnR {
  typedef R result_type;
  int conn, fid;
  constexpr FnR() : conn(-9), fid(-9) {} explicit FnR(int f) : conn(-9), fid(f) {}
  FnR(const FnR& o) : conn(-9), fid(o.fid) {}
  bool operator==(const FnR& o) const { return fid == o.fid; }
  int enter(int inv, const Payload& p) { if(conn < 0) h_comb_bad("a slot connected by reference was copied"); return fp_enter<R>(conn, inv, p); }
  R operator()(int inv, Payload p) { return Ret<R>::make(enter(inv, p)); }
  R operator()(RefParam r, int inv, const Payload& p) { Payload q(p); if(!r.same(inv)) q.ok = 0; return Ret<R>::make(enter(inv, q)); }
  R operator()() { int inv = h_root(); return Ret<R>::make(enter(inv, Payload(inv * 7 + 3))); }
  static FnR* tab() { static FnR t[NCONN]; return t; }
  static FnR& at(int c, int f) { FnR& x = tab()[c]; x.conn = c; x.fid = f; return x; }
};

// a group type with a life of its own, copies of which may fail
struct GKey {
  int v; unsigned magic; explicit GKey(int x = 0) : v(x), magic(0x6E0) {}
  GKey(const GKey& o) : v(o.v), magic(o.magic) { h_grp_copy(magic == 0x6E0); }
  GKey& operator=(const GKey& o) { h_grp_copy(magic == 0x6E0 && o.magic == 0x6E0); v = o.v; return *this; }
  ~GKey() { magic = 0xDEAD; }
};
// bit 0: descending; bit 1: keys 2k and 2k+1 are equivalent, so they name the same group
struct GLess { int mode; GLess(int d = 0) : mode(d) {} bool less(int a, int b) const { if(mode & 2) { a /= 2; b /= 2; } return mode & 1 ? b < a : a < b; }
  bool operator()(int a, int b) const { h_cmp(); return less(a, b); }
  bool operator()(const GKey& a, const GKey& b) const { h_cmp(); h_grp_use(a.magic == 0x6E0 && b.magic == 0x6E0); return less(a.v, b.v); } };

// recording combiner
struct RecComb {
  typedef int result_type;
  int sid, ver, mode, n; unsigned magic; mutable int running;
  RecComb(int s = -1, int v = 0, int m = 0, int k = 0) : sid(s), ver(v), mode(m), n(k), magic(0xC0B1), running(0) {}
  RecComb(const RecComb& o) : sid(o.sid), ver(o.ver), mode(o.mode), n(o.n), magic(o.magic), running(0) { h_comb_copy(sid); }
  RecComb& operator=(const RecComb& o) { h_comb_assign(h_run(&running, 0)); sid = o.sid; ver = o.ver; mode = o.mode; n = o.n; magic = o.magic; return *this; }
  ~RecComb() { h_comb_dtor(sid, h_run(&running, 0)); magic = 0xDEAD; }
  template<class It> int one(It& f, bool& ok) const {
    h_deref_begin();
    int v = -1; ok = false;
    try {
      if(mode == CM_POSTINC) v = *f++; else v = *f;
      ok = true;
    }
    catch(const boost::signals2::expired_slot&) { h_deref_end(X_EXPIRED, 0); return -1; }
    catch(...) { int e = classify(); h_deref_end(e, 0); if(mode == CM_CATCH || mode == CM_RETRY) return -1; throw; }
    h_deref_end(0, v);
    return v;
  }
  template<class It> int operator()(It f, It l) const {
    struct Leave { const RecComb& c; bool normal; Leave(const RecComb& x) : c(x), normal(false) { h_run(&c.running, 1); } ~Leave() { h_run(&c.running, -1); h_comb_end(normal); } } lv(*this);
    int v0 = ver;
    h_comb_begin(sid, ver, mode, n, this);
    int last = -1, k = 0;
    h_comb_step(sid, 0);
    for(; !(f == l); ++k) {
      if(mode == CM_STOP && k >= n) break;
      bool ok = true;
      if(!(mode == CM_SKIP && (k & 1))) {
        int v = one(f, ok);
        if(!ok && mode == CM_RETRY) { h_retry(); v = one(f, ok); }
        if(ok) last = v;
        if(ok && mode == CM_DOUBLE) { It g(f); int w = *g; if(w != v) h_comb_bad("a second dereference gave another value"); if(*f != v) h_comb_bad("a repeated dereference gave another value"); }
        if(ok && mode == CM_COPYIT) { It g(f); h_adv(); ++g; f = g; continue; }
        if(mode == CM_POSTINC && ok) continue;
      }
      h_comb_step(sid, k + 1); h_adv();
      ++f;
    }
    h_comb_step(sid, 1000);
    if(magic != 0xC0B1 || ver != v0) h_comb_bad("the combiner object changed while it was running");
    lv.normal = true;
    return last;
  }
};

// a Lockable given as the Mutex template argument
struct SimMutex {
  SimMutex() { rt::mtx_init(this, false); }
  ~SimMutex() { rt::mtx_destroy(this); }
  void lock() { rt::mtx_lock(this); }
  bool try_lock() { return rt::mtx_trylock(this); }
  void unlock() { rt::mtx_unlock(this); }
private:
  char x; SimMutex(const SimMutex&); SimMutex& operator=(const SimMutex&);
};

template<class G> struct Grp { static G make(int g) { return g; } static short alt(int g) { return (short)g; } };   // alt: another type that converts to the group type
struct GConv { int g; operator GKey() const { return GKey(g); } };
template<> struct Grp<GKey> { static GKey make(int g) { return GKey(g); } static GConv alt(int g) { GConv c = { g }; return c; } };
template<> struct Grp<std::string> { static std::string make(int g) { char b[3] = {'g', char('0' + g), 0}; return std::string(b); } static const char* alt(int g) { static const char t[10][3] = {"g0","g1","g2","g3","g4","g5","g6","g7","g8","g9"}; return t[g]; } };

template<int N> struct Arity {};
inline void res_put(InvokeOut& o, int v) { o.has = 1; o.val = v; }
inline void res_put(InvokeOut& o, const Res& v) { o.has = 1; o.val = v.get(); }
inline void res_put(InvokeOut& o, const boost::optional<Res>& v) { o.has = v ? 1 : 0; if(v) o.val = v->get(); }
inline void res_put(InvokeOut& o, const boost::optional<int>& v) { o.has = v ? 1 : 0; if(v) o.val = *v; }
template<class S> void call_into(S& s, int inv, int pv, InvokeOut& o, boost::false_type, Arity<2>) { res_put(o, s(inv, Payload(pv))); }
template<class S> void call_into(S& s, int inv, int pv, InvokeOut& o, boost::true_type, Arity<2>) { s(inv, Payload(pv)); o.has = 2; }
template<class S, class V> void call_into(S& s, int inv, int pv, InvokeOut& o, V, Arity<3>) { RefArg r(inv); res_put(o, s(r, inv, Payload(pv))); }

template<class S, class V> void call_into(S& s, int, int, InvokeOut& o, V, Arity<0>) { s(); o.has = 2; }

template<class C> struct MakeComb { static C make(int, int, int, int) { return C(); } static int ver(const C&) { return -1; } static const bool rec = false; };
template<> struct MakeComb<RecComb> { static RecComb make(int s, int v, int m, int n) { return RecComb(s, v, m, n); } static int ver(const RecComb& c) { return c.ver; } static const bool rec = true; };
template<class C> struct MakeCmp { static C make(int) { return C(); } };
template<> struct MakeCmp<GLess> { static GLess make(int d) { return GLess(d); } };

template<class T> struct Adapter : SigApi {
  typedef typename T::signal_type S;
  typedef typename T::R R;
  typedef typename S::group_type G;
  typedef typename S::slot_type slot_type;
  typedef typename S::extended_slot_type ext_slot_type;
  typedef typename S::combiner_type C;
  S* var[NVAR]; slot_type* sl[NSLOT]; bool chain_ok;
  Adapter() { for(int i = 0; i < NVAR; ++i) var[i] = 0; for(int i = 0; i < NSLOT; ++i) sl[i] = 0; }
  void reset() { for(int i = 0; i < NSLOT; ++i) if(sl[i]) slot_drop(i); for(int i = 0; i < NVAR; ++i) if(var[i]) sig_destroy(i); common_reset(); }
  int sig_new(int v, int sid, int mode, int n, int desc) { try { var[v] = new S(MakeComb<C>::make(sid, 0, mode, n), MakeCmp<typename S::group_compare_type>::make(desc)); return X_NONE; } catch(...) { return classify(); } }
  int sig_destroy(int v) { try { S* p = var[v]; var[v] = 0; delete p; return X_NONE; } catch(...) { return classify(); } }
  int sig_move(int d, int s, int how) { try { if(how) { var[d] = new S(std::move(*var[s])); } else *var[d] = std::move(*var[s]); return X_NONE; } catch(...) { return classify(); } }
  int sig_swap(int a, int b, int how) { try { if(how) var[a]->swap(*var[b]); else { using std::swap; swap(*var[a], *var[b]); } return X_NONE; } catch(...) { return classify(); } }
  bool sig_exists(int v) { return var[v] != 0; }
  int sig_null(int v) { return var[v]->null(); }
  template<class SL> void add_tracking(SL& s, const ConnSpec& c) {
    for(int i = 0; i < c.nt; ++i) {
      int o = c.to[i];
      for(int rep = 0; rep <= c.tr[i]; ++rep) switch(c.tk[i]) {
        case 0: { boost::weak_ptr<Obj> w; { rt::NoPreempt np; w = HS.wb[o]; } s.track(w); break; }
        case 1: { std::weak_ptr<Obj> w; { rt::NoPreempt np; w = HS.ws[o]; } s.track_foreign(w); break; }
        case 2: if(var[o]) s.track(*var[o]); break;
        case 3: { boost::weak_ptr<Obj> w; { rt::NoPreempt np; w = HS.wb[o]; } slot_type t(Fn<R, 1>(-9, 0)); t.track(w); s.track(t); break; }
        case 4: { boost::shared_ptr<Obj> w; { rt::NoPreempt np; w = HS.wb[o].lock(); } if(w) s.track(w); else { boost::weak_ptr<Obj> x; { rt::NoPreempt np; x = HS.wb[o]; } s.track(x); } break; }
        case 5: { std::shared_ptr<Obj> w; { rt::NoPreempt np; w = HS.ws[o].lock(); } if(w) s.track_foreign(w); else { std::weak_ptr<Obj> x; { rt::NoPreempt np; x = HS.ws[o]; } s.track_foreign(x); } break; }
        case 6: { ForeignWeak w; { rt::NoPreempt np; w.p = HS.ws[o]; } s.track_foreign(w); break; }
      }
    }
  }
  boost::signals2::connection do_connect(S& g, const slot_type& s, const ConnSpec& c) {
    using namespace boost::signals2;
    connect_position p = c.front ? at_front : at_back;
    if(c.group < 0) return c.front || (c.id & 1) ? g.connect(s, p) : g.connect(s);
    return c.front || (c.id & 1) ? g.connect(Grp<G>::make(c.group), s, p) : g.connect(Grp<G>::make(c.group), s);
  }
  void chain_slot(const ConnSpec& c, S& g, boost::true_type) { slot_type s(*var[c.inner]); add_tracking(s, c); publish(c.id, do_connect(g, s, c)); }
  void chain_slot(const ConnSpec&, S&, boost::false_type) {}
  int connect(const ConnSpec& c) { try {
      S& g = *var[c.var];
      using namespace boost::signals2;
      if(c.ftype == 3) chain_slot(c, g, boost::integral_constant<bool, T::chain>());
      else if(c.ftype == 2) {
        ext_slot_type s(FnX<R>(c.id, c.fid)); add_tracking(s, c);
        connect_position p = c.front ? at_front : at_back;
        if(!c.front && !(c.id & 1)) publish(c.id, c.group < 0 ? g.connect_extended(s) : g.connect_extended(Grp<G>::make(c.group), s));
        else publish(c.id, c.group < 0 ? g.connect_extended(s, p) : g.connect_extended(Grp<G>::make(c.group), s, p));
      }
      else if(c.ftype == 4) {
        typename S::signature_type* fp = FPtab<R, typename S::signature_type, NCONN - 1>::get(c.id);
        if(c.boundmode == 1 && c.nt == 0) publish(c.id, c.group < 0 ? g.connect(fp, c.front ? at_front : at_back) : g.connect(Grp<G>::make(c.group), fp, c.front ? at_front : at_back));
        else { slot_type s(fp); add_tracking(s, c); publish(c.id, do_connect(g, s, c)); }
      }
      else if(c.ftype == 6) {
        FnR<R>& f = FnR<R>::at(c.id, c.fid);
        if(c.boundmode == 1 && c.nt == 0) publish(c.id, c.group < 0 ? g.connect(boost::ref(f), c.front ? at_front : at_back) : g.connect(Grp<G>::make(c.group), boost::ref(f), c.front ? at_front : at_back));
        else { slot_type s(boost::ref(f)); add_tracking(s, c); publish(c.id, do_connect(g, s, c)); }
      }
      else if(c.ftype == 5) {   // a slot of another type
        typedef boost::signals2::slot<typename S::signature_type, std::function<typename S::signature_type> > other;
        other o(std::function<typename S::signature_type>(Fn<R, 1>(c.id, c.fid))); add_tracking(o, c);
        if(c.boundmode == 1) { slot_type s(o); publish(c.id, do_connect(g, s, c)); } else publish(c.id, do_connect(g, o, c));
      }
      else if(c.ftype == 1) {
        if(c.boundmode == 1 && c.nt == 0) publish(c.id, c.group < 0 ? g.connect(Fn<R, 40>(c.id, c.fid), c.front ? at_front : at_back) : g.connect(Grp<G>::make(c.group), Fn<R, 40>(c.id, c.fid), c.front ? at_front : at_back));
        else { slot_type s(Fn<R, 40>(c.id, c.fid)); add_tracking(s, c); publish(c.id, do_connect(g, s, c)); }
      }
      else { slot_type s(Fn<R, 1>(c.id, c.fid)); add_tracking(s, c); publish(c.id, do_connect(g, s, c)); }
      return X_NONE;
    } catch(...) { return classify(); } }
  void invoke(int v, int inv, int pv, bool cst, InvokeOut& o) {
    S& g = *var[v];
    try { if(cst) { const S& cg = g; call_into(cg, inv, pv, o, boost::integral_constant<bool, boost::is_void<typename S::result_type>::value || T::vres>(), Arity<S::arity>()); }
          else call_into(g, inv, pv, o, boost::integral_constant<bool, boost::is_void<typename S::result_type>::value || T::vres>(), Arity<S::arity>()); }
    catch(const UserEx& e) { o.exc = X_USER; o.exid = e.id; }
    catch(...) { o.exc = classify(); }
  }
  int disc_group(int v, int g, int how) { try { if(how) var[v]->disconnect(Grp<G>::alt(g)); else var[v]->disconnect(Grp<G>::make(g)); return X_NONE; } catch(...) { return classify(); } }
  int disc_fn(int v, int ft, int fid, int how) { try {
      if(ft == 0) { Fn<R, 1> f(-9, fid); if(how) var[v]->disconnect(boost::ref(f)); else var[v]->disconnect(f); }
      else if(ft == 1) { Fn<R, 40> f(-9, fid); var[v]->disconnect(f); }
      else if(ft == 4) { if(how) var[v]->disconnect(FPtab<R, typename S::signature_type, NCONN - 1>::get(fid)); else { typename S::signature_type* const fp = FPtab<R, typename S::signature_type, NCONN - 1>::get(fid); var[v]->disconnect(fp); } }
      else if(ft == 6) { FnR<R> f(fid); if(how) var[v]->disconnect(boost::ref(f)); else var[v]->disconnect(f); }
      else { FnX<R> f(-9, fid); var[v]->disconnect(f); }
      return X_NONE; } catch(...) { return classify(); } }
  int disc_all(int v) { try { var[v]->disconnect_all_slots(); return X_NONE; } catch(...) { return classify(); } }
  int disc_chain(int v, int inner) { try { var[v]->disconnect(*var[inner]); return X_NONE; } catch(...) { return classify(); } }
  int num_slots(int v, int* o) { try { *o = (int)var[v]->num_slots(); return X_NONE; } catch(...) { return classify(); } }
  int empty(int v, int* o) { try { *o = var[v]->empty(); return X_NONE; } catch(...) { return classify(); } }
  int set_combiner(int v, int sid, int ver, int mode, int n) { try { C c = MakeComb<C>::make(sid, ver, mode, n); var[v]->set_combiner(c); return X_NONE; } catch(...) { return classify(); } }
  int get_combiner(int v, int* ver) { try { C c = var[v]->combiner(); *ver = MakeComb<C>::ver(c); return X_NONE; } catch(...) { return classify(); } }
  bool has_rec() { return MakeComb<C>::rec; }
  bool has_value() { return !MakeComb<C>::rec && !T::vres; }
  bool throws_no_slots() { return T::last; }
  bool descending() { return T::desc; }
  bool real_mutex() { return T::locks; }
  bool can_chain() { return T::chain; }
  int slot_make(int ix, const ConnSpec& c) { void* p = rt::raw_alloc(sizeof(slot_type)); slot_type* s = 0;
    try { s = new(p) slot_type(Fn<R, 1>(c.id, c.fid)); add_tracking(*s, c); sl[ix] = s; return X_NONE; }
    catch(...) { int r = classify(); if(s) s->~slot_type(); rt::raw_free(p); return r; } }
  void slot_call(int ix, int inv, int pv, InvokeOut& o) { try { slot_type s(*sl[ix]); const slot_type& cs = s; if(pv & 1) call_slot(cs, inv, pv, o, boost::integral_constant<bool, boost::is_void<R>::value>(), Arity<S::arity>()); else call_slot(s, inv, pv, o, boost::integral_constant<bool, boost::is_void<R>::value>(), Arity<S::arity>()); } catch(const UserEx& e) { o.exc = X_USER; o.exid = e.id; } catch(...) { o.exc = classify(); } }
  template<class SL> static void call_slot(SL& s, int inv, int pv, InvokeOut& o, boost::true_type, Arity<2>) { s(inv, Payload(pv)); o.has = 2; }
  template<class SL> static void call_slot(SL& s, int inv, int pv, InvokeOut& o, boost::false_type, Arity<2>) { res_put(o, s(inv, Payload(pv))); }
  template<class SL, class V> static void call_slot(SL& s, int inv, int pv, InvokeOut& o, V, Arity<3>) { RefArg r(inv); o.val = s(r, inv, Payload(pv)); o.has = 1; }
  template<class SL, class V> static void call_slot(SL& s, int, int, InvokeOut& o, V, Arity<0>) { s(); o.has = 2; }
  int slot_assign(int a, int b) { try { *sl[a] = *sl[b]; return X_NONE; } catch(...) { return classify(); } }
  int slot_expired(int ix, int* o) { try { *o = sl[ix]->expired(); return X_NONE; } catch(...) { return classify(); } }
  int slot_drop(int ix) { try { sl[ix]->~slot_type(); rt::raw_free((void*)sl[ix]); sl[ix] = 0; return X_NONE; } catch(...) { return classify(); } }
  int churn_connect(int v, int ix, int group, int front, int obj) { try {
      using namespace boost::signals2;
      slot_type s(Fn<R, 1>(-9, 0));
      if(obj) { HS.cho[ix] = boost::make_shared<int>(1); s.track(HS.cho[ix]); }
      ConnSpec c; c.id = 1; c.group = group; c.front = front;
      HS.ch[ix] = do_connect(*var[v], s, c); return X_NONE; } catch(...) { return classify(); } }
  int churn_disc(int ix) { try { HS.ch[ix].disconnect(); HS.ch[ix] = boost::signals2::connection(); return X_NONE; } catch(...) { return classify(); } }
  int churn_drop(int ix) { try { HS.cho[ix].reset(); HS.ch[ix] = boost::signals2::connection(); return X_NONE; } catch(...) { return classify(); } }
};
#endif
