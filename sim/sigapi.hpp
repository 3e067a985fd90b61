// Interface between the (uninstrumented) signal world and the (instrumented)
// adapters that call the library. No boost types, no std containers here.
#ifndef VERIF_SIGAPI_HPP
#define VERIF_SIGAPI_HPP
#include "rt.hpp"

enum { NVAR = 4, NCONN = 24, NOBJ = 6, NBLK = 6, NH = 4, NS = 4, NSLOT = 3, NREF = 2 };

enum Exc { X_NONE=0, X_USER, X_EXPIRED, X_BADALLOC, X_COPY, X_CMP, X_NOSLOTS, X_ASSIGN, X_OTHER };
extern const char* exc_names[];

enum CombMode { CM_ALL=0, CM_DOUBLE, CM_STOP, CM_SKIP, CM_CATCH, CM_POSTINC, CM_COPYIT, CM_RETRY, CM_KINDS };

struct ConnSpec {
  int id=-1, var=0;          // connected to the signal currently in variable var
  int ftype=0;               // 0 small functor, 1 large functor, 2 extended slot, 3 chained signal, 4 plain function, 5 slot of another type, 6 functor by reference
  int fid=0;                 // functor equality class
  int group=-1, front=0;     // group<0: ungrouped
  int inner=-1;              // ftype 3: variable holding the inner signal
  int nt=0; int tk[3]={0,0,0}; int to[3]={0,0,0}; int tr[3]={0,0,0};  // tracked: kind 0 boost ptr,1 std ptr,2 signal var,3 via another slot
  int outcome=0;             // 0 normal, 1 throws UserEx, 2 throws expired_slot ; |4 only first time
  int boundmode=0;           // 0 slot object, 1 functor converted implicitly by connect
};

struct InvokeOut { int exc=X_NONE; int exid=0; int has=0; int val=0; };

struct UserEx { int id; };
struct CopyEx {}; struct CmpEx {}; struct AssignEx {};

// ---- hooks the adapters call (implemented by the world) -----------------------
// returns outcome: 0 normal (value in *val), 1 throw UserEx{*val}, 2 throw expired_slot
int  h_slot(int conn, int inv, int pv, bool pok, const void* extconn, int* val);
void h_slot_leave(int conn, int how);
void h_fn_new(int conn);
void h_fn_copy(int conn);            // may throw CopyEx
void h_fn_dtor(int conn, int running);
int  h_run(int* counter, int delta);  // harness bookkeeping, not an access of the simulated program
void h_grp_copy(bool ok);             // may throw CopyEx
void h_grp_use(bool ok);
bool h_cmp();                        // may throw CmpEx
void h_comb_copy(int sid);           // may throw CopyEx
void h_comb_assign(int running);     // may throw
void h_comb_dtor(int sid, int running);
void h_comb_begin(int sid, int ver, int mode, int n, const void* self);
void h_comb_end(bool normal); void h_comb_step(int sid, int k);   // user code in the combiner
int  h_root();                        // the argument of the invocation running in this thread
void h_foreign_copy(bool ok);         // may throw CopyEx
void h_foreign_use(bool ok);
void h_retry();
void h_deref_begin(); void h_deref_end(int exc, int val); void h_adv();
int& h_cell(int v); int* h_box(int v); void h_unbox(int* p);   // storage for results, outside the simulated heap (never fails)
void h_comb_bad(const char* what);   // combiner-side contract breach
void h_obj_dtor(int obj);
bool h_obj_alive(int obj);

// ---- what the adapters offer ----------------------------------------------------
struct SigApi {
  virtual ~SigApi() {}
  virtual void reset()=0;                                   // drop every handle (end of run)
  virtual int  sig_new(int var, int sid, int mode, int n, int desc)=0;
  virtual int  sig_destroy(int var)=0;
  virtual int  sig_move(int dst, int src, int how)=0;       // 0 move-assign into existing, 1 move-construct (dst empty)
  virtual int  sig_swap(int a, int b, int how)=0;
  virtual bool sig_exists(int var)=0;
  virtual int  sig_null(int var)=0;
  virtual int  connect(const ConnSpec&)=0;                  // Exc
  virtual void invoke(int var, int inv, int pv, bool cst, InvokeOut&)=0;
  virtual int  disc_group(int var, int g, int how)=0;
  virtual int  disc_fn(int var, int ftype, int fid, int how)=0;
  virtual int  disc_all(int var)=0;
  virtual int  disc_chain(int var, int inner)=0;
  virtual int  num_slots(int var, int* out)=0;
  virtual int  empty(int var, int* out)=0;
  virtual int  set_combiner(int var, int sid, int ver, int mode, int n)=0;
  virtual int  get_combiner(int var, int* ver)=0;
  virtual bool has_rec()=0;          // recording combiner (else a library combiner)
  virtual bool has_value()=0;        // library combiner yields a value
  virtual bool throws_no_slots()=0;  // last_value
  virtual bool descending()=0;
  virtual bool real_mutex()=0;
  virtual bool can_chain()=0;
  // slot objects called directly
  virtual int  slot_make(int ix, const ConnSpec&)=0;
  virtual void slot_call(int ix, int inv, int pv, InvokeOut&)=0;
  virtual int  slot_expired(int ix, int* out)=0;
  virtual int  slot_drop(int ix)=0;
  virtual int  slot_assign(int a, int b)=0;
  virtual int  churn_connect(int var, int slotix, int group, int front, int obj)=0; // unnamed functor; handle kept in churn table
  virtual int  churn_disc(int slotix)=0;
  virtual int  churn_drop(int slotix)=0;
};
SigApi* sig_api(int cfg);

// type independent part (common.cpp)
bool conn_published(int c);
void conn_reset();
int  conn_disconnect(int c, int how);                        // Exc
int  conn_connected(int c, int* out);
int  conn_blocked(int c, int* out);
bool ext_is(const void* extconn, int c);                     // ext connection equals published handle
bool ext_empty(const void* extconn);                         // ext connection denotes nothing
void ext_disconnect(const void* extconn);
int  ext_connected(const void* extconn);
void obj_make(int o, int kind, int nref);
int  obj_drop(int o, int r);
int  blk_new(int b, int c, int init); int blk_block(int b); int blk_unblock(int b); int blk_copy(int b, int src, int how); int blk_del(int b); int blk_blocking(int b); int blk_connis(int b, int c);
bool blk_exists(int b);
// handle variables: h = connection, s = scoped_connection ; src kinds: 0 published handle, 1 h var, 2 s var
int  hv_assign(int h, int srckind, int src, int how);         // 0 copy assign,1 copy construct,2 move assign,3 move construct,4 swap
int  sv_op(int s, int op, int srckind, int src);              // see world
int  hv_connected(int h, int* out); int hv_disconnect(int h); int hv_eq(int h1, int h2, int* eq, int* lt, int* gt);
int  sv_connected(int s, int* out); int sv_blocked(int s, int* out); int sv_disconnect(int s);
void common_reset();
void simlock_reset();
// large histories (big.cpp)
int big_run(int kind, int n, unsigned seed, int sigtype);
void h_big(int prop, const char* cls, const char* fmt, int arg); bool h_big_lock();
#endif
