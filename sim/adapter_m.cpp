// One instrumented translation unit per signal configuration (-DCFG=n).
#ifdef STUB   // stands for an instantiation that does not compile with the tree under test
#include "sigapi.hpp"
#define NAME2(a, b) a##b
#define NAME(a, b) NAME2(a, b)
SigApi* NAME(sig_api_, CFG)() { return 0; }
#else
#include "adapter.hpp"
using namespace boost::signals2;
#define NAME2(a, b) a##b
#define NAME(a, b) NAME2(a, b)
#define TT NAME(Traits, CFG)
#if CFG == 0
struct TT { typedef int R; typedef signal<int(int, Payload), RecComb, int, GLess> signal_type; static const bool vres = false, last = false, desc = false, locks = true, chain = true; };
#elif CFG == 1
struct TT { typedef int R; typedef signal<int(int, Payload)> signal_type; static const bool vres = false, last = false, desc = false, locks = true, chain = false; };
#elif CFG == 2
struct TT { typedef void R; typedef signal<void(int, Payload), optional_last_value<void>, std::string, std::less<std::string>, boost::function<void(int, Payload)>, boost::function<void(const connection&, int, Payload)>, SimMutex> signal_type; static const bool vres = true, last = false, desc = false, locks = true, chain = false; };
#elif CFG == 3
struct TT { typedef int R; typedef signal<int(int, Payload), RecComb, GKey, GLess, boost::function<int(int, Payload)>, boost::function<int(const connection&, int, Payload)>, dummy_mutex> signal_type; static const bool vres = false, last = false, desc = false, locks = false, chain = true; };
#elif CFG == 4
struct TT { typedef int R; typedef signal<int(int, Payload), last_value<int>, int, std::greater<int> > signal_type; static const bool vres = false, last = true, desc = true, locks = true, chain = false; };
#elif CFG == 5
struct TT { typedef int R; typedef signal<int(RefParam, int, const Payload&), RecComb, GKey, GLess> signal_type; static const bool vres = false, last = false, desc = false, locks = true, chain = true; };
#elif CFG == 6
struct TT { typedef void R; typedef signal<void(), optional_last_value<void>, int, std::less<int> > signal_type; static const bool vres = true, last = false, desc = false, locks = true, chain = false; };
#elif CFG == 7
struct TT { typedef void R; typedef signal<void(int, Payload), last_value<void> > signal_type; static const bool vres = true, last = false, desc = false, locks = true, chain = false; };
#elif CFG == 8
struct TT { typedef Res R; typedef signal<Res(int, Payload)> signal_type; static const bool vres = false, last = false, desc = false, locks = true, chain = false; };
#elif CFG == 9
struct TT { typedef int& R; typedef signal<int&(int, Payload), last_value<int&> > signal_type; static const bool vres = false, last = true, desc = false, locks = true, chain = false; };
#endif
SigApi* NAME(sig_api_, CFG)() { static Adapter<TT>* a = 0; if(!a) { void* p = rt::raw_alloc(sizeof(Adapter<TT>)); a = new(p) Adapter<TT>(); } return a; }
#endif
