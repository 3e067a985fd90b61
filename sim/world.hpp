#ifndef VERIF_WORLD_HPP
#define VERIF_WORLD_HPP
#include "rt.hpp"
struct World {
  const char* name;
  bool (*profile_ok)(const char* profile);
  void (*generate)(rt::Plan& p);            // from p.seed and p.profile
  void (*body)(const rt::Plan& p);          // executed on fiber 0 of the simulator
  void (*nontrivial)(const rt::Plan&, const rt::Result&, bool* out);
};
extern World signal_world, mutex_world, decon_world, track_world;
#endif
