// The maxima the resonance mass sampling has learnt in the course of a run (mutable members of
// ParticleType): written at the end of a run, or put in place when its first output is opened.
// Used to tell the known dependence of an event on them from any other leak between events.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <array>
#include <cmath>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#define private public
#include "smash/particletype.h"
#undef private
#include "shim.h"
#include "worlds.h"

namespace {
template <typename T, typename = void>
struct Factors {
  static double *get(const T &, int) { return nullptr; }
};
template <typename T>
struct Factors<T, std::void_t<decltype(std::declval<const T &>().max_factor1_),
                              decltype(std::declval<const T &>().max_factor2_)>> {
  static double *get(const T &t, int i) { return i == 1 ? &t.max_factor1_ : &t.max_factor2_; }
};
using F = Factors<smash::ParticleType>;

void load() {
  FILE *f = fopen(getenv("SIM_FACTORS_IN"), "r");
  if (!f) return;
  int i;
  double a, b;
  while (fscanf(f, "%d %la %la", &i, &a, &b) == 3) {
    const auto &t = smash::ParticleType::list_all().at(i);
    if (F::get(t, 1)) *F::get(t, 1) = a, *F::get(t, 2) = b;
  }
  fclose(f);
}
}  // namespace

void factors_init() {
  if (getenv("SIM_FACTORS_IN")) shim_on_output = load;
}
void factors_finish(int rc) {
  const char *p = getenv("SIM_FACTORS_OUT");
  if (!p || rc) return;
  FILE *f = fopen(p, "w");
  if (!f) return;
  int i = 0;
  for (const auto &t : smash::ParticleType::list_all()) {
    if (F::get(t, 1) && (*F::get(t, 1) != 1. || *F::get(t, 2) != 1.))
      fprintf(f, "%d %a %a\n", i, *F::get(t, 1), *F::get(t, 2));
    i++;
  }
  fclose(f);
}
