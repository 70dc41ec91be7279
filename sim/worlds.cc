// API-level worlds: the particle container, the neighbour grid, and SMASH driven as a library.
#include "worlds.h"

#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "shim.h"
#include "smash/boxmodus.h"
#include "smash/config.h"
#include "smash/collidermodus.h"
#include "smash/decaymodes.h"
#include "smash/experiment.h"
#include "smash/grid.h"
#include "smash/library.h"
#include "smash/listmodus.h"
#include "smash/particles.h"
#include "smash/setup_particles_decaymodes.h"
#include "smash/spheremodus.h"

using namespace smash;

namespace {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double uni() { return (next() >> 11) * 0x1.0p-53; }
  double range(double a, double b) { return a + (b - a) * uni(); }
};

struct Fail {
  std::string what;
};
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void fail(const char *fmt, ...) {
  char b[800];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  throw Fail{b};
}

std::set<long> parse_set(const char *s) {
  std::set<long> r;
  std::stringstream ss(s);
  std::string t;
  while (std::getline(ss, t, ',')) {
    if (!t.empty()) r.insert(std::stol(t));
  }
  return r;
}

void small_universe() {
  ParticleType::create_type_list(
      "# NAME MASS[GEV] WIDTH[GEV] PARITY PDG\n"
      "π    0.138   0       -  111         211\n"
      "N    0.938   0       +  2112        2212\n"
      "Λ    1.116   0       +  3122\n");
  DecayModes::load_decaymodes("");
}

// ------------------------------------------------------------------ particles
struct ModelEntry {
  PdgCode pdg;
  uint32_t proc;
  FourVector pos, mom;
  double ftime;
};
bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

struct Handle {  // a copy of a particle of the list, taken earlier
  ParticleData copy;
  bool expect_valid;
};

struct ParticleWorld {
  Rng rng{1};
  std::unique_ptr<Particles> P;
  std::map<int, ModelEntry> model;   // by id
  std::set<int> ids_seen;
  std::vector<Handle> handles;
  uint32_t next_proc = 1;
  uint64_t hash = 1469598103934665603ull;
  std::set<uint64_t> states;
  long faults = 0;
  bool check_spec = true;

  ParticleData fresh() {
    static const int codes[] = {0x211, -0x211, 0x111, 0x2212, 0x2112, 0x3122};
    ParticleData p(ParticleType::find(PdgCode(codes[rng.below(6)])));
    p.set_4momentum(p.pole_mass(), rng.range(-1, 1), rng.range(-1, 1), rng.range(-1, 1));
    p.set_4position(FourVector(rng.range(0, 9), rng.range(-9, 9), rng.range(-9, 9),
                               rng.range(-9, 9)));
    p.set_formation_time(rng.range(0, 3));
    return p;
  }
  static ModelEntry entry(const ParticleData &p) {
    return {p.pdgcode(), p.id_process(), p.position(), p.momentum(), p.formation_time()};
  }
  static bool agrees(const ModelEntry &m, const ParticleData &p) {
    for (int i = 0; i < 4; i++) {
      if (!same(m.pos[i], p.position()[i]) || !same(m.mom[i], p.momentum()[i])) return false;
    }
    return m.pdg == p.pdgcode() && m.proc == p.id_process() && same(m.ftime, p.formation_time());
  }
  void learn(const ParticleData &p) {
    if (ids_seen.count(p.id())) fail("id %d given out twice", p.id());
    if (p.id() < 0) fail("negative id %d", p.id());
    ids_seen.insert(p.id());
    model[p.id()] = entry(p);
  }
  void forget(int id) {
    model.erase(id);
    for (auto &h : handles) {
      if (h.copy.id() == id) h.expect_valid = false;
    }
  }
  std::vector<ParticleData> live() {
    std::vector<ParticleData> v;
    for (const auto &p : *P) v.push_back(p);
    return v;
  }
  // One operation; what it does depends only on (seed, i) and the state.
  void step(uint64_t seed, long i, bool with_faults) {
    rng = Rng(seed * 1000003ull + static_cast<uint64_t>(i) * 7919ull);
    rng.next();
    const int kind = rng.below(100);
    const bool oom = with_faults && rng.below(6) == 0;
    const int64_t oom_n = 1 + rng.below(3);
    const bool big = rng.below(12) == 0;
    std::vector<int> before;
    for (auto &m : model) before.push_back(m.first);
    auto guarded = [&](const std::function<void()> &f) {
      if (!oom) {
        f();
        return true;
      }
      shim_allocs = 0;
      shim_oom_at = oom_n;
      shim_oom_fired = false;
      shim_heap(true);
      bool ok = true;
      try {
        f();
      } catch (std::bad_alloc &) {
        ok = false;
      }
      shim_heap(false);
      shim_oom_at = 0;
      if (shim_oom_fired) faults++;
      return ok;
    };
    if (kind < 25) {
      ParticleData p = fresh();
      int id = -1;
      if (guarded([&] { id = P->insert(p).id(); })) {
        bool found = false;
        for (const auto &q : *P) {
          if (q.id() != id) continue;
          learn(q);
          ModelEntry e = entry(p);
          if (!agrees(e, q)) fail("op %ld insert: stored particle differs", i);
          if (!P->is_valid(q)) fail("op %ld insert: fresh particle not valid", i);
          found = true;
        }
        if (!found) fail("op %ld insert: id %d not in the list", i, id);
        if (P->is_valid(p)) fail("op %ld insert: the argument became a valid copy", i);
      }
    } else if (kind < 35) {
      const size_t n = 1 + rng.below(big ? 400 : 6);
      const PdgCode pdg(0x211);
      const bool ok = guarded([&] { P->create(n, pdg); });
      size_t added = 0;
      for (const auto &q : *P) {
        if (model.count(q.id())) continue;
        learn(q);
        if (q.pdgcode() != pdg) fail("op %ld create: wrong type", i);
        added++;
      }
      if (ok ? added != n : added > n) fail("op %ld create(%zu) added %zu", i, n, added);
    } else if (kind < 45) {
      ParticleData *p = nullptr;
      if (guarded([&] { p = &P->create(PdgCode(0x2212)); })) {
        p->set_4momentum(0.938, rng.range(-1, 1), 0, 0);
        learn(*p);
      }
    } else if (kind < 60) {
      auto l = live();
      if (!l.empty()) {
        // often the newest or a run of neighbours, to shrink the list from its end
        size_t k = rng.below(3) == 0 ? l.size() - 1 : rng.below(l.size());
        size_t cnt = 1 + (big ? rng.below(l.size()) : rng.below(3));
        for (size_t j = 0; j < cnt && j < l.size(); j++) {
          const auto &v = l[(k + l.size() - j) % l.size()];
          if (guarded([&] { P->remove(v); })) {
            forget(v.id());
            if (P->is_valid(v)) fail("op %ld remove: removed particle still valid", i);
          } else {
            break;
          }
        }
      }
    } else if (kind < 78) {
      auto l = live();
      ParticleList out_p;
      size_t n = rng.below(std::min<size_t>(l.size(), 4) + 1), m = rng.below(big ? 30 : 5);
      if (n > 0 || m > 0) {
        for (size_t j = 0; j < n; j++) {
          size_t k = rng.below(l.size());
          out_p.push_back(l[k]);
          l.erase(l.begin() + k);
        }
        ParticleList in_p;
        for (size_t j = 0; j < m; j++) {
          in_p.push_back(fresh());
          in_p.back().set_history(1, next_proc, ProcessType::TwoToTwo, 0.5, {fresh(), fresh()});
        }
        next_proc++;
        // (an allocation failure inside a reaction is not survivable by contract: not injected)
        P->update(out_p, in_p, true);
        for (auto &v : out_p) {
          forget(v.id());
        }
        for (auto &v : in_p) {
          learn(v);
          if (!P->is_valid(v)) fail("op %ld replace: product not a valid copy", i);
          if (!agrees(model[v.id()], P->lookup(v))) fail("op %ld replace: product differs", i);
        }
        for (auto &v : out_p) {
          if (P->is_valid(v)) fail("op %ld replace: consumed particle %d still valid", i, v.id());
        }
      }
    } else if (kind < 90) {
      auto l = live();
      if (l.size() >= 2) {
        ParticleList a, b;
        size_t k = rng.below(l.size()), k2 = rng.below(l.size() - 1);
        if (k2 >= k) k2++;
        a = {l[k], l[k2]};
        b = a;
        const bool interacts = rng.below(2);
        for (auto &p : b) {
          p.set_4momentum(p.pole_mass(), rng.range(-1, 1), 0, rng.range(-1, 1));
          if (interacts) p.set_history(2, next_proc, ProcessType::Elastic, 1.0, a);
        }
        next_proc++;
        P->update(a, b, false);
        for (size_t j = 0; j < 2; j++) {
          model[a[j].id()] = entry(b[j]);
          for (auto &h : handles) {
            if (h.copy.id() == a[j].id()) h.expect_valid = h.copy.id_process() == b[j].id_process();
          }
          if (P->is_valid(a[j]) != (a[j].id_process() == b[j].id_process()))
            fail("op %ld update: stale copy has the wrong validity", i);
        }
      }
    } else if (kind < 91) {
      P->reset();
      model.clear();
      ids_seen.clear();
      handles.clear();
    } else {
      auto l = live();
      for (size_t j = 0; j < 3 && !l.empty(); j++) {
        handles.push_back({l[rng.below(l.size())], true});
      }
      if (handles.size() > 40) handles.erase(handles.begin(), handles.begin() + 10);
    }
    verify(i, before);
  }
  void verify(long i, const std::vector<int> &) {
    if (P->size() != model.size()) fail("op %ld: size() %zu, %zu live", i, P->size(), model.size());
    std::vector<int> fwd, bwd;
    for (auto it = P->begin(); it != P->end(); ++it) {
      fwd.push_back(it->id());
      auto m = model.find(it->id());
      if (m == model.end()) fail("op %ld: iteration yields dead or unknown id %d", i, it->id());
      if (!agrees(m->second, *it)) fail("op %ld: content of id %d changed", i, it->id());
      if (!P->is_valid(*it)) fail("op %ld: live id %d not valid", i, it->id());
      if (fwd.size() > model.size()) fail("op %ld: iteration yields more than size()", i);
    }
    if (fwd.size() != model.size()) fail("op %ld: iteration yields %zu of %zu", i, fwd.size(), model.size());
    if (std::set<int>(fwd.begin(), fwd.end()).size() != fwd.size()) fail("op %ld: iteration repeats", i);
    if (!model.empty()) {
      for (auto it = P->end(); bwd.size() < model.size();) {
        --it;
        bwd.push_back(it->id());
      }
      std::vector<int> r(bwd.rbegin(), bwd.rend());
      if (r != fwd) fail("op %ld: backward iteration differs", i);
      if (P->front().id() != fwd.front() || P->back().id() != fwd.back())
        fail("op %ld: front()/back() differ from iteration", i);
    }
    auto v = P->copy_to_vector();
    if (v.size() != fwd.size()) fail("op %ld: copy_to_vector has %zu of %zu", i, v.size(), fwd.size());
    for (size_t k = 0; k < v.size(); k++) {
      if (v[k].id() != fwd[k]) fail("op %ld: copy_to_vector differs", i);
    }
    for (auto &h : handles) {
      if (P->is_valid(h.copy) != h.expect_valid)
        fail("op %ld: is_valid(copy of id %d) is %d", i, h.copy.id(), !h.expect_valid);
    }
    for (int id : fwd) {
      hash = (hash ^ static_cast<uint64_t>(id)) * 1099511628211ull;
      hash = (hash ^ static_cast<uint64_t>(model[id].pdg.get_decimal())) * 1099511628211ull;
    }
    states.insert(hash);
  }
};
}  // namespace

// particles <first seed> <seeds> <ops> <faults 0|1> [skipped ops of the first seed]
int world_particles(int argc, char **argv) {
  if (argc < 4) return 99;
  small_universe();
  const uint64_t s0 = strtoull(argv[0], nullptr, 10);
  const long nseeds = atol(argv[1]), ops = atol(argv[2]);
  const bool faults = atoi(argv[3]);
  const std::set<long> skip = argc > 4 ? parse_set(argv[4]) : std::set<long>();
  uint64_t total = 0, nstates = 0;
  long nf = 0;
  for (uint64_t s = s0; s < s0 + nseeds; s++) {
    ParticleWorld w;
    w.P = std::make_unique<Particles>();
    long done = 0;
    try {
      for (long i = 0; i < ops; i++) {
        if (skip.count(i)) continue;
        done = i;
        w.step(s, i, faults);
      }
    } catch (Fail &f) {
      std::printf("FAIL seed %llu op %ld %s\n", (unsigned long long)s, done, f.what.c_str());
      fflush(stdout);
      return 1;
    }
    total ^= w.hash * (s | 1);
    nstates += w.states.size();
    nf += w.faults;
  }
  std::printf("OK hash %016llx states %llu faults %ld\n", (unsigned long long)total,
              (unsigned long long)nstates, nf);
  return 0;
}

// ----------------------------------------------------------------------- grid
namespace {
struct GridCase {
  bool periodic;
  double L[3], cell, dt;
  bool include_unformed, largest, limit;
  int n;
};

template <GridOptions O>
void grid_case(const GridCase &c, Particles &P, uint64_t &hash) {
  const std::pair<std::array<double, 3>, std::array<double, 3>> ml{
      {{0, 0, 0}}, {{c.L[0], c.L[1], c.L[2]}}};
  const auto strat = c.largest ? CellSizeStrategy::Largest : CellSizeStrategy::Optimal;
  const auto lim = c.limit ? CellNumberLimitation::ParticleNumber : CellNumberLimitation::None;
  std::unique_ptr<Grid<O>> g;
  if (O == GridOptions::PeriodicBoundaries)
    g = std::make_unique<Grid<O>>(ml, P, c.cell, c.dt, lim, c.include_unformed, strat);
  else
    g = std::make_unique<Grid<O>>(P, c.cell, c.dt, lim, c.include_unformed, strat);
  std::map<int, int> own;
  // all images at which a pair was offered (a periodic pair may meet at several of them)
  std::map<std::pair<int, int>, std::vector<ThreeVector>> pairs;
  std::map<int, ThreeVector> at;
  std::map<int, bool> unformed;
  for (const auto &p : P) {
    at[p.id()] = p.position().threevec();
    unformed[p.id()] = p.xsec_scaling_factor(c.dt) <= 0.0;
  }
  auto offer = [&](const ParticleData &a, const ParticleData &b) {
    const std::pair<int, int> k{std::min(a.id(), b.id()), std::max(a.id(), b.id())};
    ThreeVector d = a.position().threevec() - b.position().threevec();
    if (a.id() != k.first) d = d * (-1.);
    if (a.id() == b.id()) fail("particle %d offered with itself", a.id());
    auto &seen = pairs[k];
    for (const auto &e : seen) {
      if (!c.periodic || (e - d).sqr() < 1e-12 * (1 + d.sqr()))
        fail("pair %d,%d offered twice", k.first, k.second);
    }
    seen.push_back(d);
  };
  g->iterate_cells(
      [&](const ParticleList &l) {
        for (size_t i = 0; i < l.size(); i++) {
          own[l[i].id()]++;
          if (!at.count(l[i].id())) fail("unknown particle %d in a cell", l[i].id());
          const ThreeVector d = l[i].position().threevec() - at[l[i].id()];
          if (d.sqr() != 0) fail("particle %d moved in its own cell", l[i].id());
          for (size_t j = i + 1; j < l.size(); j++) offer(l[i], l[j]);
          hash = (hash ^ l[i].id()) * 1099511628211ull;
        }
        hash = hash * 31 + l.size();
      },
      [&](const ParticleList &l, const ParticleList &m) {
        for (const auto &a : l)
          for (const auto &b : m) offer(a, b);
      });
  for (const auto &p : P) {
    const int k = own.count(p.id()) ? own[p.id()] : 0;
    const bool must = c.include_unformed || !unformed[p.id()];
    if (k > 1) fail("particle %d lies in %d cells", p.id(), k);
    if (must && k != 1) fail("particle %d lies in no cell", p.id());
  }
  // completeness: every pair within the interaction length is offered, at its nearest image
  for (auto a = at.begin(); a != at.end(); ++a) {
    for (auto b = std::next(a); b != at.end(); ++b) {
      if (!c.include_unformed && (unformed[a->first] || unformed[b->first])) continue;
      ThreeVector d = a->second - b->second;
      if (c.periodic) {
        for (int i = 0; i < 3; i++) d[i] -= c.L[i] * std::round(d[i] / c.L[i]);
      }
      if (d.sqr() > c.cell * c.cell * (1 - 1e-9)) continue;
      auto it = pairs.find({a->first, b->first});
      if (it == pairs.end())
        fail("pair %d,%d at distance %.17g < %.17g never offered", a->first, b->first,
             std::sqrt(d.sqr()), c.cell);
      bool near = false;
      for (const auto &e : it->second) near = near || (e - d).sqr() < 1e-12 * (1 + d.sqr());
      if (!near)
        fail("pair %d,%d at distance %.17g offered, but not at its nearest image", a->first,
             b->first, std::sqrt(d.sqr()));
    }
  }
}
}  // namespace

// grid <first seed> <seeds> [skipped particles of the first seed]
int world_grid(int argc, char **argv) {
  if (argc < 2) return 99;
  small_universe();
  const uint64_t s0 = strtoull(argv[0], nullptr, 10);
  const long nseeds = atol(argv[1]);
  const std::set<long> skip = argc > 2 ? parse_set(argv[2]) : std::set<long>();
  uint64_t hash = 1469598103934665603ull;
  long nperiodic = 0, npart = 0;
  std::set<uint64_t> shapes;
  for (uint64_t s = s0; s < s0 + nseeds; s++) {
    Rng r(s * 48271ull + 11);
    GridCase c;
    c.periodic = r.below(2);
    const double base = r.range(3, 12);
    for (int i = 0; i < 3; i++) c.L[i] = c.periodic ? base : r.range(0.1, 14) * (r.below(4) ? 1 : .1);
    c.dt = r.below(3) ? r.range(0.01, 0.4) : 0.1;
    c.cell = c.periodic ? base / r.range(2.0, 7.0) : r.range(0.5, 5.0);
    if (c.periodic && c.cell > base / 2) c.cell = base / 2;
    c.include_unformed = r.below(3) == 0;
    c.largest = r.below(6) == 0;
    c.limit = r.below(2);
    c.n = 2 + r.below(r.below(4) ? 40 : 160);
    Particles P;
    Particles holes;
    for (int i = 0; i < c.n; i++) {
      ParticleData p(ParticleType::find(PdgCode(r.below(2) ? 0x211 : 0x2212)));
      double x[3];
      for (int k = 0; k < 3; k++) {
        const int how = r.below(12);
        x[k] = how == 0   ? 0.
               : how == 1 ? std::nextafter(c.L[k], 0.)
               : how == 2 ? c.L[k] * r.below(8) / 8.
               : how == 3 ? c.cell * r.below(4)
                          : r.range(0, c.L[k]);
        if (x[k] >= c.L[k]) x[k] = std::nextafter(c.L[k], 0.);
      }
      p.set_4position(FourVector(1.0, x[0], x[1], x[2]));
      p.set_4momentum(p.pole_mass(), r.range(-1, 1), r.range(-1, 1), r.range(-1, 1));
      p.set_formation_time(0.);
      if (r.below(10) == 0) {
        p.set_formation_time(r.range(1.0, 2.0));
        p.set_cross_section_scaling_factor(r.below(2) ? 0.0 : 0.5);
      }
      if (!(s == s0 && skip.count(i))) P.insert(p);
    }
    // holes in the list, as reactions leave them
    const int nh = r.below(3) ? 0 : r.below(5);
    for (int k = 0; k < nh && P.size() > 2; k++) {
      auto v = P.copy_to_vector();
      P.remove(v[r.below(v.size())]);
    }
    if (P.size() < 2) continue;
    nperiodic += c.periodic;
    npart += P.size();
    uint64_t h = 0;
    try {
      if (c.periodic)
        grid_case<GridOptions::PeriodicBoundaries>(c, P, h);
      else
        grid_case<GridOptions::Normal>(c, P, h);
    } catch (Fail &f) {
      std::printf("FAIL seed %llu %s (periodic %d L %.17g %.17g %.17g cell %.17g dt %.17g unformed "
                  "%d largest %d limit %d n %zu)\n",
                  (unsigned long long)s, f.what.c_str(), c.periodic, c.L[0], c.L[1], c.L[2],
                  c.cell, c.dt, c.include_unformed, c.largest, c.limit, P.size());
      return 1;
    } catch (std::exception &e) {
      std::printf("FAIL seed %llu threw %s\n", (unsigned long long)s, e.what());
      return 1;
    }
    shapes.insert(h);
    hash = (hash ^ h) * 1099511628211ull;
  }
  std::printf("OK hash %016llx periodic %ld particles %ld shapes %zu\n", (unsigned long long)hash,
              nperiodic, npart, shapes.size());
  return 0;
}

// ------------------------------------------------------------------------ lib
namespace {
void dump(const char *label, const Particles &P) {
  std::printf("DUMP %s %zu\n", label, P.size());
  for (const auto &p : P) {
    const auto &x = p.position(), &m = p.momentum();
    std::printf("P %d %d %a %a %a %a %a %a %a %a %a %a\n", p.id(), p.pdgcode().get_decimal(),
                x[0], x[1], x[2], x[3], m[0], m[1], m[2], m[3], p.formation_time(),
                p.initial_xsec_scaling_factor());
  }
}

template <class Modus>
int run_script(Configuration &config, const std::string &out, std::istream &script) {
  Experiment<Modus> ex(config, out);
  ParticleList add, remove;
  std::string line;
  while (std::getline(script, line)) {
    std::stringstream ss(line);
    std::string cmd;
    if (!(ss >> cmd)) continue;
    try {
      if (cmd == "event") {
        ex.initialize_new_event();
      } else if (cmd == "evolve") {
        double t;
        ss >> t;
        ParticleList a, r;
        a.swap(add);
        r.swap(remove);
        if (a.empty() && r.empty())
          ex.run_time_evolution(t);
        else
          ex.run_time_evolution(t, std::move(a), std::move(r));
      } else if (cmd == "add") {
        int pdg;
        double x[4], p[4];
        ss >> pdg;
        for (double &v : x) ss >> v;
        for (double &v : p) ss >> v;
        ParticleData d(ParticleType::find(PdgCode::from_decimal(pdg)));
        d.set_4position(FourVector(x[0], x[1], x[2], x[3]));
        d.set_4momentum(FourVector(p[0], p[1], p[2], p[3]));
        d.set_formation_time(x[0]);
        add.push_back(d);
      } else if (cmd == "addback") {   // put back the particles named by a following remove
        size_t k;
        ss >> k;
        auto v = ex.first_ensemble()->copy_to_vector();
        if (!v.empty()) add.push_back(v[k % v.size()]);
      } else if (cmd == "remove") {    // the k-th particle of the list
        size_t k;
        ss >> k;
        auto v = ex.first_ensemble()->copy_to_vector();
        if (!v.empty()) remove.push_back(v[k % v.size()]);
      } else if (cmd == "removet") {   // the same, given as it was or will be some time away
        size_t k;
        double dt;
        ss >> k >> dt;
        auto v = ex.first_ensemble()->copy_to_vector();
        if (!v.empty()) {
          auto p = v[k % v.size()];
          p.set_4position(p.position() + FourVector(1.0, p.velocity()) * dt);
          remove.push_back(p);
        }
      } else if (cmd == "removex") {   // a particle that is not there
        size_t k;
        ss >> k;
        auto v = ex.first_ensemble()->copy_to_vector();
        if (!v.empty()) {
          auto p = v[k % v.size()];
          p.set_4position(p.position() + FourVector(0., 1., 0., 0.));
          remove.push_back(p);
        }
      } else if (cmd == "final") {
        ex.do_final_interactions();
      } else if (cmd == "output") {
        ex.final_output();
      } else if (cmd == "next") {
        ex.increase_event_number();
      } else if (cmd == "run") {
        ex.run();
      } else if (cmd == "dump") {
        std::string l;
        ss >> l;
        dump(l.c_str(), *ex.first_ensemble());
      } else {
        std::printf("BAD %s\n", line.c_str());
        return 98;
      }
    } catch (std::exception &e) {
      std::printf("THREW %s: %s\n", cmd.c_str(), e.what());
      if (cmd == "evolve" || cmd == "final" || cmd == "event") return 3;
    }
  }
  return 0;
}
}  // namespace

// lib <config> <particles> <decays> <tabulations dir> <output dir> <script>
int world_lib(int argc, char **argv) {
  if (argc < 6) return 99;
  int rc = 0;
  try {
    auto config = setup_config_and_logging(argv[0], argv[1], argv[2], {});
    const std::string modus = config.read(InputKeys::gen_modus);
    initialize_particles_decays_and_tabulations(config, SMASH_VERSION, argv[3]);
    std::ifstream script(argv[5]);
    std::filesystem::create_directories(argv[4]);
    if (modus == "Box")
      rc = run_script<BoxModus>(config, argv[4], script);
    else if (modus == "Sphere")
      rc = run_script<SphereModus>(config, argv[4], script);
    else if (modus == "Collider")
      rc = run_script<ColliderModus>(config, argv[4], script);
    else if (modus == "List")
      rc = run_script<ListModus>(config, argv[4], script);
    else if (modus == "ListBox")
      rc = run_script<ListBoxModus>(config, argv[4], script);
    else
      rc = 97;
  } catch (std::exception &e) {
    std::printf("THREW setup: %s\n", e.what());
    rc = 3;
  }
  std::printf("LIBRC %d\n", rc);
  fflush(stdout);
  return rc;
}
