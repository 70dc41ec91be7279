From 18e93fb037b6b8230bcedae0626c8b9c794d6701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:04 +0000
Subject: [PATCH 01/57] fix: keep particle list consistent if remove runs out
 of memory

---
 src/particles.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/particles.cc b/src/particles.cc
index 483a5d1..38c38fa 100644
--- a/src/particles.cc
+++ b/src/particles.cc
@@ -111,9 +111,10 @@ void Particles::remove(const ParticleData &p) {
   if (index == data_size_ - 1) {
     --data_size_;
   } else {
+    // This is the only step that can fail, hence nothing must be changed before
+    dirty_.push_back(index);
     data_[index].set_id(-1);
     data_[index].hole_ = true;
-    dirty_.push_back(index);
   }
 }
 
-- 
2.43.0


From 36135490876b9ee189e89c1466196f7f2f6cf439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:04 +0000
Subject: [PATCH 02/57] fix: change capacity of particle list only after
 allocation succeeded

---
 src/particles.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/particles.cc b/src/particles.cc
index 38c38fa..1a21317 100644
--- a/src/particles.cc
+++ b/src/particles.cc
@@ -29,16 +29,17 @@ inline void Particles::ensure_capacity(unsigned to_add) {
 
 void Particles::increase_capacity(unsigned new_capacity) {
   assert(new_capacity > data_capacity_);
-  data_capacity_ = new_capacity;
-  std::unique_ptr<ParticleData[]> new_memory(new ParticleData[data_capacity_]);
+  std::unique_ptr<ParticleData[]> new_memory(new ParticleData[new_capacity]);
   unsigned i = 0;
   for (; i < data_size_; ++i) {
     new_memory[i] = data_[i];
   }
-  for (; i < data_capacity_; ++i) {
+  for (; i < new_capacity; ++i) {
     new_memory[i].index_ = i;
   }
   std::swap(data_, new_memory);
+  // Only now that the memory is there, the capacity has changed.
+  data_capacity_ = new_capacity;
 }
 
 inline void Particles::copy_in(ParticleData &to, const ParticleData &from) {
-- 
2.43.0


From e092ed3a107d24af3b1c9d8b7bd401a609b5ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:12 +0000
Subject: [PATCH 03/57] fix: avoid overflow in density of single particle
 nuclei with testparticles

The saturation density of a one-particle nucleus with several testparticles
(diffusiveness 0.02 fm) is integrated up to r = 99 fm, where the exponential
overflows; the floating point trap then killed every such run.
---
 src/nucleus.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nucleus.cc b/src/nucleus.cc
index 2c66eec..52edd0c 100644
--- a/src/nucleus.cc
+++ b/src/nucleus.cc
@@ -557,7 +557,13 @@ double Nucleus::nucleon_density(double r, double, double) const {
 }
 
 double Nucleus::nucleon_density_unnormalized(double r, double, double) const {
-  return 1.0 / (std::exp((r - nuclear_radius_) / diffusiveness_) + 1.);
+  const double exponent = (r - nuclear_radius_) / diffusiveness_;
+  // Far outside of a nucleus with a tiny diffusiveness (like a single particle
+  // made of several testparticles) the exponential function would overflow.
+  if (exponent > std::log(std::numeric_limits<double>::max())) {
+    return 0.0;
+  }
+  return 1.0 / (std::exp(exponent) + 1.);
 }
 
 double Nucleus::calculate_saturation_density() const {
-- 
2.43.0


From d07cdbb7d263942ba1e262a078493f886af80d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:12 +0000
Subject: [PATCH 04/57] fix: no division by zero for 3-body reactions at
 threshold

Three incoming particles with identical velocities have no phase space; the
probability divided by it, raising the floating point trap.
---
 src/scatteractionmulti.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/scatteractionmulti.cc b/src/scatteractionmulti.cc
index 085a695..9d946ad 100644
--- a/src/scatteractionmulti.cc
+++ b/src/scatteractionmulti.cc
@@ -455,6 +455,10 @@ double ScatterActionMulti::probability_three_to_one(
               &incoming_particles_[2].type()});
 
   const double I_3 = calculate_I3(sqrts);
+  // No phase space at threshold (e.g. particles with identical velocities)
+  if (I_3 <= 0.0) {
+    return 0.0;
+  }
   const double ph_sp_3 =
       1. / (8 * M_PI * M_PI * M_PI) * 1. / (16 * sqrts * sqrts) * I_3;
 
@@ -480,6 +484,10 @@ double ScatterActionMulti::probability_three_to_two(
   const double lamb = lambda_tilde(sqrts * sqrts, m4 * m4, m5 * m5);
 
   const double I_3 = calculate_I3(sqrts);
+  // No phase space at threshold (e.g. particles with identical velocities)
+  if (I_3 <= 0.0) {
+    return 0.0;
+  }
   const double ph_sp_3 =
       1. / (8 * M_PI * M_PI * M_PI) * 1. / (16 * sqrts * sqrts) * I_3;
 
-- 
2.43.0


From a01153af5690da8b24a11b17bd2e009c6e7c7560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:50 +0000
Subject: [PATCH 05/57] fix: restore custom output times for events starting
 earlier

---
 src/include/smash/clock.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/smash/clock.h b/src/include/smash/clock.h
index 0129636..07038e7 100644
--- a/src/include/smash/clock.h
+++ b/src/include/smash/clock.h
@@ -411,6 +411,7 @@ class CustomClock : public Clock {
    */
   explicit CustomClock(std::vector<double> times) : custom_times_(times) {
     std::sort(custom_times_.begin(), custom_times_.end());
+    configured_times_ = custom_times_;
     counter_ = -1;
   }
 
@@ -444,7 +445,8 @@ class CustomClock : public Clock {
   }
 
   /**
-   * Reset the clock to the starting time of the simulation.
+   * Reset the clock to the starting time of the simulation. Times which were
+   * removed because they were in the past of a previous event are restored.
    *
    * \param[in] start_time starting time of the simulation
    *
@@ -453,6 +455,7 @@ class CustomClock : public Clock {
   void reset(double start_time, bool) override {
     counter_ = -1;
     start_time_ = start_time;
+    custom_times_ = configured_times_;
   }
 
   /**
@@ -496,6 +499,8 @@ class CustomClock : public Clock {
  private:
   /// Vector of times where output is generated
   std::vector<double> custom_times_;
+  /// All sorted output times as given at construction
+  std::vector<double> configured_times_;
   /// Starting time of the simulation
   double start_time_ = 0.;
 };
-- 
2.43.0


From f8657a791315cba32053ae9dd01bb5538f570627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:04 +0000
Subject: [PATCH 06/57] fix: no repeated output at start time due to rounding
 of the clock

---
 src/include/smash/clock.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/include/smash/clock.h b/src/include/smash/clock.h
index 07038e7..872a7d8 100644
--- a/src/include/smash/clock.h
+++ b/src/include/smash/clock.h
@@ -319,18 +319,22 @@ class UniformClock : public Clock {
    * \param[in] is_output_clock whether this is an output clock or a lab clock
    */
   void reset(double start_time, bool is_output_clock) override {
-    double reset_time;
+    Representation reset_time = convert(start_time);
     if (is_output_clock) {
-      auto delta_t = convert(timestep_duration_);
-      reset_time = std::floor(start_time / delta_t) * delta_t;
-    } else {
-      reset_time = start_time;
+      // Largest multiple of the output interval not after the start time. It
+      // has to be found in internal units, as the division of doubles might
+      // give something slightly smaller than the exact integer result.
+      Representation remainder = reset_time % timestep_duration_;
+      if (remainder < 0) {
+        remainder += timestep_duration_;
+      }
+      reset_time -= remainder;
     }
-    if (reset_time < current_time()) {
+    if (convert(reset_time) < current_time()) {
       logg[LClock].debug("Resetting clock from", current_time(), " fm to ",
-                         reset_time, " fm");
+                         convert(reset_time), " fm");
     }
-    reset_time_ = convert(reset_time);
+    reset_time_ = reset_time;
     counter_ = 0;
   }
 
-- 
2.43.0


From b7f72918df0dbce76958e21da193c73e7d22f786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:46 +0000
Subject: [PATCH 07/57] fix: no output of wall crossings before the start of
 the event

---
 src/include/smash/experiment.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index 81a1e93..5872160 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2101,7 +2101,8 @@ void Experiment<Modus>::initialize_new_event() {
    * a correct initialization they should be, so this is just playing it safe.
    */
   for (Particles &particles : ensembles_) {
-    modus_.impose_boundary_conditions(&particles, outputs_);
+    // Nothing is written here, since the event did not start for the outputs.
+    modus_.impose_boundary_conditions(&particles);
   }
   // Reset the simulation clock
   double timestep = delta_time_startup_;
-- 
2.43.0


From b5ab802c8574a437bd28300c1b666b57ffc93cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:46 +0000
Subject: [PATCH 08/57] fix: let unformed particles cross the walls of the box

---
 src/include/smash/experiment.h | 6 +++---
 src/scatteractionsfinder.cc    | 6 ++++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index 5872160..4fba87a 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2575,9 +2575,9 @@ void Experiment<Modus>::run_time_evolution(const double t_end,
         const double min_cell_length = compute_min_cell_length(dt);
         logg[LExperiment].debug("Creating grid with minimal cell length ",
                                 min_cell_length);
-        /* For the hyper-surface-crossing actions also unformed particles are
-         * searched and therefore needed on the grid. */
-        const bool include_unformed_particles = IC_switch_;
+        /* For the hyper-surface-crossing and the wall-crossing actions also
+         * unformed particles are searched and therefore needed on the grid. */
+        const bool include_unformed_particles = IC_switch_ || modus_.is_box();
         const auto &grid =
             use_grid_ ? modus_.create_grid(ensembles_[i_ens], min_cell_length,
                                            dt, parameters_.coll_crit,
diff --git a/src/scatteractionsfinder.cc b/src/scatteractionsfinder.cc
index 45d7143..738e32d 100644
--- a/src/scatteractionsfinder.cc
+++ b/src/scatteractionsfinder.cc
@@ -401,6 +401,12 @@ ActionPtr ScatterActionsFinder::check_collision_multi_part(
   if (gcell_vol < really_small) {
     return nullptr;
   }
+  // Particles that do not form within this time step cannot interact
+  if (std::any_of(plist.begin(), plist.end(), [dt](const ParticleData& data) {
+        return data.xsec_scaling_factor(dt) <= 0.0;
+      })) {
+    return nullptr;
+  }
 
   /* Optimisation for later: Already check here at the beginning
    * if collision with plist is possible before constructing actions. */
-- 
2.43.0


From 1197003ab5b80d761c8d5325fcee2128ec0e0c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:57 +0000
Subject: [PATCH 09/57] fix: move particles from arbitrarily far away into the
 box

---
 src/include/smash/algorithms.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/include/smash/algorithms.h b/src/include/smash/algorithms.h
index 0c1b746..4aa1a85 100644
--- a/src/include/smash/algorithms.h
+++ b/src/include/smash/algorithms.h
@@ -37,10 +37,8 @@ namespace smash {
  * The values in an arbitrary container, starting from \p begin and ending at \p
  * end, will be checked. If the value is less than 0, \p length will be added to
  * it. If the value is greater than or equal to \p length, \p length will be
- * subtracted from it.
- *
- * The implementation therefore assumes that the values are at most one \p
- * length away from the 0 to \p length range.
+ * subtracted from it. This is done as often as needed for values which are more
+ * than one \p length away from the 0 to \p length range.
  *
  * \tparam Iterator Type of the iterator.
  * \param begin Iterator pointing to the first value to check.
@@ -56,12 +54,12 @@ static bool enforce_periodic_boundaries(
   bool had_to_wrap = false;
   for (; begin != end; ++begin) {
     auto &x = *begin;
-    if (x < 0) {
-      had_to_wrap = true;
-      x += length;
-    } else if (x >= length) {
+    if (x < 0 || x >= length) {
       had_to_wrap = true;
-      x -= length;
+      x = std::fmod(x, length);
+      if (x < 0) {
+        x += length;
+      }
     }
   }
   return had_to_wrap;
-- 
2.43.0


From 8192f07ee15ad265c20c73815a48be7dc0058ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:50 +0000
Subject: [PATCH 10/57] fix: no division by zero mean field energy in a box

---
 src/include/smash/experiment.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index 4fba87a..5eeb1c9 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2789,7 +2789,8 @@ void Experiment<Modus>::intermediate_output() {
        * may signal a phase transition or other dynamical process. This
        * comparison only makes sense in the Box Modus, hence the condition.
        */
-      if (modus_.is_box()) {
+      if (modus_.is_box() && initial_mean_field_energy_ != 0.0 &&
+          E_mean_field != -initial_mean_field_energy_) {
         double tmp = (E_mean_field - initial_mean_field_energy_) /
                      (E_mean_field + initial_mean_field_energy_);
         /*
-- 
2.43.0


From c352f1fb2a093ca2e42af817c610ade3326144f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:50 +0000
Subject: [PATCH 11/57] fix: write undefined proper time and rapidity as NaN
 instead of aborting

---
 src/include/smash/outputformatter.h | 19 +++++++++++++++++--
 src/oscaroutput.cc                  |  3 ++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/include/smash/outputformatter.h b/src/include/smash/outputformatter.h
index b70339b..dd259b2 100644
--- a/src/include/smash/outputformatter.h
+++ b/src/include/smash/outputformatter.h
@@ -10,7 +10,9 @@
 #ifndef SRC_INCLUDE_SMASH_OUTPUTFORMATTER_H_
 #define SRC_INCLUDE_SMASH_OUTPUTFORMATTER_H_
 
+#include <cmath>
 #include <functional>
+#include <limits>
 #include <map>
 #include <optional>
 #include <sstream>
@@ -323,11 +325,13 @@ class OutputFormatter {
         });
       } else if (quantity == "tau") {
         getters_.push_back([this](const ParticleData& in) {
-          return this->converter_.as_double(in.hyperbolic_time());
+          return this->converter_.as_double(
+              inside_light_cone(in) ? in.hyperbolic_time() : undefined);
         });
       } else if (quantity == "eta" || quantity == "eta_s") {
         getters_.push_back([this](const ParticleData& in) {
-          return this->converter_.as_double(in.spatial_rapidity());
+          return this->converter_.as_double(
+              inside_light_cone(in) ? in.spatial_rapidity() : undefined);
         });
       } else if (quantity == "mt") {
         getters_.push_back([this](const ParticleData& in) {
@@ -571,6 +575,17 @@ class OutputFormatter {
   const std::vector<std::pair<std::string, std::string>> aliases_ = {
       {"ID", "id"}, {"eta_s", "eta"}, {"y_rap", "Rap"}};
 
+  /// Value of quantities that do not exist for a particle
+  static constexpr double undefined = std::numeric_limits<double>::quiet_NaN();
+
+  /**
+   * Hyperbolic time and spatial rapidity are only defined if \f$t > |z|\f$.
+   * \param[in] in particle whose position is checked
+   */
+  static bool inside_light_cone(const ParticleData& in) {
+    return in.position().x0() > std::abs(in.position().x3());
+  }
+
   /// Checks whether the quantities requested are known and unique
   void validate_quantities() {
     if (quantities_.empty()) {
diff --git a/src/oscaroutput.cc b/src/oscaroutput.cc
index 6d4d804..e4c1793 100644
--- a/src/oscaroutput.cc
+++ b/src/oscaroutput.cc
@@ -792,12 +792,13 @@ void OscarOutput<Format, Contents>::at_intermediate_time(
  * <tr>
  * <td>\key tau
  * <td>\c double
- * <td>Hyperbolic time \f$\tau=\sqrt{t^2-z^2}\f$
+ * <td>Hyperbolic time \f$\tau=\sqrt{t^2-z^2}\f$ (NaN unless \f$t>|z|\f$)
  * </tr>
  * <tr>
  * <td>\key eta, \key eta_s
  * <td>\c double
  * <td>Spacetime rapidity \f$\eta_s=\frac{1}{2}\log\frac{t+z}{t-z}\f$
+ *     (NaN unless \f$t>|z|\f$)
  * </tr>
  * <tr>
  * <td>\key mt
-- 
2.43.0


From f9e079e8c3b149a5c4b1cff4b3b54c7309599acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:57 +0000
Subject: [PATCH 12/57] fix: no time step of zero length at the end of the
 evolution

---
 src/include/smash/clock.h      | 10 ++++++----
 src/include/smash/experiment.h |  5 ++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/include/smash/clock.h b/src/include/smash/clock.h
index 872a7d8..dd59173 100644
--- a/src/include/smash/clock.h
+++ b/src/include/smash/clock.h
@@ -385,8 +385,6 @@ class UniformClock : public Clock {
   }
 
  private:
-  /// A multiplier transferring the internal integer to the real time.
-  static constexpr double to_double = resolution;
   /// A multiplier transferring the real time to the internal integer.
   static constexpr double from_double = 1. / resolution;
 
@@ -394,8 +392,12 @@ class UniformClock : public Clock {
   static Representation convert(double x) {
     return numeric_cast<Representation>(std::round(x * from_double));
   }
-  /// Convert an internal int value \p x into the double representation.
-  static double convert(Representation x) { return x * to_double; }
+  /**
+   * Convert an internal int value \p x into the double representation. Dividing
+   * gives the number closest to the decimal representation, e.g. exactly 1.1,
+   * which is not the case if multiplying with the resolution.
+   */
+  static double convert(Representation x) { return x / from_double; }
 
   /// The time step size \f$\Delta t\f$ in \f$10^{-6}\,\mathrm{fm}\f$.
   Representation timestep_duration_ = 0;
diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index 5eeb1c9..93107ee 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2539,7 +2539,10 @@ void Experiment<Modus>::run_time_evolution(const double t_end,
     throw std::logic_error(
         "Experiment cannot evolve the system beyond End_Time.");
   }
-  while (*(parameters_.labclock) < t_end) {
+  // The clock stops at the end time in units of its resolution, which might be
+  // slightly before t_end.
+  while (*(parameters_.labclock) < t_end &&
+         parameters_.labclock->timestep_duration() > 0.0) {
     const double dt = parameters_.labclock->timestep_duration();
     logg[LExperiment].debug("Timestepless propagation for next ", dt, " fm.");
 
-- 
2.43.0


From 166665f6b499bb5e61097d69b4e86dce044851db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:07 +0000
Subject: [PATCH 13/57] fix: compute baryon density lattice needed by the
 symmetry potential

---
 src/include/smash/experiment.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index 93107ee..ea50197 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -1876,9 +1876,12 @@ Experiment<Modus>::Experiment(Configuration &config,
           std::make_unique<RectangularLattice<std::array<FourVector, 4>>>(
               l, n, origin, periodic, LatticeUpdate::EveryTimestep);
 
-      if (potentials_->use_skyrme()) {
+      // The symmetry force depends on the baryon density, too
+      if (potentials_->use_skyrme() || potentials_->use_symmetry()) {
         jmu_B_lat_ = std::make_unique<DensityLattice>(
             l, n, origin, periodic, LatticeUpdate::EveryTimestep);
+      }
+      if (potentials_->use_skyrme()) {
         UB_lat_ = std::make_unique<RectangularLattice<FourVector>>(
             l, n, origin, periodic, LatticeUpdate::EveryTimestep);
         FB_lat_ = std::make_unique<
@@ -2937,8 +2940,8 @@ void Experiment<Modus>::update_potentials() {
                      LatticeUpdate::EveryTimestep, DensityType::Baryon,
                      density_param_, ensembles_,
                      parameters_.labclock->timestep_duration(), true);
-      const size_t UBlattice_size = UB_lat_->size();
-      for (size_t i = 0; i < UBlattice_size; i++) {
+      const size_t jB_lattice_size = jmu_B_lat_->size();
+      for (size_t i = 0; i < jB_lattice_size; i++) {
         auto jB = (*jmu_B_lat_)[i];
         const FourVector flow_four_velocity_B =
             std::abs(jB.rho()) > very_small_double ? jB.jmu_net() / jB.rho()
-- 
2.43.0


From 2d9194f292e4912abc0b32045a9fce6a6f176183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:04 +0000
Subject: [PATCH 14/57] fix: symmetry potential depending on baryon density
 without baryons

---
 src/potentials.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/potentials.cc b/src/potentials.cc
index 4abd3b5..d095532 100644
--- a/src/potentials.cc
+++ b/src/potentials.cc
@@ -83,8 +83,10 @@ double Potentials::skyrme_pot(const double baryon_density, const double A,
 
 double Potentials::symmetry_S(const double baryon_density) const {
   if (symmetry_is_rhoB_dependent_) {
-    return 12.3 * std::pow(baryon_density / nuclear_density, 2. / 3.) +
-           20.0 * std::pow(baryon_density / nuclear_density, symmetry_gamma_);
+    // Powers of negative densities (antimatter) are not defined
+    const double rhoB_over_rho0 = std::abs(baryon_density) / nuclear_density;
+    return 12.3 * std::pow(rhoB_over_rho0, 2. / 3.) +
+           20.0 * std::pow(rhoB_over_rho0, symmetry_gamma_);
   } else {
     return 0.;
   }
@@ -93,7 +95,8 @@ double Potentials::symmetry_pot(const double baryon_isospin_density,
                                 const double baryon_density) const {
   double pot = mev_to_gev * 2. * symmetry_S_Pot_ * baryon_isospin_density /
                nuclear_density;
-  if (symmetry_is_rhoB_dependent_) {
+  if (symmetry_is_rhoB_dependent_ &&
+      std::abs(baryon_density) > very_small_double) {
     pot += mev_to_gev * symmetry_S(baryon_density) * baryon_isospin_density *
            baryon_isospin_density / (baryon_density * baryon_density);
   }
@@ -249,7 +252,7 @@ std::pair<ThreeVector, ThreeVector> Potentials::vdf_force(
 
 double Potentials::dVsym_drhoI3(const double rhoB, const double rhoI3) const {
   double term1 = 2. * symmetry_S_Pot_ / nuclear_density;
-  if (symmetry_is_rhoB_dependent_) {
+  if (symmetry_is_rhoB_dependent_ && std::abs(rhoB) > very_small_double) {
     double term2 = 2. * rhoI3 * symmetry_S(rhoB) / (rhoB * rhoB);
     return mev_to_gev * (term1 + term2);
   } else {
@@ -258,9 +261,11 @@ double Potentials::dVsym_drhoI3(const double rhoB, const double rhoI3) const {
 }
 
 double Potentials::dVsym_drhoB(const double rhoB, const double rhoI3) const {
-  if (symmetry_is_rhoB_dependent_) {
-    double rhoB_over_rho0 = rhoB / nuclear_density;
-    double term1 = 8.2 * std::pow(rhoB_over_rho0, -1. / 3.) / nuclear_density +
+  if (symmetry_is_rhoB_dependent_ && std::abs(rhoB) > very_small_double) {
+    const double rhoB_over_rho0 = std::abs(rhoB) / nuclear_density;
+    const int sgn = rhoB > 0 ? 1 : -1;
+    double term1 = sgn * 8.2 * std::pow(rhoB_over_rho0, -1. / 3.) /
+                       nuclear_density +
                    20. * symmetry_gamma_ *
                        std::pow(rhoB_over_rho0, symmetry_gamma_) / rhoB;
     double term2 = -2. * symmetry_S(rhoB) / rhoB;
-- 
2.43.0


From d50ae2328a2ef3fcd9ad453e77c140b10a3813b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:45 +0000
Subject: [PATCH 15/57] fix: density in thermodynamic output with space-like
 net current

---
 src/thermodynamicoutput.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/thermodynamicoutput.cc b/src/thermodynamicoutput.cc
index 87a65bb..373cfd9 100644
--- a/src/thermodynamicoutput.cc
+++ b/src/thermodynamicoutput.cc
@@ -185,13 +185,17 @@ void ThermodynamicOutput::at_intermediate_time(
   std::fprintf(file_.get(), "%6.2f ", clock->current_time());
   constexpr bool compute_gradient = false;
   if (out_par_.td_rho_eckart) {
-    FourVector jmu = FourVector();
+    /* The net current is not necessarily time-like if there are positive and
+     * negative contributions, so the density cannot be calculated from it. */
+    ParticleList plist;
     for (const Particles &particles : ensembles) {
-      jmu += std::get<1>(current_eckart(
-          out_par_.td_position, particles, dens_param, out_par_.td_dens_type,
-          compute_gradient, out_par_.td_smearing));
+      const ParticleList tmp = particles.copy_to_vector();
+      plist.insert(plist.end(), tmp.begin(), tmp.end());
     }
-    std::fprintf(file_.get(), "%15.12f ", jmu.abs());
+    const double rho_eckart = std::get<0>(current_eckart(
+        out_par_.td_position, plist, dens_param, out_par_.td_dens_type,
+        compute_gradient, out_par_.td_smearing));
+    std::fprintf(file_.get(), "%15.12f ", rho_eckart);
   }
   if (out_par_.td_tmn || out_par_.td_tmn_landau || out_par_.td_v_landau) {
     EnergyMomentumTensor Tmn;
-- 
2.43.0


From f3035a73c27a3e7c0f1d44645df716ba815a04d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:16 +0000
Subject: [PATCH 16/57] fix: do not share integration workspaces between nested
 integrals

The normalisation of a spectral function and the tabulated width of a decay
into a resonance are computed lazily, possibly while another one is being
integrated. Both used a function-level or file-level GSL workspace, so that
the inner integration corrupted the outer one and the result depended on what
had been computed before (tabulations found or not, earlier events).
---
 src/decaytype.cc    | 5 ++++-
 src/particletype.cc | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/decaytype.cc b/src/decaytype.cc
index 7206bc8..d7ea222 100644
--- a/src/decaytype.cc
+++ b/src/decaytype.cc
@@ -150,11 +150,14 @@ double TwoBodyDecaySemistable::rho(double mass) const {
     const double tabulation_interval = std::max(2., 10. * res->width_at_pole());
     const double m_stable = particle_types_[0]->mass();
     const double mres_min = res->min_mass_kinematic();
+    /* The integrand may tabulate the decays of the daughter in turn, hence the
+     * integrator must not be shared. */
+    Integrator rho_integrate;
 
     tabulation_ = std::make_unique<Tabulation>(
         threshold(), tabulation_interval, num_tab_pts, [&](double sqrts) {
           const double mres_max = sqrts - m_stable;
-          return integrate(mres_min, mres_max, [&](double m) {
+          return rho_integrate(mres_min, mres_max, [&](double m) {
             return integrand_rho_Manley_1res(sqrts, m, m_stable, res, L_);
           });
         });
diff --git a/src/particletype.cc b/src/particletype.cc
index b00ed82..6de50d7 100644
--- a/src/particletype.cc
+++ b/src/particletype.cc
@@ -570,8 +570,10 @@ double ParticleType::get_partial_in_width(const double m,
 double ParticleType::spectral_function(double m) const {
   if (norm_factor_ < 0.) {
     /* Initialize the normalization factor
-     * by integrating over the unnormalized spectral function. */
-    static /*thread_local (see #3075)*/ Integrator integrate;
+     * by integrating over the unnormalized spectral function.
+     * The integrand may need the normalization of further resonances (via the
+     * mass-dependent width), hence the integrator must not be shared. */
+    Integrator integrate;
     const double width = width_at_pole();
     const double m_pole = mass();
     // We transform the integral using m = m_min + width_pole * tan(x), to
-- 
2.43.0


From 6536aeb074a99419e5764f10de7b0fe4cacac9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 17/57] fix: forget the beam momenta of the previous event

With frozen Fermi motion the nucleons were propagated with the beam momenta
of the first event in all events (and the vector grew with every event).
---
 src/include/smash/experiment.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index ea50197..be6c83c 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2244,6 +2244,7 @@ void Experiment<Modus>::initialize_new_event() {
    * for every ensemble.
    */
   if (modus_.is_collider() && modus_.fermi_motion() == FermiMotion::Frozen) {
+    beam_momentum_.clear();  // remove the beam momenta of the previous event
     for (ParticleData &particle : ensembles_[0]) {
       const double m = particle.effective_mass();
       double v_beam = 0.0;
-- 
2.43.0


From d4fd68e47a2e6e5fc86f144b86066700900a15d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:45 +0000
Subject: [PATCH 18/57] fix: count the field outputs in VTK format per event

Unlike all other VTK files, the steps of Efield and Bfield were numbered
through from one event to the next.
---
 src/vtkoutput.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vtkoutput.cc b/src/vtkoutput.cc
index affe14e..1b55cc1 100644
--- a/src/vtkoutput.cc
+++ b/src/vtkoutput.cc
@@ -69,6 +69,7 @@ void VtkOutput::at_eventstart(const Particles &particles,
   vtk_tmn_output_counter_ = 0;
   vtk_tmn_landau_output_counter_ = 0;
   vtk_v_landau_output_counter_ = 0;
+  vtk_fields_output_counter_ = 0;
   vtk_fluidization_counter_ = 0;
 
   current_event_ = event_label.event_number;
-- 
2.43.0


From b3ac4a7fc9df0356359fdbc3f16530839849ef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:48 +0000
Subject: [PATCH 19/57] fix: reset the lattices at the start of an event

The first output of densities, the finite-difference time derivatives, the
initial mean-field energy and the thresholds during the first time step were
taken from what the lattices contained at the end of the previous event.
---
 src/include/smash/experiment.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index be6c83c..99888bf 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2086,6 +2086,25 @@ void Experiment<Modus>::initialize_new_event() {
   for (Particles &particles : ensembles_) {
     particles.reset();
   }
+  // Events are independent: forget what the lattices contain at the end of the
+  // previous event
+  const auto reset_lattice = [](const auto &lattice) {
+    if (lattice != nullptr) {
+      lattice->reset();
+    }
+  };
+  reset_lattice(j_QBS_lat_);
+  reset_lattice(jmu_B_lat_);
+  reset_lattice(jmu_I3_lat_);
+  reset_lattice(jmu_el_lat_);
+  reset_lattice(jmu_custom_lat_);
+  reset_lattice(fields_lat_);
+  reset_lattice(UB_lat_);
+  reset_lattice(UI3_lat_);
+  reset_lattice(FB_lat_);
+  reset_lattice(FI3_lat_);
+  reset_lattice(EM_lat_);
+  reset_lattice(Tmn_);
 
   // Sample particles according to the initial conditions
   double start_time = -1.0;
-- 
2.43.0


From c25424b334450bb901c252e9cf08bf0b56c24669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:16 +0000
Subject: [PATCH 20/57] fix: initialise the partial weights of actions

Photon and dilepton actions never choose a hadronic channel, but the output
of them prints the partial weight, i.e. the content of uninitialised memory.
---
 src/include/smash/decayaction.h   | 2 +-
 src/include/smash/scatteraction.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/decayaction.h b/src/include/smash/decayaction.h
index ae9ce1e..01f6cdf 100644
--- a/src/include/smash/decayaction.h
+++ b/src/include/smash/decayaction.h
@@ -181,7 +181,7 @@ class DecayAction : public Action {
   double total_width_;
 
   /// partial decay width to the chosen outgoing channel
-  double partial_width_;
+  double partial_width_ = 0.0;
 
   /// Angular momentum of the decay
   int L_ = 0;
diff --git a/src/include/smash/scatteraction.h b/src/include/smash/scatteraction.h
index 29cf5f6..b8e9612 100644
--- a/src/include/smash/scatteraction.h
+++ b/src/include/smash/scatteraction.h
@@ -280,7 +280,7 @@ class ScatterAction : public Action {
   double sum_of_partial_cross_sections_;
 
   /// Partial cross-section to the chosen outgoing channel
-  double partial_cross_section_;
+  double partial_cross_section_ = 0.0;
 
   /// Do this collision isotropically?
   bool isotropic_ = false;
-- 
2.43.0


From 0b528ebdb658aae5d8f1c009632e971ddb2faab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:35 +0000
Subject: [PATCH 21/57] fix: refuse the two Oscar formats that share a file

---
 src/include/smash/experiment.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index 99888bf..fa47d6b 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -1530,6 +1530,14 @@ Experiment<Modus>::Experiment(Configuration &config,
             << " and this would produce the same output file twice.";
         abort_because_of_invalid_input_file();
       }
+      if (oscar2013_requested && formats_contains("Oscar1999")) {
+        logg[LExperiment].fatal()
+            << "The \"Oscar1999\" and \"Oscar2013\" formats cannot be "
+               "requested together for "
+            << std::quoted(output_contents[i])
+            << "\ncontent as they would be written to the same file.";
+        abort_because_of_invalid_input_file();
+      }
       if (custom_binary_requested && oscar2013_bin_requested &&
           are_given_quantities_oscar2013_ones) {
         logg[LExperiment].fatal()
-- 
2.43.0


From 372852e203ae7123bd9cf1026ff9243e3596db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 22/57] fix: scale the maximum of a constant elastic cross
 section

---
 src/include/smash/scatteractionsfinder.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/smash/scatteractionsfinder.h b/src/include/smash/scatteractionsfinder.h
index 270fccf..b21a303 100644
--- a/src/include/smash/scatteractionsfinder.h
+++ b/src/include/smash/scatteractionsfinder.h
@@ -224,7 +224,9 @@ class ScatterActionsFinder : public ActionFinderInterface {
    */
   double max_transverse_distance_sqr(int testparticles) const {
     return (is_constant_elastic_isotropic()
-                ? finder_parameters_.elastic_parameter
+                ? (finder_parameters_.elastic_parameter +
+                   finder_parameters_.additional_el_xs) *
+                      finder_parameters_.scale_xs
                 : finder_parameters_.maximum_cross_section) /
            testparticles * fm2_mb * M_1_PI;
   }
-- 
2.43.0


From a56ce43249e2ac6acda2e11f7769c2bfc43a8d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:39 +0000
Subject: [PATCH 23/57] fix: report outputs that could not be written

Failing writes, closes and renames of output files were ignored, so that a run
on a full disk reported success and left truncated files under their final
names. A file that could not be opened led to a crash.
---
 src/file.cc                       | 28 ++++++++++++++++++++--
 src/include/smash/file.h          | 14 ++++++++++-
 src/smash.cc                      | 17 ++++++++++++-
 src/thermodynamiclatticeoutput.cc | 40 ++++++++++++++++---------------
 src/vtkoutput.cc                  | 29 ++++++++++++++++++++++
 5 files changed, 105 insertions(+), 23 deletions(-)

diff --git a/src/file.cc b/src/file.cc
index 006cada..25fd863 100644
--- a/src/file.cc
+++ b/src/file.cc
@@ -9,7 +9,14 @@
 
 #include "smash/file.h"
 
+#include <system_error>
+
+#include "smash/logging.h"
+
 namespace smash {
+static constexpr int LOutput = LogArea::Output::id;
+
+bool RenamingFilePtr::any_failed_ = false;
 
 FilePtr fopen(const std::filesystem::path& filename, const std::string& mode) {
   FilePtr f{std::fopen(filename.c_str(), mode.c_str())};
@@ -22,16 +29,33 @@ RenamingFilePtr::RenamingFilePtr(const std::filesystem::path& filename,
   filename_unfinished_ = filename;
   filename_unfinished_ += ".unfinished";
   file_ = std::fopen(filename_unfinished_.c_str(), mode.c_str());
+  if (file_ == nullptr) {
+    throw std::runtime_error("Cannot open " + filename_unfinished_.string() +
+                             ": " + std::strerror(errno));
+  }
 }
 
 FILE* RenamingFilePtr::get() { return file_; }
 
 RenamingFilePtr::~RenamingFilePtr() {
-  std::fclose(file_);
+  const bool write_error = std::ferror(file_) != 0;
+  const bool close_error = std::fclose(file_) != 0;
+  if (write_error || close_error) {
+    // the content of the file is not complete, hence it is not renamed
+    logg[LOutput].error("Failed to write ", filename_unfinished_.string());
+    any_failed_ = true;
+    return;
+  }
   // we rename the output file only if we are not unwinding the stack
   // because of an exception
   if (std::uncaught_exceptions() == uncaught_exceptions_) {
-    std::filesystem::rename(filename_unfinished_, filename_);
+    std::error_code error;
+    std::filesystem::rename(filename_unfinished_, filename_, error);
+    if (error) {
+      logg[LOutput].error("Failed to rename ", filename_unfinished_.string(),
+                          ": ", error.message());
+      any_failed_ = true;
+    }
   }
 }
 
diff --git a/src/include/smash/file.h b/src/include/smash/file.h
index 80a4a33..712f3f4 100644
--- a/src/include/smash/file.h
+++ b/src/include/smash/file.h
@@ -78,15 +78,27 @@ class RenamingFilePtr {
    * \param[in] mode The mode in which the file should be opened (see
    *                 `std::fopen`).
    * \return The constructed object.
+   * \throws runtime_error if the file cannot be opened.
    */
   RenamingFilePtr(const std::filesystem::path& filename,
                   const std::string& mode);
   /// Get the underlying `FILE*` pointer.
   FILE* get();
-  /// Close the file and rename it.
+  /**
+   * Close the file and rename it. A file which could not be written completely
+   * keeps its temporary name and is reported by any_failed.
+   */
   ~RenamingFilePtr();
+  /**
+   * \return Whether any file, destroyed so far, could not be completely
+   *         written or renamed. As a destructor cannot throw, this has to be
+   *         asked for, once the files are destroyed.
+   */
+  static bool any_failed() { return any_failed_; }
 
  private:
+  /// Whether any file could not be completely written or renamed.
+  static bool any_failed_;
   /// Internal file pointer.
   FILE* file_;
   /// Path of the finished file.
diff --git a/src/smash.cc b/src/smash.cc
index ef10fd7..f6573c2 100644
--- a/src/smash.cc
+++ b/src/smash.cc
@@ -9,12 +9,14 @@
 #include <getopt.h>
 
 #include <filesystem>
+#include <fstream>
 #include <set>
 #include <sstream>
 #include <vector>
 
 #include "smash/decaymodes.h"
 #include "smash/experiment.h"
+#include "smash/file.h"
 #include "smash/filelock.h"
 #include "smash/random.h"
 #include "smash/scatteractionsfinder.h"
@@ -667,7 +669,8 @@ int main(int argc, char *argv[]) {
 
     /* Keep a copy of the configuration that was used in the output directory
      * also save information about SMASH build as a comment */
-    std::ofstream(output_path / "config.yaml")
+    std::ofstream config_file(output_path / "config.yaml");
+    config_file
         << "# " << SMASH_VERSION << '\n'
 #ifdef GIT_BRANCH
         << "# Branch   : " << GIT_BRANCH << '\n'
@@ -678,6 +681,11 @@ int main(int argc, char *argv[]) {
         << "# Build    : " << CMAKE_BUILD_TYPE << '\n'
         << "# Date     : " << BUILD_DATE << '\n'
         << configuration.to_string() << '\n';
+    config_file.close();
+    if (!config_file) {
+      throw std::runtime_error("Not possible to write config.yaml to \"" +
+                               output_path.native() + "\".");
+    }
 
     const auto hash =
         initialize_particles_decays_and_return_hash(configuration, version);
@@ -691,6 +699,13 @@ int main(int argc, char *argv[]) {
     // Run the experiment
     logg[LMain].trace(SMASH_SOURCE_LOCATION, " run the Experiment");
     experiment->run();
+
+    // Close the output files, before checking that all of them were written
+    experiment.reset();
+    if (RenamingFilePtr::any_failed()) {
+      throw std::runtime_error("Not all output could be written to \"" +
+                               output_path.native() + "\".");
+    }
   } catch (std::exception &e) {
     logg[LMain].fatal() << "SMASH failed with the following error:\n"
                         << e.what();
diff --git a/src/thermodynamiclatticeoutput.cc b/src/thermodynamiclatticeoutput.cc
index 32882fe..fa2f9b9 100644
--- a/src/thermodynamiclatticeoutput.cc
+++ b/src/thermodynamiclatticeoutput.cc
@@ -181,6 +181,16 @@ namespace smash {
 /* initialization of the static member version */
 const double_t ThermodynamicLatticeOutput::version = 1.0;
 
+/**
+ * \return A stream, which is not yet associated to any file and which throws
+ *         if opening, writing or closing its file fails.
+ */
+static std::shared_ptr<std::ofstream> make_stream() {
+  auto stream = std::make_shared<std::ofstream>();
+  stream->exceptions(std::ios::failbit | std::ios::badbit);
+  return stream;
+}
+
 ThermodynamicLatticeOutput::ThermodynamicLatticeOutput(
     const std::filesystem::path &path, const std::string &name,
     const OutputParameters &out_par, const bool enable_ascii,
@@ -197,46 +207,39 @@ ThermodynamicLatticeOutput::ThermodynamicLatticeOutput(
   }
   if (enable_ascii_) {
     if (out_par_.td_rho_eckart) {
-      output_ascii_files_[ThermodynamicQuantity::EckartDensity] =
-          std::make_shared<std::ofstream>(nullptr);
+      output_ascii_files_[ThermodynamicQuantity::EckartDensity] = make_stream();
     }
     if (out_par_.td_tmn_landau) {
-      output_ascii_files_[ThermodynamicQuantity::TmnLandau] =
-          std::make_shared<std::ofstream>(nullptr);
+      output_ascii_files_[ThermodynamicQuantity::TmnLandau] = make_stream();
     }
     if (out_par_.td_tmn) {
-      output_ascii_files_[ThermodynamicQuantity::Tmn] =
-          std::make_shared<std::ofstream>(nullptr);
+      output_ascii_files_[ThermodynamicQuantity::Tmn] = make_stream();
     }
     if (out_par_.td_v_landau) {
       output_ascii_files_[ThermodynamicQuantity::LandauVelocity] =
-          std::make_shared<std::ofstream>(nullptr);
+          make_stream();
     }
     if (out_par_.td_jQBS) {
-      output_ascii_files_[ThermodynamicQuantity::j_QBS] =
-          std::make_shared<std::ofstream>(nullptr);
+      output_ascii_files_[ThermodynamicQuantity::j_QBS] = make_stream();
     }
   }
   if (enable_binary_) {
     if (out_par_.td_rho_eckart) {
       output_binary_files_[ThermodynamicQuantity::EckartDensity] =
-          std::make_shared<std::ofstream>(nullptr);
+          make_stream();
     }
     if (out_par_.td_tmn_landau) {
-      output_binary_files_[ThermodynamicQuantity::TmnLandau] =
-          std::make_shared<std::ofstream>(nullptr);
+      output_binary_files_[ThermodynamicQuantity::TmnLandau] = make_stream();
     }
     if (out_par_.td_tmn) {
-      output_binary_files_[ThermodynamicQuantity::Tmn] =
-          std::make_shared<std::ofstream>(nullptr);
+      output_binary_files_[ThermodynamicQuantity::Tmn] = make_stream();
     }
     if (out_par_.td_v_landau) {
       output_binary_files_[ThermodynamicQuantity::LandauVelocity] =
-          std::make_shared<std::ofstream>(nullptr);
+          make_stream();
     }
     if (out_par_.td_jQBS) {
-      output_binary_files_[ThermodynamicQuantity::j_QBS] =
-          std::make_shared<std::ofstream>(nullptr);
+      output_binary_files_[ThermodynamicQuantity::j_QBS] = make_stream();
     }
   }
 }
@@ -761,8 +764,7 @@ void ThermodynamicLatticeOutput::write_therm_lattice_ascii_header(
   *fp << "#Thermodynamic Lattice Output version: "
       << ThermodynamicLatticeOutput::version << std::endl;
   *fp << std::setprecision(6);
-  *fp << "#Quantity:"
-      << " " << std::string(to_string(tq)) << std::endl;
+  *fp << "#Quantity:" << " " << std::string(to_string(tq)) << std::endl;
   *fp << "#Grid dimensions: " << nodes_[0] << " " << nodes_[1] << " "
       << nodes_[2] << std::endl;
   *fp << "#Grid spacing: " << sizes_[0] << " " << sizes_[1] << " " << sizes_[2]
diff --git a/src/vtkoutput.cc b/src/vtkoutput.cc
index 1b55cc1..d666329 100644
--- a/src/vtkoutput.cc
+++ b/src/vtkoutput.cc
@@ -104,6 +104,10 @@ void VtkOutput::write(const Particles &particles) {
            current_event_, current_ensemble_,
            vtk_output_counter_[counter_key()]);
   FilePtr file_{std::fopen((base_path_ / filename).native().c_str(), "w")};
+  if (!file_) {
+    throw std::runtime_error(std::string("Cannot open ") + filename + ": " +
+                             std::strerror(errno));
+  }
 
   /* Legacy VTK file format */
   std::fprintf(file_.get(), "# vtk DataFile Version 2.0\n");
@@ -175,6 +179,21 @@ void VtkOutput::write(const Particles &particles) {
     std::fprintf(file_.get(), "%g %g %g\n", p.momentum().x1(),
                  p.momentum().x2(), p.momentum().x3());
   }
+  const bool write_error = std::ferror(file_.get()) != 0;
+  const bool close_error = std::fclose(file_.release()) != 0;
+  if (write_error || close_error) {
+    throw std::runtime_error(std::string("Failed to write ") + filename);
+  }
+}
+
+/**
+ * Make a stream report errors in opening, writing or closing its file by an
+ * exception, as else they would go unnoticed.
+ *
+ * \param[in] file Stream to set up.
+ */
+static void throw_on_error(std::ofstream &file) {
+  file.exceptions(std::ios::failbit | std::ios::badbit);
 }
 
 /*!\Userguide
@@ -254,11 +273,13 @@ void VtkOutput::thermodynamics_output(
     return;
   }
   std::ofstream file;
+  throw_on_error(file);
   const std::string varname = make_varname(tq, dens_type);
   file.open(make_filename(varname, vtk_density_output_counter_), std::ios::out);
   write_vtk_header(file, lattice, varname);
   write_vtk_scalar(file, lattice, varname,
                    [&](DensityOnLattice &node) { return node.rho(); });
+  file.close();
   vtk_density_output_counter_++;
 }
 
@@ -283,6 +304,7 @@ void VtkOutput::thermodynamics_output(
     return;
   }
   std::ofstream file;
+  throw_on_error(file);
   const std::string varname = make_varname(tq, dens_type);
 
   if (tq == ThermodynamicQuantity::Tmn) {
@@ -322,6 +344,7 @@ void VtkOutput::thermodynamics_output(
                        return -u.velocity();
                      });
   }
+  file.close();
 }
 
 void VtkOutput::fields_output(
@@ -331,17 +354,21 @@ void VtkOutput::fields_output(
     return;
   }
   std::ofstream file1;
+  throw_on_error(file1);
   file1.open(make_filename(name1, vtk_fields_output_counter_), std::ios::out);
   write_vtk_header(file1, lat, name1);
   write_vtk_vector(
       file1, lat, name1,
       [&](std::pair<ThreeVector, ThreeVector> &node) { return node.first; });
+  file1.close();
   std::ofstream file2;
+  throw_on_error(file2);
   file2.open(make_filename(name2, vtk_fields_output_counter_), std::ios::out);
   write_vtk_header(file2, lat, name2);
   write_vtk_vector(
       file2, lat, name2,
       [&](std::pair<ThreeVector, ThreeVector> &node) { return node.second; });
+  file2.close();
   vtk_fields_output_counter_++;
 }
 
@@ -350,6 +377,7 @@ void VtkOutput::thermodynamics_output(const GrandCanThermalizer &gct) {
     return;
   }
   std::ofstream file;
+  throw_on_error(file);
   file.open(make_filename("fluidization_td", vtk_fluidization_counter_++),
             std::ios::out);
   write_vtk_header(file, gct.lattice(), "fluidization_td");
@@ -365,6 +393,7 @@ void VtkOutput::thermodynamics_output(const GrandCanThermalizer &gct) {
                    [&](ThermLatticeNode &node) { return node.mub(); });
   write_vtk_scalar(file, gct.lattice(), "mus",
                    [&](ThermLatticeNode &node) { return node.mus(); });
+  file.close();
 }
 
 }  // namespace smash
-- 
2.43.0


From 375efe25e892c5592f7c94b60d5de8093fc860fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:49 +0000
Subject: [PATCH 24/57] fix: do not terminate if the lock file cannot be
 removed

---
 src/filelock.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/filelock.cc b/src/filelock.cc
index 3a6449e..a12ca1e 100644
--- a/src/filelock.cc
+++ b/src/filelock.cc
@@ -14,6 +14,8 @@
 #include <sys/types.h>
 #include <unistd.h>
 
+#include <system_error>
+
 namespace smash {
 
 FileLock::FileLock(const std::filesystem::path& path)
@@ -40,7 +42,9 @@ bool FileLock::acquire() {
 
 FileLock::~FileLock() {
   if (acquired_) {
-    std::filesystem::remove(path_);
+    // A destructor must not throw, a lock that stays has to be removed by hand.
+    std::error_code error;
+    std::filesystem::remove(path_, error);
   }
 }
 
-- 
2.43.0


From 4f107e0519a79c4e0032cbe50c4bb4269cc7b770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:56 +0000
Subject: [PATCH 25/57] fix: do not take a failed allocation for the end of the
 input

std::getline turns a failed allocation into the bad bit of the stream, so that
particle lists were cut without notice.
---
 src/inputfunctions.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/inputfunctions.cc b/src/inputfunctions.cc
index b5757fb..810f748 100644
--- a/src/inputfunctions.cc
+++ b/src/inputfunctions.cc
@@ -10,6 +10,7 @@
 #include "smash/inputfunctions.h"
 
 #include <sstream>
+#include <stdexcept>
 #include <vector>
 
 #include "smash/logging.h"
@@ -41,6 +42,9 @@ std::vector<Line> line_parser(const std::string &input) {
     lines.emplace_back(line_number, std::move(line));
     line = std::string();
   }
+  if (input_stream.bad()) {
+    throw std::runtime_error("Error while splitting the input into lines.");
+  }
   return lines;
 }
 
-- 
2.43.0


From 09b69cbc2dec5d5dc7d6afe258c1552853411676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:10 +0000
Subject: [PATCH 26/57] fix: do not cut the copy of the configuration if an
 allocation fails

---
 src/configuration.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/configuration.cc b/src/configuration.cc
index 0325c1f..35c4dcc 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -359,6 +359,8 @@ void Configuration::enclose_into_section(KeyLabels section) {
 
 std::string Configuration::to_string() const {
   std::stringstream s;
+  // a failed allocation would else just cut the returned string
+  s.exceptions(std::ios::badbit);
   s << root_node_;
   return s.str();
 }
-- 
2.43.0


From 1d6cc44e7b613ceabc91b948cbd8dc663ad85f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:21 +0000
Subject: [PATCH 27/57] fix: recompute cached tabulations that are incomplete

A tabulation cut short (by a killed run or a full disk) was used with whatever
happened to be in memory in place of its missing values.
---
 src/tabulation.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/tabulation.cc b/src/tabulation.cc
index 10d49fc..21ad0b4 100644
--- a/src/tabulation.cc
+++ b/src/tabulation.cc
@@ -72,7 +72,7 @@ static void swrite(std::ofstream& stream, double x) {
  * \return Read value.
  */
 static double sread_double(std::ifstream& stream) {
-  double x;
+  double x = 0.0;
   stream.read(reinterpret_cast<char*>(&x), sizeof(x));
   return x;
 }
@@ -98,7 +98,7 @@ static void swrite(std::ofstream& stream, size_t x) {
  * \return Read value.
  */
 static size_t sread_size(std::ifstream& stream) {
-  uint64_t x;
+  uint64_t x = 0;
   stream.read(reinterpret_cast<char*>(&x), sizeof(x));
   if (x > std::numeric_limits<size_t>::max()) {
     throw std::runtime_error("trying to read vector larger than supported");
@@ -129,8 +129,9 @@ static void swrite(std::ofstream& stream, const std::vector<double> x) {
 static std::vector<double> sread_vector(std::ifstream& stream) {
   const size_t n = sread_size(stream);
   std::vector<double> x;
-  x.resize(n);
-  stream.read(reinterpret_cast<char*>(x.data()), sizeof(double) * n);
+  for (size_t i = 0; i < n && stream; i++) {
+    x.push_back(sread_double(stream));
+  }
   return x;
 }
 
@@ -153,7 +154,7 @@ static void swrite(std::ofstream& stream, sha256::Hash x) {
  * \return Read value.
  */
 static sha256::Hash sread_hash(std::ifstream& stream) {
-  sha256::Hash x;
+  sha256::Hash x{};
   stream.read(reinterpret_cast<char*>(x.data()), x.size());
   return x;
 }
@@ -176,6 +177,10 @@ Tabulation Tabulation::from_file(std::ifstream& stream, sha256::Hash hash) {
   t.x_max_ = sread_double(stream);
   t.inv_dx_ = sread_double(stream);
   t.values_ = sread_vector(stream);
+  if (!stream) {
+    // The file is incomplete, e.g. because the run that wrote it was killed.
+    return Tabulation();
+  }
   return t;
 }
 
-- 
2.43.0


From 30d1d026f6f90c9582d380d5d4c38eea00ef0444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:37 +0000
Subject: [PATCH 28/57] fix: give all dilepton outputs the same decays

---
 src/decayactionsfinderdilepton.cc             | 37 ++++++++++++++++---
 .../smash/decayactionsfinderdilepton.h        | 10 +++--
 src/include/smash/experiment.h                | 14 ++-----
 3 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/src/decayactionsfinderdilepton.cc b/src/decayactionsfinderdilepton.cc
index d3251af..94339aa 100644
--- a/src/decayactionsfinderdilepton.cc
+++ b/src/decayactionsfinderdilepton.cc
@@ -9,16 +9,41 @@
 
 #include "smash/decayactionsfinderdilepton.h"
 
+#include <algorithm>
+
 #include "smash/constants.h"
 #include "smash/decayactiondilepton.h"
 #include "smash/decaymodes.h"
 
 namespace smash {
 
+/// \return whether there is an output for dileptons in the list
+static bool any_dilepton_output(const OutputsList &outputs) {
+  return std::any_of(outputs.begin(), outputs.end(), [](const OutputPtr &o) {
+    return o->is_dilepton_output();
+  });
+}
+
+/**
+ * Hand one dilepton decay to all dilepton outputs. The final state is drawn
+ * only once, such that all of them contain the same one.
+ *
+ * \param[in] act The decay.
+ * \param[in] outputs List of all outputs.
+ */
+static void write_to_dilepton_outputs(const DecayActionDilepton &act,
+                                      const OutputsList &outputs) {
+  for (const auto &output : outputs) {
+    if (output->is_dilepton_output()) {
+      output->at_interaction(act, 0.0);
+    }
+  }
+}
+
 void DecayActionsFinderDilepton::shine(const Particles &search_list,
-                                       OutputInterface *output,
+                                       const OutputsList &outputs,
                                        double dt) const {
-  if (!output->is_dilepton_output()) {
+  if (!any_dilepton_output(outputs)) {
     return;
   }
   for (const auto &p : search_list) {
@@ -52,16 +77,16 @@ void DecayActionsFinderDilepton::shine(const Particles &search_list,
         DecayActionDilepton act(p, 0., shining_weight);
         act.add_decay(std::move(mode));
         act.generate_final_state();
-        output->at_interaction(act, 0.0);
+        write_to_dilepton_outputs(act, outputs);
       }
     }
   }
 }
 
 void DecayActionsFinderDilepton::shine_final(const Particles &search_list,
-                                             OutputInterface *output,
+                                             const OutputsList &outputs,
                                              bool only_res) const {
-  if (!output->is_dilepton_output()) {
+  if (!any_dilepton_output(outputs)) {
     return;
   }
   for (const auto &p : search_list) {
@@ -85,7 +110,7 @@ void DecayActionsFinderDilepton::shine_final(const Particles &search_list,
         DecayActionDilepton act(p, 0., shining_weight);
         act.add_decay(std::move(mode));
         act.generate_final_state();
-        output->at_interaction(act, 0.0);
+        write_to_dilepton_outputs(act, outputs);
       }
     }
   }
diff --git a/src/include/smash/decayactionsfinderdilepton.h b/src/include/smash/decayactionsfinderdilepton.h
index b0ff22f..028e62d 100644
--- a/src/include/smash/decayactionsfinderdilepton.h
+++ b/src/include/smash/decayactionsfinderdilepton.h
@@ -36,10 +36,11 @@ class DecayActionsFinderDilepton {
    * Check the whole particles list and print out possible dilepton decays.
    *
    * \param[in] search_list List of all particles.
-   * \param[in] output Pointer to the dilepton output.
+   * \param[in] outputs List of all outputs; every dilepton output gets the
+   *                    same decays.
    * \param[in] dt Length of timestep [fm]
    */
-  void shine(const Particles& search_list, OutputInterface* output,
+  void shine(const Particles& search_list, const OutputsList& outputs,
              double dt) const;
 
   /**
@@ -49,12 +50,13 @@ class DecayActionsFinderDilepton {
    * decay and not for some fixed dt interval.
    *
    * \param[in] search_list List of all particles.
-   * \param[in] output Pointer to the dilepton output.
+   * \param[in] outputs List of all outputs; every dilepton output gets the
+   *                    same decays.
    * \param[in] only_res optional parameter that requests that only actions
    *                     regarding resonances are considered (disregarding
    *                     stable particles)
    */
-  void shine_final(const Particles& search_list, OutputInterface* output,
+  void shine_final(const Particles& search_list, const OutputsList& outputs,
                    bool only_res = false) const;
 };
 
diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index fa47d6b..7389ad2 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2715,9 +2715,7 @@ void Experiment<Modus>::propagate_and_shine(double to_time,
   const double dt =
       propagate_straight_line(&particles, to_time, beam_momentum_);
   if (dilepton_finder_ != nullptr) {
-    for (const auto &output : outputs_) {
-      dilepton_finder_->shine(particles, output.get(), dt);
-    }
+    dilepton_finder_->shine(particles, outputs_, dt);
   }
 }
 
@@ -3065,9 +3063,7 @@ void Experiment<Modus>::do_final_interactions() {
       Actions actions;
       // Dileptons: shining of remaining resonances
       if (dilepton_finder_ != nullptr) {
-        for (const auto &output : outputs_) {
-          dilepton_finder_->shine_final(ensembles_[i_ens], output.get(), true);
-        }
+        dilepton_finder_->shine_final(ensembles_[i_ens], outputs_, true);
       }
       // Find actions.
       for (const auto &finder : action_finders_) {
@@ -3092,10 +3088,8 @@ void Experiment<Modus>::do_final_interactions() {
 
   // Dileptons: shining of stable particles at the end
   if (dilepton_finder_ != nullptr) {
-    for (const auto &output : outputs_) {
-      for (Particles &particles : ensembles_) {
-        dilepton_finder_->shine_final(particles, output.get(), false);
-      }
+    for (Particles &particles : ensembles_) {
+      dilepton_finder_->shine_final(particles, outputs_, false);
     }
   }
 }
-- 
2.43.0


From 06a2e56c6587bb546f0397c93da1444334feb8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:37 +0000
Subject: [PATCH 29/57] fix: keep initial and final particles out of dilepton
 and photon output

---
 src/binaryoutput.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/binaryoutput.cc b/src/binaryoutput.cc
index 362c11a..c54b42b 100644
--- a/src/binaryoutput.cc
+++ b/src/binaryoutput.cc
@@ -265,7 +265,8 @@ BinaryOutputCollisions::BinaryOutputCollisions(
     const OutputParameters &out_par, const std::vector<std::string> &quantities)
     : BinaryOutputBase(path / get_binary_filename(name, quantities), "wb", name,
                        quantities),
-      print_start_end_(out_par.coll_printstartend) {}
+      // this option belongs to the collisions, not to dileptons and photons
+      print_start_end_(name == "Collisions" && out_par.coll_printstartend) {}
 
 void BinaryOutputCollisions::at_eventstart(const Particles &particles,
                                            const EventLabel &event_label,
-- 
2.43.0


From bb8c84efdec2a6c1e643999aa607d8bf3b696287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:06 +0000
Subject: [PATCH 30/57] fix: label lattice files with the density type they
 contain

---
 src/include/smash/experiment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index 7389ad2..2c08f81 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2242,7 +2242,7 @@ void Experiment<Modus>::initialize_new_event() {
             break;
           default:
             output->at_eventstart(event_, ThermodynamicQuantity::EckartDensity,
-                                  DensityType::BaryonicIsospin,
+                                  dens_type_lattice_printout_,
                                   *jmu_custom_lat_);
         }
       }
-- 
2.43.0


From 7050987fafffffdc7a6844841ba583d62cf88e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:03 +0000
Subject: [PATCH 31/57] fix: recognise the documented event end without further
 text

---
 src/listmodus.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/listmodus.cc b/src/listmodus.cc
index 25a30f9..542268b 100644
--- a/src/listmodus.cc
+++ b/src/listmodus.cc
@@ -366,7 +366,8 @@ std::string ListModus::next_event_() {
   const std::string needle = " end ";
   std::string line{};
   while (getline(ifs, line)) {
-    if (line.find(needle) == std::string::npos) {
+    // The marker may also be the last word of the line
+    if ((line + " ").find(needle) == std::string::npos) {
       event_string += line + "\n";
     } else {
       break;
-- 
2.43.0


From fd990f1fbd6b05c6e92447ca5423856c81b996b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:47 +0000
Subject: [PATCH 32/57] fix: read short lists of particles without comment
 lines

---
 src/listmodus.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/listmodus.cc b/src/listmodus.cc
index 542268b..f6d7efe 100644
--- a/src/listmodus.cc
+++ b/src/listmodus.cc
@@ -399,19 +399,17 @@ bool ListModus::file_has_events_(std::filesystem::path filepath,
     return false;
   }
   ifs.seekg(last_position);
-  // skip over comment lines, assume that a max. of four consecutive comment
-  // lines can occur
-  int skipped_lines = 0;
-  const int max_comment_lines = 4;
-  while (std::getline(ifs, line) && line[0] != '#' &&
-         skipped_lines++ < max_comment_lines) {
+  // There is a further event if anything but blank lines is left
+  bool found_content = false;
+  while (!found_content && std::getline(ifs, line)) {
+    found_content = line.find_first_not_of(" \t\r") != std::string::npos;
   }
 
-  if (ifs.eof()) {
+  if (!found_content && ifs.eof()) {
     return false;
   }
 
-  if (!ifs.good()) {
+  if (ifs.bad() || (!found_content && ifs.fail())) {
     if (verbose_) {
       logg[LList].fatal() << "Error while reading "
                           << filepath.filename().native();
-- 
2.43.0


From 8a9eeee1247214738994eba1ac87830ae0531201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:10 +0000
Subject: [PATCH 33/57] fix: let slow particles cross the walls of the box

---
 src/wallcrossingaction.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wallcrossingaction.cc b/src/wallcrossingaction.cc
index 9d031b1..31b287e 100644
--- a/src/wallcrossingaction.cc
+++ b/src/wallcrossingaction.cc
@@ -22,9 +22,10 @@ ActionList WallCrossActionsFinder::find_actions_in_cell(
     int i_cross = -1;
     for (int i = 0; i < 3; i++) {
       double t = t_max + 1.;
-      if (v[i] > really_small) {
+      // Also the slowest particle close to a wall must not get out of the box
+      if (v[i] > 0.) {
         t = (l_[i] - r[i]) / v[i];
-      } else if (v[i] < -really_small) {
+      } else if (v[i] < 0.) {
         t = -r[i] / v[i];
       }
       if (t < time_until_crossing) {
-- 
2.43.0


From 4b14f0a3a8b46655e949d103052d60a5ec82dcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 34/57] fix: ignore particles outside of the lattice in
 discrete smearing

---
 src/include/smash/lattice.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/include/smash/lattice.h b/src/include/smash/lattice.h
index 9445f63..4a67aa4 100644
--- a/src/include/smash/lattice.h
+++ b/src/include/smash/lattice.h
@@ -736,13 +736,23 @@ class RectangularLattice {
   template <typename F>
   void iterate_nearest_neighbors(const ThreeVector& point, F&& func) {
     // get the 3D indices of the cell containing the given point
-    const int ix = numeric_cast<int>(
+    int ix = numeric_cast<int>(
         std::floor((point.x1() - origin_[0]) / cell_sizes_[0]));
-    const int iy = numeric_cast<int>(
+    int iy = numeric_cast<int>(
         std::floor((point.x2() - origin_[1]) / cell_sizes_[1]));
-    const int iz = numeric_cast<int>(
+    int iz = numeric_cast<int>(
         std::floor((point.x3() - origin_[2]) / cell_sizes_[2]));
 
+    // there are no nodes around a point outside of the lattice
+    if (out_of_bounds(ix, iy, iz)) {
+      return;
+    }
+    if (periodic_) {
+      ix = positive_modulo(ix, n_cells_[0]);
+      iy = positive_modulo(iy, n_cells_[1]);
+      iz = positive_modulo(iz, n_cells_[2]);
+    }
+
     logg[LLattice].debug(
         "Iterating over nearest neighbors of the cell at ix = ", ix,
         ", iy = ", iy, ", iz = ", iz);
-- 
2.43.0


From eda5b0eebc098c8f29fdb5b0c4b57f599d54520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:24 +0000
Subject: [PATCH 35/57] fix: find hypersurface crossings of particles in the
 backward light cone

A particle at negative times can be in the backward light cone at the
beginning of a (long) time step, with a hyperbolic time above that of the
hypersurface. Its crossing in the forward light cone was overlooked.
---
 src/hypersurfacecrossingfinder.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hypersurfacecrossingfinder.cc b/src/hypersurfacecrossingfinder.cc
index 0c23bef..b6df5a6 100644
--- a/src/hypersurfacecrossingfinder.cc
+++ b/src/hypersurfacecrossingfinder.cc
@@ -119,13 +119,15 @@ bool HyperSurfaceCrossActionsFinder::crosses_hypersurface(
     ParticleData &pdata_before_propagation,
     ParticleData &pdata_after_propagation, const double tau) const {
   bool hypersurface_is_crossed = false;
+  // Only the forward light cone counts: at negative times particles can be in
+  // the backward one, where the hyperbolic time decreases.
   const bool t_greater_z_before_prop =
-      (std::fabs(pdata_before_propagation.position().x0()) >
+      (pdata_before_propagation.position().x0() >
                std::fabs(pdata_before_propagation.position().x3())
            ? true
            : false);
   const bool t_greater_z_after_prop =
-      (std::fabs(pdata_after_propagation.position().x0()) >
+      (pdata_after_propagation.position().x0() >
                std::fabs(pdata_after_propagation.position().x3())
            ? true
            : false);
-- 
2.43.0


From 45bfa9edb440591be9cb1e38ba31f3544bde63ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:26 +0000
Subject: [PATCH 36/57] fix: refuse to compute the passing time of nuclei below
 the two-nucleon energy

With a meson as projectile or target the energy can be below twice the nucleon
mass. The passing time for initial conditions without Proper_Time was then the
root of a negative number and the run died by a floating point exception.
---
 src/include/smash/collidermodus.h | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/include/smash/collidermodus.h b/src/include/smash/collidermodus.h
index 4f73577..b625246 100644
--- a/src/include/smash/collidermodus.h
+++ b/src/include/smash/collidermodus.h
@@ -10,6 +10,7 @@
 #include <cstring>
 #include <map>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -104,16 +105,24 @@ class ColliderModus : public ModusDefault {
    **/
   void sample_impact();
 
-  /// Time until nuclei have passed through each other
+  /**
+   * \return Time until nuclei have passed through each other
+   *
+   * \throw domain_error if the energy is not above the one of two nucleons at
+   *        rest, which can happen if one of the particles is not a nucleon
+   */
   double nuclei_passing_time() const {
     const double passing_distance =
         projectile_->get_nuclear_radius() + target_->get_nuclear_radius();
-    const double passing_time =
-        passing_distance /
-        std::sqrt(sqrt_s_NN_ * sqrt_s_NN_ /
-                      ((2 * nucleon_mass) * (2 * nucleon_mass)) -
-                  1);
-    return passing_time;
+    const double gamma_velocity_sqr =
+        sqrt_s_NN_ * sqrt_s_NN_ / ((2 * nucleon_mass) * (2 * nucleon_mass)) - 1;
+    if (gamma_velocity_sqr <= 0.0) {
+      throw std::domain_error(
+          "The passing time of the nuclei is not defined below the energy of "
+          "two nucleons at rest.\nPlease provide the \"Proper_Time\" of the "
+          "initial conditions explicitly.");
+    }
+    return passing_distance / std::sqrt(gamma_velocity_sqr);
   }
   /**
    * \return the beam velocity of the projectile, which will be used to
-- 
2.43.0


From 230d2a98c9f505ac5fb72bc0119481b59aa1a0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:43 +0000
Subject: [PATCH 37/57] fix: do not take added or removed particles for a
 violation of conservation laws

---
 src/include/smash/experiment.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index 2c08f81..ea8ded7 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2492,6 +2492,7 @@ void Experiment<Modus>::run_time_evolution(const double t_end,
           "ensemble is used.");
     }
     const double action_time = parameters_.labclock->current_time();
+    const QuantumNumbers total_before_change(ensembles_);
     /* Use two if statements. The first one is to check if the particles are
      * valid. Since this might remove all particles, a second if statement is
      * needed to avoid executing the action in that case.*/
@@ -2561,6 +2562,9 @@ void Experiment<Modus>::run_time_evolution(const double t_end,
                ensembles_[0].size());
       }
     }
+    // What was added to or removed from the system has not to be conserved
+    conserved_initial_ = conserved_initial_ -
+                         (total_before_change - QuantumNumbers(ensembles_));
   }
 
   if (t_end > end_time_) {
-- 
2.43.0


From 9de423dc65a0c15157382e400e4cf655f1bac29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:44 +0000
Subject: [PATCH 38/57] fix: advance the output clock beyond the last output
 only at the end time

---
 src/include/smash/experiment.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index ea8ded7..c97253e 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2702,9 +2702,16 @@ void Experiment<Modus>::run_time_evolution(const double t_end,
    * never strictly smaller than end_timestep_time (they are usually equal).
    * Since in the final_output() function the current time of the output clock
    * is used to produce the output, this has to be incremented before producing
-   * the final output and it makes sense to do it here.
+   * the final output and it makes sense to do it here. This must happen only
+   * once, also if the evolution is divided into several calls.
    */
-  ++(*parameters_.outputclock);
+  const bool end_time_reached =
+      !(*(parameters_.labclock) < end_time_) ||
+      parameters_.labclock->timestep_duration() <= 0.0;
+  if (end_time_reached &&
+      parameters_.outputclock->current_time() < end_time_) {
+    ++(*parameters_.outputclock);
+  }
 
   if (pauli_blocker_) {
     logg[LExperiment].info(
-- 
2.43.0


From 5ec5e27d032979b940ce0eab06041504180271e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:21 +0000
Subject: [PATCH 39/57] fix: let particles added for a later time not interact
 before it

---
 src/include/smash/freeforallaction.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/smash/freeforallaction.h b/src/include/smash/freeforallaction.h
index da62ec3..1384cfc 100644
--- a/src/include/smash/freeforallaction.h
+++ b/src/include/smash/freeforallaction.h
@@ -66,6 +66,11 @@ class FreeforallAction : public Action {
       const double t = particle.position().x0();
       const FourVector u(1.0, particle.velocity());
       particle.set_formation_time(t);
+      if (t > time_of_execution()) {
+        // As for scrolled back particles read from a list: no interaction
+        // before the time they are provided for
+        particle.set_cross_section_scaling_factor(0.0);
+      }
       particle.set_4position(particle.position() +
                              u * (time_of_execution() - t));
     }
-- 
2.43.0


From 67b36a6acc36b60a3a33c28774f5f5579f3d881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:21 +0000
Subject: [PATCH 40/57] fix: let particles which were added together collide
 with each other

---
 src/scatteractionsfinder.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scatteractionsfinder.cc b/src/scatteractionsfinder.cc
index 738e32d..02f7c07 100644
--- a/src/scatteractionsfinder.cc
+++ b/src/scatteractionsfinder.cc
@@ -342,8 +342,9 @@ ActionPtr ScatterActionsFinder::check_collision_two_part(
 
   } else if (finder_parameters_.coll_crit == CollisionCriterion::Geometric ||
              finder_parameters_.coll_crit == CollisionCriterion::Covariant) {
-    // just collided with this particle
-    if (data_a.id_process() > 0 && data_a.id_process() == data_b.id_process()) {
+    // just collided with this particle (not if they were only added together)
+    if (data_a.id_process() > 0 && data_a.id_process() == data_b.id_process() &&
+        data_a.get_history().process_type != ProcessType::Freeforall) {
       logg[LFindScatter].debug("Skipping collided particles at time ",
                                data_a.position().x0(), " due to process ",
                                data_a.id_process(), "\n    ", data_a, "\n<-> ",
-- 
2.43.0


From 9668692ea2d75cf905b5b73cc34e9523eb9efa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:14 +0000
Subject: [PATCH 41/57] fix: refuse an end time given via command line that is
 not a number

---
 src/smash.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/smash.cc b/src/smash.cc
index f6573c2..83e5d22 100644
--- a/src/smash.cc
+++ b/src/smash.cc
@@ -8,6 +8,8 @@
  */
 #include <getopt.h>
 
+#include <cmath>
+#include <cstdlib>
 #include <filesystem>
 #include <fstream>
 #include <set>
@@ -640,8 +642,14 @@ int main(int argc, char *argv[]) {
       configuration.set_value(InputKeys::gen_modus, std::string(modus));
     }
     if (end_time) {
-      configuration.set_value(InputKeys::gen_endTime,
-                              std::abs(std::atof(end_time)));
+      char *rest = nullptr;
+      const double t_end = std::strtod(end_time, &rest);
+      if (rest == end_time || *rest != '\0' || !std::isfinite(t_end)) {
+        throw std::invalid_argument("The given end time \"" +
+                                    std::string(end_time) +
+                                    "\" is not a valid number.");
+      }
+      configuration.set_value(InputKeys::gen_endTime, std::abs(t_end));
     }
 
     int64_t seed = configuration.read(InputKeys::gen_randomseed);
-- 
2.43.0


From dc8b1b9a72edab6d0926f23bc73992c7436bad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:18 +0000
Subject: [PATCH 42/57] fix: do not read beyond the labels of a key in the
 validation

---
 src/configuration.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/configuration.cc b/src/configuration.cc
index 35c4dcc..4d1ac66 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -526,9 +526,9 @@ void adjust_list_of_labels_dealing_with_keys_taken_as_maps(
     std::for_each(list_of_input_key_labels.begin(),
                   list_of_input_key_labels.end(),
                   [&labels](KeyLabels &labels_of_input_key) {
-                    if (std::equal(labels.begin(), labels.end(),
-                                   labels_of_input_key.begin(),
-                                   labels_of_input_key.begin() + labels.size()))
+                    if (labels_of_input_key.size() >= labels.size() &&
+                        std::equal(labels.begin(), labels.end(),
+                                   labels_of_input_key.begin()))
                       labels_of_input_key = labels;
                   });
   }
-- 
2.43.0


From f8de9bce55cfc1c61e5e51fb7b3937c100f8eeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:53 +0000
Subject: [PATCH 43/57] fix: refuse a number of ensembles that is not positive

---
 src/experiment.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/experiment.cc b/src/experiment.cc
index 6059e09..8baea76 100644
--- a/src/experiment.cc
+++ b/src/experiment.cc
@@ -142,6 +142,11 @@ ExperimentParameters create_experiment_parameters(Configuration &config) {
     throw std::invalid_argument("Testparticle number should be positive!");
   }
 
+  const int n_ensembles = config.take(InputKeys::gen_ensembles);
+  if (n_ensembles <= 0) {
+    throw std::invalid_argument("Number of ensembles should be positive!");
+  }
+
   // sets whether to consider only participants in thermodynamic outputs or not
   const bool only_participants =
       config.take(InputKeys::output_thermodynamics_onlyParticipants);
@@ -298,7 +303,7 @@ ExperimentParameters create_experiment_parameters(Configuration &config) {
   maximum_cross_section *= scale_xs;
   return {std::make_unique<UniformClock>(0.0, dt, t_end),
           std::move(output_clock),
-          config.take(InputKeys::gen_ensembles),
+          n_ensembles,
           ntest,
           config.take(InputKeys::gen_derivativesMode),
           config.has_section(InputSections::p_vdf)
-- 
2.43.0


From 20fed0bffbf49de682f661ed82e5f3dcea445425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:53 +0000
Subject: [PATCH 44/57] fix: refuse clocks whose time step is zero at their
 resolution

---
 src/include/smash/clock.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/clock.h b/src/include/smash/clock.h
index dd59173..02e316b 100644
--- a/src/include/smash/clock.h
+++ b/src/include/smash/clock.h
@@ -236,7 +236,7 @@ class UniformClock : public Clock {
       : timestep_duration_(convert(dt)),
         reset_time_(convert(time)),
         time_end_(convert(time_end)) {
-    if (dt <= 0.) {
+    if (timestep_duration_ <= 0) {
       throw std::range_error("Time increment must be positive and non-zero");
     }
     if (reset_time_ >= time_end_) {
@@ -304,7 +304,7 @@ class UniformClock : public Clock {
    * \param[in] dt new time step size
    */
   void set_timestep_duration(double dt) {
-    if (dt <= 0.) {
+    if (convert(dt) <= 0) {
       throw std::range_error("Time increment must be positive and non-zero!");
     }
     reset_time_ += timestep_duration_ * counter_;
-- 
2.43.0


From ff9821561c0a3f1c15f196eb27b4187465b3d1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:02 +0000
Subject: [PATCH 45/57] fix: s of two beams given by kinetic energies uses the
 projectile mass

The total energy of the projectile was computed with the mass of the target,
so that asymmetric systems collided at a wrong energy.
---
 src/include/smash/kinematics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/kinematics.h b/src/include/smash/kinematics.h
index 363caf9..0c36cd6 100644
--- a/src/include/smash/kinematics.h
+++ b/src/include/smash/kinematics.h
@@ -251,7 +251,7 @@ inline double s_from_Ekin(double e_kin, double m_P, double m_T) {
  */
 inline double s_from_Ekin(double e_kin_p, double e_kin_t, double m_p,
                           double m_t) {
-  return s_from_Etot(e_kin_p + m_t, e_kin_t + m_t, m_p, m_t);
+  return s_from_Etot(e_kin_p + m_p, e_kin_t + m_t, m_p, m_t);
 }
 /**
  * Convert p_lab to Mandelstam-s for a fixed-target setup,
-- 
2.43.0


From c087ea2f6560790fae0a5f12de367ba3626fa559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:02 +0000
Subject: [PATCH 46/57] fix: s of two beams given by momenta uses the masses of
 the beams

The momenta were passed in place of the masses, so that beams of different
momenta or masses collided at a wrong energy.
---
 src/include/smash/kinematics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/kinematics.h b/src/include/smash/kinematics.h
index 0c36cd6..0a37617 100644
--- a/src/include/smash/kinematics.h
+++ b/src/include/smash/kinematics.h
@@ -278,7 +278,7 @@ inline double s_from_plab(double plab, double m_P, double m_T) {
 inline double s_from_plab(double plab_p, double plab_t, double m_p,
                           double m_t) {
   return s_from_Etot(std::sqrt(m_p * m_p + plab_p * plab_p),
-                     std::sqrt(m_t * m_t + plab_t * plab_t), plab_p, plab_t);
+                     std::sqrt(m_t * m_t + plab_t * plab_t), m_p, m_t);
 }
 
 }  // namespace smash
-- 
2.43.0


From 76c08acdc626ecae315de48d688a26505ead1bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:02 +0000
Subject: [PATCH 47/57] fix: nucleon-nucleon energy of beams given by total
 energies

The total energies were taken for kinetic ones.
---
 src/collidermodus.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index d54d0b4..6e11e33 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -181,7 +181,7 @@ ColliderModus::ColliderModus(Configuration modus_config,
     total_s_ = s_from_Etot(e_tot_p * projectile_->number_of_particles(),
                            e_tot_t * target_->number_of_particles(),
                            mass_projec, mass_target);
-    sqrt_s_NN_ = std::sqrt(s_from_Ekin(e_tot_p, e_tot_t, mass_a, mass_b));
+    sqrt_s_NN_ = std::sqrt(s_from_Etot(e_tot_p, e_tot_t, mass_a, mass_b));
     energy_input++;
   }
   // Option 6: Kinetic energy per nucleon of _each_ beam
-- 
2.43.0


From 26e7c2da236ffb6d78265ad78d0582385e632e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:02 +0000
Subject: [PATCH 48/57] fix: refuse nuclei that do not move towards each other

A collision energy that does not exceed the masses was accepted and ended in
a floating-point trap.
---
 src/collidermodus.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index 6e11e33..c9adc6c 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -178,6 +178,11 @@ ColliderModus::ColliderModus(Configuration modus_config,
           "Input Error: "
           "E_Tot must be nonnegative.");
     }
+    if (e_tot_p < mass_a || e_tot_t < mass_b) {
+      throw ModusDefault::InvalidEnergy(
+          "Input Error: "
+          "E_Tot must not be smaller than the mass.");
+    }
     total_s_ = s_from_Etot(e_tot_p * projectile_->number_of_particles(),
                            e_tot_t * target_->number_of_particles(),
                            mass_projec, mass_target);
@@ -228,6 +233,11 @@ ColliderModus::ColliderModus(Configuration modus_config,
         "Input Error: Redundant collision energy. "
         "Please provide only one of Sqrtsnn/E_Kin/P_Lab.");
   }
+  // Nuclei at rest to each other never meet.
+  if (!(total_s_ > std::pow(mass_projec + mass_target, 2))) {
+    throw ModusDefault::InvalidEnergy(
+        "Input Error: The collision energy is not larger than the masses.");
+  }
 
   /* Impact parameter setting: Either "Value", "Range", "Max" or "Sample".
    * Unspecified means 0 impact parameter.*/
-- 
2.43.0


From 892f220a47a5cecbc26ae1e64d16ab2e3c66ffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:02 +0000
Subject: [PATCH 49/57] fix: total momentum of a sphere with radial flow is
 zero

The momenta before the boost were counted as well.
---
 src/spheremodus.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spheremodus.cc b/src/spheremodus.cc
index 6778a72..6cae8cd 100644
--- a/src/spheremodus.cc
+++ b/src/spheremodus.cc
@@ -254,6 +254,7 @@ double SphereModus::initial_conditions(Particles *particles,
    * u_r = u_0 * (r / R)^n
    */
   if (radial_velocity_ > 0.0) {
+    momentum_total = FourVector(0, 0, 0, 0);
     for (ParticleData &data : *particles) {
       double particle_radius = std::sqrt(data.position().sqr3());
       auto e_r = data.position().threevec() / particle_radius;
-- 
2.43.0


From 902116c9ee23b98cdd40642dd0a9db9573810d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:21 +0000
Subject: [PATCH 50/57] fix: spin vectors of both jets of a sphere

The particle of the back jet had no spin vector, and that of the first was set
through a reference that the creation of the second may have invalidated.
---
 src/spheremodus.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/spheremodus.cc b/src/spheremodus.cc
index 6cae8cd..5c98988 100644
--- a/src/spheremodus.cc
+++ b/src/spheremodus.cc
@@ -287,6 +287,10 @@ double SphereModus::initial_conditions(Particles *particles,
         FourVector(start_time_, jet_pos_ + displacement));
     jet_particle.set_4momentum(ParticleType::find(pdg).mass(),
                                ThreeVector(jet_mom_, 0., 0.));
+    if (spin_interaction_type_ != SpinInteractionType::Off) {
+      jet_particle.set_unpolarized_spin_vector();
+    }
+    // Creating a particle may invalidate references to the existing ones.
     if (jet_back_) {
       auto &anti_pdg = pdg.has_antiparticle() ? pdg.get_antiparticle() : pdg;
       auto &jet_antiparticle = particles->create(anti_pdg);
@@ -295,9 +299,9 @@ double SphereModus::initial_conditions(Particles *particles,
           FourVector(start_time_, jet_pos_ - displacement));
       jet_antiparticle.set_4momentum(ParticleType::find(anti_pdg).mass(),
                                      ThreeVector(-jet_mom_, 0., 0.));
-    }
-    if (spin_interaction_type_ != SpinInteractionType::Off) {
-      jet_particle.set_unpolarized_spin_vector();
+      if (spin_interaction_type_ != SpinInteractionType::Off) {
+        jet_antiparticle.set_unpolarized_spin_vector();
+      }
     }
   }
 
-- 
2.43.0


From f8a455187aa8af13d867c55d0e4c51d5792bd418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:44 +0000
Subject: [PATCH 51/57] fix: spin vectors of the initial particles of spheres
 and nuclei

With spin interactions switched on, the particles of a sphere or of colliding
nuclei were left without a spin vector, since the option was looked up in the
section of the modus, where it never is.
---
 src/collidermodus.cc | 9 +++++++--
 src/spheremodus.cc   | 5 ++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index c9adc6c..e00137f 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -519,8 +519,8 @@ ColliderModus::create_alphaclustered_nucleus(Configuration &nucleus_cfg,
   }
 }
 
-double ColliderModus::initial_conditions(Particles *particles,
-                                         const ExperimentParameters &) {
+double ColliderModus::initial_conditions(
+    Particles *particles, const ExperimentParameters &parameters) {
   // Populate the nuclei with appropriately distributed nucleons.
   // If deformed, this includes rotating the nucleus.
   projectile_->arrange_nucleons();
@@ -587,6 +587,11 @@ double ColliderModus::initial_conditions(Particles *particles,
   projectile_->copy_particles(particles);
   target_->copy_particles(particles);
   rotate_reaction_plane(phi, particles);
+  if (parameters.spin_interaction_type != SpinInteractionType::Off) {
+    for (ParticleData &p : *particles) {
+      p.set_unpolarized_spin_vector();
+    }
+  }
   return simulation_time;
 }
 
diff --git a/src/spheremodus.cc b/src/spheremodus.cc
index 5c98988..d8e4ba4 100644
--- a/src/spheremodus.cc
+++ b/src/spheremodus.cc
@@ -35,7 +35,7 @@ namespace smash {
 static constexpr int LSphere = LogArea::Sphere::id;
 
 SphereModus::SphereModus(Configuration modus_config,
-                         const ExperimentParameters &)
+                         const ExperimentParameters &parameters)
     : radius_(modus_config.take(InputKeys::modi_sphere_radius)),
       sphere_temperature_(
           modus_config.take(InputKeys::modi_sphere_temperature)),
@@ -75,8 +75,7 @@ SphereModus::SphereModus(Configuration modus_config,
           jet_back_ ? modus_config.take(
                           InputKeys::modi_sphere_jet_backToBackSeparation)
                     : 0),
-      spin_interaction_type_(
-          modus_config.take(InputKeys::collTerm_spinInteractions)) {
+      spin_interaction_type_(parameters.spin_interaction_type) {
   if (!jet_back_ &&
       modus_config.has_value(InputKeys::modi_sphere_jet_backToBackSeparation)) {
     throw std::invalid_argument(
-- 
2.43.0


From 013d8efb2c6048a71480164b8e290e8d98faea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:52 +0000
Subject: [PATCH 52/57] fix: last line of a custom nucleus file without a
 newline at its end

The last nucleon of such a file was dropped and the first one of the file took
its place.
---
 src/customnucleus.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/customnucleus.cc b/src/customnucleus.cc
index cfff3bb..41b1ab6 100644
--- a/src/customnucleus.cc
+++ b/src/customnucleus.cc
@@ -180,9 +180,8 @@ std::vector<Nucleoncustom> CustomNucleus::readfile(
   std::vector<Nucleoncustom> custom_nucleus;
   // read in only A particles for one nucleus
   for (int i = 0; i < number_of_nucleons_; ++i) {
-    std::getline(infile, line);
     // make sure the stream goes back to the beginning when it hits end of file
-    if (infile.eof()) {
+    if (!std::getline(infile, line)) {
       infile.clear();
       infile.seekg(0, infile.beg);
       std::getline(infile, line);
-- 
2.43.0


From f74318703c7117d43821b60e55287f98524ebc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:52 +0000
Subject: [PATCH 53/57] fix: custom nuclei stay projectile and target after the
 first event

The nucleons read for the second and later nuclei had lost their label, so that
they collided within their nucleus and had no beam momentum.
---
 src/customnucleus.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/customnucleus.cc b/src/customnucleus.cc
index 41b1ab6..2c8e165 100644
--- a/src/customnucleus.cc
+++ b/src/customnucleus.cc
@@ -92,6 +92,9 @@ CustomNucleus::CustomNucleus(Configuration& config, int testparticles,
 }
 
 void CustomNucleus::fill_from_list(const std::vector<Nucleoncustom>& vec) {
+  // a nucleus that is filled again remains what it was
+  const BelongsTo label =
+      particles_.empty() ? BelongsTo::Nothing : particles_.front().belongs_to();
   particles_.clear();
   index_ = 0;
   // checking if particle is proton or neutron
@@ -112,6 +115,7 @@ void CustomNucleus::fill_from_list(const std::vector<Nucleoncustom>& vec) {
     particles_.emplace_back(current_type);
     particles_.back().set_4momentum(current_mass, 0.0, 0.0, 0.0);
   }
+  set_label(label);
 }
 
 ThreeVector CustomNucleus::distribute_nucleon() {
-- 
2.43.0


From 787fb104c3136e6fcbb95f6afcfbdbfe87424b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:49 +0000
Subject: [PATCH 54/57] fix: refuse quantum momenta without given
 multiplicities

The sampling of quantum momenta is prepared for the species of
Init_Multiplicities. Thermal multiplicities made it read beyond an empty map.
---
 src/boxmodus.cc    | 5 +++++
 src/spheremodus.cc | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/boxmodus.cc b/src/boxmodus.cc
index 2b3cf95..f484816 100644
--- a/src/boxmodus.cc
+++ b/src/boxmodus.cc
@@ -99,6 +99,11 @@ BoxModus::BoxModus(Configuration modus_config,
     throw std::invalid_argument(
         "Resonance lifetime modifier cannot be negative!");
   }
+  if (use_thermal_ &&
+      initial_condition_ == BoxInitialCondition::ThermalMomentaQuantum) {
+    throw std::invalid_argument(
+        "\"thermal momenta quantum\" needs Init_Multiplicities.");
+  }
   // Check consistency, just in case
   if (std::abs(length_ - parameters.box_length) > really_small) {
     throw std::runtime_error("Box length inconsistency");
diff --git a/src/spheremodus.cc b/src/spheremodus.cc
index d8e4ba4..cb0485e 100644
--- a/src/spheremodus.cc
+++ b/src/spheremodus.cc
@@ -82,6 +82,11 @@ SphereModus::SphereModus(Configuration modus_config,
         "In order to specify 'Back_To_Back_Separation', 'Back_To_Back' must be "
         "true.");
   }
+  if (use_thermal_ &&
+      init_distr_ == SphereInitialCondition::ThermalMomentaQuantum) {
+    throw std::invalid_argument(
+        "\"thermal momenta quantum\" needs Init_Multiplicities.");
+  }
   if (radial_velocity_ > 1.0) {
     throw std::invalid_argument(
         "Additional velocity cannot be greater than 1!");
-- 
2.43.0


From c97ae9ac7246a49f744170696405f930fa21687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:19 +0000
Subject: [PATCH 55/57] fix: no Fermi momenta for single nucleons made of
 testparticles

The density of the tiny spread of the testparticles gave momenta of up to
2 GeV, while a proton without testparticles rests.
---
 src/nucleus.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nucleus.cc b/src/nucleus.cc
index 52edd0c..69ff38f 100644
--- a/src/nucleus.cc
+++ b/src/nucleus.cc
@@ -413,6 +413,10 @@ void Nucleus::rotate() {
 }
 
 void Nucleus::generate_fermi_momenta() {
+  // There is no Fermi motion in a single nucleon (made of test particles).
+  if (number_of_particles() <= 1) {
+    return;
+  }
   const int N_n = std::count_if(begin(), end(), [](const ParticleData i) {
     return i.pdgcode() == pdg::n;
   });
-- 
2.43.0


From 63ac886cee575649c31272f6a5c662ff84ab98a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:31 +0000
Subject: [PATCH 56/57] fix: no stochastic collisions of particles at relative
 rest

Nucleons of a nucleus without Fermi motion have the same momentum; with
Collisions_Within_Nucleus their cross section was evaluated exactly at
threshold, which ended the run by a floating point exception.
---
 src/include/smash/scatteractionsfinder.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/include/smash/scatteractionsfinder.h b/src/include/smash/scatteractionsfinder.h
index b21a303..c9e9dbc 100644
--- a/src/include/smash/scatteractionsfinder.h
+++ b/src/include/smash/scatteractionsfinder.h
@@ -67,6 +67,14 @@ class ScatterActionsFinder : public ActionFinderInterface {
       const ParticleData &p1, const ParticleData &p2, double dt,
       const std::vector<FourVector> &beam_momentum) const {
     if (finder_parameters_.coll_crit == CollisionCriterion::Stochastic) {
+      /* Particles at rest relative to each other (like nucleons of a nucleus
+       * without Fermi motion) do not collide, and parametrized cross sections
+       * are not defined for them. */
+      const double m_sum = p1.effective_mass() + p2.effective_mass();
+      if ((p1.momentum() + p2.momentum()).sqr() - m_sum * m_sum <
+          really_small) {
+        return -1.0;
+      }
       return dt * random::uniform(0., 1.);
     } else {
       /*
-- 
2.43.0


From aa90d1ead7a0cbec66d7dfafeaa67bed3f092162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:07 +0000
Subject: [PATCH 57/57] fix: every particle shines dileptons exactly once at
 the end

---
 src/decayactionsfinderdilepton.cc             | 40 +++++++++----------
 .../smash/decayactionsfinderdilepton.h        | 15 +++----
 src/include/smash/experiment.h                | 20 ++++++----
 3 files changed, 37 insertions(+), 38 deletions(-)

diff --git a/src/decayactionsfinderdilepton.cc b/src/decayactionsfinderdilepton.cc
index 94339aa..65aa1b8 100644
--- a/src/decayactionsfinderdilepton.cc
+++ b/src/decayactionsfinderdilepton.cc
@@ -83,35 +83,31 @@ void DecayActionsFinderDilepton::shine(const Particles &search_list,
   }
 }
 
-void DecayActionsFinderDilepton::shine_final(const Particles &search_list,
-                                             const OutputsList &outputs,
-                                             bool only_res) const {
+void DecayActionsFinderDilepton::shine_final(const ParticleData &p,
+                                             const OutputsList &outputs) const {
   if (!any_dilepton_output(outputs)) {
     return;
   }
-  for (const auto &p : search_list) {
-    const ParticleType &t = p.type();
-    if (t.decay_modes().decay_mode_list().empty() ||
-        (only_res && t.is_stable()) || p.is_core()) {
-      continue;
-    }
+  const ParticleType &t = p.type();
+  if (t.decay_modes().decay_mode_list().empty() || p.is_core()) {
+    return;
+  }
 
-    DecayBranchList dil_modes = t.get_partial_widths(
-        p.momentum(), p.position().threevec(), WhichDecaymodes::Dileptons);
+  DecayBranchList dil_modes = t.get_partial_widths(
+      p.momentum(), p.position().threevec(), WhichDecaymodes::Dileptons);
 
-    // total decay width, also hadronic decays
-    const double width_tot = total_weight<DecayBranch>(t.get_partial_widths(
-        p.momentum(), p.position().threevec(), WhichDecaymodes::All));
+  // total decay width, also hadronic decays
+  const double width_tot = total_weight<DecayBranch>(t.get_partial_widths(
+      p.momentum(), p.position().threevec(), WhichDecaymodes::All));
 
-    for (DecayBranchPtr &mode : dil_modes) {
-      const double shining_weight = mode->weight() / width_tot;
+  for (DecayBranchPtr &mode : dil_modes) {
+    const double shining_weight = mode->weight() / width_tot;
 
-      if (shining_weight > 0.0) {  // decays that can happen
-        DecayActionDilepton act(p, 0., shining_weight);
-        act.add_decay(std::move(mode));
-        act.generate_final_state();
-        write_to_dilepton_outputs(act, outputs);
-      }
+    if (shining_weight > 0.0) {  // decays that can happen
+      DecayActionDilepton act(p, 0., shining_weight);
+      act.add_decay(std::move(mode));
+      act.generate_final_state();
+      write_to_dilepton_outputs(act, outputs);
     }
   }
 }
diff --git a/src/include/smash/decayactionsfinderdilepton.h b/src/include/smash/decayactionsfinderdilepton.h
index 028e62d..7c4ffa4 100644
--- a/src/include/smash/decayactionsfinderdilepton.h
+++ b/src/include/smash/decayactionsfinderdilepton.h
@@ -44,20 +44,17 @@ class DecayActionsFinderDilepton {
              double dt) const;
 
   /**
-   * Shine dileptons from resonances at the end of the simulation.
+   * Shine dileptons from a particle at the end of the simulation.
    *
-   * This is special, because the shining time is now until the resonance would
-   * decay and not for some fixed dt interval.
+   * This is special, because the shining time is now until the particle would
+   * decay and not for some fixed dt interval. It has to be called once for
+   * every particle.
    *
-   * \param[in] search_list List of all particles.
+   * \param[in] p The particle.
    * \param[in] outputs List of all outputs; every dilepton output gets the
    *                    same decays.
-   * \param[in] only_res optional parameter that requests that only actions
-   *                     regarding resonances are considered (disregarding
-   *                     stable particles)
    */
-  void shine_final(const Particles& search_list, const OutputsList& outputs,
-                   bool only_res = false) const;
+  void shine_final(const ParticleData& p, const OutputsList& outputs) const;
 };
 
 }  // namespace smash
diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index c97253e..5b85c58 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -3072,14 +3072,18 @@ void Experiment<Modus>::do_final_interactions() {
     interactions_old = interactions_total_;
     for (int i_ens = 0; i_ens < parameters_.n_ensembles; i_ens++) {
       Actions actions;
-      // Dileptons: shining of remaining resonances
-      if (dilepton_finder_ != nullptr) {
-        dilepton_finder_->shine_final(ensembles_[i_ens], outputs_, true);
-      }
       // Find actions.
       for (const auto &finder : action_finders_) {
         auto found_actions = finder->find_final_actions(ensembles_[i_ens]);
         if (!found_actions.empty()) {
+          // Dileptons: shining of the particles that are about to decay
+          if (dilepton_finder_ != nullptr) {
+            for (const auto &act : found_actions) {
+              for (const auto &p : act->incoming_particles()) {
+                dilepton_finder_->shine_final(p, outputs_);
+              }
+            }
+          }
           actions.insert(std::move(found_actions));
           actions_found = true;
         }
@@ -3097,10 +3101,12 @@ void Experiment<Modus>::do_final_interactions() {
     // loop until no more decays occur
   } while (actions_performed);
 
-  // Dileptons: shining of stable particles at the end
+  // Dileptons: shining of all particles left at the end
   if (dilepton_finder_ != nullptr) {
-    for (Particles &particles : ensembles_) {
-      dilepton_finder_->shine_final(particles, outputs_, false);
+    for (const Particles &particles : ensembles_) {
+      for (const ParticleData &p : particles) {
+        dilepton_finder_->shine_final(p, outputs_);
+      }
     }
   }
 }
-- 
2.43.0

