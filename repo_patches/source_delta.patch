From b025b2de03936857a07821bc37a268a237dbd2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:45 +0000
Subject: [PATCH 001/118] fix: sign of the closest approach point derived from
 the initial position

The initial distance is measured from the closest approach along the direction, so the closest approach is initial_position - distance*direction (as the inverse relation in UpdateInitialPosition uses).
---
 projects/dataclasses/private/InteractionRecord.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index 42f820e..f14a08f 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -421,9 +421,9 @@ void PrimaryDistributionRecord::UpdatePointOfClosestApproach() const {
         return;
     if(initial_position_set and direction_set and initial_distance_from_closest_approach_set) {
         point_of_closest_approach = {
-            initial_position.at(0) + initial_distance_from_closest_approach * direction.at(0),
-            initial_position.at(1) + initial_distance_from_closest_approach * direction.at(1),
-            initial_position.at(2) + initial_distance_from_closest_approach * direction.at(2)};
+            initial_position.at(0) - initial_distance_from_closest_approach * direction.at(0),
+            initial_position.at(1) - initial_distance_from_closest_approach * direction.at(1),
+            initial_position.at(2) - initial_distance_from_closest_approach * direction.at(2)};
     } else if(interaction_vertex_set and direction_set and vertex_distance_from_closest_approach_set) {
         point_of_closest_approach = {
             interaction_vertex.at(0) - vertex_distance_from_closest_approach * direction.at(0),
-- 
2.43.0


From 0221443566700f442f8eb6b34fa4e9c36def53f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:45 +0000
Subject: [PATCH 002/118] fix: do not derive closest-approach distances from an
 unset direction

---
 projects/dataclasses/private/InteractionRecord.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index f14a08f..b5a5269 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -513,7 +513,7 @@ void PrimaryDistributionRecord::UpdateVertexDistanceFromClosestApproach() const
         sign = (sign > 0) ? (1) : (-1);
         magnitude = std::sqrt(difference.at(0)*difference.at(0) + difference.at(1)*difference.at(1) + difference.at(2)*difference.at(2));
         vertex_distance_from_closest_approach = magnitude * sign;
-    } else if(point_of_closest_approach_set and initial_position_set and length_set) {
+    } else if(point_of_closest_approach_set and initial_position_set and length_set and direction_set) {
         double p_dot_d = (
             (initial_position.at(0) * direction.at(0)) +
             (initial_position.at(1) * direction.at(1)) +
@@ -603,7 +603,7 @@ void PrimaryDistributionRecord::UpdateInitialDistanceFromClosestApproach() const
         sign = (sign > 0) ? (1) : (-1);
         magnitude = std::sqrt(difference.at(0)*difference.at(0) + difference.at(1)*difference.at(1) + difference.at(2)*difference.at(2));
         initial_distance_from_closest_approach = magnitude * sign;
-    } else if(point_of_closest_approach_set and interaction_vertex_set and length_set) {
+    } else if(point_of_closest_approach_set and interaction_vertex_set and length_set and direction_set) {
         double p_dot_d = (
             (interaction_vertex.at(0) * direction.at(0)) +
             (interaction_vertex.at(1) * direction.at(1)) +
-- 
2.43.0


From 28a50f262a13a46f40714ee88e1fd65af00ba346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:45 +0000
Subject: [PATCH 003/118] fix: mass of a massless particle derived from its
 four-momentum is not NaN

---
 projects/dataclasses/private/InteractionRecord.cxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index b5a5269..86246c4 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -1,7 +1,7 @@
 #include "SIREN/dataclasses/InteractionRecord.h"
 
 #include <cmath>
-#include <algorithm>  // for min
+#include <algorithm>  // for min, max
 #include <tuple>    // for tie, operator==, tuple
 #include <cassert>
 #include <ostream>  // for operator<<, basic_ostream, char_traits, endl, ost...
@@ -291,7 +291,8 @@ void PrimaryDistributionRecord::UpdateMass() const {
     if(mass_set)
         return;
     if(energy_set and momentum_set) {
-        mass = std::sqrt(energy*energy - momentum.at(0)*momentum.at(0) - momentum.at(1)*momentum.at(1) - momentum.at(2)*momentum.at(2));
+        // Rounding can make the invariant mass of a (nearly) massless particle slightly negative
+        mass = std::sqrt(std::max(0.0, energy*energy - momentum.at(0)*momentum.at(0) - momentum.at(1)*momentum.at(1) - momentum.at(2)*momentum.at(2)));
     } else if(energy_set and kinetic_energy_set) {
         mass = energy - kinetic_energy;
     } else {
@@ -872,7 +873,8 @@ void SecondaryParticleRecord::UpdateMass() const {
     if(mass_set)
         return;
     if(energy_set and momentum_set) {
-        mass = std::sqrt(energy*energy - momentum.at(0)*momentum.at(0) - momentum.at(1)*momentum.at(1) - momentum.at(2)*momentum.at(2));
+        // Rounding can make the invariant mass of a (nearly) massless particle slightly negative
+        mass = std::sqrt(std::max(0.0, energy*energy - momentum.at(0)*momentum.at(0) - momentum.at(1)*momentum.at(1) - momentum.at(2)*momentum.at(2)));
     } else if(energy_set and kinetic_energy_set) {
         mass = energy - kinetic_energy;
     } else {
-- 
2.43.0


From 532da2731075b9ed526379b9ed92bb2f04237391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:45 +0000
Subject: [PATCH 004/118] fix: secondary particles at rest have no direction
 instead of a NaN one

---
 projects/dataclasses/private/InteractionRecord.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index 86246c4..9a3bf4c 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -1127,8 +1127,8 @@ SecondaryDistributionRecord::SecondaryDistributionRecord(InteractionRecord & rec
     mass(record.primary_mass),
     direction([](InteractionRecord const & record) -> std::array<double, 3> {
         std::array<double, 3> direction;
-        if(record.primary_momentum.at(0) != 0) {
-            double magnitude = std::sqrt(record.primary_momentum.at(1)*record.primary_momentum.at(1) + record.primary_momentum.at(2)*record.primary_momentum.at(2) + record.primary_momentum.at(3)*record.primary_momentum.at(3));
+        double magnitude = std::sqrt(record.primary_momentum.at(1)*record.primary_momentum.at(1) + record.primary_momentum.at(2)*record.primary_momentum.at(2) + record.primary_momentum.at(3)*record.primary_momentum.at(3));
+        if(magnitude > 0) {
             direction = {record.primary_momentum.at(1)/magnitude, record.primary_momentum.at(2)/magnitude, record.primary_momentum.at(3)/magnitude};
         } else {
             direction = {0, 0, 0};
@@ -1148,8 +1148,8 @@ SecondaryDistributionRecord::SecondaryDistributionRecord(InteractionRecord const
     mass(record.primary_mass),
     direction([](InteractionRecord const & record) -> std::array<double, 3> {
         std::array<double, 3> direction;
-        if(record.primary_momentum.at(0) != 0) {
-            double magnitude = std::sqrt(record.primary_momentum.at(1)*record.primary_momentum.at(1) + record.primary_momentum.at(2)*record.primary_momentum.at(2) + record.primary_momentum.at(3)*record.primary_momentum.at(3));
+        double magnitude = std::sqrt(record.primary_momentum.at(1)*record.primary_momentum.at(1) + record.primary_momentum.at(2)*record.primary_momentum.at(2) + record.primary_momentum.at(3)*record.primary_momentum.at(3));
+        if(magnitude > 0) {
             direction = {record.primary_momentum.at(1)/magnitude, record.primary_momentum.at(2)/magnitude, record.primary_momentum.at(3)/magnitude};
         } else {
             direction = {0, 0, 0};
-- 
2.43.0


From 808244d1a57af80b7c0c40285d3d75b5f86a36b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:45 +0000
Subject: [PATCH 005/118] fix: refuse to finalize a secondary vertex whose
 length was never set

---
 projects/dataclasses/private/InteractionRecord.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index 9a3bf4c..18a2af7 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -1198,6 +1198,7 @@ void SecondaryDistributionRecord::Finalize(InteractionRecord & record) const {
     record.primary_mass = mass;
     record.primary_momentum = momentum;
     record.primary_helicity = helicity;
+    double const & length = GetLength();
     record.interaction_vertex = initial_position;
     record.interaction_vertex.at(0) += length*direction.at(0);
     record.interaction_vertex.at(1) += length*direction.at(1);
-- 
2.43.0


From 21e69721a6a2392a67261016ab12a239face7a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:45 +0000
Subject: [PATCH 006/118] fix: a copied SecondaryDistributionRecord does not
 refer into the original

---
 .../dataclasses/private/InteractionRecord.cxx   | 17 +++++++++++++++++
 .../SIREN/dataclasses/InteractionRecord.h       |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index 18a2af7..08e28b2 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -1161,6 +1161,23 @@ SecondaryDistributionRecord::SecondaryDistributionRecord(InteractionRecord const
     initial_position(record.primary_initial_position),
     initial_time(record.primary_initial_time) {}
 
+// The reference members must refer to this object's own record, not to that of the copied object
+SecondaryDistributionRecord::SecondaryDistributionRecord(SecondaryDistributionRecord const & other) :
+    secondary_index(other.secondary_index),
+    record(other.record),
+    id(other.id),
+    type(record.signature.primary_type),
+    mass(record.primary_mass),
+    direction(other.direction),
+    momentum(record.primary_momentum),
+    helicity(record.primary_helicity),
+    initial_position(record.primary_initial_position),
+    initial_time(record.primary_initial_time),
+    length_set(other.length_set),
+    length(other.length),
+    interaction_time_set(other.interaction_time_set),
+    interaction_time(other.interaction_time) {}
+
 size_t SecondaryDistributionRecord::GetSecondaryIndex() const {
     return secondary_index;
 }
diff --git a/projects/dataclasses/public/SIREN/dataclasses/InteractionRecord.h b/projects/dataclasses/public/SIREN/dataclasses/InteractionRecord.h
index 56dbff9..e63a432 100644
--- a/projects/dataclasses/public/SIREN/dataclasses/InteractionRecord.h
+++ b/projects/dataclasses/public/SIREN/dataclasses/InteractionRecord.h
@@ -440,7 +440,7 @@ private:
 public:
     friend std::ostream& ::operator<<(std::ostream& os, SecondaryDistributionRecord const& record);
 
-    SecondaryDistributionRecord(SecondaryDistributionRecord const & other) = default;
+    SecondaryDistributionRecord(SecondaryDistributionRecord const & other);
     SecondaryDistributionRecord & operator=(SecondaryDistributionRecord const & other) = delete;
     SecondaryDistributionRecord & operator=(SecondaryDistributionRecord && other) = delete;
 
-- 
2.43.0


From fc570f2a95f9a3883cd4a1be686061de75667a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:14 +0000
Subject: [PATCH 007/118] fix: power law reports no density outside its energy
 range

---
 .../private/primary/energy/PowerLaw.cxx             | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/projects/distributions/private/primary/energy/PowerLaw.cxx b/projects/distributions/private/primary/energy/PowerLaw.cxx
index 923dbb9..bb494c1 100644
--- a/projects/distributions/private/primary/energy/PowerLaw.cxx
+++ b/projects/distributions/private/primary/energy/PowerLaw.cxx
@@ -2,6 +2,7 @@
 
 #include <array>                                           // for array
 #include <tuple>                                           // for tie, opera...
+#include <algorithm>                                       // for min, max
 #include <math.h>                                          // for pow, log10
 #include <string>                                          // for basic_string
 
@@ -28,13 +29,16 @@ double PowerLaw::SampleEnergy(std::shared_ptr<siren::utilities::SIREN_random> ra
     if(energyMin == energyMax)
         return energyMin; //return the only allowed energy
 
+    double energy;
     if(powerLawIndex == 1.0) //sample uniformly in log space
-        return pow(10.0, rand->Uniform(log10(energyMin), log10(energyMax)));
+        energy = pow(10.0, rand->Uniform(log10(energyMin), log10(energyMax)));
     else {
         double u = rand->Uniform();
         double energyP = (1 - u) * pow(energyMin, 1 - powerLawIndex) + u * pow(energyMax, 1 - powerLawIndex);
-        return pow(energyP, 1 / (1 - powerLawIndex));
+        energy = pow(energyP, 1 / (1 - powerLawIndex));
     }
+    // rounding must not carry the energy out of the support
+    return std::min(std::max(energy, energyMin), energyMax);
 }
 
 double PowerLaw::pdf(double energy) const {
@@ -49,7 +53,10 @@ double PowerLaw::pdf(double energy) const {
 }
 
 double PowerLaw::GenerationProbability(std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::InteractionRecord const & record) const {
-    return pdf(record.primary_momentum[0]);
+    double const & energy = record.primary_momentum[0];
+    if(energy < energyMin or energy > energyMax)
+        return 0.0;
+    return pdf(energy);
 }
 
 std::string PowerLaw::Name() const {
-- 
2.43.0


From 4e91f3f1b54b64387bc5c87308c6b466e59b62be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:14 +0000
Subject: [PATCH 008/118] fix: cone built from an unnormalised axis samples
 around the wrong axis

---
 projects/distributions/private/primary/direction/Cone.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projects/distributions/private/primary/direction/Cone.cxx b/projects/distributions/private/primary/direction/Cone.cxx
index 421da40..9742e98 100644
--- a/projects/distributions/private/primary/direction/Cone.cxx
+++ b/projects/distributions/private/primary/direction/Cone.cxx
@@ -27,9 +27,9 @@ Cone::Cone(siren::math::Vector3D dir, double opening_angle) : dir(dir), opening_
     } else if(this->dir == siren::math::Vector3D(0,0,-1)) {
         rotation = siren::math::Quaternion(0,1,0,0);
     } else {
-        siren::math::Vector3D r = cross_product(siren::math::Vector3D(0, 0, 1), dir);
+        siren::math::Vector3D r = cross_product(siren::math::Vector3D(0, 0, 1), this->dir);
         rotation = siren::math::Quaternion(r);
-        rotation.SetW(1.0 + dir.GetZ());
+        rotation.SetW(1.0 + this->dir.GetZ());
         rotation.normalize();
     }
 }
@@ -49,6 +49,8 @@ double Cone::GenerationProbability(std::shared_ptr<siren::detector::DetectorMode
     double theta;
     if(c > 1)
         theta = 0;
+    else if(c < -1)
+        theta = M_PI;
     else
         theta = acos(c);
     if(theta < opening_angle)
-- 
2.43.0


From 13f7f4e0c902d98b82b83ffb9fb4843865ffacfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:43 +0000
Subject: [PATCH 009/118] fix: fixed direction given unnormalised reports zero
 density for its own samples

---
 .../SIREN/distributions/primary/direction/FixedDirection.h      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/distributions/public/SIREN/distributions/primary/direction/FixedDirection.h b/projects/distributions/public/SIREN/distributions/primary/direction/FixedDirection.h
index 3ee4607..780893b 100644
--- a/projects/distributions/public/SIREN/distributions/primary/direction/FixedDirection.h
+++ b/projects/distributions/public/SIREN/distributions/primary/direction/FixedDirection.h
@@ -32,7 +32,7 @@ protected:
 private:
     siren::math::Vector3D dir;
 public:
-    FixedDirection(siren::math::Vector3D dir) : dir(dir) {};
+    FixedDirection(siren::math::Vector3D dir) : dir(dir) {this->dir.normalize();};
 private:
     siren::math::Vector3D SampleDirection(std::shared_ptr<siren::utilities::SIREN_random> rand, std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::PrimaryDistributionRecord & record) const override;
     virtual double GenerationProbability(std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::InteractionRecord const & record) const override;
-- 
2.43.0


From 1944dab1217bf801b1f83f25eb33bd18cfd969b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:43 +0000
Subject: [PATCH 010/118] fix: ordering and equality of direction, mass and
 normalization distributions

---
 .../distributions/private/Distributions.cxx    |  2 +-
 .../private/primary/direction/Cone.cxx         | 18 ++++++++++++++----
 .../primary/direction/FixedDirection.cxx       |  6 +++---
 .../private/primary/mass/PrimaryMass.cxx       |  2 +-
 4 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/projects/distributions/private/Distributions.cxx b/projects/distributions/private/Distributions.cxx
index 33f6336..1b23731 100644
--- a/projects/distributions/private/Distributions.cxx
+++ b/projects/distributions/private/Distributions.cxx
@@ -76,7 +76,7 @@ std::string NormalizationConstant::Name() const {
 }
 
 bool NormalizationConstant::equal(WeightableDistribution const & distribution) const {
-    const PhysicallyNormalizedDistribution* dist = dynamic_cast<const PhysicallyNormalizedDistribution*>(&distribution);
+    const NormalizationConstant* dist = dynamic_cast<const NormalizationConstant*>(&distribution);
     if(!dist) return false;
     return normalization==dist->GetNormalization();
 }
diff --git a/projects/distributions/private/primary/direction/Cone.cxx b/projects/distributions/private/primary/direction/Cone.cxx
index 9742e98..be53448 100644
--- a/projects/distributions/private/primary/direction/Cone.cxx
+++ b/projects/distributions/private/primary/direction/Cone.cxx
@@ -2,6 +2,7 @@
 
 #include <array>                                           // for array
 #include <math.h>                                          // for acos, cos
+#include <tuple>                                           // for tie, opera...
 #include <string>                                          // for basic_string
 #include <stdlib.h>                                        // for abs
 
@@ -79,11 +80,20 @@ bool Cone::equal(WeightableDistribution const & other) const {
 
 bool Cone::less(WeightableDistribution const & other) const {
     const Cone* x = dynamic_cast<const Cone*>(&other);
-    if(abs(1.0 - siren::math::scalar_product(dir, x->dir)) < 1e-9) {
-        return false;
-    } else {
+    if(opening_angle != x->opening_angle)
         return opening_angle < x->opening_angle;
-    }
+    if(abs(1.0 - siren::math::scalar_product(dir, x->dir)) < 1e-9)
+        return false;
+    double X = dir.GetX();
+    double Y = dir.GetY();
+    double Z = dir.GetZ();
+    double other_X = x->dir.GetX();
+    double other_Y = x->dir.GetY();
+    double other_Z = x->dir.GetZ();
+    return
+        std::tie(X, Y, Z)
+        <
+        std::tie(other_X, other_Y, other_Z);
 }
 
 } // namespace distributions
diff --git a/projects/distributions/private/primary/direction/FixedDirection.cxx b/projects/distributions/private/primary/direction/FixedDirection.cxx
index fd23ec0..e809abe 100644
--- a/projects/distributions/private/primary/direction/FixedDirection.cxx
+++ b/projects/distributions/private/primary/direction/FixedDirection.cxx
@@ -61,9 +61,9 @@ bool FixedDirection::less(WeightableDistribution const & other) const {
         double X = dir.GetX();
         double Y = dir.GetY();
         double Z = dir.GetZ();
-        double other_X = dir.GetX();
-        double other_Y = dir.GetY();
-        double other_Z = dir.GetZ();
+        double other_X = x->dir.GetX();
+        double other_Y = x->dir.GetY();
+        double other_Z = x->dir.GetZ();
         return
             std::tie(X, Y, Z)
             <
diff --git a/projects/distributions/private/primary/mass/PrimaryMass.cxx b/projects/distributions/private/primary/mass/PrimaryMass.cxx
index da62235..32a508a 100644
--- a/projects/distributions/private/primary/mass/PrimaryMass.cxx
+++ b/projects/distributions/private/primary/mass/PrimaryMass.cxx
@@ -64,7 +64,7 @@ bool PrimaryMass::equal(WeightableDistribution const & other) const {
 
 bool PrimaryMass::less(WeightableDistribution const & other) const {
     const PrimaryMass* x = dynamic_cast<const PrimaryMass*>(&other);
-    return primary_mass == x->primary_mass;
+    return primary_mass < x->primary_mass;
 }
 
 } // namespace distributions
-- 
2.43.0


From 34387c0eacc1f7e2994a049debdffa0b1d1a8707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:43 +0000
Subject: [PATCH 011/118] fix: tabulated flux never publishes the energies of
 its CDF

---
 .../private/primary/energy/TabulatedFluxDistribution.cxx        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx b/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
index cfae9cc..ab9380f 100644
--- a/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
+++ b/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
@@ -141,7 +141,7 @@ void TabulatedFluxDistribution::ComputeCDF() {
 
     // declare the cdf vectors
     std::vector<double> cdf_vector;
-    std::vector<double> cdf_energy_nodes;
+    cdf_energy_nodes.clear();
 
     cdf_vector.push_back(0); // start the CDF at zero
     cdf_energy_nodes.push_back(energies[0]);
-- 
2.43.0


From 1ec541bca9ac25c73c6fcf7daaa2b0615cbfa656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:43 +0000
Subject: [PATCH 012/118] fix: random power law draw ignores its bounds

---
 projects/utilities/private/Random.cxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/utilities/private/Random.cxx b/projects/utilities/private/Random.cxx
index 0d268a4..debc3eb 100644
--- a/projects/utilities/private/Random.cxx
+++ b/projects/utilities/private/Random.cxx
@@ -39,9 +39,11 @@ namespace utilities {
     double SIREN_random::PowerLaw(double min, double max, double n) {
         if(max < min)
             std::swap(min, max);
-        double range = max - min;
-        double unif = range * (this->generator(configuration)) + min;
-        
+        double unif = this->generator(configuration);
+
+        if(n == -1)
+            return min * pow(max / min, unif);
+
         double base = (pow(max,n+1) - pow(min,n+1)) * unif + pow(min,n+1) ; 
         double exp = 1/(n+1) ; 
         return pow(base, exp);
-- 
2.43.0


From 1cfa036392b58f221575d51c4055cc8450606222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:43 +0000
Subject: [PATCH 013/118] fix: irregular table lookup at or below the first
 node uses the last bin

---
 projects/utilities/public/SIREN/utilities/Interpolator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/utilities/public/SIREN/utilities/Interpolator.h b/projects/utilities/public/SIREN/utilities/Interpolator.h
index 2165732..818b822 100644
--- a/projects/utilities/public/SIREN/utilities/Interpolator.h
+++ b/projects/utilities/public/SIREN/utilities/Interpolator.h
@@ -124,10 +124,10 @@ struct IndexFinderIrregular {
         // begin is the first element
         // distance(begin, pointer to y) --> y
         // therefore this function returns the index of the lower bin edge
-        unsigned int index = std::distance(data.begin(), std::lower_bound(data.begin(), data.end(), x)) - 1;
+        int index = int(std::distance(data.begin(), std::lower_bound(data.begin(), data.end(), x))) - 1;
         if(index < 0)
             index = 0;
-        else if(index >= n_points - 1)
+        else if(index >= int(n_points) - 1)
             index = n_points - 2;
         return std::tuple<unsigned int, T, T, T>(index,
                 x,
-- 
2.43.0


From efbc037e221df36a6106f898133b66769efffd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:43 +0000
Subject: [PATCH 014/118] fix: zero mask of logarithmic tables is written past
 its end and lost on copy

---
 projects/utilities/public/SIREN/utilities/Interpolator.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/utilities/public/SIREN/utilities/Interpolator.h b/projects/utilities/public/SIREN/utilities/Interpolator.h
index 818b822..b0a3099 100644
--- a/projects/utilities/public/SIREN/utilities/Interpolator.h
+++ b/projects/utilities/public/SIREN/utilities/Interpolator.h
@@ -397,8 +397,10 @@ public:
 
         std::vector<T> function_values(table.f.begin(), table.f.end());
         if(is_log) {
-            zero_mask.reserve(function_values.size());
-            std::transform(function_values.begin(), function_values.end(), zero_mask.begin(), [](T t)->T{return t<=0;});
+            zero_mask.assign(x.size(), false);
+            for(unsigned int i=0; i<table.x.size(); ++i) {
+                zero_mask[xmap[table.x[i]]] = function_values[i] <= 0;
+            }
             std::transform(function_values.begin(), function_values.end(), function_values.begin(), [](T t)->T{if(t > 0){return log(t);} else {return t;}});
         }
 
@@ -556,7 +558,7 @@ public:
         std::vector<T> function_values(table.f.begin(), table.f.end());
         std::vector<bool> z_mask;
         if(is_log) {
-            z_mask.reserve(function_values.size());
+            z_mask.resize(function_values.size());
             std::transform(function_values.begin(), function_values.end(), z_mask.begin(), [](T t)->T{return t<=0;});
             std::transform(function_values.begin(), function_values.end(), function_values.begin(), [](T t)->T{if(t > 0){return log(t);} else {return t;}});
             //std::transform(function_values.begin(), function_values.end(), function_values.begin(), [](T t)->T{return log(t);});
-- 
2.43.0


From edbc5272e69897681377244bac7f75b77cf570c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:43 +0000
Subject: [PATCH 015/118] fix: logarithmic tables do not reproduce their nodes
 next to a zero

---
 .../public/SIREN/utilities/Interpolator.h     | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/projects/utilities/public/SIREN/utilities/Interpolator.h b/projects/utilities/public/SIREN/utilities/Interpolator.h
index b0a3099..cd9c245 100644
--- a/projects/utilities/public/SIREN/utilities/Interpolator.h
+++ b/projects/utilities/public/SIREN/utilities/Interpolator.h
@@ -430,15 +430,17 @@ public:
         T fb = function.at(index+1);
         T result;
         if(is_log) {
+            // next to a zero the interpolation is linear in x
+            T fraction = expm1(val - xa) / expm1(delta);
             if(zero_mask[index]) {
                 if(zero_mask[index+1]) {
-                    result = fa + (fb - fa) * exp(val - xa - delta);
+                    result = fa + (fb - fa) * fraction;
                 } else {
-                    result = fa + (exp(fb) - fa) * exp(val - xa - delta);
+                    result = fa + (exp(fb) - fa) * fraction;
                 }
             } else {
                 if(zero_mask[index+1]) {
-                    result = exp(fa) + (fb - exp(fa)) * exp(val - xa - delta);
+                    result = exp(fa) + (fb - exp(fa)) * fraction;
                 } else {
                     result = exp(fa + (fb - fa) * (val - xa) / delta);
                 }
@@ -632,14 +634,14 @@ public:
             bool has_zero = zaa or zab or zba or zbb;
             if(has_zero) {
                 if(indexer_x.IsLog()) {
-                    da_x = exp(da_x);
-                    db_x = exp(db_x);
-                    delta_x = exp(delta_x);
+                    da_x = expm1(da_x);
+                    delta_x = expm1(delta_x);
+                    db_x = delta_x - da_x;
                 }
                 if(indexer_y.IsLog()) {
-                    da_y = exp(da_y);
-                    db_y = exp(db_y);
-                    delta_y = exp(delta_y);
+                    da_y = expm1(da_y);
+                    delta_y = expm1(delta_y);
+                    db_y = delta_y - da_y;
                 }
                 if(!zaa)
                     faa = exp(faa);
-- 
2.43.0


From d637928b412468da7725240ac091e28e9d5a1400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:43 +0000
Subject: [PATCH 016/118] fix: tabulated 2D flux samples do not follow the
 reported density

---
 .../Tabulated2DFluxDistribution.cxx           | 38 ++++++++-----------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx b/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
index ad58837..e264ca4 100644
--- a/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
+++ b/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
@@ -279,34 +279,26 @@ std::pair<double, double> Tabulated2DFluxDistribution::SampleTablePoint(std::sha
 
 std::pair<double,siren::math::Vector3D> Tabulated2DFluxDistribution::SampleEnergyAndDirection(std::shared_ptr<siren::utilities::SIREN_random> rand, std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::PrimaryDistributionRecord & record) const {
 
-    double energy, cosZenith, test_density;
-    std::pair<double,double> energy_cosZenith;
-
-    // Metropolis-Hastings burn-in
-    while (MH_sampled_points <= burnin) {
-        energy_cosZenith = SampleTablePoint(rand);
-        energy = energy_cosZenith.first;
-        cosZenith = energy_cosZenith.second;
-        test_density = pdf(energy, cosZenith);
+    // The proposals are uniform in log-energy for log-spaced tables, the target there is E * pdf(E)
+    auto target = [&] (std::pair<double, double> const & point) -> double {
+        return pdf(point.first, point.second) * (fluxTable.IsLogX() ? point.first : 1.0);
+    };
+
+    // Metropolis-Hastings chain, started afresh for every sample.
+    // A rejected proposal counts as a step of the chain that stays where it is.
+    std::pair<double, double> energy_cosZenith = SampleTablePoint(rand);
+    MH_density = target(energy_cosZenith);
+    for(MH_sampled_points = 0; MH_sampled_points <= burnin or MH_density <= 0; ++MH_sampled_points) {
+        std::pair<double, double> test_point = SampleTablePoint(rand);
+        double test_density = target(test_point);
         bool accept = (MH_density <= 0) || (test_density >= MH_density) || (rand->Uniform() < test_density / MH_density);
         if(accept) {
+            energy_cosZenith = test_point;
             MH_density = test_density;
-            MH_sampled_points++;
-        }
-    }
-    // Sample one point after burn-in
-    bool accept = false;
-    while(!accept) {
-        energy_cosZenith = SampleTablePoint(rand);
-        energy = energy_cosZenith.first;
-        cosZenith = energy_cosZenith.second;
-        test_density = pdf(energy, cosZenith);
-        accept = (MH_density <= 0) || (test_density >= MH_density) || (rand->Uniform() < test_density / MH_density);
-        if(accept) {
-            MH_density = test_density;
-            MH_sampled_points++;
         }
     }
+    double energy = energy_cosZenith.first;
+    double cosZenith = energy_cosZenith.second;
     // Convert cos(zenith) to a 3D direction vector
     double sin_theta = sqrt(1.0 - cosZenith * cosZenith);
     double phi = rand->Uniform(-M_PI, M_PI);
-- 
2.43.0


From 3230b0eb7e8cf71978660d3f8968e41071e0cd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:33 +0000
Subject: [PATCH 017/118] fix: 2D Simpson integration of small fluxes stops
 before it converges

---
 .../utilities/public/SIREN/utilities/Integration.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/projects/utilities/public/SIREN/utilities/Integration.h b/projects/utilities/public/SIREN/utilities/Integration.h
index 062aa5a..472529f 100644
--- a/projects/utilities/public/SIREN/utilities/Integration.h
+++ b/projects/utilities/public/SIREN/utilities/Integration.h
@@ -172,7 +172,7 @@ double simpsonIntegrate2D(const FuncType& func, double a1, double b1, double a2,
      throw(std::runtime_error("Integration tolerance must be positive"));
 
   double prev_estimate = 0;
-  double estimate;
+  double estimate, magnitude;
   unsigned int N1i,N2i;
   double h1i,h2i,c1,c2;
 
@@ -182,6 +182,7 @@ double simpsonIntegrate2D(const FuncType& func, double a1, double b1, double a2,
      h1i = (b1-a1)/N1i;
      h2i = (b2-a2)/N2i;
      estimate = 0;
+     magnitude = 0;
      for(unsigned int j = 0; j < N1i+1; j++) {
        if (j==0 || j==N1i) c1 = 1;
        else if (j%2==0) c1 = 2;
@@ -192,16 +193,19 @@ double simpsonIntegrate2D(const FuncType& func, double a1, double b1, double a2,
          else if (k%2==0) c2 = 2;
          else c2 = 4;
          double y = a2 + k*h2i;
-         estimate += c1*c2*func(x, y);
+         double value = func(x, y);
+         estimate += c1*c2*value;
+         magnitude += c1*c2*std::abs(value);
        }
      }
      estimate *= h1i*h2i/9;
+     magnitude *= std::abs(h1i*h2i)/9;
      if(i > 0) {
        double diff = std::abs(estimate - prev_estimate);
        double scale = std::max(std::abs(estimate), std::abs(prev_estimate));
-       // Converged when relative change is small, or when the integral
-       // magnitude is below tol^2 (effectively zero for any reasonable tol).
-       if(scale < tol * tol || diff < tol * scale) {
+       // Converged when relative change is small, or when the integral vanishes
+       // compared with the integral of the absolute value (in whatever units).
+       if(scale <= tol * tol * magnitude || diff < tol * scale) {
          return estimate;
        }
      }
-- 
2.43.0


From e46f64e09d8c2935d31b248cb4a2334d085a5bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:16 +0000
Subject: [PATCH 018/118] fix: cone pointing down the z axis samples NaN
 directions

---
 projects/distributions/private/primary/direction/Cone.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projects/distributions/private/primary/direction/Cone.cxx b/projects/distributions/private/primary/direction/Cone.cxx
index be53448..232dd67 100644
--- a/projects/distributions/private/primary/direction/Cone.cxx
+++ b/projects/distributions/private/primary/direction/Cone.cxx
@@ -23,9 +23,11 @@ namespace distributions {
 //---------------
 Cone::Cone(siren::math::Vector3D dir, double opening_angle) : dir(dir), opening_angle(opening_angle) {
     this->dir.normalize();
-    if(this->dir == siren::math::Vector3D(0,0,1)) {
+    // compare components: vector equality also looks at cached spherical coordinates
+    bool along_z = this->dir.GetX() == 0 and this->dir.GetY() == 0;
+    if(along_z and this->dir.GetZ() > 0) {
         rotation = siren::math::Quaternion(0,0,0,1);
-    } else if(this->dir == siren::math::Vector3D(0,0,-1)) {
+    } else if(along_z) {
         rotation = siren::math::Quaternion(0,1,0,0);
     } else {
         siren::math::Vector3D r = cross_product(siren::math::Vector3D(0, 0, 1), this->dir);
-- 
2.43.0


From 8f460c5e863edcfa3c926d9c07ec153f51ba4ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:11 +0000
Subject: [PATCH 019/118] fix: tabulated flux samples energies where the flux
 vanishes

---
 .../primary/energy/TabulatedFluxDistribution.cxx       | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx b/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
index ab9380f..adfc499 100644
--- a/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
+++ b/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
@@ -149,8 +149,12 @@ void TabulatedFluxDistribution::ComputeCDF() {
         double p1 = pdf(energies[i-1]);
         double p2 = pdf(energies[i]);
 
-        // skip unsupported parts of pdf
-        if((p1+p2)<=0) continue;
+        // trapezoidal area
+        double area = 0.5 * (p1 + p2) * (energies[i]-energies[i-1]);
+
+        // skip unsupported parts of pdf, including those that only
+        // rounding keeps from vanishing and that do not advance the CDF
+        if(area <= 1e-15) continue;
 
         // Check if we have skipped previous energy node
         if(cdf_energy_nodes.back() != energies[i-1]){
@@ -160,8 +164,6 @@ void TabulatedFluxDistribution::ComputeCDF() {
             cdf_vector.push_back(cdf_vector.back()+1e-12);
         }
 
-        // trapezoidal area
-        double area = 0.5 * (p1 + p2) * (energies[i]-energies[i-1]);
         cdf_vector.push_back(cdf_vector.back() + area);
         cdf_energy_nodes.push_back(energies[i]);
     }
-- 
2.43.0


From 5b1c5944baaa30845ef22815e3ed4e5a93d55017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:19 +0000
Subject: [PATCH 020/118] fix: column depth perpendicular to a Cartesian
 density axis is NaN and its inverse misplaces the constant term

---
 .../CartesianAxisDensityDistribution.h        | 57 ++++++-------------
 1 file changed, 18 insertions(+), 39 deletions(-)

diff --git a/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h b/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h
index 13b697e..d6143ca 100644
--- a/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h
+++ b/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h
@@ -1,6 +1,7 @@
 #pragma once
 #ifndef SIREN_CartesianAxisDensityDistribution_H
 #define SIREN_CartesianAxisDensityDistribution_H
+#include <cmath>
 #include <memory>
 #include <string>
 #include <exception>
@@ -58,9 +59,13 @@ class DensityDistribution1D<CartesianAxis1D, DistributionT, typename std::enable
 
     double AntiDerivative(const math::Vector3D& xi,
                           const math::Vector3D& direction) const override {
+        double dxdt = axis.GetdX(xi, direction);
+        if(std::abs(dxdt) < 1e-12) {
+            // The density does not vary along the direction
+            return dist.Evaluate(axis.GetX(xi)) * (xi*direction);
+        }
         double a = 0;
         double b = axis.GetX(xi);
-        double dxdt = axis.GetdX(xi, direction);
         return (dist.AntiDerivative(b) - dist.AntiDerivative(a)) / dxdt;
     };
 
@@ -68,47 +73,29 @@ class DensityDistribution1D<CartesianAxis1D, DistributionT, typename std::enable
                     const math::Vector3D& direction,
                     double distance) const override {
         double a = axis.GetX(xi);
-        math::Vector3D xj = xi + direction*distance;
-        double b = axis.GetX(xj);
         double dxdt = axis.GetdX(xi, direction);
+        double dx = dxdt*distance;
+        double b = a + dx;
+        if(std::abs(dx) <= 1e-6*(std::abs(a) + std::abs(b))) {
+            // (Nearly) perpendicular to the axis, the difference of antiderivatives would cancel
+            return (dist.Evaluate(a) + 4.0*dist.Evaluate(a + dx/2.0) + dist.Evaluate(b)) / 6.0 * distance;
+        }
         return (dist.AntiDerivative(b) - dist.AntiDerivative(a)) / dxdt;
     }
 
     double Integral(const math::Vector3D& xi,
                     const math::Vector3D& xj) const override {
-        double a = axis.GetX(xi);
-        double b = axis.GetX(xj);
         math::Vector3D direction = xj-xi;
+        double distance = direction.magnitude();
         direction.normalize();
-        double dxdt = axis.GetdX(xi, direction);
-        return (dist.AntiDerivative(b) - dist.AntiDerivative(a)) / dxdt;
+        return Integral(xi, direction, distance);
     };
 
     double InverseIntegral(const math::Vector3D& xi,
                            const math::Vector3D& direction,
                            double integral,
                            double max_distance) const override {
-        double a = axis.GetX(xi);
-        double b = axis.GetX(xi + direction*max_distance);
-        double dxdt = axis.GetdX(xi, direction);
-
-        double dist_integral = integral * dxdt;
-
-        double Ia = dist.AntiDerivative(a);
-        std::function<double(double)> F = [&](double x)->double {
-            return (dist.AntiDerivative(x) - Ia) - dist_integral;
-        };
-
-        std::function<double(double)> dF = [&](double x)->double {
-            return dist.Evaluate(x);
-        };
-
-        try {
-            double b_res = siren::math::NewtonRaphson(F, dF, a, b, (a+b)/2.0);
-            return (b_res - a)/dxdt;
-        } catch(siren::math::MathException& e) {
-            return -1;
-        }
+        return InverseIntegral(xi, direction, 0, integral, max_distance);
     };
 
     double InverseIntegral(const math::Vector3D& xi,
@@ -116,24 +103,16 @@ class DensityDistribution1D<CartesianAxis1D, DistributionT, typename std::enable
                            double constant,
                            double integral,
                            double max_distance) const override {
-        double a = axis.GetX(xi);
-        double b = axis.GetX(xi + direction*max_distance);
-        double dxdt = axis.GetdX(xi, direction);
-
-        double dist_integral = integral * dxdt;
-
-        double Ia = dist.AntiDerivative(a);
         std::function<double(double)> F = [&](double x)->double {
-            return (dist.AntiDerivative(x) - Ia) + constant*x - dist_integral;
+            return Integral(xi, direction, x) + constant*x - integral;
         };
 
         std::function<double(double)> dF = [&](double x)->double {
-            return dist.Evaluate(x) + constant;
+            return Evaluate(xi+direction*x) + constant;
         };
 
         try {
-            double b_res = siren::math::NewtonRaphson(F, dF, a, b, (a+b)/2.0);
-            return (b_res - a)/dxdt;
+            return siren::math::NewtonRaphson(F, dF, 0, max_distance, max_distance/2.0);
         } catch(siren::math::MathException& e) {
             return -1;
         }
-- 
2.43.0


From d8e1b4cb45503baee061c7032f16972d30fa6ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:19 +0000
Subject: [PATCH 021/118] fix: radiation fractions of targets are looked up
 only for absent targets

---
 projects/detector/private/MaterialModel.cxx               | 8 +++++---
 projects/detector/public/SIREN/detector/MaterialModel.tcc | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index 871abb5..9277920 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -384,7 +384,7 @@ std::vector<double> MaterialModel::GetTargetRadiationFraction(int material_id, s
     fractions.reserve(particle_types.size());
     for(auto const & particle_type : particle_types) {
         std::pair<int, siren::dataclasses::ParticleType> key(material_id, particle_type);
-        if(material_components_by_id_.find(key) != material_components_by_id_.end()) {
+        if(material_components_by_id_.find(key) == material_components_by_id_.end()) {
             fractions.push_back(0.0);
             continue;
         }
@@ -401,8 +401,10 @@ std::vector<double> MaterialModel::GetTargetRadiationFraction(int material_id, s
         fractions.push_back(frac);
         X0inv += frac;
     }
-    for(unsigned int i=0; i<fractions.size(); ++i) {
-        fractions[i] /= X0inv;
+    if(X0inv > 0) {
+        for(unsigned int i=0; i<fractions.size(); ++i) {
+            fractions[i] /= X0inv;
+        }
     }
     return fractions;
 }
diff --git a/projects/detector/public/SIREN/detector/MaterialModel.tcc b/projects/detector/public/SIREN/detector/MaterialModel.tcc
index 4bb1f6a..30cf624 100644
--- a/projects/detector/public/SIREN/detector/MaterialModel.tcc
+++ b/projects/detector/public/SIREN/detector/MaterialModel.tcc
@@ -46,7 +46,7 @@ std::vector<double> MaterialModel::GetTargetRadiationFraction(int material_id, I
     fractions.reserve(std::distance(begin, end));
     for(Iterator it = begin; it != end; ++it) {
         std::pair<int, siren::dataclasses::ParticleType> key(material_id, *it);
-        if(material_components_by_id_.find(key) != material_components_by_id_.end()) {
+        if(material_components_by_id_.find(key) == material_components_by_id_.end()) {
             fractions.push_back(0.0);
             continue;
         }
@@ -63,8 +63,10 @@ std::vector<double> MaterialModel::GetTargetRadiationFraction(int material_id, I
         fractions.push_back(frac);
         X0inv += frac;
     }
-    for(unsigned int i=0; i<fractions.size(); ++i) {
-        fractions[i] /= X0inv;
+    if(X0inv > 0) {
+        for(unsigned int i=0; i<fractions.size(); ++i) {
+            fractions[i] /= X0inv;
+        }
     }
     return fractions;
 }
-- 
2.43.0


From db4e494f4cf207d7848315d8d3136639a5966779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:19 +0000
Subject: [PATCH 022/118] fix: redefining a material keeps components of its
 previous definition

---
 projects/detector/private/MaterialModel.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index 9277920..18b1e2e 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -185,9 +185,16 @@ void MaterialModel::AddMaterial(std::string const & material_name, std::map<int,
         }
     } else {
         material_radiation_length_[material_id] = rad_length;
+        // Forget the components of the previous definition
+        for(auto it = material_components_by_id_.begin(); it != material_components_by_id_.end();) {
+            if(it->first.first == material_id)
+                it = material_components_by_id_.erase(it);
+            else
+                ++it;
+        }
         // Store material components by material id and component particle type
         for(auto const & material_component : material_components) {
-            material_components_by_id_[std::make_pair(material_id, material_component.component.type)] = material_component;
+            material_components_by_id_.insert({std::make_pair(material_id, material_component.component.type), material_component});
         }
     }
 }
-- 
2.43.0


From 905e31524d1c469fdb776fbd90664e164480df69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:34 +0000
Subject: [PATCH 023/118] fix: truncated or malformed material files hang the
 reader or invent components

---
 projects/detector/private/MaterialModel.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index 18b1e2e..0962b1f 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -266,11 +266,13 @@ void MaterialModel::AddModelFile(std::string matratio) {
             std::stringstream ss(buffer);
 
             // read material name and number of components
-            ss >> material_name >> num_components;
+            if(not (ss >> material_name >> num_components) or num_components < 0)
+                throw(std::runtime_error("Malformed material line in " + fname + ": " + buffer));
 
             std::map<int, double> component_mass_fractions;
             for(int i=0; i<num_components; ++i) {
-                std::getline(in, buffer);
+                if(not std::getline(in, buffer))
+                    throw(std::runtime_error("Components of material " + material_name + " missing in " + fname));
                 nread = buffer.size();
                 if(nread == 0 || buffer[0] == ' ' || buffer[0] == '\t' || buffer[0] == '#') {
                     // new line, start from white space, or comment line.
@@ -278,7 +280,8 @@ void MaterialModel::AddModelFile(std::string matratio) {
                     continue;
                 } else {
                     std::stringstream ss2(buffer);
-                    ss2 >> component_pdg_code >> mass_fraction;
+                    if(not (ss2 >> component_pdg_code >> mass_fraction))
+                        throw(std::runtime_error("Malformed component line in " + fname + ": " + buffer));
                     component_mass_fractions[component_pdg_code] = mass_fraction;
                 }
             }
-- 
2.43.0


From 3a36316ab84400f53946f289af8b1e40328b6967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:46 +0000
Subject: [PATCH 024/118] fix: refuse material components without a molar mass

---
 projects/detector/private/MaterialModel.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index 0962b1f..aa262bd 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -109,6 +109,11 @@ void MaterialModel::SetPath(std::string const & path) {
 }
 
 void MaterialModel::AddMaterial(std::string const & material_name, std::map<int, double> const & component_mass_fractions) {
+    for(auto const & mass_frac_it : component_mass_fractions) {
+        if(not (Component(static_cast<siren::dataclasses::ParticleType>(mass_frac_it.first)).molar_mass > 0))
+            throw std::runtime_error("Component " + std::to_string(mass_frac_it.first) + " of material " + material_name + " has no known molar mass!");
+    }
+
     int material_id;
     bool new_material = material_ids_.find(material_name) == material_ids_.end();
     if(new_material) {
-- 
2.43.0


From a955adbabb4d65ca8b888d9d76de7e7fd67c6290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:44 +0000
Subject: [PATCH 025/118] fix: ND280UPGRD FGDbox and TPC_padding materials lack
 their number of components

---
 resources/detectors/ND280UPGRD/ND280UPGRD-v1/materials.dat | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/detectors/ND280UPGRD/ND280UPGRD-v1/materials.dat b/resources/detectors/ND280UPGRD/ND280UPGRD-v1/materials.dat
index 4304524..a0ff71b 100644
--- a/resources/detectors/ND280UPGRD/ND280UPGRD-v1/materials.dat
+++ b/resources/detectors/ND280UPGRD/ND280UPGRD-v1/materials.dat
@@ -52,7 +52,7 @@ H2OSCINT 3
 1000080160  0.7418300       # O16 74.2%
 1000010010  0.1049383       # H1  10.5%
 
-FGDbox # Epoxy fiberglass based C21H25ClO5
+FGDbox 4 # Epoxy fiberglass based C21H25ClO5
 1000060120  0.6428572       # C12 
 1000010010  0.0637755       # H1  
 1000080160  0.2040816       # O16 
@@ -79,7 +79,7 @@ sFGD_cubes 4
 1000080160  0.0000151       # O16 
 1000070140  0.0000264       # N14
 
-TPC_padding # aramid material, PPTA based
+TPC_padding 6 # aramid material, PPTA based
 1000060120  0.69263638      # C12
 1000010010  0.04122835       # H1 
 1000080160  0.13193075       # O16
-- 
2.43.0


From 7e9fd76e1bfa059503b1158d676ace501974cdb3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:15:18 +0000
Subject: [PATCH 026/118] fix: a transfer cut short by the server is installed
 as a complete file

---
 python/download.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/download.py b/python/download.py
index 9c101ea..b865a57 100644
--- a/python/download.py
+++ b/python/download.py
@@ -156,6 +156,12 @@ def download_file(url: str, dest: str, sha256: str = "",
             if show_progress and total > 0:
                 print()
 
+            # read() does not report a connection closed early
+            if downloaded < total:
+                raise RuntimeError(
+                    f"Incomplete download of {label}: "
+                    f"got {downloaded} of {total} bytes")
+
         if sha256:
             got = h.hexdigest()
             if got != sha256:
-- 
2.43.0


From 56bfaed1fbc65f4c0acce76724ef9eab8618401b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:15:18 +0000
Subject: [PATCH 027/118] fix: concurrent downloads of one file write into the
 same temporary file

---
 python/download.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/download.py b/python/download.py
index b865a57..3202db8 100644
--- a/python/download.py
+++ b/python/download.py
@@ -40,6 +40,7 @@ import hashlib
 import json
 import os
 import sys
+import threading
 import urllib.error
 import urllib.request
 import zipfile
@@ -112,13 +113,14 @@ def download_file(url: str, dest: str, sha256: str = "",
                   timeout: float = DEFAULT_TIMEOUT) -> None:
     """Download a file from *url* to *dest*.
 
-    - Atomic write: writes to a .tmp file, renames on success.
+    - Atomic write: writes to a .tmp file of its own, renames on success.
     - Follows HTTP redirects (GitHub release assets, Zenodo CDN).
     - Optional SHA-256 verification.
     - Progress bar on stdout.
     """
     os.makedirs(os.path.dirname(dest) or ".", exist_ok=True)
-    tmp = dest + ".tmp"
+    # one temporary file per caller, so that concurrent downloads do not mix
+    tmp = f"{dest}.{os.getpid()}.{threading.get_ident()}.tmp"
 
     if not label:
         label = os.path.basename(dest)
-- 
2.43.0


From b808f28abd6ccc88c570a8801784ababfa12710c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:15:18 +0000
Subject: [PATCH 028/118] fix: cached archive of one name is taken for another
 whose name extends it

---
 python/download.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/download.py b/python/download.py
index 3202db8..ddfffc0 100644
--- a/python/download.py
+++ b/python/download.py
@@ -320,7 +320,8 @@ def _cached_zip(dest_dir: str, record_id: str, filename: str,
     tag = f"{record_id}_{filename}"
     existing = sorted(
         (f for f in os.listdir(cache_dir)
-         if f.startswith(tag + ".") and f.endswith(".zip")),
+         if f.startswith(tag + ".") and f.endswith(".zip")
+         and "." not in f[len(tag) + 1:-len(".zip")]),
         key=lambda f: os.path.getmtime(os.path.join(cache_dir, f)),
         reverse=True,
     )
-- 
2.43.0


From 8ec0bfb5f0228653a68497e92db6bf919de55e56 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:17:44 +0000
Subject: [PATCH 029/118] fix: earth sectors positioned before an unknown layer
 are dropped silently

---
 python/earth/sectors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/earth/sectors.py b/python/earth/sectors.py
index 45fa478..4a2c95e 100644
--- a/python/earth/sectors.py
+++ b/python/earth/sectors.py
@@ -177,8 +177,10 @@ def build_earth_sectors(model, *, surface_offset, prem_layers=None,
             _make_sphere_sector(name, outer_radius, material,
                                 _prem_density(dtype, params)))
     # any extras keyed to a missing layer name -> append at outer edge of PREM
-    for ex in extras_by_before.get(None, ()):
-        ordered_new.append(_extra_sector(ex))
+    layer_names = {layer[0] for layer in prem_layers}
+    for ex in extra_sectors:
+        if ex.insert_before not in layer_names:
+            ordered_new.append(_extra_sector(ex))
 
     if atmosphere is not None:
         for band in atmosphere.resolve(r_prem):
-- 
2.43.0


From 9a12aef2cf4f0101cdf691d24adcaf6a5e736057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:46 +0000
Subject: [PATCH 030/118] fix: W and Z decays report a NaN mass for one of the
 two fermions

Subtracting the four-momenta leaves a squared mass of the order of the rounding
error of E^2, and its square root is not a number when that error is negative.
---
 projects/interactions/private/ElectroweakDecay.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/projects/interactions/private/ElectroweakDecay.cxx b/projects/interactions/private/ElectroweakDecay.cxx
index d61fc2e..c8c7888 100644
--- a/projects/interactions/private/ElectroweakDecay.cxx
+++ b/projects/interactions/private/ElectroweakDecay.cxx
@@ -224,8 +224,7 @@ void ElectroweakDecay::SampleFinalState(dataclasses::CrossSectionDistributionRec
     pX_Bosonrest.rotate(rand_rot);
 
     rk::P4 pX = pX_Bosonrest.boost(boost_to_lab);
-    rk::P4 pY = pBoson - pX;
-    assert(abs(pY.m()-mY)<1e-6);
+    rk::P4 pY(pBoson.momentum() - pX.momentum(), mY); // keeps the mass exact, rounding in the subtraction of energies can make it imaginary
 
     siren::dataclasses::SecondaryParticleRecord & X = record.GetSecondaryParticleRecord(0);
     siren::dataclasses::SecondaryParticleRecord & Y = record.GetSecondaryParticleRecord(1);
-- 
2.43.0


From 347d33a6ab77836eb94c29fc7891b6a00a9f8974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:46 +0000
Subject: [PATCH 031/118] fix: HNL decay to W and lepton is open below its
 threshold

The mass of the charged lepton was left out, so the total width counted a
channel for which no final state exists.
---
 projects/interactions/private/HNLDecay.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index 2f33d73..30e300c 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -502,7 +502,7 @@ double HNLDecay::TotalDecayWidth(dataclasses::InteractionRecord const & record)
       assert(charged);
       meson = false;
       double xw = siren::utilities::Constants::wMass/hnl_mass;
-      if (xw>=1) return 0;
+      if (xw + m_alpha/hnl_mass >= 1) return 0;
       double muw = xw*xw;
       double Gamma_longitudinal = pow(siren::utilities::Constants::gweak,2) / (64 * siren::utilities::Constants::pi * pow(siren::utilities::Constants::wMass,2)) * pow(hnl_mass,3) * pow(1-muw,2);
       double Gamma_transverse = pow(siren::utilities::Constants::gweak,2) / (32 * siren::utilities::Constants::pi) * hnl_mass * pow(1-muw,2);
-- 
2.43.0


From b6220d1af4e4f47e07e9b85b39e2391d4dfca0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:46 +0000
Subject: [PATCH 032/118] fix: integration workspace leaks when a HNL width
 does not converge

---
 projects/interactions/private/HNLDecay.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index 30e300c..ac38dd2 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -59,9 +59,9 @@ double I1(double x, double y, double z) {
   double result,error;
   gsl_integration_qags (&F, pow(sqrt(x)+sqrt(y),2), pow(1-sqrt(z),2), 0, 1e-5, 1000,
                         workspace, &result, &error);
+  gsl_integration_workspace_free (workspace);
   if(result != 0 && std::abs(error/result) > 1e-3)
     throw std::runtime_error("GSL integration failed to converge");
-  gsl_integration_workspace_free (workspace);
   return result;
 }
 
@@ -75,9 +75,9 @@ double I2(double x, double y, double z) {
   double result,error;
   gsl_integration_qags (&F, pow(sqrt(y)+sqrt(z),2), pow(1-sqrt(x),2), 0, 1e-5, 1000,
                         workspace, &result, &error);
+  gsl_integration_workspace_free (workspace);
   if(result != 0 && std::abs(error/result) > 1e-3)
     throw std::runtime_error("GSL integration failed to converge");
-  gsl_integration_workspace_free (workspace);
   return result;
 }
 
@@ -115,9 +115,9 @@ double I(double xu, double xd, double xl) {
   double result,error;
   gsl_integration_qags (&F, pow(xd+xl,2), pow(1-xu,2), 0, 1e-5, 1000,
                         workspace, &result, &error);
+  gsl_integration_workspace_free (workspace);
   if(result != 0 && std::abs(error/result) > 1e-3)
     throw std::runtime_error("GSL integration failed to converge");
-  gsl_integration_workspace_free (workspace);
   return result;
 }
 
-- 
2.43.0


From 4488c73364db058d821bafe0dbd281fff80a2c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:46 +0000
Subject: [PATCH 033/118] fix: final states of HNL decays to hadrons cannot be
 sampled

---
 projects/interactions/private/HNLDecay.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index ac38dd2..594a4a6 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -947,7 +947,8 @@ void HNLDecay::SampleFinalState(dataclasses::CrossSectionDistributionRecord & re
       double phi = random->Uniform(0, 2.0 * M_PI);
       geom3::Rotation3 rand_rot(pHNL_dir, phi);
 
-      double mX = siren::dataclasses::GetParticleMass(record.signature.secondary_types[X_index]);
+      // "Hadrons" stands for an inclusive system and has no entry in the mass table (see GetMass)
+      double mX = (record.signature.secondary_types[X_index] == siren::dataclasses::ParticleType::Hadrons) ? 0 : siren::dataclasses::GetParticleMass(record.signature.secondary_types[X_index]);
       double mLep = siren::dataclasses::GetParticleMass(record.signature.secondary_types[lep_index]);
       double EX_HNLrest = (hnl_mass*hnl_mass + mX*mX - mLep*mLep) / (2.*hnl_mass);
       rk::P4 pX_HNLrest(sqrt(pow(EX_HNLrest,2)-pow(mX,2))*geom3::Vector3(CosTheta,SinTheta,0),mX);
-- 
2.43.0


From e4639cdabd1cb0a161177e6a9499bc243343d0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:46 +0000
Subject: [PATCH 034/118] fix: sign of the HNL decay asymmetry is lost for
 heavy vector mesons

copysign replaces the sign of a negative alpha (vector final states below
sqrt(2) times the meson mass) instead of multiplying it with the helicity.
---
 projects/interactions/private/HNLDecay.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index 594a4a6..887cd8a 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -843,7 +843,7 @@ double HNLDecay::DifferentialDecayWidth(dataclasses::InteractionRecord const & r
       X_dir.normalize();
       double CosThetaGamma = X_dir*hnl_dir; // scalar product
       double alpha = GetAlpha(record.signature.secondary_types[X_index]);
-      alpha = std::copysign(alpha,record.primary_helicity); // 1 for RH, -1 for LH
+      alpha *= std::copysign(1.0,record.primary_helicity); // 1 for RH, -1 for LH
       alpha = (record.signature.primary_type == siren::dataclasses::ParticleType::N4) ? -1*alpha : alpha;
       return DecayWidth/2. * (1 + alpha*CosThetaGamma);
     } // end 2 body decays
@@ -925,7 +925,7 @@ void HNLDecay::SampleFinalState(dataclasses::CrossSectionDistributionRecord & re
 
       double CosTheta;
       double alpha = GetAlpha(record.signature.secondary_types[X_index]);
-      alpha = std::copysign(alpha,record.primary_helicity); // 1 for RH, -1 for LH
+      alpha *= std::copysign(1.0,record.primary_helicity); // 1 for RH, -1 for LH
       alpha = (record.signature.primary_type == siren::dataclasses::ParticleType::N4) ? -1*alpha : alpha;
       if(nature==ChiralNature::Majorana || std::abs(alpha) < 1e-12) {
         CosTheta = random->Uniform(-1,1);
-- 
2.43.0


From f30c73e22bb8625ac7078ae1a9cde52ac5a48e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:46 +0000
Subject: [PATCH 035/118] fix: HNL decay to three neutrinos loses the rest
 energy of the HNL

Three massless neutrinos with a third of the momentum each carry the energy |p|
together, not sqrt(p^2+m^2).
---
 projects/interactions/private/HNLDecay.cxx | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index 887cd8a..f4b4524 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -990,19 +990,24 @@ void HNLDecay::SampleFinalState(dataclasses::CrossSectionDistributionRecord & re
          record.signature.secondary_types[2] == siren::dataclasses::ParticleType::NuLight)
       {
         // N -> nu nubar nu
-        // for now, be stupid and let all neutrinos have 1/3 of the HNL energy and be colinear
-        // this never matters so it's probably ok to be stupid forever
+        // constant matrix element over the massless three body phase space
+        double m_nu = 0;
+        std::vector<double> params = ThreeBodyPhaseSpaceProposalDistribution(m_nu,m_nu,random);
+        std::pair<rk::P4,rk::P4> k3k4 = ThreeBodyPhaseSpaceConversion(record.record,m_nu,m_nu,params[0],params[1],params[2],params[3],params[4]);
         rk::P4 pHNL(geom3::Vector3(record.primary_momentum[1], record.primary_momentum[2], record.primary_momentum[3]), record.primary_mass);
         siren::dataclasses::SecondaryParticleRecord & nu1 = record.GetSecondaryParticleRecord(0);
         siren::dataclasses::SecondaryParticleRecord & nu2 = record.GetSecondaryParticleRecord(1);
         siren::dataclasses::SecondaryParticleRecord & nu3 = record.GetSecondaryParticleRecord(2);
-        nu1.SetThreeMomentum({1./3.*pHNL.px(), 1./3.*pHNL.py(), 1./3.*pHNL.pz()});
+        rk::P4 k3 = k3k4.first;
+        rk::P4 k4 = k3k4.second;
+        rk::P4 k2(pHNL.momentum() - k3.momentum() - k4.momentum(), 0);
+        nu1.SetThreeMomentum({k2.px(), k2.py(), k2.pz()});
         nu1.SetMass(0);
         nu1.SetHelicity(std::copysign(1.0, record.primary_helicity));
-        nu2.SetThreeMomentum({1./3.*pHNL.px(), 1./3.*pHNL.py(), 1./3.*pHNL.pz()});
+        nu2.SetThreeMomentum({k3.px(), k3.py(), k3.pz()});
         nu2.SetMass(0);
         nu2.SetHelicity(std::copysign(1.0, record.primary_helicity));
-        nu3.SetThreeMomentum({1./3.*pHNL.px(), 1./3.*pHNL.py(), 1./3.*pHNL.pz()});
+        nu3.SetThreeMomentum({k4.px(), k4.py(), k4.pz()});
         nu3.SetMass(0);
         nu3.SetHelicity(std::copysign(1.0, record.primary_helicity));
       }
-- 
2.43.0


From 3d89c6138ab5a04530de0f4d0d7143ffcbf7c3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:46 +0000
Subject: [PATCH 036/118] fix: HNL three body phase space is not sampled
 uniformly

Drawing s1 flat and then s2 flat inside its limits for that s1 weighs every
point with 1/(length of the s2 interval), although the sampler declares the
proposal density constant.
---
 projects/interactions/private/HNLDecay.cxx | 35 +++++++++++-----------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index f4b4524..749ecdf 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -1275,23 +1275,24 @@ std::vector<double> HNLDecay::ThreeBodyPhaseSpaceProposalDistribution(double & m
   double s1_min = pow(m_alpha,2)/pow(hnl_mass,2);
   double s1_max = pow(hnl_mass-m_beta,2)/pow(hnl_mass,2);
 
-  double s1 = random->Uniform(s1_min,s1_max);
-
-  // Follow section 3.2 of https://halldweb.jlab.org/DocDB/0033/003345/002/dalitz.pdf
-  // to get s2 bounds for this s1
-  double a = pow(hnl_mass, 6)*s1;
-
-  double b = ( pow(hnl_mass*hnl_mass * s1, 2)
-              + m_alpha*m_alpha * (hnl_mass*hnl_mass - m_beta*m_beta)
-              - hnl_mass*hnl_mass * s1 * (hnl_mass*hnl_mass + m_alpha*m_alpha + m_beta*m_beta)
-            ) * (hnl_mass*hnl_mass);
-
-  double c = (hnl_mass*hnl_mass * s1 * m_beta*m_beta * (hnl_mass*hnl_mass - m_alpha*m_alpha))
-            - (m_alpha*m_alpha * m_beta*m_beta * (hnl_mass*hnl_mass - m_alpha*m_alpha - m_beta*m_beta));
-
-  double s2_min = (-b - sqrt(b*b - 4*a*c))/(2*a);
-  double s2_max = (-b + sqrt(b*b - 4*a*c))/(2*a);
-  double s2 = random->Uniform(s2_min,s2_max);
+  double s2_lower = pow(m_beta,2)/pow(hnl_mass,2);
+  double s2_upper = pow(hnl_mass-m_alpha,2)/pow(hnl_mass,2);
+
+  // The density has to be uniform over the allowed region of the (s1,s2) plane,
+  // so draw from the rectangle around it until the point lies inside
+  double m_N2 = pow(hnl_mass,2);
+  double s1, s2, s2_min, s2_max;
+  do {
+    s1 = random->Uniform(s1_min,s1_max);
+    s2 = random->Uniform(s2_lower,s2_upper);
+    // s2 bounds for this s1, from the energies of k2 and k4 in the rest frame of k2+k3
+    double m_23 = hnl_mass*sqrt(s1);
+    double E2 = (m_N2*s1 - m_alpha*m_alpha) / (2*m_23);
+    double E4 = (m_N2 - m_N2*s1 - m_beta*m_beta) / (2*m_23);
+    double p4 = sqrt(std::max(0., (hnl_mass-m_beta-m_23)*(hnl_mass-m_beta+m_23)*(hnl_mass+m_beta-m_23)*(hnl_mass+m_beta+m_23))) / (2*m_23);
+    s2_min = (m_beta*m_beta + 2*E2*(E4 - p4)) / m_N2;
+    s2_max = (m_beta*m_beta + 2*E2*(E4 + p4)) / m_N2;
+  } while(!(s2_min <= s2 && s2 <= s2_max));
 
   double CosTheta3 = random->Uniform(-1,1);
   double Phi3 = random->Uniform(0,2*siren::utilities::Constants::pi);
-- 
2.43.0


From bdf1c204060790e14c936852ec24db95f915f511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 037/118] fix: HNL three body differential width confuses the
 two invariant masses

The callers pass s1 = (k2+k3)^2 and s2 = (k2+k4)^2, the formula expects them the
other way around: the reported width is negative over much of the phase space of
leptons of different mass and does not integrate to the total width.
---
 projects/interactions/private/HNLDecay.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index 749ecdf..a4dcb2a 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -1196,8 +1196,9 @@ double HNLDecay::ThreeBodyDifferentialDecayWidth(dataclasses::InteractionRecord
   }
   double x3 = m_alpha/hnl_mass;
   double x4 = m_beta/hnl_mass;
-  double A0sq = C1*(s2 - x3*x3) * (1 + x4*x4 - s2) + C2*(s1 - x4*x4)*(1 + x3*x3 - s1) + 2*C3*x3*x4*(s1 + s2 - x3*x3 - x4*x4);
-  double A1sq = (C4*(s2-x3*x3) - 2*C6*x3*x4)*sqrt(lambda(1,s2,x4*x4))*CosTheta4 + (C5*(s1-x4*x4) - 2*C6*x3*x4)*sqrt(lambda(1,s1,x3*x3))*CosTheta3;
+  // s1 = (k2 + k3)^2 / mN^2 goes with the momentum of k4, s2 = (k2 + k4)^2 / mN^2 with that of k3
+  double A0sq = C1*(s1 - x3*x3) * (1 + x4*x4 - s1) + C2*(s2 - x4*x4)*(1 + x3*x3 - s2) + 2*C3*x3*x4*(s1 + s2 - x3*x3 - x4*x4);
+  double A1sq = (C4*(s1-x3*x3) - 2*C6*x3*x4)*sqrt(std::max(0.,lambda(1,s1,x4*x4)))*CosTheta4 + (C5*(s2-x4*x4) - 2*C6*x3*x4)*sqrt(std::max(0.,lambda(1,s2,x3*x3)))*CosTheta3;
   double prefactor = pow(siren::utilities::Constants::FermiConstant,2)*pow(hnl_mass,5) / (128*pow(siren::utilities::Constants::pi,5));
   double GammaPlus = prefactor*(A0sq+A1sq);
   double GammaMinus = prefactor*(A0sq-A1sq);
-- 
2.43.0


From ca75e06c2f1adfba62788bd98d2177949acf8764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 038/118] fix: HNL three body differential width misses half of
 the NC-CC interference

The coefficient is |gL + delta|^2, as in the total width.
---
 projects/interactions/private/HNLDecay.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index a4dcb2a..dc751a8 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -1152,11 +1152,11 @@ double HNLDecay::ThreeBodyDifferentialDecayWidth(dataclasses::InteractionRecord
   double C1nubar = 0,C2nubar = 0,C3nubar = 0,C4nubar = 0,C5nubar = 0,C6nubar = 0;
 
   for(int gamma = 0; gamma < 3; ++gamma) {
-    C1nu += pow(mixing[gamma],2)*((alpha==beta)*pow(gL,2) + (gamma==alpha)*(1 + (alpha==beta)*gL));
+    C1nu += pow(mixing[gamma],2)*((alpha==beta)*pow(gL,2) + (gamma==alpha)*(1 + 2*(alpha==beta)*gL));
     C2nu += (alpha==beta)*pow(gR,2)*pow(mixing[gamma],2);
     C3nu += (alpha==beta)*gR*pow(mixing[gamma],2)*((gamma==beta)+gL);
     C1nubar += (alpha==beta)*pow(gR,2)*pow(mixing[gamma],2);
-    C2nubar += pow(mixing[gamma],2)*((alpha==beta)*pow(gL,2) + (gamma==beta)*(1 + (alpha==beta)*gL));
+    C2nubar += pow(mixing[gamma],2)*((alpha==beta)*pow(gL,2) + (gamma==beta)*(1 + 2*(alpha==beta)*gL));
     C3nubar += (alpha==beta)*gR*pow(mixing[gamma],2)*((gamma==alpha)+gL);
   }
   C4nu = C1nu;
-- 
2.43.0


From 8a50cf2cb52d8d47af5924d052ff3b8f3a64e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 039/118] fix: HNL width to leptons of different flavor is half
 of its integrated differential width

The charged current decay has the rate of muon decay, G^2 m^5 / (192 pi^3), the
prefactor used for every other three body channel.
---
 projects/interactions/private/HNLDecay.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index dc751a8..85c157d 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -590,7 +590,7 @@ double HNLDecay::TotalDecayWidth(dataclasses::InteractionRecord const & record)
       else {
         charged = true;
         if ((x_alpha+x_beta)>=1) return 0;
-        double prefactor = pow(siren::utilities::Constants::FermiConstant,2) * pow(hnl_mass,5) / (384*pow(siren::utilities::Constants::pi,3));
+        double prefactor = pow(siren::utilities::Constants::FermiConstant,2) * pow(hnl_mass,5) / (192*pow(siren::utilities::Constants::pi,3));
         if(nature==ChiralNature::Majorana) {
           return prefactor * ((pow(mixing[alpha],2) * I1(0,x_alpha*x_alpha,x_beta*x_beta)) + (pow(mixing[beta],2) * I1(0,x_beta*x_beta,x_alpha*x_alpha)));
         }
-- 
2.43.0


From b62663022de1bea09ef19ddf719e8cacaf031a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 040/118] fix: HNL three body differential width depends on lab
 frame angles

The momenta in the formula are those in the HNL rest frame. With the angles of
the boosted leptons the width does not integrate to the total width and the
sampled decays depend on the frame.
---
 projects/interactions/private/HNLDecay.cxx | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index 85c157d..33dc30a 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -890,8 +890,11 @@ double HNLDecay::DifferentialDecayWidth(dataclasses::InteractionRecord const & r
         // let's get the phase space variables
         double s1 = (k2+k3).dot(k2+k3) / pow(hnl_mass,2);
         double s2 = (k2+k4).dot(k2+k4) / pow(hnl_mass,2);
-        double CosTheta3 = k1.momentum().direction().dot(k3.momentum().direction()); // Angle between HNL and k3 in lab frame
-        double CosTheta4 = k1.momentum().direction().dot(k4.momentum().direction()); // Angle between HNL and k4 in lab frame
+        rk::Boost boost_to_HNL_rest = k1.restBoost();
+        k3.boost(boost_to_HNL_rest);
+        k4.boost(boost_to_HNL_rest);
+        double CosTheta3 = k1.momentum().direction().dot(k3.momentum().direction()); // Angle between HNL and k3 in HNL rest frame
+        double CosTheta4 = k1.momentum().direction().dot(k4.momentum().direction()); // Angle between HNL and k4 in HNL rest frame
 
         return ThreeBodyDifferentialDecayWidth(record, alpha, beta, m_alpha, m_beta, s1, s2, CosTheta3, CosTheta4);
       }
@@ -1137,7 +1140,7 @@ void HNLDecay::SetGammaHadrons(double Gamma, std::string mode) {
 //////////////////////////////
 
 // follows 3.13 of 1905.00284v2 and subsequent sections
-// Takes as input lab frame angles
+// Takes as input the angles to the HNL direction of flight in the HNL rest frame
 // Process: N (k1) -> nu (k2) l_alpha- (k3) l_beta+ (k4)
 double HNLDecay::ThreeBodyDifferentialDecayWidth(dataclasses::InteractionRecord const & record,
                                                  int & alpha, int & beta,
@@ -1257,12 +1260,13 @@ double HNLDecay::ThreeBodyDifferentialDecayWidth(dataclasses::InteractionRecord
 
   rk::P4 pHNL(geom3::Vector3(record.primary_momentum[1], record.primary_momentum[2], record.primary_momentum[3]), record.primary_mass);
   std::pair<rk::P4,rk::P4> k3k4 = ThreeBodyPhaseSpaceConversion(record,m_alpha,m_beta,s1,s2,CosTheta3_HNLRest,Phi3_HNLRest,PhiRot_HNLRest);
-  rk::P4 k3 = k3k4.first;
-  rk::P4 k4 = k3k4.second;
-  double CosTheta3 = pHNL.momentum().direction().dot(k3.momentum().direction()); // Angle between HNL and k3 in lab frame
-  double CosTheta4 = pHNL.momentum().direction().dot(k4.momentum().direction()); // Angle between HNL and k4 in lab frame
+  rk::Boost boost_to_HNL_rest = pHNL.restBoost();
+  rk::P4 k3 = k3k4.first.boost(boost_to_HNL_rest);
+  rk::P4 k4 = k3k4.second.boost(boost_to_HNL_rest);
+  double CosTheta3 = pHNL.momentum().direction().dot(k3.momentum().direction()); // Angle between HNL and k3 in HNL rest frame
+  double CosTheta4 = pHNL.momentum().direction().dot(k4.momentum().direction()); // Angle between HNL and k4 in HNL rest frame
 
-  // Call function based on lab frame angles
+  // Call function based on angles to the HNL direction
   return ThreeBodyDifferentialDecayWidth(record,alpha,beta,m_alpha,m_beta,s1,s2,CosTheta3,CosTheta4);
 
 }
-- 
2.43.0


From da53acaabcab44a2350f669d16f668b5521feb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 041/118] fix: three body decays of Majorana HNLs report the
 density of a two body decay

They are sampled from the three body differential width. The isotropic value is
right for two body decays only, where the same test is made again.
---
 projects/interactions/private/HNLDecay.cxx | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index 33dc30a..2b89a4c 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -806,10 +806,6 @@ double HNLDecay::GetAlpha(dataclasses::ParticleType const & secondary) const {
 // TODO: update two-body decays to arXiv:1905.00284v2
 double HNLDecay::DifferentialDecayWidth(dataclasses::InteractionRecord const & record) const {
     double DecayWidth = TotalDecayWidth(record);
-    // Check for isotropic decay
-    if (nature==ChiralNature::Majorana) {
-      return DecayWidth/2.; // This factor of 2 is for the cosTheta phase space, not the majorana nature :-)
-    }
     if(record.secondary_momenta.size() ==2)
     {
       // Check for isotropic decay
-- 
2.43.0


From 0b3a3b61adecb636f9989a25172eccf7a10d4ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:18 +0000
Subject: [PATCH 042/118] fix: neutrino keeps its full momentum in elastic
 scattering on electrons

The outgoing neutrino was a copy of the incoming one, so the recoil energy of the
electron came from nowhere and the reported density was always that of y = 0.
---
 projects/interactions/private/ElasticScattering.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/projects/interactions/private/ElasticScattering.cxx b/projects/interactions/private/ElasticScattering.cxx
index 6e136e4..1bb8d18 100644
--- a/projects/interactions/private/ElasticScattering.cxx
+++ b/projects/interactions/private/ElasticScattering.cxx
@@ -195,13 +195,12 @@ void ElasticScattering::SampleFinalState(dataclasses::CrossSectionDistributionRe
     double costh_lab = (m3+primary_energy)/primary_energy * sqrt((E3_lab - m3)/(E3_lab + m3));
     //std::cout << final_y << " " << costh_lab << std::endl;
     double p3x_lab = costh_lab * sqrt(p3_lab_sq);
-    double p3y_lab = sqrt(p3_lab_sq - p3x_lab * p3x_lab);
+    double p3y_lab = sqrt(std::max(0., p3_lab_sq - p3x_lab * p3x_lab)); // rounding can make it negative at the end points
 
     rk::P4 p3_lab(geom3::Vector3(p3x_lab, p3y_lab, 0), m3);
     p3_lab.rotate(x_to_p1_lab_rot);
     p3_lab.rotate(rand_rot);
-    // doing something dumb, ignore outgoing neutrino
-    rk::P4 p4_lab = p1_lab;//p2_lab + (p1_lab - p3_lab);
+    rk::P4 p4_lab((p1_lab + p2_lab - p3_lab).momentum(), p1_lab.m());
 
     siren::dataclasses::SecondaryParticleRecord & electron = record.GetSecondaryParticleRecord(electron_index);
     siren::dataclasses::SecondaryParticleRecord & neutrino = record.GetSecondaryParticleRecord(nu_index);
-- 
2.43.0


From fd5bad2c8146fe44e1c17f116fab72d6d49c3fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:18 +0000
Subject: [PATCH 043/118] fix: elastic scattering samples y from the cross
 section divided by y

Proposing uniformly in log(y) and accepting by the ratio of dsigma/dy alone yields
a density proportional to dsigma/dy / y down to y = 1e-15, while the reported
density is dsigma/dy. The function is flat enough to propose y uniformly.
---
 projects/interactions/private/ElasticScattering.cxx | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/projects/interactions/private/ElasticScattering.cxx b/projects/interactions/private/ElasticScattering.cxx
index 1bb8d18..29d3ad7 100644
--- a/projects/interactions/private/ElasticScattering.cxx
+++ b/projects/interactions/private/ElasticScattering.cxx
@@ -134,18 +134,16 @@ void ElasticScattering::SampleFinalState(dataclasses::CrossSectionDistributionRe
     double yMin = 1e-15;
     double yMax = 2*primary_energy / (2*primary_energy + siren::utilities::Constants::electronMass);
     assert(yMin > 0);
-    double log_yMax = log10(yMax);
-    double log_yMin = log10(yMin);
 
     bool accept;
 
-    double y = 0, test_y;
+    double y, test_y;
 
     // values of cross_section from the table
     double cross_section, test_cross_section;
 
     // sample an intial point
-    test_y = std::pow(10.0,random->Uniform(log_yMin, log_yMax));
+    y = test_y = random->Uniform(yMin, yMax);
 
     // evalutates the differential spline at that point
     test_cross_section = ElasticScattering::DifferentialCrossSection(primary_type, primary_energy, test_y);
@@ -158,15 +156,14 @@ void ElasticScattering::SampleFinalState(dataclasses::CrossSectionDistributionRe
                               // big number means more accurate, but slower
     for(size_t j = 0; j <= burnin; j++) {
         // repeat the sampling from above to get a new valid point
-        test_y = std::pow(10.0,random->Uniform(log_yMin, log_yMax));
+        test_y = random->Uniform(yMin, yMax);
 
         // Load the differential cross section depending on sampling variable
         test_cross_section = ElasticScattering::DifferentialCrossSection(primary_type, primary_energy, test_y);
         if(std::isnan(test_cross_section) or test_cross_section <= 0)
             continue;
 
-        //double odds = ((test_y*test_cross_section) / (y*cross_section));
-        double odds = (test_cross_section / cross_section); // this gives a better match to the y distribution
+        double odds = (test_cross_section / cross_section);
         accept = (cross_section == 0 || (odds > 1.) || random->Uniform(0, 1) < odds);
 
         if(accept) {
-- 
2.43.0


From c5212b9aae41eff458c8974d9dc2f3d8e32db33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:18 +0000
Subject: [PATCH 044/118] fix: dummy cross section produces NaN momenta at
 kinematically forbidden x and y

---
 .../private/DummyCrossSection.cxx             | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/projects/interactions/private/DummyCrossSection.cxx b/projects/interactions/private/DummyCrossSection.cxx
index c415503..48f0cf7 100644
--- a/projects/interactions/private/DummyCrossSection.cxx
+++ b/projects/interactions/private/DummyCrossSection.cxx
@@ -13,6 +13,7 @@
 #include "SIREN/dataclasses/InteractionRecord.h"     // for Interac...
 #include "SIREN/dataclasses/InteractionSignature.h"  // for Interac...
 #include "SIREN/dataclasses/Particle.h"              // for Particle
+#include "SIREN/utilities/Errors.h"
 #include "SIREN/utilities/Random.h"                  // for SIREN_random
 
 namespace siren {
@@ -76,23 +77,29 @@ void DummyCrossSection::SampleFinalState(dataclasses::CrossSectionDistributionRe
     p2_lab = p2;
     primary_energy = p1_lab.e();
 
-    double final_x = random->Uniform(0, 1);
-    double final_y = random->Uniform(0, 1);
+    double m1 = record.primary_mass;
+    double m3 = 0;
+    double E1_lab = p1_lab.e();
+    double E2_lab = p2_lab.e();
+    double p1x_lab = std::sqrt(p1_lab.px() * p1_lab.px() + p1_lab.py() * p1_lab.py() + p1_lab.pz() * p1_lab.pz());
+    double final_x, final_y, pqx_lab, pqy_lab_sq;
+    size_t tries = 0;
+    do { // not every point of the unit square is kinematically allowed
+        if(++tries > 10000000)
+            throw(siren::utilities::InjectionFailure("No kinematically allowed final state found!"));
+        final_x = random->Uniform(0, 1);
+        final_y = random->Uniform(0, 1);
+        double Q2 = 2 * E1_lab * E2_lab * final_x * final_y;
+        pqx_lab = (m1*m1 + m3*m3 + 2 * p1x_lab * p1x_lab + Q2 + 2 * E1_lab * E1_lab * (final_y - 1)) / (2.0 * p1x_lab);
+        pqy_lab_sq = m1*m1 + p1x_lab*p1x_lab + Q2 + E1_lab * E1_lab * (final_y * final_y - 1) - pqx_lab * pqx_lab;
+    } while(!(pqy_lab_sq >= 0));
+    double pqy_lab = std::sqrt(pqy_lab_sq);
 
     record.interaction_parameters.clear();
     record.interaction_parameters["energy"] = primary_energy;
     record.interaction_parameters["bjorken_x"] = final_x;
     record.interaction_parameters["bjorken_y"] = final_y;
 
-    double m1 = record.primary_mass;
-    double m3 = 0;
-    double E1_lab = p1_lab.e();
-    double E2_lab = p2_lab.e();
-    double Q2 = 2 * E1_lab * E2_lab * final_x * final_y;
-    double p1x_lab = std::sqrt(p1_lab.px() * p1_lab.px() + p1_lab.py() * p1_lab.py() + p1_lab.pz() * p1_lab.pz());
-    double pqx_lab = (m1*m1 + m3*m3 + 2 * p1x_lab * p1x_lab + Q2 + 2 * E1_lab * E1_lab * (final_y - 1)) / (2.0 * p1x_lab);
-    double momq_lab = std::sqrt(m1*m1 + p1x_lab*p1x_lab + Q2 + E1_lab * E1_lab * (final_y * final_y - 1));
-    double pqy_lab = std::sqrt(momq_lab*momq_lab - pqx_lab *pqx_lab);
     double Eq_lab = E1_lab * final_y;
 
     geom3::UnitVector3 x_dir = geom3::UnitVector3::xAxis();
-- 
2.43.0


From 342db065783cd628c6dc2979eacee7fb86b2add0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:18 +0000
Subject: [PATCH 045/118] fix: dummy cross section lists signatures for targets
 and primaries it does not support

---
 projects/interactions/private/DummyCrossSection.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/projects/interactions/private/DummyCrossSection.cxx b/projects/interactions/private/DummyCrossSection.cxx
index 48f0cf7..7b81a3f 100644
--- a/projects/interactions/private/DummyCrossSection.cxx
+++ b/projects/interactions/private/DummyCrossSection.cxx
@@ -1,5 +1,6 @@
 #include "SIREN/interactions/DummyCrossSection.h"
 
+#include <algorithm>
 #include <array>                                              // for array
 #include <cmath>                                              // for sqrt, M_PI
 #include <string>                                             // for basic_s...
@@ -155,9 +156,10 @@ std::vector<siren::dataclasses::ParticleType> DummyCrossSection::GetPossibleTarg
 }
 
 std::vector<siren::dataclasses::ParticleType> DummyCrossSection::GetPossibleTargetsFromPrimary(siren::dataclasses::ParticleType primary_type) const {
-    return {
-        siren::dataclasses::ParticleType::Nucleon
-    };
+    std::vector<siren::dataclasses::ParticleType> primaries = GetPossiblePrimaries();
+    if(std::find(primaries.begin(), primaries.end(), primary_type) == primaries.end())
+        return {};
+    return GetPossibleTargets();
 }
 
 std::vector<siren::dataclasses::ParticleType> DummyCrossSection::GetPossiblePrimaries() const {
@@ -191,7 +193,7 @@ std::vector<dataclasses::InteractionSignature> DummyCrossSection::GetPossibleSig
     std::vector<dataclasses::InteractionSignature> sigs = DummyCrossSection::GetPossibleSignatures();
     std::vector<dataclasses::InteractionSignature> these_sigs;
     for(auto sig : sigs) {
-        if(sig.primary_type == primary_type)
+        if(sig.primary_type == primary_type and sig.target_type == target_type)
             these_sigs.push_back(sig);
     }
     return these_sigs;
-- 
2.43.0


From 2f71ecbfeadd0ac25d36f5742d7b6c1847276ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:18 +0000
Subject: [PATCH 046/118] fix: dipole upscattering takes the primary mass for
 the target mass

For a massless primary the inelasticity was 0/0 and the reported density NaN.
---
 projects/interactions/private/HNLDipoleFromTable.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index b7eea32..ad09ff0 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -165,7 +165,7 @@ double HNLDipoleFromTable::DifferentialCrossSection(dataclasses::InteractionReco
     siren::dataclasses::ParticleType target_type = interaction.signature.target_type;
     std::array<double, 4> const & primary_momentum = interaction.primary_momentum;
     double primary_mass = interaction.primary_mass;
-    double target_mass = interaction.primary_mass;
+    double target_mass = interaction.target_mass;
     rk::P4 p1(geom3::Vector3(primary_momentum[1], primary_momentum[2], primary_momentum[3]), primary_mass);
     rk::P4 p2(geom3::Vector3(0, 0, 0), target_mass);
     double primary_energy;
-- 
2.43.0


From 0ddd71444202747883e9f7ac70c725846a3d6601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:18 +0000
Subject: [PATCH 047/118] fix: upper limit of y is too low for dipole
 upscattering on light targets

The square root belongs inside the factor 1/(2s), as in the lower limit.
---
 projects/interactions/private/HNLDipoleFromTable.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index ad09ff0..a1b9157 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -105,7 +105,7 @@ double HNLDipoleFromTable::DipoleyMax(double Enu, double mHNL, double target_mas
 
     // require cos(theta)>=-1
     double root_term = 4*Enu*Enu*target_mass2 - 4*Enu*target_mass*mHNL2 - 4*target_mass2*mHNL2 + mHNL2*mHNL2;
-    double costh_bound = (1./(2*s)) * (2*Enu*target_mass - mHNL2 - target_mass*mHNL2/Enu) + std::sqrt(root_term);
+    double costh_bound = (1./(2*s)) * (2*Enu*target_mass - mHNL2 - target_mass*mHNL2/Enu + std::sqrt(root_term));
 
     return std::min(costh_bound,0.5 * (target_mass4 - mHNL2*s + s2 - target_mass2*(mHNL2+2*s) + (s - target_mass2) * std::sqrt(target_mass4 + std::pow(mHNL2 - s, 2) - 2*target_mass2*(mHNL2+s))) / (s * (2 * Enu * target_mass)));
 }
-- 
2.43.0


From 9b2920aa097acb3ec9bf63675e5488e3e38debd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:18 +0000
Subject: [PATCH 048/118] fix: dipole upscattering samples y from the cross
 section divided by y

The points are proposed uniformly in log(y), so the acceptance ratio needs the
Jacobian for the sample to follow dsigma/dy, the density that is reported.
---
 projects/interactions/private/HNLDipoleFromTable.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index a1b9157..8034f07 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -394,8 +394,8 @@ void HNLDipoleFromTable::SampleFinalState(dataclasses::CrossSectionDistributionR
         if(std::isnan(test_cross_section) or test_cross_section <= 0)
             continue;
 
-        //double odds = ((test_kin_vars[1]*test_cross_section) / (kin_vars[1]*cross_section));
-        double odds = (test_cross_section / cross_section); // this gives a better match to the y distribution
+        // the points are proposed uniformly in log(y), hence the factors of y
+        double odds = ((test_kin_vars[1]*test_cross_section) / (kin_vars[1]*cross_section));
         accept = (cross_section == 0 || (odds > 1.) || random->Uniform(0, 1) < odds);
 
         if(accept) {
-- 
2.43.0


From 97de4c7a4b41d1a9c40a6933cc753c072dacf467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:18 +0000
Subject: [PATCH 049/118] fix: dipole upscattering produces NaN momenta at the
 limits of y

---
 projects/interactions/private/HNLDipoleFromTable.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index 8034f07..d0f32b4 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -424,7 +424,7 @@ void HNLDipoleFromTable::SampleFinalState(dataclasses::CrossSectionDistributionR
     //double p3x_lab_frac = (p1x_lab * p1x_lab - m3 * m3 + E1_lab * E1_lab * (1.0 - 2.0 * final_y)) / (2.0 * p1x_lab * E3_lab);
     //double p3x_lab = p3x_lab_frac * sqrt(p3_lab_sq);
     double p3x_lab = E3_lab - m2*final_y - m3*m3/(2*E1_lab);
-    double p3y_lab = sqrt(p3_lab_sq - p3x_lab * p3x_lab);
+    double p3y_lab = sqrt(std::max(0., p3_lab_sq - p3x_lab * p3x_lab)); // rounding can make it negative at the limits of y
 
     rk::P4 p3_lab(geom3::Vector3(p3x_lab, p3y_lab, 0), m3);
     p3_lab.rotate(x_to_p1_lab_rot);
-- 
2.43.0


From d5b8be675c7c1e93bd4a9bb173981f4e1439615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:18 +0000
Subject: [PATCH 050/118] fix: dipole cross sections of different couplings and
 units compare equal

---
 projects/interactions/private/HNLDipoleFromTable.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index d0f32b4..bd852ea 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -51,16 +51,22 @@ bool HNLDipoleFromTable::equal(CrossSection const & other) const {
         return
             std::tie(
                     z_samp,
+                    in_invGeV,
+                    inelastic,
                     primary_types,
                     hnl_mass,
+                    dipole_coupling,
                     channel,
                     differential,
                     total)
             ==
             std::tie(
                     x->z_samp,
+                    x->in_invGeV,
+                    x->inelastic,
                     x->primary_types,
                     x->hnl_mass,
+                    x->dipole_coupling,
                     x->channel,
                     x->differential,
                     x->total);
-- 
2.43.0


From d73aecb7add8f89429d9cd5571c28b5c7b1720b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:18 +0000
Subject: [PATCH 051/118] fix: dipole differential cross section extrapolates
 the proton table

The sampling and the total cross section count the inelastic part only inside of
the proton table; the density used another cross section.
---
 projects/interactions/private/HNLDipoleFromTable.cxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index bd852ea..f14eea3 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -225,6 +225,10 @@ double HNLDipoleFromTable::DifferentialCrossSection(siren::dataclasses::Particle
         return 0.0;
 
 
+    // outside of the proton table there is no inelastic contribution (as in the total cross section and in SampleFinalState)
+    if(!(primary_energy > interp_proton.MinX() and primary_energy < interp_proton.MaxX()))
+        nprotons = 0;
+
     double yMin = DipoleyMin(primary_energy, GetHNLMass(), target_mass);
     double yMax = DipoleyMax(primary_energy, GetHNLMass(), target_mass);
     double differential_cross_section = 0.0;
@@ -234,11 +238,15 @@ double HNLDipoleFromTable::DifferentialCrossSection(siren::dataclasses::Particle
         double z = (y - yMin) / (yMax - yMin);
         if(z < interp.MinY() or z > interp.MaxY())
             return 0.0;
-        differential_cross_section = interp(primary_energy, z) + nprotons*interp_proton(primary_energy,z);
+        differential_cross_section = interp(primary_energy, z);
+        if(nprotons > 0 and z > interp_proton.MinY() and z < interp_proton.MaxY())
+            differential_cross_section += nprotons*interp_proton(primary_energy,z);
     } else {
         if(y < interp.MinY() or y > interp.MaxY())
             return 0.0;
-        differential_cross_section = interp(primary_energy, y) + nprotons*interp_proton(primary_energy,y);
+        differential_cross_section = interp(primary_energy, y);
+        if(nprotons > 0 and y > interp_proton.MinY() and y < interp_proton.MaxY())
+            differential_cross_section += nprotons*interp_proton(primary_energy,y);
     }
     if(in_invGeV)
         differential_cross_section /= siren::utilities::Constants::invGeVsq_per_cmsq;
-- 
2.43.0


From b0c65ac7b2deca7dbfcb8839ea4407d8b1ea9ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:18 +0000
Subject: [PATCH 052/118] fix: DarkNews total cross section is evaluated for
 the primary as target

---
 projects/interactions/private/DarkNewsCrossSection.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/DarkNewsCrossSection.cxx b/projects/interactions/private/DarkNewsCrossSection.cxx
index 70ebc2f..deb7fa9 100644
--- a/projects/interactions/private/DarkNewsCrossSection.cxx
+++ b/projects/interactions/private/DarkNewsCrossSection.cxx
@@ -33,7 +33,7 @@ bool DarkNewsCrossSection::equal(CrossSection const & other) const {
 
 double DarkNewsCrossSection::TotalCrossSection(dataclasses::InteractionRecord const & interaction) const {
     siren::dataclasses::ParticleType primary_type = interaction.signature.primary_type;
-    siren::dataclasses::ParticleType target_type = interaction.signature.primary_type;
+    siren::dataclasses::ParticleType target_type = interaction.signature.target_type;
     std::array<double, 4> const & primary_momentum = interaction.primary_momentum;
     double const & primary_mass = interaction.primary_mass;
     rk::P4 p1(geom3::Vector3(primary_momentum[1], primary_momentum[2], primary_momentum[3]), primary_mass);
-- 
2.43.0


From 71bbbac6338d768529db4884c7bc3c2dd9df93f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:18 +0000
Subject: [PATCH 053/118] fix: DarkNews differential cross section ignores the
 final state

Q2 was computed from the target at rest instead of the outgoing particle.
---
 projects/interactions/private/DarkNewsCrossSection.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/DarkNewsCrossSection.cxx b/projects/interactions/private/DarkNewsCrossSection.cxx
index deb7fa9..0e141cc 100644
--- a/projects/interactions/private/DarkNewsCrossSection.cxx
+++ b/projects/interactions/private/DarkNewsCrossSection.cxx
@@ -55,7 +55,7 @@ double DarkNewsCrossSection::DifferentialCrossSection(dataclasses::InteractionRe
     rk::P4 p1_lab;
     rk::P4 p3_lab;
     p1_lab = p1;
-    p3_lab = p2;
+    p3_lab = p3;
     primary_energy = p1_lab.e();
     double Q2 = -1*(std::pow(p1_lab.m(),2) + std::pow(p3_lab.m(),2) - 2.0*p1_lab.dot(p3_lab));
 
-- 
2.43.0


From a05a85c8981fcbfca61efcb59f64a413ef83e914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:18 +0000
Subject: [PATCH 054/118] fix: DarkNews upscattering samples Q2 from the cross
 section divided by Q2

---
 projects/interactions/private/DarkNewsCrossSection.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/interactions/private/DarkNewsCrossSection.cxx b/projects/interactions/private/DarkNewsCrossSection.cxx
index 0e141cc..9e435ff 100644
--- a/projects/interactions/private/DarkNewsCrossSection.cxx
+++ b/projects/interactions/private/DarkNewsCrossSection.cxx
@@ -194,7 +194,8 @@ void DarkNewsCrossSection::SampleFinalState(dataclasses::CrossSectionDistributio
         // repeat the sampling from above to get a new valid point
         test_kin_vars[1] = std::pow(10,random->Uniform(log_minQ2,log_maxQ2));
         test_cross_section = DifferentialCrossSection(record.GetPrimaryType(), record.GetTargetType(), primary_energy, test_kin_vars[1]);
-        double odds = (test_cross_section / cross_section);
+        // the points are proposed uniformly in log(Q2), hence the factors of Q2
+        double odds = (test_kin_vars[1]*test_cross_section) / (kin_vars[1]*cross_section);
         accept = (cross_section == 0 || (odds > 1.) || random->Uniform(0, 1) < odds);
 
         if(accept) {
-- 
2.43.0


From 03ba096733e08ccd5dcac14626037c067742736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:19 +0000
Subject: [PATCH 055/118] fix: DarkNews upscattering accepts a first point
 without a real scattering angle

---
 projects/interactions/private/DarkNewsCrossSection.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/DarkNewsCrossSection.cxx b/projects/interactions/private/DarkNewsCrossSection.cxx
index 9e435ff..f15b073 100644
--- a/projects/interactions/private/DarkNewsCrossSection.cxx
+++ b/projects/interactions/private/DarkNewsCrossSection.cxx
@@ -179,7 +179,7 @@ void DarkNewsCrossSection::SampleFinalState(dataclasses::CrossSectionDistributio
     // sample an intial point
     kin_vars[1] = std::pow(10,random->Uniform(log_minQ2,log_maxQ2));
     // make sure it is physical
-    while(std::abs(ComputeCosThetaLab(kin_vars[1]))>1) {
+    while(!(std::abs(ComputeCosThetaLab(kin_vars[1]))<=1)) {
         kin_vars[1] = std::pow(10,random->Uniform(log_minQ2,log_maxQ2));
     }
 
-- 
2.43.0


From d86e03f3b8b2798121f4f888b4de6b47abb8b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:25 +0000
Subject: [PATCH 056/118] fix: rotation between two directions uses the integer
 absolute value

In translation units that see only ::abs(int) every pair of directions less than
90 degrees apart counts as parallel and gets no rotation at all, so the final states
of the interactions are not rotated into the direction of the primary.
---
 vendor/rk/rk/geom3_Vector3.icc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vendor/rk/rk/geom3_Vector3.icc b/vendor/rk/rk/geom3_Vector3.icc
index 3e443fe..fc28648 100644
--- a/vendor/rk/rk/geom3_Vector3.icc
+++ b/vendor/rk/rk/geom3_Vector3.icc
@@ -292,12 +292,12 @@ namespace geom3 {
         UnitVector3 d2 = v2;
         Vector3 cross = d1.cross(d2);
         double scalar = d1.dot(d2);
-        if(abs(1.0 - scalar) < 1e-9) {
+        if(std::abs(1.0 - scalar) < 1e-9) {
             return Rotation3();
-        } else if (abs(1.0 + scalar) < 1e-9) {
-            double x = abs(v1.x());
-            double y = abs(v1.y());
-            double z = abs(v1.z());
+        } else if (std::abs(1.0 + scalar) < 1e-9) {
+            double x = std::abs(v1.x());
+            double y = std::abs(v1.y());
+            double z = std::abs(v1.z());
 
             UnitVector3 other = x < y ? (x < z ? UnitVector3::xAxis() : UnitVector3::zAxis()) : (y < z ? UnitVector3::zAxis() : UnitVector3::zAxis());
             UnitVector3 vo = v1.cross(other).direction();
-- 
2.43.0


From 5793f23d6b70ec6b07543dd2e7292157dce45d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:25 +0000
Subject: [PATCH 057/118] fix: rotation from the z axis to its opposite has no
 rotation axis

---
 vendor/rk/rk/geom3_Vector3.icc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vendor/rk/rk/geom3_Vector3.icc b/vendor/rk/rk/geom3_Vector3.icc
index fc28648..e186128 100644
--- a/vendor/rk/rk/geom3_Vector3.icc
+++ b/vendor/rk/rk/geom3_Vector3.icc
@@ -299,7 +299,7 @@ namespace geom3 {
             double y = std::abs(v1.y());
             double z = std::abs(v1.z());
 
-            UnitVector3 other = x < y ? (x < z ? UnitVector3::xAxis() : UnitVector3::zAxis()) : (y < z ? UnitVector3::zAxis() : UnitVector3::zAxis());
+            UnitVector3 other = x < y ? (x < z ? UnitVector3::xAxis() : UnitVector3::zAxis()) : (y < z ? UnitVector3::yAxis() : UnitVector3::zAxis());
             UnitVector3 vo = v1.cross(other).direction();
             Rotation3::Quaternion q(vo.x(), vo.y(), vo.z(), 0.0);
             q.normalize();
-- 
2.43.0


From bc23dd92755bcdd1837fcff9163d5abda201abcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:04 +0000
Subject: [PATCH 058/118] fix: HNL widths just above a threshold abort the
 program

The integrand of the three body widths is rounding noise (or NaN) when the phase
space is small, which the integrator reports by aborting the process.
---
 projects/interactions/private/HNLDecay.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index 2b89a4c..f427479 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -32,6 +32,11 @@ double lambda(double a, double b, double c){
   return a*a + b*b + c*c - 2*a*b - 2*a*c - 2*b*c;
 }
 
+// lambda(s,a^2,b^2) in factored form, which does not lose its precision where it vanishes
+double lambda_factored(double s, double a, double b){
+  return (s - pow(a+b,2)) * (s - pow(a-b,2));
+}
+
 // Functions to get three body decay widths
 // Follows 1905.00284v2
 
@@ -39,14 +44,14 @@ double integrand1(double s, void * params) {
   double x = ((double*)params)[0];
   double y = ((double*)params)[1];
   double z = ((double*)params)[2];
-  return 12 * (1./s) * (s - x - y) * (1 + z - s) * sqrt(lambda(s,x,y)*lambda(1,s,z));
+  return 12 * (1./s) * (s - x - y) * (1 + z - s) * sqrt(lambda_factored(s,sqrt(x),sqrt(y))*lambda_factored(s,1,sqrt(z)));
 }
 
 double integrand2(double s, void * params) {
   double x = ((double*)params)[0];
   double y = ((double*)params)[1];
   double z = ((double*)params)[2];
-  return 24 * sqrt(y*z) * (1./s) * (1 + x - s) * sqrt(lambda(s,y,z)*lambda(1,s,x));
+  return 24 * sqrt(y*z) * (1./s) * (1 + x - s) * sqrt(lambda_factored(s,sqrt(y),sqrt(z))*lambda_factored(s,1,sqrt(x)));
 }
 
 double I1(double x, double y, double z) {
-- 
2.43.0


From d05ae3c20a3554fcc2d5a48dae844a08d760f815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:44 +0000
Subject: [PATCH 059/118] fix: rotation matrix of rotating-frame Euler angles
 exchanges the wrong angles

---
 projects/math/public/SIREN/math/Conversions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/math/public/SIREN/math/Conversions.h b/projects/math/public/SIREN/math/Conversions.h
index a72d643..5133610 100644
--- a/projects/math/public/SIREN/math/Conversions.h
+++ b/projects/math/public/SIREN/math/Conversions.h
@@ -141,7 +141,7 @@ Matrix3D Matrix3DFromEulerAngles(EulerAngles const & euler) {
     double gamma = euler.GetGamma();
 
     if(f == EulerFrame::Rotating) {
-        std::swap(alpha, beta);
+        std::swap(alpha, gamma);
     }
 
     if(n == EulerParity::Odd) {
-- 
2.43.0


From 46a62f7405a0408ce3d793b6de65d57b5b03074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:44 +0000
Subject: [PATCH 060/118] fix: adding a number to a quaternion multiplies it

---
 projects/math/private/Quaternion.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/math/private/Quaternion.cxx b/projects/math/private/Quaternion.cxx
index dbbf871..eb74637 100644
--- a/projects/math/private/Quaternion.cxx
+++ b/projects/math/private/Quaternion.cxx
@@ -190,7 +190,7 @@ Quaternion & Quaternion::operator+=(Quaternion const & other)
 
 Quaternion Quaternion::operator+(double factor) const
 {
-    return Quaternion(factor * x_, factor * y_, factor * z_, factor * w_);
+    return Quaternion(factor + x_, factor + y_, factor + z_, factor + w_);
 }
 
 Quaternion & Quaternion::operator+=(double factor)
-- 
2.43.0


From 3e4090afdad6135b5125c66e0c6bc81a28f42670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:44 +0000
Subject: [PATCH 061/118] fix: interpolating between equal rotations is not a
 number

---
 projects/math/private/Quaternion.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/math/private/Quaternion.cxx b/projects/math/private/Quaternion.cxx
index eb74637..068f7ac 100644
--- a/projects/math/private/Quaternion.cxx
+++ b/projects/math/private/Quaternion.cxx
@@ -426,10 +426,12 @@ Quaternion Quaternion::slerp(Quaternion const & q1, Quaternion const & q2, doubl
     double dotproduct = q1.DotProduct(q2);
 	double theta, st, sut, sout, coeff1, coeff2;
 
-	theta = (double) acos(dotproduct);
+	theta = (double) acos(std::min(1.0, std::max(-1.0, dotproduct)));
 	if (theta<0.0) theta = -theta;
 
 	st = (double) sin(theta);
+	if (st == 0.0)
+		return lerp(q1, q2, t).normalized();
 	sut = (double) sin(t*theta);
 	sout = (double) sin((1.0 - t)*theta);
 	coeff1 = sout/st;
-- 
2.43.0


From c9bfd2f8757d609746a9eee7c41cd7fe6fbcd17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:44 +0000
Subject: [PATCH 062/118] fix: rotation between opposite directions is the
 identity or not a rotation

---
 projects/math/private/Quaternion.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/math/private/Quaternion.cxx b/projects/math/private/Quaternion.cxx
index 068f7ac..686d389 100644
--- a/projects/math/private/Quaternion.cxx
+++ b/projects/math/private/Quaternion.cxx
@@ -511,7 +511,8 @@ Quaternion siren::math::rotation_between(Vector3D const & v0, Vector3D const & v
     Vector3D dir0 = v0.normalized();
     Vector3D dir1 = v1.normalized();
     double dot = scalar_product(dir0, dir1);
-    if(dot == -1.0) {
+    // the dot product of exactly opposite directions rounds to slightly more than -1
+    if(dot < -1.0 + 1e-14) {
         // Special case for 180deg rotation
         // Find most perpendicular axis vector
         Vector3D vecs[3] = {
@@ -525,7 +526,7 @@ Quaternion siren::math::rotation_between(Vector3D const & v0, Vector3D const & v
             std::abs(scalar_product(vecs[2], dir0))
         };
         // Find axis vector most perpendicular to original direction
-        size_t idx = std::distance(&(dots), std::min_element(&(dots), &(dots)+3));
+        size_t idx = std::distance(dots, std::min_element(dots, dots + 3));
         // Initialize quaternion with unit vector perpendicular to original direction and selected axis
         return Quaternion(cross_product(vecs[idx], dir0).normalized());
     } else {
-- 
2.43.0


From ef891f720a19f1f6649e3a2498dd379c477ef1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:44 +0000
Subject: [PATCH 063/118] fix: polynomial shift releases its arrays with the
 wrong operator and leaks

---
 projects/math/private/Polynomial.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/math/private/Polynomial.cxx b/projects/math/private/Polynomial.cxx
index fb658b3..662aa92 100644
--- a/projects/math/private/Polynomial.cxx
+++ b/projects/math/private/Polynomial.cxx
@@ -75,7 +75,8 @@ void Polynom::shift(double x) {
         }
 
         for (int count = 0; count < N_; ++count)
-            delete t[count];
+            delete [] t[count];
+        delete [] t;
     }
 }
 
-- 
2.43.0


From 43cd5ca3fc5575568ac9f978a99d88a57f461e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:44 +0000
Subject: [PATCH 064/118] fix: root search divides zero by zero at a stationary
 root

---
 projects/math/private/Polynomial.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/math/private/Polynomial.cxx b/projects/math/private/Polynomial.cxx
index 662aa92..9740c02 100644
--- a/projects/math/private/Polynomial.cxx
+++ b/projects/math/private/Polynomial.cxx
@@ -177,6 +177,9 @@ double NewtonRaphson(std::function<double(double)> func,
     df = dfunc(rts);
 
     for (int j = 1; j < MAX_STEPS; j++) {
+        if (f == 0.0) {
+            return rts;
+        }
         if ((((rts - xh) * df - f) * ((rts - xl) * df - f) > 0.0) ||
             (std::abs(2.0 * f) > std::abs(dxold * df))) {
             // use bisection if Newton method produces an x that is out of range
-- 
2.43.0


From a3b21568ea68aeb4557ecd682520aebdb76401fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:10 +0000
Subject: [PATCH 065/118] fix: threads of a forked process hand out the
 parent's particle identifiers

---
 projects/dataclasses/private/ParticleID.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/dataclasses/private/ParticleID.cxx b/projects/dataclasses/private/ParticleID.cxx
index 0f5c4b4..b8f04a3 100644
--- a/projects/dataclasses/private/ParticleID.cxx
+++ b/projects/dataclasses/private/ParticleID.cxx
@@ -95,10 +95,11 @@ ParticleID ParticleID::GenerateID() {
                                                             //check whether another thread already updated this
         last_pid = global_last_pid_.load(std::memory_order_relaxed);
         if(this_pid != last_pid){
-            std::atomic_thread_fence(std::memory_order_release);
-            global_last_pid_.store(this_pid, std::memory_order_relaxed);
             global_major_id_.store(0, std::memory_order_relaxed); // this will cause a new major ID to be generated
             global_minor_id_.store(0, std::memory_order_relaxed); // reset the minor ID, too
+            // publish the new pid last: another thread that sees it must not see the IDs of the parent process
+            std::atomic_thread_fence(std::memory_order_release);
+            global_last_pid_.store(this_pid, std::memory_order_relaxed);
         }
     }
 
-- 
2.43.0


From d98a19069af22a56549bb93813ca29688a771973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:33 +0000
Subject: [PATCH 066/118] fix: cartesian exponential and polynomial densities
 cannot be saved

The two headers reused the include guard of CartesianAxisDensityDistribution.h, so where all three are
included (serializable.h) their registration was skipped and, where they came first, the specialisation
for cartesian axes was lost.
---
 .../detector/CartesianAxisExponentialDensityDistribution.h | 7 ++++---
 .../detector/CartesianAxisPolynomialDensityDistribution.h  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/projects/detector/public/SIREN/detector/CartesianAxisExponentialDensityDistribution.h b/projects/detector/public/SIREN/detector/CartesianAxisExponentialDensityDistribution.h
index b2fe4d8..baa4bfd 100644
--- a/projects/detector/public/SIREN/detector/CartesianAxisExponentialDensityDistribution.h
+++ b/projects/detector/public/SIREN/detector/CartesianAxisExponentialDensityDistribution.h
@@ -1,6 +1,6 @@
 #pragma once
-#ifndef SIREN_CartesianAxisDensityDistribution_H
-#define SIREN_CartesianAxisDensityDistribution_H
+#ifndef SIREN_CartesianAxisExponentialDensityDistribution_H
+#define SIREN_CartesianAxisExponentialDensityDistribution_H
 #include <cereal/cereal.hpp>
 #include <cereal/archives/json.hpp>
 #include <cereal/archives/binary.hpp>
@@ -9,6 +9,7 @@
 
 #include "SIREN/detector/Axis1D.h"
 #include "SIREN/detector/CartesianAxis1D.h"
+#include "SIREN/detector/CartesianAxisDensityDistribution.h"
 #include "SIREN/detector/DensityDistribution.h"
 #include "SIREN/detector/DensityDistribution1D.h"
 #include "SIREN/detector/ExponentialDistribution1D.h"
@@ -27,4 +28,4 @@ CEREAL_REGISTER_POLYMORPHIC_RELATION(siren::detector::DensityDistribution, siren
 
 CEREAL_FORCE_DYNAMIC_INIT(siren_CartesianAxisExponentialDensityDistribution);
 
-#endif // SIREN_CartesianAxisExponentialDensityDistribution.h
+#endif // SIREN_CartesianAxisExponentialDensityDistribution_H
diff --git a/projects/detector/public/SIREN/detector/CartesianAxisPolynomialDensityDistribution.h b/projects/detector/public/SIREN/detector/CartesianAxisPolynomialDensityDistribution.h
index 4a2594d..eeb503f 100644
--- a/projects/detector/public/SIREN/detector/CartesianAxisPolynomialDensityDistribution.h
+++ b/projects/detector/public/SIREN/detector/CartesianAxisPolynomialDensityDistribution.h
@@ -1,6 +1,6 @@
 #pragma once
-#ifndef SIREN_CartesianAxisDensityDistribution_H
-#define SIREN_CartesianAxisDensityDistribution_H
+#ifndef SIREN_CartesianAxisPolynomialDensityDistribution_H
+#define SIREN_CartesianAxisPolynomialDensityDistribution_H
 #include <cereal/cereal.hpp>
 #include <cereal/archives/json.hpp>
 #include <cereal/archives/binary.hpp>
@@ -9,6 +9,7 @@
 
 #include "SIREN/detector/Axis1D.h"
 #include "SIREN/detector/CartesianAxis1D.h"
+#include "SIREN/detector/CartesianAxisDensityDistribution.h"
 #include "SIREN/detector/DensityDistribution.h"
 #include "SIREN/detector/DensityDistribution1D.h"
 #include "SIREN/detector/PolynomialDistribution1D.h"
@@ -27,4 +28,4 @@ CEREAL_REGISTER_POLYMORPHIC_RELATION(siren::detector::DensityDistribution, siren
 
 CEREAL_FORCE_DYNAMIC_INIT(siren_CartesianAxisPolynomialDensityDistribution);
 
-#endif // SIREN_CartesianAxisPolynomialDensityDistribution.h
+#endif // SIREN_CartesianAxisPolynomialDensityDistribution_H
-- 
2.43.0


From 421752544730f9b853c17f354717a71912ad42b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:29 +0000
Subject: [PATCH 067/118] fix: clipping a mesh triangle to a box returns points
 that are not part of the triangle

The two buffers were created with six zero points instead of room for six,
the planes to clip against were chosen the wrong way around when the
triangle only touches the box, and a triangle lying in a face of the box was
clipped away.
---
 projects/geometry/private/MeshBuilder.cxx | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/projects/geometry/private/MeshBuilder.cxx b/projects/geometry/private/MeshBuilder.cxx
index 57e0548..bf53fd8 100644
--- a/projects/geometry/private/MeshBuilder.cxx
+++ b/projects/geometry/private/MeshBuilder.cxx
@@ -274,8 +274,10 @@ bool Voxel::Intersects(Voxel const & voxel) const {
 PolygonData Voxel::Clip(TData const & tri) const {
 
 	// Use two polygons with pointers for 'back-buffer'-like swapping
-	const int MAX_VERTS = 6;
-	PolygonData poly[2] = {PolygonData(MAX_VERTS), PolygonData(MAX_VERTS)};
+	const int MAX_VERTS = 9; // each of the six planes can add one vertex to the triangle
+	PolygonData poly[2];
+	poly[0].reserve(MAX_VERTS);
+	poly[1].reserve(MAX_VERTS);
 	PolygonData* currentPoly = &poly[0];
 	PolygonData* prevPoly = &poly[1];
 
@@ -304,11 +306,11 @@ PolygonData Voxel::Clip(TData const & tri) const {
 		// Optimization note: we should be able to save some work based on
 		// the clipping plane and the triangle's bounding box
 
-		if(triBox.max_extent[dim] > this->min_extent[dim]) {
+		if(triBox.min_extent[dim] < this->min_extent[dim]) {
             std::swap(prevPoly, currentPoly);
 			clipAxisPlane(prevPoly, currentPoly, 2 * dim + 0, this->min_extent[dim]);
 		}
-		if(triBox.min_extent[dim] < this->max_extent[dim]) {
+		if(triBox.max_extent[dim] > this->max_extent[dim]) {
             std::swap(prevPoly, currentPoly);
 			clipAxisPlane(prevPoly, currentPoly, 2 * dim + 1, this->max_extent[dim]);
 		}
@@ -721,9 +723,8 @@ void clipAxisPlane(PolygonData const * prevPoly,
 				}
 				break;
             case OrientationResult::ON_BOUNDARY:
-				if(aSide == OrientationResult::ON_NEGATIVE_SIDE) {
-					currentPoly->push_back(*b);
-				}
+				// The boundary belongs to the voxel
+				currentPoly->push_back(*b);
 				break;
 			case OrientationResult::ON_NEGATIVE_SIDE:
 				switch(aSide) {
@@ -732,9 +733,6 @@ void clipAxisPlane(PolygonData const * prevPoly,
 						currentPoly->push_back(*b);
 						break;
                     case OrientationResult::ON_BOUNDARY:
-						currentPoly->push_back(*a);
-						currentPoly->push_back(*b);
-						break;
 					case OrientationResult::ON_NEGATIVE_SIDE:
 						currentPoly->push_back(*b);
 						break;
-- 
2.43.0


From 8aecca4da1e014d123c41118f139aef2a73f4e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:29 +0000
Subject: [PATCH 068/118] fix: overlap of a mesh triangle with a box is tested
 against a displaced box

---
 projects/geometry/private/MeshBuilder.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/geometry/private/MeshBuilder.cxx b/projects/geometry/private/MeshBuilder.cxx
index bf53fd8..12ceeff 100644
--- a/projects/geometry/private/MeshBuilder.cxx
+++ b/projects/geometry/private/MeshBuilder.cxx
@@ -250,6 +250,7 @@ bool Voxel::Intersects(TData const & triangle) const {
 		for(unsigned int p_i=0; p_i<3; ++p_i) {
 			scaled_tri[p_i][dim] -= this->min_extent[dim];
 			scaled_tri[p_i][dim] /= lengths[dim];
+			scaled_tri[p_i][dim] -= 0.5; // the test uses a unit cube centered on the origin
 		}
 	}
 
-- 
2.43.0


From 2f9e5f9ebbaccfd4d08d074d9c356b25e3bb37e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:29 +0000
Subject: [PATCH 069/118] fix: every split of the mesh tree multiplies the
 triangles it holds

Triangles were put on both sides of the plane once per event, whichever side
they were on, so the number of events grew sixfold with every level.
---
 projects/geometry/private/MeshBuilder.cxx | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/projects/geometry/private/MeshBuilder.cxx b/projects/geometry/private/MeshBuilder.cxx
index 12ceeff..f69e2a7 100644
--- a/projects/geometry/private/MeshBuilder.cxx
+++ b/projects/geometry/private/MeshBuilder.cxx
@@ -758,9 +758,12 @@ std::vector<EventPlaneSide> ClassifyEventLeftRightBoth(std::vector<Event> const
     } else {
         default_planar_side = EventPlaneSide::RIGHT;
     }
+    // The events along the plane's axis decide on which side the triangle lies,
+    // and this holds for all events of the triangle
+    std::map<TriangleID, EventPlaneSide> triangle_sides;
     for(unsigned int i=0; i<E.size(); ++i) {
         Event const & e = E[i];
-        EventPlaneSide & eside = sides[i];
+        EventPlaneSide eside = EventPlaneSide::BOTH;
         if(e.type == EventType::END
                 and e.axis == p.axis
                 and e.position <= p.position) {
@@ -779,6 +782,15 @@ std::vector<EventPlaneSide> ClassifyEventLeftRightBoth(std::vector<Event> const
                 eside = default_planar_side;
             }
         }
+        if(eside != EventPlaneSide::BOTH) {
+            triangle_sides[e.triangle] = eside;
+        }
+    }
+    for(unsigned int i=0; i<E.size(); ++i) {
+        std::map<TriangleID, EventPlaneSide>::const_iterator it = triangle_sides.find(E[i].triangle);
+        if(it != triangle_sides.end()) {
+            sides[i] = it->second;
+        }
     }
     return sides;
 }
@@ -883,7 +895,10 @@ void SplitEventsByPlane(std::vector<Event> const & events,
         Event const & e = events[i];
         EventPlaneSide const & eside = sides[i];
         if(eside == EventPlaneSide::BOTH) {
-            intersecting_tris.push_back(e.triangle);
+            // Every triangle has exactly one END event along the plane's axis if it crosses the plane
+            if(e.axis == plane.axis and e.type == EventType::END) {
+                intersecting_tris.push_back(e.triangle);
+            }
         } else if (eside == EventPlaneSide::LEFT) {
             ELtemp.push_back(e);
         } else if (eside == EventPlaneSide::RIGHT) {
@@ -897,13 +912,13 @@ void SplitEventsByPlane(std::vector<Event> const & events,
     std::merge(ERtemp.begin(), ERtemp.end(), EBRtemp.begin(), EBRtemp.end(), std::back_inserter(ER), EventCompare);
 	for(unsigned int i=0; i<EL.size(); ++i) {
         Event const & e = EL[i];
-        if(e.axis != plane.axis)
+        if(e.axis != plane.axis or e.type == EventType::END)
             continue;
         TL.push_back(e.triangle);
     }
 	for(unsigned int i=0; i<ER.size(); ++i) {
         Event const & e = ER[i];
-        if(e.axis != plane.axis)
+        if(e.axis != plane.axis or e.type == EventType::END)
             continue;
         TR.push_back(e.triangle);
     }
-- 
2.43.0


From f106749a4de8d456c86b9d960de0dc5b9dfd75b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:29 +0000
Subject: [PATCH 070/118] fix: search for the best split of a mesh skips
 candidate planes

---
 projects/geometry/private/MeshBuilder.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/geometry/private/MeshBuilder.cxx b/projects/geometry/private/MeshBuilder.cxx
index f69e2a7..f97215a 100644
--- a/projects/geometry/private/MeshBuilder.cxx
+++ b/projects/geometry/private/MeshBuilder.cxx
@@ -204,7 +204,7 @@ std::tuple<AxisAlignedPlane, PlanarEventSide, double> Voxel::FindSplitPlane(int
 	bool have_cost = false;
 	// Sweep across the possible planes, keeping track of how many triangles are in each voxel
 	// Loop does 3 dimensions simultaneously ==> Triangle counts are sepearate for each dimension
-	for(unsigned int i=0; i<events.size(); ++i) {
+	for(unsigned int i=0; i<events.size(); ) {
 		AxisAlignedPlane plane;
 		plane.axis = events[i].axis;
 		plane.position = events[i].position;
@@ -873,7 +873,8 @@ int TauEventType(EventType etype) {
 bool EventCompare(Event const & a, Event const & b) {
     // Is a < b
     return (a.position < b.position)
-        or (a.position == b.position and TauEventType(a.type) < TauEventType(b.type));
+        or (a.position == b.position and (a.axis < b.axis
+        or (a.axis == b.axis and TauEventType(a.type) < TauEventType(b.type))));
 }
 
 void SplitEventsByPlane(std::vector<Event> const & events,
-- 
2.43.0


From 9e4e178b33ccde9529bc9dac27f0e1447b4f3552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:29 +0000
Subject: [PATCH 071/118] fix: empty parts of a mesh tree are split down to the
 maximal depth

---
 projects/geometry/private/MeshBuilder.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/geometry/private/MeshBuilder.cxx b/projects/geometry/private/MeshBuilder.cxx
index f97215a..7fdfc91 100644
--- a/projects/geometry/private/MeshBuilder.cxx
+++ b/projects/geometry/private/MeshBuilder.cxx
@@ -930,6 +930,10 @@ void SplitEventsByPlane(std::vector<Event> const & events,
 ///////////////
 
 std::shared_ptr<KDNode> RecBuild(std::vector<TData> const & triangle_data, std::vector<TriangleID> const & T, Voxel & V, std::vector<Event> const & events, double traversal_cost, double intersection_cost, int max_depth) {
+    if(T.empty()) {
+        return std::make_shared<KDNode>(V, T);
+    }
+
     std::tuple<AxisAlignedPlane, PlanarEventSide, double> plane_side_cost = V.FindSplitPlane(T.size(), events, traversal_cost, intersection_cost);
     double cost = std::get<2>(plane_side_cost);
     double termination_cost = intersection_cost * T.size();
-- 
2.43.0


From f74981333a29d3ca0a3f918da8c011d0ac1a2425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:22 +0000
Subject: [PATCH 072/118] fix: lines parallel to the cut of an azimuthal
 segment are inside it on both sides

---
 projects/geometry/private/PhiUtils.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/projects/geometry/private/PhiUtils.h b/projects/geometry/private/PhiUtils.h
index 2ae863d..e545f2f 100644
--- a/projects/geometry/private/PhiUtils.h
+++ b/projects/geometry/private/PhiUtils.h
@@ -43,7 +43,18 @@ inline bool PhiInRange(double x, double y, double start_phi, double delta_phi) {
 inline bool InitialPhiState(double px, double py, double dx, double dy,
                             double start_phi, double delta_phi) {
     double rxy2_dir = dx*dx + dy*dy;
-    if(rxy2_dir > 1e-20) {
+    if(rxy2_dir > 1e-18) {
+        // A ray parallel to one of the cut half-planes never crosses it, and
+        // phi(-inf) lies on the cut itself: the ray stays on the side of the
+        // half-plane it starts on.
+        for(int face = 0; face < 2; ++face) {
+            double alpha = start_phi + face * delta_phi;
+            double ca = std::cos(alpha), sa = std::sin(alpha);
+            if(std::fabs(sa*dx - ca*dy) < 1e-9 && ca*dx + sa*dy < 0) {
+                double side = ca*py - sa*px;
+                return (face == 0) ? side >= 0 : side <= 0;
+            }
+        }
         return PhiInRange(-dx, -dy, start_phi, delta_phi);
     }
     double rxy2_orig = px*px + py*py;
-- 
2.43.0


From a495b4392f5612e1341a739f3757711159b6adf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:30 +0000
Subject: [PATCH 073/118] fix: horizontal lines are inside a sphere cut at its
 equator on both sides

---
 projects/geometry/private/Sphere.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projects/geometry/private/Sphere.cxx b/projects/geometry/private/Sphere.cxx
index 0ef6133..5e08817 100644
--- a/projects/geometry/private/Sphere.cxx
+++ b/projects/geometry/private/Sphere.cxx
@@ -270,7 +270,10 @@ std::vector<Geometry::Intersection> Sphere::ComputeIntersections(
     }
 
     if(has_theta_cut_) {
-        in_theta = ThetaInRange(-dx, -dy, -dz, start_theta_, delta_theta_);
+        // A horizontal ray approaches the equator without crossing it, so when
+        // the equator bounds the band the side the ray is on decides.
+        double z_inf = (std::fabs(dz) < GEOMETRY_PRECISION) ? std::copysign(1e-6, pz) : -dz;
+        in_theta = ThetaInRange(-dx, -dy, z_inf, start_theta_, delta_theta_);
     }
 
     bool was_inside = in_shell && in_phi && in_theta;
-- 
2.43.0


From b450bb55d2e783e2e298fd342e7056c312d29863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:52 +0000
Subject: [PATCH 074/118] fix: bounding box of a torus segment misses part of
 it when the segment starts at a negative angle

---
 projects/geometry/private/Torus.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/geometry/private/Torus.cxx b/projects/geometry/private/Torus.cxx
index 063200c..2eab99e 100644
--- a/projects/geometry/private/Torus.cxx
+++ b/projects/geometry/private/Torus.cxx
@@ -463,6 +463,7 @@ AABB Torus::GetBoundingBox() const {
         // Normalize to check if axis_angle is within [start_phi_, end_phi]
         double shifted = axis_angle;
         while(shifted < start_phi_) shifted += 2.0 * M_PI;
+        while(shifted - 2.0 * M_PI >= start_phi_) shifted -= 2.0 * M_PI;
         if(shifted <= end_phi + 1e-12) {
             double cx = rtor_ * std::cos(axis_angle);
             double cy = rtor_ * std::sin(axis_angle);
-- 
2.43.0


From efab37de664656ada0a85a288f4beb46b9e9aa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:15 +0000
Subject: [PATCH 075/118] fix: crossings of a line with a torus are lost to
 cancellation in the closed-form solution

---
 projects/geometry/private/Torus.cxx | 175 +++++++---------------------
 1 file changed, 40 insertions(+), 135 deletions(-)

diff --git a/projects/geometry/private/Torus.cxx b/projects/geometry/private/Torus.cxx
index 2eab99e..6202b99 100644
--- a/projects/geometry/private/Torus.cxx
+++ b/projects/geometry/private/Torus.cxx
@@ -28,131 +28,45 @@ using phi_utils::ZAxisWedgeEntering;
 using phi_utils::TWO_PI;
 
 // =========================================================================
-// Cubic and quartic solvers for ray-torus intersection
+// Polynomial root finder for ray-torus intersection
 // =========================================================================
 
-// Solve depressed cubic t^3 + p*t + q = 0 using trigonometric method.
-// Returns the number of real roots found (1 or 3).
-// Roots are stored in roots[0..n-1], unsorted.
-int SolveDepressedCubic(double p, double q, double roots[3]) {
-    double disc = -4.0 * p * p * p - 27.0 * q * q;
-
-    if(disc >= 0) {
-        // Three real roots (or repeated) -- trigonometric method
-        double mp3 = -p / 3.0;
-        if(mp3 < 0) mp3 = 0;
-        double r = std::sqrt(mp3);
-        double cos_arg = 0;
-        if(r > 0) {
-            cos_arg = -q / (2.0 * r * r * r);
-            if(cos_arg > 1.0) cos_arg = 1.0;
-            if(cos_arg < -1.0) cos_arg = -1.0;
-        }
-        double theta = std::acos(cos_arg);
-        roots[0] = 2.0 * r * std::cos(theta / 3.0);
-        roots[1] = 2.0 * r * std::cos((theta + 2.0 * M_PI) / 3.0);
-        roots[2] = 2.0 * r * std::cos((theta + 4.0 * M_PI) / 3.0);
-        return 3;
-    } else {
-        // One real root -- Cardano's formula
-        double sq = std::sqrt(q * q / 4.0 + p * p * p / 27.0);
-        double u = std::cbrt(-q / 2.0 + sq);
-        double v = std::cbrt(-q / 2.0 - sq);
-        roots[0] = u + v;
-        return 1;
-    }
-}
+// Find the real roots of a polynomial of the given degree within [lo, hi].
+// coeffs holds degree + 1 coefficients, lowest order first.
+// The stationary points (roots of the derivative) split [lo, hi] into monotonic
+// pieces, each of which holds at most one root that is found by bisection.
+// Unlike closed-form solutions this loses no roots to cancellation.
+// Returns the number of roots, which are stored in ascending order.
+int SolvePolynomial(double const * coeffs, int degree, double lo, double hi, double * roots) {
+    if(degree < 1) return 0;
+
+    auto eval = [&](double x) {
+        double f = coeffs[degree];
+        for(int i = degree - 1; i >= 0; --i) f = f * x + coeffs[i];
+        return f;
+    };
 
-// Solve monic quartic x^4 + a*x^3 + b*x^2 + c*x + d = 0
-// using Ferrari's method. Returns the number of real roots (0-4).
-// Roots are stored in roots[0..n-1], unsorted.
-int SolveQuartic(double a, double b, double c, double d, double roots[4]) {
-    // Depress the quartic: substitute x = t - a/4
-    // Gives t^4 + p*t^2 + q*t + r = 0
-    double a2 = a * a;
-    double p = b - 3.0 * a2 / 8.0;
-    double q = c - a * b / 2.0 + a2 * a / 8.0;
-    double r = d - a * c / 4.0 + a2 * b / 16.0 - 3.0 * a2 * a2 / 256.0;
+    double derivative[4];
+    for(int i = 0; i < degree; ++i) derivative[i] = (i + 1) * coeffs[i + 1];
 
-    int n_roots = 0;
+    double edges[5];
+    edges[0] = lo;
+    int n_edges = 1 + SolvePolynomial(derivative, degree - 1, lo, hi, edges + 1);
+    edges[n_edges++] = hi;
 
-    // Biquadratic threshold: only use the q=0 shortcut when the linear term
-    // is genuinely negligible relative to ALL other terms. A too-loose threshold
-    // causes root loss for general ray directions where q is small but non-zero.
-    double coeff_scale = std::fmax(1.0, std::fmax(std::fabs(p), std::sqrt(std::fmax(std::fabs(r), 0.0))));
-    if(std::fabs(q) < 1e-14 * coeff_scale) {
-        // Biquadratic: t^4 + p*t^2 + r = 0
-        double disc = p * p - 4.0 * r;
-        double disc_tol = 1e-10 * std::fmax(p * p, std::fabs(r));
-        if(disc < -disc_tol) return 0;
-        if(disc < 0) disc = 0;
-        double sq = std::sqrt(disc);
-        double u1 = (-p + sq) / 2.0;
-        double u2 = (-p - sq) / 2.0;
-        double u_tol = 1e-10 * std::fmax(std::fabs(p), sq);
-        if(u1 >= -u_tol) {
-            if(u1 < 0) u1 = 0;
-            double s = std::sqrt(u1);
-            roots[n_roots++] = s - a / 4.0;
-            roots[n_roots++] = -s - a / 4.0;
-        }
-        if(u2 >= -u_tol && std::fabs(u2 - u1) > u_tol) {
-            if(u2 < 0) u2 = 0;
-            double s = std::sqrt(u2);
-            roots[n_roots++] = s - a / 4.0;
-            roots[n_roots++] = -s - a / 4.0;
+    int n_roots = 0;
+    for(int i = 0; i + 1 < n_edges; ++i) {
+        double a = edges[i], b = edges[i + 1];
+        bool a_negative = eval(a) < 0;
+        if(a_negative == (eval(b) < 0)) continue;
+        while(true) {
+            double mid = 0.5 * (a + b);
+            if(mid <= a || mid >= b) break;
+            if((eval(mid) < 0) == a_negative) a = mid;
+            else b = mid;
         }
-        return n_roots;
-    }
-
-    // Ferrari's resolvent cubic
-    double rp = -p / 2.0;
-    double rq = -r;
-    double rs = p * r / 2.0 - q * q / 8.0;
-    double P = rq - rp * rp / 3.0;
-    double Q = rs - rp * rq / 3.0 + 2.0 * rp * rp * rp / 27.0;
-
-    double cubic_roots[3];
-    int nc = SolveDepressedCubic(P, Q, cubic_roots);
-
-    // Pick the largest real root of the resolvent cubic
-    double y = cubic_roots[0] - rp / 3.0;
-    for(int i = 1; i < nc; ++i) {
-        double yi = cubic_roots[i] - rp / 3.0;
-        if(yi > y) y = yi;
-    }
-
-    // Factor the depressed quartic into two quadratics using y:
-    // t^4 + p*t^2 + q*t + r = (t^2 + s*t + u)(t^2 - s*t + v)
-    // where s^2 = 2*y - p, u = y - q/(2*s), v = y + q/(2*s)
-    double s2 = 2.0 * y - p;
-    if(s2 < 0) s2 = 0;
-    double s = std::sqrt(s2);
-
-    double u, v;
-    if(s > 1e-14) {
-        u = y - q / (2.0 * s);
-        v = y + q / (2.0 * s);
-    } else {
-        u = y;
-        v = y;
-        s = 0;
-    }
-
-    // Solve the two quadratics
-    double disc1 = s * s - 4.0 * u;
-    if(disc1 >= 0) {
-        double sq1 = std::sqrt(disc1);
-        roots[n_roots++] = (-s + sq1) / 2.0 - a / 4.0;
-        roots[n_roots++] = (-s - sq1) / 2.0 - a / 4.0;
+        roots[n_roots++] = b;
     }
-    double disc2 = s * s - 4.0 * v;
-    if(disc2 >= 0) {
-        double sq2 = std::sqrt(disc2);
-        roots[n_roots++] = (s + sq2) / 2.0 - a / 4.0;
-        roots[n_roots++] = (s - sq2) / 2.0 - a / 4.0;
-    }
-
     return n_roots;
 }
 
@@ -221,7 +135,7 @@ void Torus::print(std::ostream& os) const {
 //   (x^2 + y^2 + z^2 + R^2 - r^2)^2 = 4*R^2*(x^2 + y^2)
 //
 // Substituting ray P + t*D and expanding gives a monic quartic in t.
-// We solve it with Ferrari's method.
+// We solve it by bisection between its stationary points.
 // =========================================================================
 
 std::vector<Geometry::Intersection> Torus::ComputeIntersections(
@@ -272,29 +186,20 @@ std::vector<Geometry::Intersection> Torus::ComputeIntersections(
         double c1 = 4.0 * qd * alpha - 8.0 * R*R * QDxy;
         double c0 = alpha * alpha - 4.0 * R*R * Qxy2;
 
+        // All roots lie within R + r of the point of closest approach; solve in
+        // units of that length. Keep roots in the shifted frame (s) for
+        // position accuracy.
+        double L = R + r;
+        double coeffs[5] = {c0 / (L*L*L*L), c1 / (L*L*L), c2 / (L*L), c3 / L, 1.0};
         double raw_roots[4];
-        int n_raw = SolveQuartic(c3, c2, c1, c0, raw_roots);
-
-        // Polish each root with Newton-Raphson on the shifted quartic
-        // f(s) = s^4 + c3*s^3 + c2*s^2 + c1*s + c0
-        // Keep roots in the shifted frame (s) for position accuracy.
-        for(int i = 0; i < n_raw; ++i) {
-            double s = raw_roots[i];
-            for(int iter = 0; iter < 3; ++iter) {
-                double f = ((( s + c3) * s + c2) * s + c1) * s + c0;
-                double fp = ((4.0*s + 3.0*c3) * s + 2.0*c2) * s + c1;
-                if(std::fabs(fp) < 1e-30) break;
-                s -= f / fp;
-            }
-            raw_roots[i] = s; // Keep in shifted frame
-        }
+        int n_raw = SolvePolynomial(coeffs, 4, -1.01, 1.01, raw_roots);
+        for(int i = 0; i < n_raw; ++i) raw_roots[i] *= L;
 
         // Validate, deduplicate, and emit roots.
         // Positions are computed from the shifted origin (qx + s*dx) to avoid
         // catastrophic cancellation when t_shift is large (far-field rays).
         // We keep the shifted roots (s) throughout and only convert to absolute
         // distance (t = s + t_shift) for the output.
-        std::sort(raw_roots, raw_roots + n_raw);
         struct ValidRoot { double s; double t; };
         ValidRoot valid[4];
         int n = 0;
-- 
2.43.0


From b7cbffe987833b7e97f8ba9b93dfba5c7afb4adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:51 +0000
Subject: [PATCH 076/118] fix: faces of a small polyhedron extend beyond their
 edges

---
 projects/geometry/private/Polyhedra.cxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/projects/geometry/private/Polyhedra.cxx b/projects/geometry/private/Polyhedra.cxx
index be3be93..1a337d9 100644
--- a/projects/geometry/private/Polyhedra.cxx
+++ b/projects/geometry/private/Polyhedra.cxx
@@ -250,13 +250,16 @@ static bool PointInConvexFace3D(double qx, double qy, double qz,
                                 int nv, double eps) {
     bool has_pos = false;
     bool has_neg = false;
+    double n_mag = std::sqrt(nx*nx + ny*ny + nz*nz);
     for(int i = 0; i < nv; ++i) {
         int j = (i + 1) % nv;
         double ex = vx[j] - vx[i], ey = vy[j] - vy[i], ez = vz[j] - vz[i];
         double fx = qx - vx[i], fy = qy - vy[i], fz = qz - vz[i];
         double c = nx * (ey*fz - ez*fy) + ny * (ez*fx - ex*fz) + nz * (ex*fy - ey*fx);
-        if(c > eps) has_pos = true;
-        if(c < -eps) has_neg = true;
+        // eps is a distance: c is the distance to the edge in units of |n||e|
+        double tol = eps * n_mag * std::sqrt(ex*ex + ey*ey + ez*ez);
+        if(c > tol) has_pos = true;
+        if(c < -tol) has_neg = true;
         if(has_pos && has_neg) return false;
     }
     return true;
@@ -423,7 +426,7 @@ std::vector<Geometry::Intersection> Polyhedra::ComputeIntersections(siren::math:
 
                 double n_dot_d = nx * dx + ny * dy + nz * dz;
 
-                if(std::fabs(n_dot_d) > GEOMETRY_PRECISION) {
+                if(std::fabs(n_dot_d) > GEOMETRY_PRECISION * std::sqrt(nx*nx + ny*ny + nz*nz)) {
                     // Ray-plane intersection: t = n . (v0 - p) / (n . d)
                     double n_dot_pv = nx * (v0x - px) + ny * (v0y - py) + nz * (v0z - pz);
                     double t = n_dot_pv / n_dot_d;
@@ -489,7 +492,7 @@ std::vector<Geometry::Intersection> Polyhedra::ComputeIntersections(siren::math:
 
                 double n_dot_d = nx * dx + ny * dy + nz * dz;
 
-                if(std::fabs(n_dot_d) > GEOMETRY_PRECISION) {
+                if(std::fabs(n_dot_d) > GEOMETRY_PRECISION * std::sqrt(nx*nx + ny*ny + nz*nz)) {
                     double n_dot_pv = nx * (v0x - px) + ny * (v0y - py) + nz * (v0z - pz);
                     double t = n_dot_pv / n_dot_d;
 
-- 
2.43.0


From 50a999202fd2f61c751d91a98fd0f2bbc58fca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:24 +0000
Subject: [PATCH 077/118] fix: mesh far from the origin loses crossings to
 single precision bounds

---
 projects/geometry/private/GeometryMesh.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projects/geometry/private/GeometryMesh.cxx b/projects/geometry/private/GeometryMesh.cxx
index d2a981e..e95be80 100644
--- a/projects/geometry/private/GeometryMesh.cxx
+++ b/projects/geometry/private/GeometryMesh.cxx
@@ -1,6 +1,7 @@
 #include "SIREN/geometry/GeometryMesh.h"
 
 #include <cmath>
+#include <limits>
 #include <string>
 #include <vector>
 #include <array>
@@ -274,8 +275,9 @@ void TriangularMesh::BuildBVH() {
         for(int a = 0; a < 3; ++a) {
             float mn = (float)std::fmin(tri[0][a], std::fmin(tri[1][a], tri[2][a]));
             float mx = (float)std::fmax(tri[0][a], std::fmax(tri[1][a], tri[2][a]));
-            info[i].bounds[a] = mn;
-            info[i].bounds[a + 3] = mx;
+            // Round outwards, so that the single precision box holds the triangle
+            info[i].bounds[a] = std::nextafter(mn, -std::numeric_limits<float>::infinity());
+            info[i].bounds[a + 3] = std::nextafter(mx, std::numeric_limits<float>::infinity());
             info[i].centroid[a] = (float)((tri[0][a] + tri[1][a] + tri[2][a]) / 3.0);
         }
     }
-- 
2.43.0


From 66322b4450e98f34247d88ea7cbedf670efa5b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:55 +0000
Subject: [PATCH 078/118] fix: polar cut of a sphere is displaced for lines
 that start far away

---
 projects/geometry/private/Sphere.cxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/projects/geometry/private/Sphere.cxx b/projects/geometry/private/Sphere.cxx
index 5e08817..a49da09 100644
--- a/projects/geometry/private/Sphere.cxx
+++ b/projects/geometry/private/Sphere.cxx
@@ -186,8 +186,11 @@ std::vector<Geometry::Intersection> Sphere::ComputeIntersections(
             double tan_t = std::tan(theta0);
             double tan2 = tan_t * tan_t;
             double A = dx*dx + dy*dy - dz*dz * tan2;
-            double B_half = px*dx + py*dy - pz*dz * tan2;
-            double C = px*px + py*py - pz*pz * tan2;
+            // Solve from the point of closest approach to the origin, which
+            // avoids cancellation when the ray starts far from the sphere.
+            double qx = px - pd*dx, qy = py - pd*dy, qz = pz - pd*dz;
+            double B_half = qx*dx + qy*dy - qz*dz * tan2;
+            double C = qx*qx + qy*qy - qz*qz * tan2;
 
             double det = B_half * B_half - A * C;
             if(det < 0) continue;
@@ -203,7 +206,8 @@ std::vector<Geometry::Intersection> Sphere::ComputeIntersections(
                     continue;
                 }
 
-                double hx = px + t*dx, hy = py + t*dy, hz = pz + t*dz;
+                double hx = qx + t*dx, hy = qy + t*dy, hz = qz + t*dz;
+                t -= pd;
                 if(theta0 < M_PI / 2.0 && hz < -GEOMETRY_PRECISION) continue;
                 if(theta0 > M_PI / 2.0 && hz > GEOMETRY_PRECISION) continue;
 
-- 
2.43.0


From d8dc975fe5f7d07145b865ab97baa7e8df50ea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:13 +0000
Subject: [PATCH 079/118] fix: ordering range or depth functions of different
 kinds reads through a null pointer

---
 .../distributions/private/primary/vertex/DepthFunction.cxx    | 4 ++--
 .../distributions/private/primary/vertex/RangeFunction.cxx    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/DepthFunction.cxx b/projects/distributions/private/primary/vertex/DepthFunction.cxx
index 74d88a1..3720ab9 100644
--- a/projects/distributions/private/primary/vertex/DepthFunction.cxx
+++ b/projects/distributions/private/primary/vertex/DepthFunction.cxx
@@ -25,10 +25,10 @@ bool DepthFunction::operator==(DepthFunction const & distribution) const {
 }
 
 bool DepthFunction::operator<(DepthFunction const & distribution) const {
-    if(typeid(this) == typeid(&distribution))
+    if(typeid(*this) == typeid(distribution))
         return this->less(distribution);
     else
-        return std::type_index(typeid(this)) < std::type_index(typeid(&distribution));
+        return std::type_index(typeid(*this)) < std::type_index(typeid(distribution));
 }
 
 } // namespace distributions
diff --git a/projects/distributions/private/primary/vertex/RangeFunction.cxx b/projects/distributions/private/primary/vertex/RangeFunction.cxx
index 737be7d..6c25241 100644
--- a/projects/distributions/private/primary/vertex/RangeFunction.cxx
+++ b/projects/distributions/private/primary/vertex/RangeFunction.cxx
@@ -24,10 +24,10 @@ bool RangeFunction::operator==(RangeFunction const & distribution) const {
 }
 
 bool RangeFunction::operator<(RangeFunction const & distribution) const {
-    if(typeid(this) == typeid(&distribution))
+    if(typeid(*this) == typeid(distribution))
         return this->less(distribution);
     else
-        return std::type_index(typeid(this)) < std::type_index(typeid(&distribution));
+        return std::type_index(typeid(*this)) < std::type_index(typeid(distribution));
 }
 
 } // namespace distributions
-- 
2.43.0


From 275aab8661817db0185467e1d64401d81dd2b8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:13 +0000
Subject: [PATCH 080/118] fix: setting the distributions of a process accepts
 equal distributions

---
 projects/injection/private/Process.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/injection/private/Process.cxx b/projects/injection/private/Process.cxx
index 0543f7a..c375e25 100644
--- a/projects/injection/private/Process.cxx
+++ b/projects/injection/private/Process.cxx
@@ -96,7 +96,7 @@ std::vector<std::shared_ptr<distributions::WeightableDistribution>> const & Phys
 void PhysicalProcess::SetPhysicalDistributions(std::vector<std::shared_ptr<distributions::WeightableDistribution>> const & distributions) {
     for(std::vector<std::shared_ptr<distributions::WeightableDistribution>>::const_iterator it_1 = distributions.begin(); it_1 != distributions.end(); ++it_1) {
         for(std::vector<std::shared_ptr<distributions::WeightableDistribution>>::const_iterator it_2 = it_1 + 1; it_2 != distributions.end(); ++it_2) {
-            if((*it_1) == (*it_2))
+            if((**it_1) == (**it_2))
                 throw std::runtime_error("Cannot add duplicate WeightableDistributions");
         }
     }
@@ -136,7 +136,7 @@ void PrimaryInjectionProcess::AddPrimaryInjectionDistribution(std::shared_ptr<di
 void PrimaryInjectionProcess::SetPrimaryInjectionDistributions(std::vector<std::shared_ptr<distributions::PrimaryInjectionDistribution>> const & distributions) {
     for(std::vector<std::shared_ptr<distributions::PrimaryInjectionDistribution>>::const_iterator it_1 = distributions.begin(); it_1 != distributions.end(); ++it_1) {
         for(std::vector<std::shared_ptr<distributions::PrimaryInjectionDistribution>>::const_iterator it_2 = it_1 + 1; it_2 != distributions.end(); ++it_2) {
-            if((*it_1) == (*it_2))
+            if((**it_1) == (**it_2))
                 throw std::runtime_error("Cannot add duplicate PrimaryInjectionDistributions");
         }
     }
@@ -195,7 +195,7 @@ void SecondaryInjectionProcess::AddSecondaryInjectionDistribution(std::shared_pt
 void SecondaryInjectionProcess::SetSecondaryInjectionDistributions(std::vector<std::shared_ptr<distributions::SecondaryInjectionDistribution>> const & distributions) {
     for(std::vector<std::shared_ptr<distributions::SecondaryInjectionDistribution>>::const_iterator it_1 = distributions.begin(); it_1 != distributions.end(); ++it_1) {
         for(std::vector<std::shared_ptr<distributions::SecondaryInjectionDistribution>>::const_iterator it_2 = it_1 + 1; it_2 != distributions.end(); ++it_2) {
-            if((*it_1) == (*it_2))
+            if((**it_1) == (**it_2))
                 throw std::runtime_error("Cannot add duplicate SecondaryInjectionDistributions");
         }
     }
-- 
2.43.0


From 64b79627062620474b19cdd49bedafe3177dc31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:07 +0000
Subject: [PATCH 081/118] fix: distances to a point for a depth are measured
 along the wrong direction in detector coordinates

---
 projects/detector/private/DetectorModel.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 4fe4683..e237c8c 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -2067,11 +2067,11 @@ double DetectorModel::DistanceForColumnDepthFromPoint(DetectorPosition const & p
 }
 
 double DetectorModel::DistanceForColumnDepthToPoint(Geometry::IntersectionList const & intersections, DetectorPosition const & p0, DetectorDirection const & direction, double column_depth) const {
-    return DistanceForColumnDepthFromPoint(intersections, ToGeo(p0), ToGeo(direction), column_depth);
+    return DistanceForColumnDepthToPoint(intersections, ToGeo(p0), ToGeo(direction), column_depth);
 }
 
 double DetectorModel::DistanceForColumnDepthToPoint(DetectorPosition const & p0, DetectorDirection const & direction, double column_depth) const {
-    return DistanceForColumnDepthFromPoint(ToGeo(p0), ToGeo(direction), column_depth);
+    return DistanceForColumnDepthToPoint(ToGeo(p0), ToGeo(direction), column_depth);
 }
 
 double DetectorModel::GetMassDensity(Geometry::IntersectionList const & intersections, DetectorPosition const & p0,  std::set<siren::dataclasses::ParticleType> targets) const {
@@ -2151,14 +2151,14 @@ double DetectorModel::DistanceForInteractionDepthToPoint(Geometry::IntersectionL
         std::vector<siren::dataclasses::ParticleType> const & targets,
         std::vector<double> const & total_cross_sections,
         double const & total_decay_length) const {
-    return DistanceForInteractionDepthFromPoint(intersections, ToGeo(p0), ToGeo(direction), interaction_depth, targets, total_cross_sections, total_decay_length);
+    return DistanceForInteractionDepthToPoint(intersections, ToGeo(p0), ToGeo(direction), interaction_depth, targets, total_cross_sections, total_decay_length);
 }
 
 double DetectorModel::DistanceForInteractionDepthToPoint(DetectorPosition const & p0, DetectorDirection const & direction, double interaction_depth,
         std::vector<siren::dataclasses::ParticleType> const & targets,
         std::vector<double> const & total_cross_sections,
         double const & total_decay_length) const {
-    return DistanceForInteractionDepthFromPoint(ToGeo(p0), ToGeo(direction), interaction_depth, targets, total_cross_sections, total_decay_length);
+    return DistanceForInteractionDepthToPoint(ToGeo(p0), ToGeo(direction), interaction_depth, targets, total_cross_sections, total_decay_length);
 }
 
 //////////////////////////////////////////////////////////
-- 
2.43.0


From 67a3a869133fb559a8c93bf2754b757c36c2e700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:07 +0000
Subject: [PATCH 082/118] fix: distance for an interaction depth forgets the
 decays in the sectors passed before

---
 projects/detector/private/DetectorModel.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index e237c8c..705af18 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -1975,6 +1975,7 @@ double DetectorModel::DistanceForInteractionDepthFromPoint(Geometry::Intersectio
             done = distance >= 0;
             double integral = sector.density->Integral(p0+start_point*direction, direction, segment_length); // g cm^-3 * m
             integral *= (target_composition*siren::utilities::Constants::m/siren::utilities::Constants::cm); // --> m cm^-1 --> dimensionless
+            integral += segment_length / total_decay_length; // m / m --> dimensionless
             total_interaction_depth += integral;
             if(done) {
                 total_distance = start_point + distance;
-- 
2.43.0


From 53eba16ff50f6dc4fae04c4666a71d70b430fb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:07 +0000
Subject: [PATCH 083/118] fix: distance for a negative interaction depth of
 decays has the wrong sign

---
 projects/detector/private/DetectorModel.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 705af18..a7ba31f 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -1925,7 +1925,7 @@ double DetectorModel::DistanceForInteractionDepthFromPoint(Geometry::Intersectio
     // If we have only decays, avoid the sector loop
     // decay length in m
     if(targets.empty()) {
-      return interaction_depth * total_decay_length;
+      return (flip ? -1.0 : 1.0) * interaction_depth * total_decay_length;
     }
 
     double dot = intersections.direction * direction;
-- 
2.43.0


From d8858b651cd4f188848d3878b21e48e70e572973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:07 +0000
Subject: [PATCH 084/118] fix: distance for an interaction depth divides by
 zero in sectors without any of the targets

---
 projects/detector/private/DetectorModel.cxx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index a7ba31f..45c221d 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -1963,14 +1963,19 @@ double DetectorModel::DistanceForInteractionDepthFromPoint(Geometry::Intersectio
                 interaction_depths[i] *= total_cross_sections[i];
             }
             double target_composition = accumulate(interaction_depths.begin(), interaction_depths.end(), 0.0); // cm^2 g^-1
-            target /= target_composition;
             double distance;
+            if(target_composition <= 0) {
+              // None of the targets are present, so only decays contribute
+              distance = (interaction_depth - total_interaction_depth) * total_decay_length;
+              if(not (distance <= segment_length))
+                distance = -1.0;
+            }
             // total_decay_length now in cm
-            if (total_decay_length < std::numeric_limits<double>::infinity()) {
-              distance = sector.density->InverseIntegral(p0+start_point*direction, direction, 1./(total_decay_length_cm*target_composition), target, segment_length);
+            else if (total_decay_length < std::numeric_limits<double>::infinity()) {
+              distance = sector.density->InverseIntegral(p0+start_point*direction, direction, 1./(total_decay_length_cm*target_composition), target / target_composition, segment_length);
             }
             else {
-              distance = sector.density->InverseIntegral(p0+start_point*direction, direction, target, segment_length);
+              distance = sector.density->InverseIntegral(p0+start_point*direction, direction, target / target_composition, segment_length);
             }
             done = distance >= 0;
             double integral = sector.density->Integral(p0+start_point*direction, direction, segment_length); // g cm^-3 * m
-- 
2.43.0


From b4a0ab70a946d6f056a439396e8f2b67e03450fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:22 +0000
Subject: [PATCH 085/118] fix: refused sectors leave the detector model half
 changed

---
 projects/detector/private/DetectorModel.cxx | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 45c221d..a0627af 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -211,20 +211,22 @@ std::vector<DetectorSector> const & DetectorModel::GetSectors() const {
 }
 
 void DetectorModel::SetSectors(std::vector<DetectorSector> const & sectors) {
-    sectors_ = sectors;
-    sector_map_.clear();
-    sector_name_map_.clear();
+    std::map<int, unsigned int> sector_map;
+    std::map<std::string, unsigned int> sector_name_map;
     for(unsigned int i=0; i<sectors.size(); ++i) {
-        if(sector_map_.count(sectors[i].level) > 0) {
+        if(sector_map.count(sectors[i].level) > 0) {
             throw(std::runtime_error("Already have a sector of that heirarchy!"));
         }
         // Enforce unique sector names for name-based lookup
-        if(sector_name_map_.count(sectors[i].name) > 0) {
+        if(sector_name_map.count(sectors[i].name) > 0) {
             throw(std::runtime_error("Already have a sector named: " + sectors[i].name));
         }
-        sector_name_map_[sectors[i].name] = i;
-        sector_map_[sectors[i].level] = i;
+        sector_name_map[sectors[i].name] = i;
+        sector_map[sectors[i].level] = i;
     }
+    sectors_ = sectors;
+    sector_map_ = std::move(sector_map);
+    sector_name_map_ = std::move(sector_name_map);
     bvh_dirty_.store(true, std::memory_order_release);
 }
 
-- 
2.43.0


From 81aef401e390a49be4e24ed71c06459ce0e4a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:22 +0000
Subject: [PATCH 086/118] fix: incomplete lines of a detector file are read as
 unset numbers

---
 projects/detector/private/DetectorModel.cxx | 58 ++++++++++++++-------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index a0627af..6454e8a 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -303,46 +303,49 @@ std::shared_ptr<siren::geometry::Geometry> DetectorModel::ParseGeometryObject(st
     ss >> shape;
     ss >> xc >> yc >> zc;
     ss >> alpha >> beta >> gamma;
+    if(ss.fail()) {
+        throw(std::runtime_error("Incomplete shape on line:\n" + ss.str()));
+    }
     Placement placement(Vector3D(xc,yc,zc), QFromZXZr(alpha,beta,gamma));
 
     std::shared_ptr<geometry::Geometry> geo;
 
     if(shape.find("sphere")!=std::string::npos) {
-        double radius; // For Sphere shapes
+        double radius = 0; // For Sphere shapes
         ss >> radius;
         geo = Sphere(placement, radius, 0).create();
     }
     else if(shape.find("box")!=std::string::npos) {
-        double dx, dy, dz; // For Box shapes
+        double dx = 0, dy = 0, dz = 0; // For Box shapes
         ss >> dx >> dy >> dz;
         geo = Box(placement, dx, dy, dz).create();
     }
     else if(shape.find("cylinder")!=std::string::npos) {
-        double _or, ir, z; // For Cylinder shapes
+        double _or = 0, ir = 0, z = 0; // For Cylinder shapes
         ss >> _or >> ir >> z;
         geo = Cylinder(placement, _or, ir, z).create();
     }
     else if(shape.find("cone")!=std::string::npos) {
-        double rmin1, rmax1, rmin2, rmax2, z;
+        double rmin1 = 0, rmax1 = 0, rmin2 = 0, rmax2 = 0, z = 0;
         ss >> rmin1 >> rmax1 >> rmin2 >> rmax2 >> z;
         geo = Cone(placement, rmin1, rmax1, rmin2, rmax2, z).create();
     }
     else if(shape.find("trd")!=std::string::npos) {
-        double dx1, dx2, dy1, dy2, dz;
+        double dx1 = 0, dx2 = 0, dy1 = 0, dy2 = 0, dz = 0;
         ss >> dx1 >> dx2 >> dy1 >> dy2 >> dz;
         geo = Trd(placement, dx1, dx2, dy1, dy2, dz).create();
     }
     else if(shape.find("extr")!=std::string::npos) {
-        int nverts;
-        double v1,v2; // For Extr Poly vertices
-        int nzsec;
-        double zpos, off1, off2, scale; // For Extr Poly zsections
+        int nverts = 0;
+        double v1 = 0, v2 = 0; // For Extr Poly vertices
+        int nzsec = 0;
+        double zpos = 0, off1 = 0, off2 = 0, scale = 0; // For Extr Poly zsections
         double offset[2];
         std::vector<std::vector<double>> poly;
         std::vector<double> polyVert;
         std::vector<ExtrPoly::ZSection> zsecs;
         ss >> nverts;
-        for (int i = 0; i < nverts; ++i){
+        for (int i = 0; i < nverts and ss; ++i){
             ss >> v1 >> v2;
             polyVert.push_back(v1);
             polyVert.push_back(v2);
@@ -350,7 +353,7 @@ std::shared_ptr<siren::geometry::Geometry> DetectorModel::ParseGeometryObject(st
             polyVert.clear();
         }
         ss >> nzsec;
-        for (int i = 0; i < nzsec; ++i){
+        for (int i = 0; i < nzsec and ss; ++i){
             ss >> zpos >> off1 >> off2 >> scale;
             offset[0] = off1;
             offset[1] = off2;
@@ -368,6 +371,10 @@ std::shared_ptr<siren::geometry::Geometry> DetectorModel::ParseGeometryObject(st
         throw(std::runtime_error(ss_err.str()));
     }
 
+    if(ss.fail()) {
+        throw(std::runtime_error("Incomplete shape on line:\n" + ss.str()));
+    }
+
     return geo;
 }
 
@@ -395,21 +402,21 @@ std::shared_ptr<siren::detector::DensityDistribution> DetectorModel::ParseDensit
     std::shared_ptr<detector::DensityDistribution> density;
 
     if(distribution_type.find("constant") != std::string::npos) {
-        double param;
+        double param = 0;
         ss >> param;
         density = ConstantDensityDistribution(param).create();
     } else if (distribution_type.find("radial_polynomial") != std::string::npos) {
-        double xc, yc, zc;
+        double xc = 0, yc = 0, zc = 0;
         ss >> xc >> yc >> zc;
         Vector3D center(xc, yc, zc);
         RadialAxis1D radial_ax(center);
 
-        int nparams;
+        int nparams = 0;
         ss >> nparams;
 
-        double param;
+        double param = 0;
         std::vector<double> params;
-        for(int i=0; i<nparams; ++i) {
+        for(int i=0; i<nparams and ss; ++i) {
             ss >> param;
             params.push_back(param);
         }
@@ -423,6 +430,9 @@ std::shared_ptr<siren::detector::DensityDistribution> DetectorModel::ParseDensit
             << ss.str();
         throw(std::runtime_error(ss_err.str()));
     }
+    if(ss.fail()) {
+        throw(std::runtime_error("Incomplete density distribution on line:\n" + ss.str()));
+    }
     return density;
 }
 
@@ -441,15 +451,21 @@ std::tuple<siren::math::Vector3D, siren::math::Quaternion> DetectorModel::ParseD
     }
     double x0, y0, z0; // Coordinates of the center of the detector
     ss >> x0 >> y0 >> z0;
+    if(ss.fail()) {
+        throw(std::runtime_error("Incomplete detector position on line:\n" + ss.str()));
+    }
     // Set the detector origin
     siren::math::Vector3D detector_origin(x0, y0, z0);
 
-    bool is_empty = ss.rdbuf()->in_avail() == 0;
+    bool is_empty = ss.eof() or (ss >> std::ws).eof();
 
     siren::math::Quaternion detector_rotation;
     if(not is_empty) {
         double alpha, beta, gamma; // Euler Angles of shape rotation
         ss >> alpha >> beta >> gamma;
+        if(ss.fail()) {
+            throw(std::runtime_error("Incomplete detector rotation on line:\n" + ss.str()));
+        }
         detector_rotation = QFromZXZr(alpha, beta, gamma);
     }
     return {detector_origin, detector_rotation};
@@ -2243,6 +2259,9 @@ void DetectorModel::LoadConcentricShellsFromLegacyFile(std::string model_fname,
         // density data
         std::stringstream ss(buf);
         ss >> radius >> label >> medtype >> nparams;
+        if(ss.fail()) {
+            throw(std::runtime_error("Incomplete layer on line:\n" + ss.str()));
+        }
 
         if(not materials_.HasMaterial(medtype)) {
             std::stringstream ss;
@@ -2262,13 +2281,16 @@ void DetectorModel::LoadConcentricShellsFromLegacyFile(std::string model_fname,
         }
         else {
             std::vector<double> params;
-            for(int i=0; i<nparams; ++i) {
+            for(int i=0; i<nparams and ss; ++i) {
                 ss >> param;
                 params.push_back(param);
             }
             RadialAxis1D radial_ax;
             sector.density = RadialAxisPolynomialDensityDistribution(radial_ax, params).create();
         }
+        if(ss.fail()) {
+            throw(std::runtime_error("Incomplete layer on line:\n" + ss.str()));
+        }
 
         // stop the process if layering assumptions are violated
         if(radius < max_radius) {
-- 
2.43.0


From 184f7a9fa5d806fcbef2956c0e39457632ad73b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:37 +0000
Subject: [PATCH 087/118] fix: fiducial volumes given in geometry coordinates
 keep a wrong orientation in a rotated detector

---
 projects/detector/private/DetectorModel.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 6454e8a..15aac4e 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -515,7 +515,7 @@ std::shared_ptr<siren::geometry::Geometry> DetectorModel::ParseFiducialVolume(st
     if(not detector_coords) {
         Placement p = geo->GetPlacement();
         p.SetPosition(detector_quaternion.rotate(p.GetPosition() - detector_origin, true));
-        p.SetQuaternion(detector_quaternion.rotate(p.GetQuaternion(), true));
+        p.SetQuaternion(detector_quaternion.conjugated() * p.GetQuaternion());
         geo->SetPlacement(p);
     }
     return geo;
-- 
2.43.0


From 7020a50c83ebb66719a9a17d600baeaef5260a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:42 +0000
Subject: [PATCH 088/118] fix: records of secondaries made from a complete
 record refer to the caller's record

---
 projects/dataclasses/private/InteractionRecord.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index 08e28b2..c133805 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -1123,8 +1123,8 @@ SecondaryDistributionRecord::SecondaryDistributionRecord(InteractionRecord & rec
         return record;
     }(record)),
     id(record.primary_id),
-    type(record.signature.primary_type),
-    mass(record.primary_mass),
+    type(this->record.signature.primary_type),
+    mass(this->record.primary_mass),
     direction([](InteractionRecord const & record) -> std::array<double, 3> {
         std::array<double, 3> direction;
         double magnitude = std::sqrt(record.primary_momentum.at(1)*record.primary_momentum.at(1) + record.primary_momentum.at(2)*record.primary_momentum.at(2) + record.primary_momentum.at(3)*record.primary_momentum.at(3));
@@ -1135,10 +1135,10 @@ SecondaryDistributionRecord::SecondaryDistributionRecord(InteractionRecord & rec
         }
         return direction;
     }(record)),
-    momentum(record.primary_momentum),
-    helicity(record.primary_helicity),
-    initial_position(record.primary_initial_position),
-    initial_time(record.primary_initial_time) {}
+    momentum(this->record.primary_momentum),
+    helicity(this->record.primary_helicity),
+    initial_position(this->record.primary_initial_position),
+    initial_time(this->record.primary_initial_time) {}
 
 SecondaryDistributionRecord::SecondaryDistributionRecord(InteractionRecord const & parent_record, size_t secondary_index) :
     secondary_index(secondary_index),
-- 
2.43.0


From 5fd9364f081d2d7fe4cf9a5cad03c7714d400e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:30 +0000
Subject: [PATCH 089/118] fix: malformed, empty or mismatched flux tables are
 read as unset numbers

---
 .../primary/energy/TabulatedFluxDistribution.cxx   | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx b/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
index adfc499..c7d6e21 100644
--- a/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
+++ b/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
@@ -62,13 +62,18 @@ void TabulatedFluxDistribution::LoadFluxTable() {
 
             std::stringstream ss(buf);
             double x, f;
-            ss >> x >> f;
+            if(!(ss >> x >> f)) {
+                throw std::runtime_error("Malformed row in flux table: " + buf);
+            }
             table_data.x.push_back(x);
             table_data.f.push_back(f);
 
             energy_nodes.push_back(x);
             pdf_values.push_back(f);
         }
+        if(table_data.x.empty()) {
+            throw std::runtime_error("No valid data rows in flux table: " + fluxTableFilename);
+        }
         // If no physical are manually set, use first/last entry of table
         if(not bounds_set) {
             energyMin = *std::min_element(table_data.x.begin(), table_data.x.end());
@@ -82,7 +87,12 @@ void TabulatedFluxDistribution::LoadFluxTable() {
 
 void TabulatedFluxDistribution::LoadFluxTable(std::vector<double> & energies, std::vector<double> & flux) {
 
-    assert(energies.size()==flux.size());
+    if(energies.empty()) {
+        throw std::runtime_error("Empty vectors passed to LoadFluxTable");
+    }
+    if(energies.size() != flux.size()) {
+        throw std::runtime_error("LoadFluxTable: energies and flux vectors must have the same size");
+    }
 
     siren::utilities::TableData1D<double> table_data;
 
-- 
2.43.0


From d485892ce364a8c500300584cb04fa056fe22220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:30 +0000
Subject: [PATCH 090/118] fix: tabulated fluxes saved by older versions sample
 a straight line after loading

---
 .../distributions/primary/energy/TabulatedFluxDistribution.h  | 3 +++
 projects/utilities/public/SIREN/utilities/Interpolator.h      | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/projects/distributions/public/SIREN/distributions/primary/energy/TabulatedFluxDistribution.h b/projects/distributions/public/SIREN/distributions/primary/energy/TabulatedFluxDistribution.h
index e8c2e73..3681184 100644
--- a/projects/distributions/public/SIREN/distributions/primary/energy/TabulatedFluxDistribution.h
+++ b/projects/distributions/public/SIREN/distributions/primary/energy/TabulatedFluxDistribution.h
@@ -95,6 +95,9 @@ public:
             archive(::cereal::make_nvp("EnergyMax", energyMax));
             archive(::cereal::make_nvp("FluxTable", fluxTable));
             archive(cereal::virtual_base_class<PrimaryEnergyDistribution>(this));
+            // The nodes are those of the table
+            energy_nodes = fluxTable.GetTable().x;
+            pdf_values = fluxTable.GetTable().f;
             bounds_set = true;
             use_romberg = true;
             ComputeIntegral();
diff --git a/projects/utilities/public/SIREN/utilities/Interpolator.h b/projects/utilities/public/SIREN/utilities/Interpolator.h
index cd9c245..34b4138 100644
--- a/projects/utilities/public/SIREN/utilities/Interpolator.h
+++ b/projects/utilities/public/SIREN/utilities/Interpolator.h
@@ -411,6 +411,10 @@ public:
         }
     }
 
+    TableData1D<T> const & GetTable() const {
+        return original_table;
+    }
+
     T operator()(T const & x) const {
 
         std::tuple<unsigned int, T, T, T> index_result = indexer(x);
-- 
2.43.0


From f34ecb90c7c2f26d7920e29b91d38ccb6255c4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:23 +0000
Subject: [PATCH 091/118] fix: numbers at the end of dipole table file names
 are ignored or cut at the decimal point

---
 projects/interactions/private/HNLDipoleFromTable.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index f14eea3..5c4f2d2 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -575,8 +575,8 @@ void HNLDipoleFromTable::AddDifferentialCrossSectionFile(std::string filename, s
         }
         next_pos = filename.find(delimeter, pos);
         if(next_pos == std::string::npos) {
-            next_pos = filename.rfind(end_delimeter, pos);
-            if(next_pos == std::string::npos) {
+            next_pos = filename.rfind(end_delimeter);
+            if(next_pos == std::string::npos or next_pos < pos) {
                 bad = true;
                 return std::string();
             }
@@ -677,8 +677,8 @@ void HNLDipoleFromTable::AddTotalCrossSectionFile(std::string filename, siren::d
         }
         next_pos = filename.find(delimeter, pos);
         if(next_pos == std::string::npos) {
-            next_pos = filename.find(end_delimeter, pos);
-            if(next_pos == std::string::npos) {
+            next_pos = filename.rfind(end_delimeter);
+            if(next_pos == std::string::npos or next_pos < pos) {
                 bad = true;
                 return std::string();
             }
-- 
2.43.0


From bd42c5c0c00756c068175c9bafe81da87cde9212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:23 +0000
Subject: [PATCH 092/118] fix: malformed or empty dipole table files are read
 as unset numbers

---
 .../interactions/private/HNLDipoleFromTable.cxx    | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index 5c4f2d2..63cd2a4 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -648,11 +648,16 @@ void HNLDipoleFromTable::AddDifferentialCrossSectionFile(std::string filename, s
 
             std::stringstream ss(buf);
             double x, y, f;
-            ss >> x >> y >> f;
+            if(not (ss >> x >> y >> f)) {
+                throw std::runtime_error("Malformed row in cross section file: " + buf);
+            }
             table_data.x.push_back(x);
             table_data.y.push_back(y);
             table_data.f.push_back(f);
         }
+        if(table_data.x.empty()) {
+            throw std::runtime_error("Cross section file holds no table: " + filename);
+        }
         siren::utilities::Interpolator2D<double> interp(table_data);
         AddDifferentialCrossSection(pid, interp);
     } else {
@@ -750,10 +755,15 @@ void HNLDipoleFromTable::AddTotalCrossSectionFile(std::string filename, siren::d
 
             std::stringstream ss(buf);
             double x, f;
-            ss >> x >> f;
+            if(not (ss >> x >> f)) {
+                throw std::runtime_error("Malformed row in cross section file: " + buf);
+            }
             table_data.x.push_back(x);
             table_data.f.push_back(f);
         }
+        if(table_data.x.empty()) {
+            throw std::runtime_error("Cross section file holds no table: " + filename);
+        }
         siren::utilities::Interpolator1D<double> interp(table_data);
         AddTotalCrossSection(pid, interp);
     } else {
-- 
2.43.0


From f37f58cd762a0b474a20358e700bbf3835072128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:32 +0000
Subject: [PATCH 093/118] fix: a path that is given another detector model
 keeps the intersections of the old one

---
 projects/detector/private/Path.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/projects/detector/private/Path.cxx b/projects/detector/private/Path.cxx
index a6dab82..b415441 100644
--- a/projects/detector/private/Path.cxx
+++ b/projects/detector/private/Path.cxx
@@ -136,9 +136,14 @@ geometry::Geometry::IntersectionList const & Path::GetIntersections() {
 }
 
 void Path::SetDetectorModel(std::shared_ptr<const DetectorModel> detector_model) {
+    // Detector coordinates are kept, and the cached intersections belong to the previous detector model
+    UpdatePoints();
     if(set_detector_model_ and set_det_points_) {
         set_points_ = false;
     }
+    if(detector_model_ != detector_model) {
+        set_intersections_ = false;
+    }
     detector_model_ = detector_model;
     set_detector_model_ = true;
     UpdatePoints();
-- 
2.43.0


From 25055de76ca2ce4fc1581c03364c572f637b393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:32 +0000
Subject: [PATCH 094/118] fix: a path reuses the intersections of rays up to
 4.5e-5 rad away

---
 projects/detector/private/Path.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/projects/detector/private/Path.cxx b/projects/detector/private/Path.cxx
index b415441..aa4c6f4 100644
--- a/projects/detector/private/Path.cxx
+++ b/projects/detector/private/Path.cxx
@@ -193,8 +193,9 @@ void Path::SetPointsWithRay(GeometryPosition first_point, GeometryDirection dire
     if(set_intersections_) {
         math::Vector3D new_dir = direction;
         new_dir.normalize();
-        double dot = std::abs(new_dir * intersections_.direction);
-        if(dot > 1.0 - 1e-9) {
+        // The cosine cannot resolve small angles, the cross product can
+        double sine = math::cross_product(new_dir, intersections_.direction).magnitude();
+        if(sine < 1e-9) {
             math::Vector3D offset = math::Vector3D(first_point) - intersections_.position;
             math::Vector3D perp = math::cross_product(offset, intersections_.direction);
             if(perp.magnitude() < 1e-6 * (1.0 + offset.magnitude())) {
@@ -229,8 +230,9 @@ void Path::SetPointsWithRay(DetectorPosition first_point, DetectorDirection dire
         GeometryPosition geo_pos = detector_model_->ToGeo(first_point);
         math::Vector3D new_dir = geo_dir;
         new_dir.normalize();
-        double dot = std::abs(new_dir * intersections_.direction);
-        if(dot > 1.0 - 1e-9) {
+        // The cosine cannot resolve small angles, the cross product can
+        double sine = math::cross_product(new_dir, intersections_.direction).magnitude();
+        if(sine < 1e-9) {
             math::Vector3D offset = math::Vector3D(geo_pos) - intersections_.position;
             math::Vector3D perp = math::cross_product(offset, intersections_.direction);
             if(perp.magnitude() < 1e-6 * (1.0 + offset.magnitude())) {
-- 
2.43.0


From 69afe0f25b35b140edb96e66c110b7d8c7ea7225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:32 +0000
Subject: [PATCH 095/118] fix: clipping a path that lies outside of the bounds
 turns it around

---
 projects/detector/private/Path.cxx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/projects/detector/private/Path.cxx b/projects/detector/private/Path.cxx
index aa4c6f4..ec43f98 100644
--- a/projects/detector/private/Path.cxx
+++ b/projects/detector/private/Path.cxx
@@ -297,6 +297,19 @@ void Path::ClipToOuterBounds() {
         if(dot < 0) {
             p0.swap(p1);
         }
+        bool outside = ((not last_inf_) and (p0 - last_point_) * direction_ > 0) or ((not first_inf_) and (p1 - first_point_) * direction_ < 0);
+        if(outside) {
+            // No part of the path lies within the bounds
+            if(first_inf_)
+                first_point_ = last_point_;
+            else
+                last_point_ = first_point_;
+            first_inf_ = false;
+            last_inf_ = false;
+            distance_ = 0;
+            set_det_points_ = false;
+            return;
+        }
         bool clip_0 = (first_inf_) || ((p0 - first_point_) * direction_ > 0);
         bool clip_1 = (last_inf_) || ((p1 - last_point_) * direction_ < 0);
         bool clip = clip_0 or clip_1;
-- 
2.43.0


From d4743c391745dc0f5654991c35ce661094a79ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:34 +0000
Subject: [PATCH 096/118] fix: triangles parallel to a face of a box are not
 seen to cross it, or seen to cross it from outside

---
 projects/geometry/private/MeshBuilder.cxx | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/projects/geometry/private/MeshBuilder.cxx b/projects/geometry/private/MeshBuilder.cxx
index 7fdfc91..331817b 100644
--- a/projects/geometry/private/MeshBuilder.cxx
+++ b/projects/geometry/private/MeshBuilder.cxx
@@ -465,12 +465,12 @@ long point_triangle_intersection(Point p, TData t) {
 	/* First, a quick bounding-box test:                               */
 	/* If P is outside triangle bbox, there cannot be an intersection. */
 
-	if (p[0] > MAX3(t[0][0], t[1][0], t[2][0])) return(OUTSIDE);
-	if (p[1] > MAX3(t[0][1], t[1][1], t[2][1])) return(OUTSIDE);
-	if (p[2] > MAX3(t[0][2], t[1][2], t[2][2])) return(OUTSIDE);
-	if (p[0] < MIN3(t[0][0], t[1][0], t[2][0])) return(OUTSIDE);
-	if (p[1] < MIN3(t[0][1], t[1][1], t[2][1])) return(OUTSIDE);
-	if (p[2] < MIN3(t[0][2], t[1][2], t[2][2])) return(OUTSIDE);
+	if (p[0] > MAX3(t[0][0], t[1][0], t[2][0]) + EPS) return(OUTSIDE);
+	if (p[1] > MAX3(t[0][1], t[1][1], t[2][1]) + EPS) return(OUTSIDE);
+	if (p[2] > MAX3(t[0][2], t[1][2], t[2][2]) + EPS) return(OUTSIDE);
+	if (p[0] < MIN3(t[0][0], t[1][0], t[2][0]) - EPS) return(OUTSIDE);
+	if (p[1] < MIN3(t[0][1], t[1][1], t[2][1]) - EPS) return(OUTSIDE);
+	if (p[2] < MIN3(t[0][2], t[1][2], t[2][2]) - EPS) return(OUTSIDE);
 
 	/* For each triangle side, make a vector out of it by subtracting vertexes; */
 	/* make another vector from one vertex to point P.                          */
@@ -497,9 +497,10 @@ long point_triangle_intersection(Point p, TData t) {
 	/* then the point must be inside all three.                           */
 	/* P cannot be OUTSIDE all three sides simultaneously.                */
 
-	/* this is the old test; with the revised SIGN3() macro, the test
-	 * needs to be revised. */
-	return ((sign12 & sign23 & sign31) == 0) ? OUTSIDE : INSIDE;
+	/* A component close to zero carries both of its signs, so each of the */
+	/* three components must have a sign that all crossproducts share.     */
+	long common = sign12 & sign23 & sign31;
+	return ((common & (4|32)) && (common & (2|16)) && (common & (1|8))) ? INSIDE : OUTSIDE;
 }
 
 /*. . . . . . . . . . . . . . . . . . . . . . . . . . . . . . . . . . . . . . */
@@ -514,7 +515,7 @@ long point_triangle_intersection(Point p, TData t) {
 
 long t_c_intersection(TData t) {
     long v1_test,v2_test,v3_test;
-    float d,denom;
+    double d,denom;
     Point vect12,vect13,norm;
     Point hitpp,hitpn,hitnp,hitnn;
 
-- 
2.43.0


From be6fc7de10e0d20beb71a818d9cdb286909aefa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:16 +0000
Subject: [PATCH 097/118] fix: vertices of particles that decay are placed as
 if the particle were at rest

---
 .../private/primary/vertex/ColumnDepthPositionDistribution.cxx  | 2 +-
 .../private/primary/vertex/PointSourcePositionDistribution.cxx  | 2 +-
 .../private/primary/vertex/RangePositionDistribution.cxx        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
index 2f57f80..6a6740a 100644
--- a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
@@ -77,7 +77,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> ColumnDepthPositionDist
     siren::dataclasses::InteractionRecord fake_record;
     fake_record.signature.primary_type = record.type;
     fake_record.primary_mass = record.GetMass();
-    fake_record.primary_momentum[0] = record.GetEnergy();
+    fake_record.primary_momentum = record.GetFourMomentum();
     double total_decay_length = interactions->TotalDecayLengthAllFinalStates(fake_record);
     for(unsigned int i=0; i<targets.size(); ++i) {
         siren::dataclasses::ParticleType const & target = targets[i];
diff --git a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
index 4bcc31b..c85d3d3 100644
--- a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
@@ -63,7 +63,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> PointSourcePositionDist
     siren::dataclasses::InteractionRecord fake_record;
     fake_record.signature.primary_type = record.type;
     fake_record.primary_mass = record.GetMass();
-    fake_record.primary_momentum[0] = record.GetEnergy();
+    fake_record.primary_momentum = record.GetFourMomentum();
     double total_decay_length = interactions->TotalDecayLengthAllFinalStates(fake_record);
     for(unsigned int i=0; i<targets.size(); ++i) {
         siren::dataclasses::ParticleType const & target = targets[i];
diff --git a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
index fb00b9b..d0b70fd 100644
--- a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
@@ -77,7 +77,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> RangePositionDistributi
     siren::dataclasses::InteractionRecord fake_record;
     fake_record.signature.primary_type = record.type;
     fake_record.primary_mass = record.GetMass();
-    fake_record.primary_momentum[0] = record.GetEnergy();
+    fake_record.primary_momentum = record.GetFourMomentum();
     double total_decay_length = interactions->TotalDecayLengthAllFinalStates(fake_record);
     for(unsigned int i=0; i<targets.size(); ++i) {
         siren::dataclasses::ParticleType const & target = targets[i];
-- 
2.43.0


From 7c5d233cf34560632c159f6f8b1d7a6de1c13763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:16 +0000
Subject: [PATCH 098/118] fix: the ordering of position distributions ignores
 the radius or origin

---
 .../primary/vertex/ColumnDepthPositionDistribution.cxx   | 2 +-
 .../primary/vertex/DecayRangePositionDistribution.cxx    | 2 +-
 .../primary/vertex/PointSourcePositionDistribution.cxx   | 2 +-
 .../private/primary/vertex/RangePositionDistribution.cxx | 9 ++++++---
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
index 6a6740a..52de753 100644
--- a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
@@ -228,7 +228,7 @@ bool ColumnDepthPositionDistribution::less(WeightableDistribution const & other)
     return
         std::tie(radius, endcap_length, f)
         <
-        std::tie(radius, x->endcap_length, depth_less);
+        std::tie(x->radius, x->endcap_length, depth_less);
 }
 
 } // namespace distributions
diff --git a/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx b/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
index 2b28d0d..737f858 100644
--- a/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
@@ -148,7 +148,7 @@ bool DecayRangePositionDistribution::less(WeightableDistribution const & other)
     return
         std::tie(radius, endcap_length, f)
         <
-        std::tie(radius, x->endcap_length, range_less);
+        std::tie(x->radius, x->endcap_length, range_less);
 }
 
 bool DecayRangePositionDistribution::AreEquivalent(std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, std::shared_ptr<WeightableDistribution const> distribution, std::shared_ptr<siren::detector::DetectorModel const> second_detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> second_interactions) const {
diff --git a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
index c85d3d3..f954d57 100644
--- a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
@@ -185,7 +185,7 @@ bool PointSourcePositionDistribution::less(WeightableDistribution const & other)
     return
         std::tie(origin, max_distance)
         <
-        std::tie(origin, x->max_distance);
+        std::tie(x->origin, x->max_distance);
 }
 
 } // namespace distributions
diff --git a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
index d0b70fd..e12b178 100644
--- a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
@@ -218,11 +218,14 @@ bool RangePositionDistribution::less(WeightableDistribution const & other) const
         (!range_function and x->range_function) // this->NULL and other->(not NULL)
         or (range_function and x->range_function // both not NULL
                 and *range_function < *x->range_function); // Less than
-    bool f = false;
+    bool range_greater =
+        (range_function and !x->range_function) // this->(not NULL) and other->NULL
+        or (range_function and x->range_function // both not NULL
+                and *x->range_function < *range_function); // Greater than
     return
-        std::tie(radius, endcap_length, f, target_types)
+        std::tie(radius, endcap_length, range_greater, target_types)
         <
-        std::tie(radius, x->endcap_length, range_less, x->target_types);
+        std::tie(x->radius, x->endcap_length, range_less, x->target_types);
 }
 
 } // namespace distributions
-- 
2.43.0


From f205b9b0ee5ffd47775bbc6b7cefb4d39f400d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:16 +0000
Subject: [PATCH 099/118] fix: position distributions that differ in fiducial
 volume or length compare equal

---
 .../vertex/FixedTargetPositionDistribution.cxx | 17 ++++++++++++++---
 .../SecondaryBoundedVertexDistribution.cxx     | 18 ++++++++++++------
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
index e2ca3ea..584cff4 100644
--- a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
@@ -270,13 +270,24 @@ bool FixedTargetPositionDistribution::equal(WeightableDistribution const & other
 
     if(!x)
         return false;
-    else
-        return (cylinder == x->cylinder);
+    bool same_fid = (!fiducial_volume && !x->fiducial_volume)
+        || (fiducial_volume && x->fiducial_volume && *fiducial_volume == *(x->fiducial_volume));
+    return cylinder == x->cylinder && max_length == x->max_length && same_fid;
 }
 
 bool FixedTargetPositionDistribution::less(WeightableDistribution const & other) const {
     const FixedTargetPositionDistribution* x = dynamic_cast<const FixedTargetPositionDistribution*>(&other);
-    return cylinder < x->cylinder;
+    if(not (cylinder == x->cylinder))
+        return cylinder < x->cylinder;
+    if(max_length != x->max_length)
+        return max_length < x->max_length;
+    bool has_fid = (fiducial_volume != nullptr);
+    bool other_has_fid = (x->fiducial_volume != nullptr);
+    if(has_fid != other_has_fid)
+        return has_fid < other_has_fid;
+    if(has_fid && other_has_fid)
+        return *fiducial_volume < *(x->fiducial_volume);
+    return false;
 }
 
 bool FixedTargetPositionDistribution::AreEquivalent(std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, std::shared_ptr<WeightableDistribution const> distribution, std::shared_ptr<siren::detector::DetectorModel const> second_detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> second_interactions) const {
diff --git a/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx b/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
index c39fe4a..0427c8c 100644
--- a/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
+++ b/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
@@ -232,16 +232,22 @@ bool SecondaryBoundedVertexDistribution::equal(WeightableDistribution const & ot
 
     if(!x)
         return false;
-    else
-        return (max_length == x->max_length);
+    bool same_fid = (!fiducial_volume && !x->fiducial_volume)
+        || (fiducial_volume && x->fiducial_volume && *fiducial_volume == *(x->fiducial_volume));
+    return max_length == x->max_length && same_fid;
 }
 
 bool SecondaryBoundedVertexDistribution::less(WeightableDistribution const & other) const {
     const SecondaryBoundedVertexDistribution* x = dynamic_cast<const SecondaryBoundedVertexDistribution*>(&other);
-    return
-        std::tie(max_length)
-        <
-        std::tie(x->max_length);
+    if(max_length != x->max_length)
+        return max_length < x->max_length;
+    bool has_fid = (fiducial_volume != nullptr);
+    bool other_has_fid = (x->fiducial_volume != nullptr);
+    if(has_fid != other_has_fid)
+        return has_fid < other_has_fid;
+    if(has_fid && other_has_fid)
+        return *fiducial_volume < *(x->fiducial_volume);
+    return false;
 }
 
 } // namespace distributions
-- 
2.43.0


From c75a0ca01be10d266c2c18b88b74c6616972ab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:04 +0000
Subject: [PATCH 100/118] fix: fixed target density reads an empty list of
 intersections when the line misses the target

---
 .../primary/vertex/FixedTargetPositionDistribution.cxx     | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
index 584cff4..b737e98 100644
--- a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
@@ -61,6 +61,9 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> FixedTargetPositionDist
     std::vector<siren::geometry::Geometry::Intersection> intersections = cylinder.Intersections(init_pos, dir);
     siren::detector::DetectorModel::SortIntersections(intersections);
 
+    if(intersections.empty())
+        throw(siren::utilities::InjectionFailure("Particle does not leave the target!"));
+
     // now sample from fiducial volume to get interaction vertex
     siren::math::Vector3D endcap_0 = intersections.back().position;
     siren::math::Vector3D endcap_1 = endcap_0 + max_length * dir;
@@ -133,6 +136,10 @@ double FixedTargetPositionDistribution::GenerationProbability(std::shared_ptr<si
     std::vector<siren::geometry::Geometry::Intersection> intersections = cylinder.Intersections(vertex, dir);
     siren::detector::DetectorModel::SortIntersections(intersections);
 
+    // The particle cannot have come from the target
+    if(intersections.empty())
+        return 0.0;
+
     // now sample from fiducial volume to get interaction vertex
     siren::math::Vector3D endcap_0 = intersections.back().position;
     siren::math::Vector3D endcap_1 = endcap_0 + max_length * dir;
-- 
2.43.0


From 9f14a5a66c9ef70ad300812104de7e45ed1661b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:04 +0000
Subject: [PATCH 101/118] fix: fixed target density counts the hole of a hollow
 target as part of it

---
 .../primary/vertex/FixedTargetPositionDistribution.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
index b737e98..8b9107b 100644
--- a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
@@ -197,11 +197,13 @@ double FixedTargetPositionDistribution::GenerationProbability(std::shared_ptr<si
     }
 
     // now time to calculate the chord length through the target cylinder* volume
+    // skipping the stretches where the line is outside of the target (e.g. within its inner radius)
     double length = 0.0;
-    if(intersections.size() == 0) {
-    } else if(intersections.size() >= 2) {
-        siren::math::Vector3D delta_intersections = intersections.back().position - intersections.front().position;
-        length = delta_intersections.magnitude();
+    if(intersections.size() >= 2) {
+        for(size_t i=0; i+1<intersections.size(); i+=2) {
+            siren::math::Vector3D delta_intersections = intersections[i+1].position - intersections[i].position;
+            length += delta_intersections.magnitude();
+        }
     } else {
         throw std::runtime_error("Only found one cylinder intersection!");
     }
-- 
2.43.0


From 87ba63a0d14ce5c76640605424e2d4d3c609ae10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:05 +0000
Subject: [PATCH 102/118] fix: positions in part of a cylinder or sphere are
 spread over the whole of it

---
 .../CylinderVolumePositionDistribution.cxx    |  9 ++++++---
 .../FixedTargetPositionDistribution.cxx       |  4 ++--
 .../SphereVolumePositionDistribution.cxx      | 19 ++++++++++++++-----
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/CylinderVolumePositionDistribution.cxx b/projects/distributions/private/primary/vertex/CylinderVolumePositionDistribution.cxx
index 9eac92b..432789c 100644
--- a/projects/distributions/private/primary/vertex/CylinderVolumePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/CylinderVolumePositionDistribution.cxx
@@ -22,7 +22,7 @@ namespace distributions {
 // class CylinderVolumePositionDistribution : public VertexPositionDistribution
 //---------------
 std::tuple<siren::math::Vector3D, siren::math::Vector3D> CylinderVolumePositionDistribution::SamplePosition(std::shared_ptr<siren::utilities::SIREN_random> rand, std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::PrimaryDistributionRecord & record) const {
-    double t = rand->Uniform(0, 2 * M_PI);
+    double t = rand->Uniform(cylinder.GetStartPhi(), cylinder.GetStartPhi() + cylinder.GetDeltaPhi());
     const double outer_radius = cylinder.GetRadius();
     const double inner_radius = cylinder.GetInnerRadius();
     const double height = cylinder.GetZ();
@@ -52,12 +52,15 @@ double CylinderVolumePositionDistribution::GenerationProbability(std::shared_ptr
     siren::math::Vector3D pos(cylinder.GlobalToLocalPosition(record.interaction_vertex));
     double z = pos.GetZ();
     double r = sqrt(pos.GetX() * pos.GetX() + pos.GetY() * pos.GetY());
+    double phi = std::atan2(pos.GetY(), pos.GetX()) - cylinder.GetStartPhi();
+    phi -= 2 * M_PI * std::floor(phi / (2 * M_PI)); // azimuth from the start of the wedge
     if(abs(z) >= 0.5 * cylinder.GetZ()
             or r <= cylinder.GetInnerRadius()
-            or r >= cylinder.GetRadius()) {
+            or r >= cylinder.GetRadius()
+            or phi > cylinder.GetDeltaPhi()) {
         return 0.0;
     } else {
-        return 1.0 / (M_PI*(cylinder.GetRadius() * cylinder.GetRadius() - cylinder.GetInnerRadius() * cylinder.GetInnerRadius()) * cylinder.GetZ());
+        return 1.0 / (0.5 * cylinder.GetDeltaPhi() * (cylinder.GetRadius() * cylinder.GetRadius() - cylinder.GetInnerRadius() * cylinder.GetInnerRadius()) * cylinder.GetZ());
     }
 }
 
diff --git a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
index 8b9107b..4309e98 100644
--- a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
@@ -47,7 +47,7 @@ double log_one_minus_exp_of_negative(double x) {
 //---------------
 std::tuple<siren::math::Vector3D, siren::math::Vector3D> FixedTargetPositionDistribution::SamplePosition(std::shared_ptr<siren::utilities::SIREN_random> rand, std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::PrimaryDistributionRecord & record) const {
     // sample from the cylinder of the target to the get the neutrino production point
-    double t = rand->Uniform(0, 2 * M_PI);
+    double t = rand->Uniform(cylinder.GetStartPhi(), cylinder.GetStartPhi() + cylinder.GetDeltaPhi());
     const double outer_radius = cylinder.GetRadius();
     const double inner_radius = cylinder.GetInnerRadius();
     const double height = cylinder.GetZ();
@@ -211,7 +211,7 @@ double FixedTargetPositionDistribution::GenerationProbability(std::shared_ptr<si
     const double outer_radius = cylinder.GetRadius();
     const double inner_radius = cylinder.GetInnerRadius();
     const double height = cylinder.GetZ();
-    double target_volume = M_PI * ((outer_radius * outer_radius) - (inner_radius * inner_radius)) * height;
+    double target_volume = 0.5 * cylinder.GetDeltaPhi() * ((outer_radius * outer_radius) - (inner_radius * inner_radius)) * height;
 
     return prob_density * length / target_volume;
 }
diff --git a/projects/distributions/private/primary/vertex/SphereVolumePositionDistribution.cxx b/projects/distributions/private/primary/vertex/SphereVolumePositionDistribution.cxx
index e08fb9a..96a307c 100644
--- a/projects/distributions/private/primary/vertex/SphereVolumePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/SphereVolumePositionDistribution.cxx
@@ -1,5 +1,6 @@
 #include "SIREN/distributions/primary/vertex/SphereVolumePositionDistribution.h"
 
+#include <algorithm>                                       // for min, max
 #include <array>                                           // for array
 #include <cmath>                                           // for sqrt, cos
 #include <string>                                          // for basic_string
@@ -33,8 +34,8 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> SphereVolumePositionDis
     double r = std::cbrt(r_cubed);
 
     // Sample angles uniformly on sphere surface
-    double phi = rand->Uniform(0, 2 * M_PI);  // azimuthal angle
-    double cos_theta = rand->Uniform(-1, 1);  // uniform in cos(theta)
+    double phi = rand->Uniform(sphere.GetStartPhi(), sphere.GetStartPhi() + sphere.GetDeltaPhi());  // azimuthal angle
+    double cos_theta = rand->Uniform(std::cos(sphere.GetStartTheta() + sphere.GetDeltaTheta()), std::cos(sphere.GetStartTheta()));  // uniform in cos(theta)
     double sin_theta = std::sqrt(1 - cos_theta * cos_theta);
 
     // Convert to Cartesian coordinates
@@ -67,12 +68,20 @@ double SphereVolumePositionDistribution::GenerationProbability(std::shared_ptr<s
     siren::math::Vector3D pos(sphere.GlobalToLocalPosition(record.interaction_vertex));
     double r = pos.magnitude();  // Distance from sphere center
 
-    if(r <= sphere.GetInnerRadius() || r >= sphere.GetRadius()) {
+    double phi = std::atan2(pos.GetY(), pos.GetX()) - sphere.GetStartPhi();
+    phi -= 2 * M_PI * std::floor(phi / (2 * M_PI)); // azimuth from the start of the wedge
+    double theta = std::acos(std::min(1.0, std::max(-1.0, pos.GetZ() / r)));
+
+    if(r <= sphere.GetInnerRadius() || r >= sphere.GetRadius()
+            || phi > sphere.GetDeltaPhi()
+            || theta < sphere.GetStartTheta() || theta > sphere.GetStartTheta() + sphere.GetDeltaTheta()) {
         return 0.0;
     } else {
         // Volume of spherical shell: (4/3)π(R³ - r_inner³)
-        double outer_volume = (4.0/3.0) * M_PI * sphere.GetRadius() * sphere.GetRadius() * sphere.GetRadius();
-        double inner_volume = (4.0/3.0) * M_PI * sphere.GetInnerRadius() * sphere.GetInnerRadius() * sphere.GetInnerRadius();
+        // for a part of the shell 4π is replaced with the solid angle
+        double solid_angle = sphere.GetDeltaPhi() * (std::cos(sphere.GetStartTheta()) - std::cos(sphere.GetStartTheta() + sphere.GetDeltaTheta()));
+        double outer_volume = solid_angle / 3.0 * sphere.GetRadius() * sphere.GetRadius() * sphere.GetRadius();
+        double inner_volume = solid_angle / 3.0 * sphere.GetInnerRadius() * sphere.GetInnerRadius() * sphere.GetInnerRadius();
         return 1.0 / (outer_volume - inner_volume);
     }
 }
-- 
2.43.0


From e14fa1768af25e66d7ac915f43ba214864ee5d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:05 +0000
Subject: [PATCH 103/118] fix: the density of a vertex is not a number where
 nothing can interact

---
 .../private/primary/vertex/ColumnDepthPositionDistribution.cxx | 3 +++
 .../private/primary/vertex/FixedTargetPositionDistribution.cxx | 3 +++
 .../private/primary/vertex/PointSourcePositionDistribution.cxx | 3 +++
 .../private/primary/vertex/RangePositionDistribution.cxx       | 3 +++
 .../secondary/vertex/SecondaryBoundedVertexDistribution.cxx    | 3 +++
 .../secondary/vertex/SecondaryPhysicalVertexDistribution.cxx   | 3 +++
 6 files changed, 18 insertions(+)

diff --git a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
index 52de753..6be31ea 100644
--- a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
@@ -161,6 +161,9 @@ double ColumnDepthPositionDistribution::GenerationProbability(std::shared_ptr<si
 
     double interaction_density = detector_model->GetInteractionDensity(path.GetIntersections(), DetectorPosition(vertex), targets, total_cross_sections, total_decay_length);
 
+    if(total_interaction_depth <= 0)
+        return 0.0;
+
     double prob_density;
     if(total_interaction_depth < 1e-6) {
         prob_density = interaction_density / total_interaction_depth;
diff --git a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
index 4309e98..4f9151d 100644
--- a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
@@ -189,6 +189,9 @@ double FixedTargetPositionDistribution::GenerationProbability(std::shared_ptr<si
 
     double interaction_density = detector_model->GetInteractionDensity(path.GetIntersections(), DetectorPosition(vertex), targets, total_cross_sections, total_decay_length);
 
+    if(total_interaction_depth <= 0)
+        return 0.0;
+
     double prob_density;
     if(total_interaction_depth < 1e-6) {
         prob_density = interaction_density / total_interaction_depth;
diff --git a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
index f954d57..5a25cc9 100644
--- a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
@@ -132,6 +132,9 @@ double PointSourcePositionDistribution::GenerationProbability(std::shared_ptr<si
 
     double interaction_density = detector_model->GetInteractionDensity(path.GetIntersections(), DetectorPosition(vertex), targets, total_cross_sections, total_decay_length);
 
+    if(total_interaction_depth <= 0)
+        return 0.0;
+
     double prob_density;
     if(total_interaction_depth < 1e-6) {
         prob_density = interaction_density / total_interaction_depth;
diff --git a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
index e12b178..eb290c6 100644
--- a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
@@ -151,6 +151,9 @@ double RangePositionDistribution::GenerationProbability(std::shared_ptr<siren::d
 
     double interaction_density = detector_model->GetInteractionDensity(path.GetIntersections(), DetectorPosition(vertex), targets, total_cross_sections, total_decay_length);
 
+    if(total_interaction_depth <= 0)
+        return 0.0;
+
     double prob_density;
     if(total_interaction_depth < 1e-6) {
         prob_density = interaction_density / total_interaction_depth;
diff --git a/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx b/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
index 0427c8c..414f095 100644
--- a/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
+++ b/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
@@ -168,6 +168,9 @@ double SecondaryBoundedVertexDistribution::GenerationProbability(std::shared_ptr
 
     double interaction_density = detector_model->GetInteractionDensity(path.GetIntersections(), DetectorPosition(vertex), targets, total_cross_sections, total_decay_length);
 
+    if(total_interaction_depth <= 0)
+        return 0.0;
+
     double prob_density;
     if(total_interaction_depth < 1e-6) {
         prob_density = interaction_density / total_interaction_depth;
diff --git a/projects/distributions/private/secondary/vertex/SecondaryPhysicalVertexDistribution.cxx b/projects/distributions/private/secondary/vertex/SecondaryPhysicalVertexDistribution.cxx
index 0a1913f..35fc780 100644
--- a/projects/distributions/private/secondary/vertex/SecondaryPhysicalVertexDistribution.cxx
+++ b/projects/distributions/private/secondary/vertex/SecondaryPhysicalVertexDistribution.cxx
@@ -130,6 +130,9 @@ double SecondaryPhysicalVertexDistribution::GenerationProbability(std::shared_pt
 
     double interaction_density = detector_model->GetInteractionDensity(path.GetIntersections(), DetectorPosition(vertex), targets, total_cross_sections, total_decay_length);
 
+    if(total_interaction_depth <= 0)
+        return 0.0;
+
     double prob_density;
     if(total_interaction_depth < 1e-6) {
         prob_density = interaction_density / total_interaction_depth;
-- 
2.43.0


From ea7ed2d1f914b68434ccbef96cb9e3579b2c0030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:27 +0000
Subject: [PATCH 104/118] fix: fiducial volumes whose crossings are not listed
 in order bound vertices by the wrong ones

---
 .../private/primary/vertex/FixedTargetPositionDistribution.cxx | 3 +++
 .../primary/vertex/PrimaryBoundedVertexDistribution.cxx        | 3 +++
 .../secondary/vertex/SecondaryBoundedVertexDistribution.cxx    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
index 4f9151d..908aef0 100644
--- a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
@@ -74,6 +74,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> FixedTargetPositionDist
     // Check if fiducial volume is provided
     if(fiducial_volume) {
         std::vector<siren::geometry::Geometry::Intersection> fid_intersections = fiducial_volume->Intersections(endcap_0, dir);
+        siren::detector::DetectorModel::SortIntersections(fid_intersections);
         // If the path intersects the fiducial volume, restrict position to that volume
         if(!fid_intersections.empty()) {
             // make sure the first intersection happens before the maximum generation length
@@ -150,6 +151,7 @@ double FixedTargetPositionDistribution::GenerationProbability(std::shared_ptr<si
     // Check if fiducial volume is provided
     if(fiducial_volume) {
         std::vector<siren::geometry::Geometry::Intersection> fid_intersections = fiducial_volume->Intersections(endcap_0, dir);
+        siren::detector::DetectorModel::SortIntersections(fid_intersections);
         // If the path intersects the fiducial volume, restrict position to that volume
         if(!fid_intersections.empty()) {
             // make sure the first intersection happens before the maximum generation length
@@ -256,6 +258,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> FixedTargetPositionDist
     // Check if fiducial volume is provided
     if(fiducial_volume) {
         std::vector<siren::geometry::Geometry::Intersection> fid_intersections = fiducial_volume->Intersections(endcap_0, dir);
+        siren::detector::DetectorModel::SortIntersections(fid_intersections);
         // If the path intersects the fiducial volume, restrict position to that volume
         if(!fid_intersections.empty()) {
             // make sure the first intersection happens before the maximum generation length
diff --git a/projects/distributions/private/primary/vertex/PrimaryBoundedVertexDistribution.cxx b/projects/distributions/private/primary/vertex/PrimaryBoundedVertexDistribution.cxx
index 4c2746a..017eb6d 100644
--- a/projects/distributions/private/primary/vertex/PrimaryBoundedVertexDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/PrimaryBoundedVertexDistribution.cxx
@@ -63,6 +63,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> PrimaryBoundedVertexDis
     // Check if fiducial volume is provided
     if(fiducial_volume) {
         std::vector<siren::geometry::Geometry::Intersection> fid_intersections = fiducial_volume->Intersections(endcap_0, dir);
+        siren::detector::DetectorModel::SortIntersections(fid_intersections);
         // If the path intersects the fiducial volume, restrict position to that volume
         if(!fid_intersections.empty()) {
             // make sure the first intersection happens before the maximum generation length
@@ -127,6 +128,7 @@ double PrimaryBoundedVertexDistribution::GenerationProbability(std::shared_ptr<s
     // Check if fiducial volume is provided
     if(fiducial_volume) {
         std::vector<siren::geometry::Geometry::Intersection> fid_intersections = fiducial_volume->Intersections(endcap_0, dir);
+        siren::detector::DetectorModel::SortIntersections(fid_intersections);
         // If the path intersects the fiducial volume, restrict position to that volume
         if(!fid_intersections.empty()) {
             // make sure the first intersection happens before the maximum generation length
@@ -209,6 +211,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> PrimaryBoundedVertexDis
     // Check if fiducial volume is provided
     if(fiducial_volume) {
         std::vector<siren::geometry::Geometry::Intersection> fid_intersections = fiducial_volume->Intersections(endcap_0, dir);
+        siren::detector::DetectorModel::SortIntersections(fid_intersections);
         // If the path intersects the fiducial volume, restrict position to that volume
         if(!fid_intersections.empty()) {
             // make sure the first intersection happens before the maximum generation length
diff --git a/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx b/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
index 414f095..750637b 100644
--- a/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
+++ b/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
@@ -65,6 +65,7 @@ void SecondaryBoundedVertexDistribution::SampleVertex(std::shared_ptr<siren::uti
     // Check if fiducial volume is provided
     if(fiducial_volume) {
         std::vector<siren::geometry::Geometry::Intersection> fid_intersections = fiducial_volume->Intersections(endcap_0, dir);
+        siren::detector::DetectorModel::SortIntersections(fid_intersections);
         // If the path intersects the fiducial volume, restrict position to that volume
         if(!fid_intersections.empty()) {
             // make sure the first intersection happens before the maximum generation length
@@ -129,6 +130,7 @@ double SecondaryBoundedVertexDistribution::GenerationProbability(std::shared_ptr
     // Check if fiducial volume is provided
     if(fiducial_volume) {
         std::vector<siren::geometry::Geometry::Intersection> fid_intersections = fiducial_volume->Intersections(endcap_0, dir);
+        siren::detector::DetectorModel::SortIntersections(fid_intersections);
         // If the path intersects the fiducial volume, restrict position to that volume
         if(!fid_intersections.empty()) {
             // make sure the first intersection happens before the maximum generation length
@@ -211,6 +213,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> SecondaryBoundedVertexD
     // Check if fiducial volume is provided
     if(fiducial_volume) {
         std::vector<siren::geometry::Geometry::Intersection> fid_intersections = fiducial_volume->Intersections(endcap_0, dir);
+        siren::detector::DetectorModel::SortIntersections(fid_intersections);
         // If the path intersects the fiducial volume, restrict position to that volume
         if(!fid_intersections.empty()) {
             // make sure the first intersection happens before the maximum generation length
-- 
2.43.0


From f619e5063b4ff24b9a757e58dfb6d6ada3def413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:27 +0000
Subject: [PATCH 105/118] fix: a path that misses the detector is not clipped
 to it

---
 projects/detector/private/Path.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/projects/detector/private/Path.cxx b/projects/detector/private/Path.cxx
index ec43f98..e892ab9 100644
--- a/projects/detector/private/Path.cxx
+++ b/projects/detector/private/Path.cxx
@@ -326,7 +326,15 @@ void Path::ClipToOuterBounds() {
         }
         set_det_points_ = false;
     } else {
-        return;
+        // The line does not meet the detector, so no part of the path lies within the bounds
+        if(first_inf_)
+            first_point_ = last_point_;
+        else
+            last_point_ = first_point_;
+        first_inf_ = false;
+        last_inf_ = false;
+        distance_ = 0;
+        set_det_points_ = false;
     }
 }
 
-- 
2.43.0


From f13cda636f0c2f12784e3f0949c71544e522a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:27 +0000
Subject: [PATCH 106/118] fix: decay vertices are placed further back than the
 maximum distance of the decay range

---
 .../primary/vertex/DecayRangePositionDistribution.cxx       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx b/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
index 737f858..7d06650 100644
--- a/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
@@ -45,7 +45,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> DecayRangePositionDistr
     siren::math::Vector3D endcap_1 = pca + endcap_length * dir;
 
     siren::detector::Path path(detector_model, DetectorPosition(endcap_0), DetectorDirection(dir), endcap_length*2);
-    path.ExtendFromStartByDistance(decay_length * range_function->Multiplier());
+    path.ExtendFromStartByDistance(range_function->Range(record.type, record.GetEnergy()));
     path.ClipToOuterBounds();
 
     double y = rand->Uniform();
@@ -73,7 +73,7 @@ double DecayRangePositionDistribution::GenerationProbability(std::shared_ptr<sir
     siren::math::Vector3D endcap_1 = pca + endcap_length * dir;
 
     siren::detector::Path path(detector_model, DetectorPosition(endcap_0), DetectorDirection(dir), endcap_length*2);
-    path.ExtendFromStartByDistance(decay_length * range_function->Multiplier());
+    path.ExtendFromStartByDistance(range_function->Range(record.signature.primary_type, record.primary_momentum[0]));
     path.ClipToOuterBounds();
 
     if(not path.IsWithinBounds(DetectorPosition(vertex)))
@@ -114,7 +114,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> DecayRangePositionDistr
     siren::math::Vector3D endcap_1 = pca + endcap_length * dir;
 
     siren::detector::Path path(detector_model, DetectorPosition(endcap_0), DetectorDirection(dir), endcap_length*2);
-    path.ExtendFromStartByDistance(decay_length * range_function->Multiplier());
+    path.ExtendFromStartByDistance(range_function->Range(record.signature.primary_type, record.primary_momentum[0]));
     path.ClipToOuterBounds();
 
     if(not path.IsWithinBounds(DetectorPosition(vertex)))
-- 
2.43.0


From bf61b3cb1f313dcc25944c2fce280d3d2c3b5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:27 +0000
Subject: [PATCH 107/118] fix: decay vertices lose precision where the decay
 length is much longer than the path

---
 .../vertex/DecayRangePositionDistribution.cxx       | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx b/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
index 7d06650..73c3dfb 100644
--- a/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
@@ -15,6 +15,7 @@
 #include "SIREN/distributions/primary/vertex/RangeFunction.h"
 #include "SIREN/math/Quaternion.h"
 #include "SIREN/math/Vector3D.h"
+#include "SIREN/utilities/Errors.h"
 #include "SIREN/utilities/Random.h"
 
 namespace siren {
@@ -48,9 +49,12 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> DecayRangePositionDistr
     path.ExtendFromStartByDistance(range_function->Range(record.type, record.GetEnergy()));
     path.ClipToOuterBounds();
 
-    double y = rand->Uniform();
     double total_distance = path.GetDistance();
-    double dist = -decay_length * log(y * (exp(-total_distance/decay_length) - 1) + 1);
+    if(total_distance == 0) {
+        throw(siren::utilities::InjectionFailure("No part of the path lies within the detector!"));
+    }
+    double y = rand->Uniform();
+    double dist = -decay_length * std::log1p(y * std::expm1(-total_distance/decay_length));
 
     siren::math::Vector3D init_pos = path.GetFirstPoint();
     siren::math::Vector3D vertex = path.GetFirstPoint() + dist * path.GetDirection();
@@ -82,7 +86,10 @@ double DecayRangePositionDistribution::GenerationProbability(std::shared_ptr<sir
     double total_distance = path.GetDistance();
     double dist = siren::math::scalar_product(path.GetDirection(), vertex - path.GetFirstPoint());
 
-    double prob_density = exp(-dist / decay_length) / (decay_length * (1.0 - exp(-total_distance / decay_length))); // m^-1
+    if(total_distance <= 0)
+        return 0.0;
+
+    double prob_density = exp(-dist / decay_length) / (decay_length * -std::expm1(-total_distance / decay_length)); // m^-1
     prob_density /= (M_PI * radius * radius); // (m^-1 * m^-2) -> m^-3
     return prob_density;
 }
-- 
2.43.0


From 63364bbe67907319b5cafc5c75fb6b5df69e8548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:34 +0000
Subject: [PATCH 108/118] fix: rounding of the interaction depth places
 vertices beyond the end of the path

---
 .../private/primary/vertex/ColumnDepthPositionDistribution.cxx  | 2 +-
 .../private/primary/vertex/FixedTargetPositionDistribution.cxx  | 2 +-
 .../private/primary/vertex/PointSourcePositionDistribution.cxx  | 2 +-
 .../private/primary/vertex/PrimaryBoundedVertexDistribution.cxx | 2 +-
 .../primary/vertex/PrimaryPhysicalVertexDistribution.cxx        | 2 +-
 .../private/primary/vertex/RangePositionDistribution.cxx        | 2 +-
 .../secondary/vertex/SecondaryBoundedVertexDistribution.cxx     | 2 +-
 .../secondary/vertex/SecondaryPhysicalVertexDistribution.cxx    | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
index 6be31ea..56bc989 100644
--- a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
@@ -102,7 +102,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> ColumnDepthPositionDist
         traversed_interaction_depth = -log(y * exp_m_total_interaction_depth + (1.0 - y));
     }
 
-    double dist = path.GetDistanceFromStartAlongPath(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
+    double dist = path.GetDistanceFromStartInBounds(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
     siren::math::Vector3D init_pos = path.GetFirstPoint();
     siren::math::Vector3D vertex = path.GetFirstPoint() + dist * path.GetDirection();
 
diff --git a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
index 908aef0..649d0df 100644
--- a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
@@ -119,7 +119,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> FixedTargetPositionDist
         traversed_interaction_depth = -log(y * exp_m_total_interaction_depth + (1.0 - y));
     }
 
-    double dist = path.GetDistanceFromStartAlongPath(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
+    double dist = path.GetDistanceFromStartInBounds(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
     siren::math::Vector3D vertex = path.GetFirstPoint() + dist * path.GetDirection();
 
     return {init_pos, vertex};
diff --git a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
index 5a25cc9..7326e8c 100644
--- a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
@@ -88,7 +88,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> PointSourcePositionDist
         traversed_interaction_depth = -log(y * exp_m_total_interaction_depth + (1.0 - y));
     }
 
-    double dist = path.GetDistanceFromStartAlongPath(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
+    double dist = path.GetDistanceFromStartInBounds(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
     siren::math::Vector3D init_pos = path.GetFirstPoint();
     siren::math::Vector3D vertex = path.GetFirstPoint() + dist * path.GetDirection();
 
diff --git a/projects/distributions/private/primary/vertex/PrimaryBoundedVertexDistribution.cxx b/projects/distributions/private/primary/vertex/PrimaryBoundedVertexDistribution.cxx
index 017eb6d..5140910 100644
--- a/projects/distributions/private/primary/vertex/PrimaryBoundedVertexDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/PrimaryBoundedVertexDistribution.cxx
@@ -108,7 +108,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> PrimaryBoundedVertexDis
         traversed_interaction_depth = -log(y * exp_m_total_interaction_depth + (1.0 - y));
     }
 
-    double dist = path.GetDistanceFromStartAlongPath(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
+    double dist = path.GetDistanceFromStartInBounds(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
     siren::math::Vector3D vertex = path.GetFirstPoint() + dist * path.GetDirection();
 
     return {pos, vertex};
diff --git a/projects/distributions/private/primary/vertex/PrimaryPhysicalVertexDistribution.cxx b/projects/distributions/private/primary/vertex/PrimaryPhysicalVertexDistribution.cxx
index b1a3654..577aad1 100644
--- a/projects/distributions/private/primary/vertex/PrimaryPhysicalVertexDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/PrimaryPhysicalVertexDistribution.cxx
@@ -89,7 +89,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> PrimaryPhysicalVertexDi
         traversed_interaction_depth = -log(y * exp_m_total_interaction_depth + (1.0 - y));
     }
 
-    double dist = path.GetDistanceFromStartAlongPath(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
+    double dist = path.GetDistanceFromStartInBounds(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
     siren::math::Vector3D vertex = path.GetFirstPoint() + dist * path.GetDirection();
 
     return {pos, vertex};
diff --git a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
index eb290c6..1ac0541 100644
--- a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
@@ -101,7 +101,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> RangePositionDistributi
         traversed_interaction_depth = -log(y * exp_m_total_interaction_depth + (1.0 - y));
     }
 
-    double dist = path.GetDistanceFromStartAlongPath(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
+    double dist = path.GetDistanceFromStartInBounds(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
     siren::math::Vector3D init_pos = path.GetFirstPoint();
     siren::math::Vector3D vertex = path.GetFirstPoint() + dist * path.GetDirection();
 
diff --git a/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx b/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
index 750637b..07f2a91 100644
--- a/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
+++ b/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
@@ -109,7 +109,7 @@ void SecondaryBoundedVertexDistribution::SampleVertex(std::shared_ptr<siren::uti
         traversed_interaction_depth = -log(y * exp_m_total_interaction_depth + (1.0 - y));
     }
 
-    double dist = path.GetDistanceFromStartAlongPath(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
+    double dist = path.GetDistanceFromStartInBounds(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
     siren::math::Vector3D vertex = path.GetFirstPoint() + dist * path.GetDirection();
 
     double length = (vertex - pos) * dir;
diff --git a/projects/distributions/private/secondary/vertex/SecondaryPhysicalVertexDistribution.cxx b/projects/distributions/private/secondary/vertex/SecondaryPhysicalVertexDistribution.cxx
index 35fc780..2bac90c 100644
--- a/projects/distributions/private/secondary/vertex/SecondaryPhysicalVertexDistribution.cxx
+++ b/projects/distributions/private/secondary/vertex/SecondaryPhysicalVertexDistribution.cxx
@@ -88,7 +88,7 @@ void SecondaryPhysicalVertexDistribution::SampleVertex(std::shared_ptr<siren::ut
         traversed_interaction_depth = -log(y * exp_m_total_interaction_depth + (1.0 - y));
     }
 
-    double dist = path.GetDistanceFromStartAlongPath(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
+    double dist = path.GetDistanceFromStartInBounds(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
     siren::math::Vector3D vertex = path.GetFirstPoint() + dist * path.GetDirection();
 
     double length = (vertex - pos) * dir;
-- 
2.43.0


From 1dd1733bdeb4075a8c7bad470901562567375838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:00 +0000
Subject: [PATCH 109/118] fix: an injector offers more events than it will
 generate

GenerateEvent limits the number of attempts, but the conversion to bool
compares the number of successes, so that a loop over the injector ends
with an exception as soon as one event fails; an injector without a limit
(0 events) generates none, and neither does one that has been reset.
---
 projects/injection/private/Injector.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/injection/private/Injector.cxx b/projects/injection/private/Injector.cxx
index 73ceba3..28f63e8 100644
--- a/projects/injection/private/Injector.cxx
+++ b/projects/injection/private/Injector.cxx
@@ -298,7 +298,7 @@ siren::dataclasses::InteractionRecord Injector::SampleSecondaryProcess(siren::da
 }
 
 siren::dataclasses::InteractionTree Injector::GenerateEvent() {
-    if(injection_attempts >= events_to_inject) {
+    if(not *this) {
         throw(std::runtime_error("Injector has already made the maximum number of injection attempts!"));
     }
     injection_attempts += 1;
@@ -492,10 +492,11 @@ unsigned int Injector::EventsToInject() const {
 
 void Injector::ResetInjectedEvents() {
     injected_events = 0;
+    injection_attempts = 0;
 }
 
 Injector::operator bool() const {
-    return events_to_inject == 0 or injected_events < events_to_inject;
+    return events_to_inject == 0 or injection_attempts < events_to_inject;
 }
 
 void Injector::SaveInjector(std::string const & filename) const {
-- 
2.43.0


From 169575b47391e73b3a1ac428bd9acff656c9fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:00 +0000
Subject: [PATCH 110/118] fix: decays are recorded with a target of 9.47 GeV

The code that marks a decay was read as that of a nucleus.
---
 projects/injection/private/Injector.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/injection/private/Injector.cxx b/projects/injection/private/Injector.cxx
index 28f63e8..d68a31c 100644
--- a/projects/injection/private/Injector.cxx
+++ b/projects/injection/private/Injector.cxx
@@ -254,7 +254,8 @@ void Injector::SampleCrossSection(siren::dataclasses::InteractionRecord & record
     }
     if(selected_prob == 0)
         throw(siren::utilities::InjectionFailure("No valid interactions for this event!"));
-    record.target_mass = detector_model->GetTargetMass(record.signature.target_type);
+    record.target_mass = (record.signature.target_type == siren::dataclasses::ParticleType::Decay) ?
+        0 : detector_model->GetTargetMass(record.signature.target_type);
     siren::dataclasses::CrossSectionDistributionRecord xsec_record(record);
     // Sample the final state, then give the selected interaction a chance to
     // override the vertex time. The hook must run here, post-selection: which
-- 
2.43.0


From 59ae0fa566de7162719f6eeccbf85b8f18b75ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:00 +0000
Subject: [PATCH 111/118] fix: weights of secondaries read out of bounds when a
 process is missing

An incomplete initialization left no entry for the injector, and for all
that follow it; with the entries that exist, the existing check reports
the missing particle.
---
 projects/injection/private/Weighter.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/projects/injection/private/Weighter.cxx b/projects/injection/private/Weighter.cxx
index 53f8d49..61899ff 100644
--- a/projects/injection/private/Weighter.cxx
+++ b/projects/injection/private/Weighter.cxx
@@ -77,14 +77,13 @@ void Weighter::Initialize() {
             } catch(const std::out_of_range& oor) {
                 std::cout << "Out of Range error: " << oor.what() << '\n';
                 std::cout << "Initialization Incomplete: Particle " <<  sec_phys_process->GetPrimaryType() << " does not exist in injector\n";
-                return;
             }
         }
         if(injector_sec_process_weighter_map.size() != injector_sec_process_map.size()) {
             std::cout << "Initialization Incomplete: No one-to-one mapping between injection and physical distributions for injector " << i << "\n";
-            return;
         }
         secondary_process_weighter_maps.push_back(injector_sec_process_weighter_map);
+        ++i;
     }
 }
 
-- 
2.43.0


From ec5817c20cc05efa2dbd5f7e05c4f06be4c79684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:00 +0000
Subject: [PATCH 112/118] fix: an event out of reach of one of the injectors
 has no weight

Its bounds are empty for that injector, so the physical probability is
not a number, and neither is the sum over the injectors. An injector
without a limit on the events counts once, as in GenerationProbability.
---
 projects/injection/private/Weighter.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projects/injection/private/Weighter.cxx b/projects/injection/private/Weighter.cxx
index 61899ff..15803ec 100644
--- a/projects/injection/private/Weighter.cxx
+++ b/projects/injection/private/Weighter.cxx
@@ -112,7 +112,7 @@ double Weighter::EventWeight(siren::dataclasses::InteractionTree const & tree) c
     double inv_weight = 0;
     for(unsigned int idx = 0; idx < injectors.size(); ++idx) {
         double physical_probability = 1.0;
-        double generation_probability = injectors[idx]->EventsToInject();//GenerationProbability(tree);
+        double generation_probability = (injectors[idx]->EventsToInject() > 0) ? injectors[idx]->EventsToInject() : 1;//GenerationProbability(tree);
         for(auto const & datum : tree.tree) {
             std::tuple<siren::math::Vector3D, siren::math::Vector3D> bounds;
             if(datum->is_root()) {
@@ -133,6 +133,9 @@ double Weighter::EventWeight(siren::dataclasses::InteractionTree const & tree) c
                 }
             }
         }
+        // Where an injector cannot generate the event its bounds are empty and the physical probability is not defined
+        if(generation_probability == 0)
+            continue;
         inv_weight += generation_probability / physical_probability;
     }
     return 1./inv_weight;
-- 
2.43.0


From 6cb45c7239013302d92a0f065566bf1bc0495cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:04 +0000
Subject: [PATCH 113/118] fix: the rotation of a detector is lost when it is
 saved

DetectorModel kept detector_rotation_ out of its archives and out of operator==:
a rotated detector came back unrotated, and two models that differ only in their
rotation compared equal. Archives of class version 0 still load.
---
 projects/detector/private/DetectorModel.cxx           |  4 ++--
 .../detector/public/SIREN/detector/DetectorModel.h    | 11 ++++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 15aac4e..0ccff53 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -185,9 +185,9 @@ DetectorModel::DetectorModel(std::string const & path, std::string const & detec
 
 bool DetectorModel::operator==(DetectorModel const & o) const {
     return
-        std::tie(materials_, sectors_, sector_map_, sector_name_map_, detector_origin_)
+        std::tie(materials_, sectors_, sector_map_, sector_name_map_, detector_origin_, detector_rotation_)
         ==
-        std::tie(o.materials_, o.sectors_, o.sector_map_, o.sector_name_map_, o.detector_origin_);
+        std::tie(o.materials_, o.sectors_, o.sector_map_, o.sector_name_map_, o.detector_origin_, o.detector_rotation_);
 }
 
 std::string DetectorModel::GetPath() const {
diff --git a/projects/detector/public/SIREN/detector/DetectorModel.h b/projects/detector/public/SIREN/detector/DetectorModel.h
index ce5dec8..6e0d227 100644
--- a/projects/detector/public/SIREN/detector/DetectorModel.h
+++ b/projects/detector/public/SIREN/detector/DetectorModel.h
@@ -120,18 +120,23 @@ public:
 
     template<class Archive>
     void serialize(Archive & archive, std::uint32_t const version) {
-        if(version == 0) {
+        if(version <= 1) {
             archive(cereal::make_nvp("Path", path_));
             archive(cereal::make_nvp("MaterialModel", materials_));
             archive(cereal::make_nvp("Sectors", sectors_));
             archive(cereal::make_nvp("SectorMap", sector_map_));
             archive(cereal::make_nvp("SectorNameMap", sector_name_map_));
             archive(cereal::make_nvp("DetectorOrigin", detector_origin_));
+            if(version >= 1) {
+                archive(cereal::make_nvp("DetectorRotation", detector_rotation_));
+            } else {
+                detector_rotation_ = math::Quaternion(); // not part of older files
+            }
             if(Archive::is_loading::value) {
                 bvh_dirty_.store(true, std::memory_order_release); // BVH will be rebuilt on next query after load
             }
         } else {
-            throw std::runtime_error("DetectorModel only supports version <= 0!");
+            throw std::runtime_error("DetectorModel only supports version <= 1!");
         }
     }
 
@@ -341,7 +346,7 @@ std::ostream& operator<<(std::ostream& oss, siren::detector::DetectorSector & bc
 
 #include "SIREN/detector/DetectorModel.tcc"
 
-CEREAL_CLASS_VERSION(siren::detector::DetectorModel, 0);
+CEREAL_CLASS_VERSION(siren::detector::DetectorModel, 1);
 
 CEREAL_FORCE_DYNAMIC_INIT(siren_DetectorModel);
 
-- 
2.43.0


From f38faea1f91ac67bb1af60850b07ab7afbf961de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:04 +0000
Subject: [PATCH 114/118] fix: loading an injector keeps the secondary
 processes it had before

---
 projects/injection/public/SIREN/injection/Injector.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/projects/injection/public/SIREN/injection/Injector.h b/projects/injection/public/SIREN/injection/Injector.h
index 4cdd63f..7c92b62 100644
--- a/projects/injection/public/SIREN/injection/Injector.h
+++ b/projects/injection/public/SIREN/injection/Injector.h
@@ -145,9 +145,7 @@ public:
             archive(::cereal::make_nvp("PrimaryProcess", _primary_process));
             archive(::cereal::make_nvp("SecondaryProcesses", _secondary_processes));
             SetPrimaryProcess(_primary_process);
-            for(auto secondary_process : _secondary_processes) {
-                AddSecondaryProcess(secondary_process);
-            }
+            SetSecondaryProcesses(_secondary_processes);
         } else {
             throw std::runtime_error("Injector only supports version <= 0!");
         }
-- 
2.43.0


From 44e433bdb469d215a734c80da84d7d226dbafaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:04 +0000
Subject: [PATCH 115/118] fix: an injector made from a file ignores the number
 of events asked for

---
 projects/injection/private/Injector.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projects/injection/private/Injector.cxx b/projects/injection/private/Injector.cxx
index d68a31c..849b1ed 100644
--- a/projects/injection/private/Injector.cxx
+++ b/projects/injection/private/Injector.cxx
@@ -51,6 +51,8 @@ Injector::Injector(
     random(random)
 {
     LoadInjector(filename);
+    // The file brings its own number of events, the one asked for takes precedence
+    this->events_to_inject = events_to_inject;
 }
 
 Injector::Injector(
-- 
2.43.0


From 4f0c96442363e25c1ea02124cdf688e9f2477dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:05 +0000
Subject: [PATCH 116/118] fix: charm energy loss lists channels only for its
 own primaries and targets

---
 projects/interactions/private/DMesonELoss.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/interactions/private/DMesonELoss.cxx b/projects/interactions/private/DMesonELoss.cxx
index debca2e..8a438f9 100644
--- a/projects/interactions/private/DMesonELoss.cxx
+++ b/projects/interactions/private/DMesonELoss.cxx
@@ -54,6 +54,8 @@ std::vector<siren::dataclasses::Particle::ParticleType> DMesonELoss::GetPossible
 
 // getting target should be the same for all the primary types
 std::vector<siren::dataclasses::Particle::ParticleType> DMesonELoss::GetPossibleTargetsFromPrimary(siren::dataclasses::Particle::ParticleType primary_type) const {
+    if(not primary_types_.count(primary_type))
+        return std::vector<siren::dataclasses::Particle::ParticleType>();
     return std::vector<siren::dataclasses::Particle::ParticleType>(target_types_.begin(), target_types_.end());
 }
 
@@ -73,6 +75,8 @@ std::vector<dataclasses::InteractionSignature> DMesonELoss::GetPossibleSignature
 
 std::vector<dataclasses::InteractionSignature> DMesonELoss::GetPossibleSignaturesFromParents(siren::dataclasses::Particle::ParticleType primary_type, siren::dataclasses::Particle::ParticleType target_type) const {
     std::vector<dataclasses::InteractionSignature> signatures;
+    if(not primary_types_.count(primary_type) or not target_types_.count(target_type))
+        return signatures;
     dataclasses::InteractionSignature signature;
     signature.primary_type = primary_type;
     signature.target_type = target_type;
-- 
2.43.0


From 6f64df9a8dc10421bbe4ce0d1e01fe965d536b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:25 +0000
Subject: [PATCH 117/118] fix: events that could not be written to disk are
 lost in silence

---
 projects/dataclasses/private/InteractionTree.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/dataclasses/private/InteractionTree.cxx b/projects/dataclasses/private/InteractionTree.cxx
index 265c248..7529b9c 100644
--- a/projects/dataclasses/private/InteractionTree.cxx
+++ b/projects/dataclasses/private/InteractionTree.cxx
@@ -6,6 +6,7 @@
 #include <sstream>
 #include <cassert>
 #include <ostream>
+#include <stdexcept>
 #include <unordered_map>
 
 namespace siren {
@@ -138,6 +139,9 @@ void SaveInteractionTrees(std::vector<std::shared_ptr<InteractionTree>>& trees,
     std::ofstream os(filename+".siren_events", std::ios::binary);
     ::cereal::BinaryOutputArchive archive(os);
     archive(trees);
+    os.flush();
+    if(not os)
+        throw std::runtime_error("Failed to write " + filename + ".siren_events");
 }
 
 std::vector<std::shared_ptr<InteractionTree>> LoadInteractionTrees(std::string const & filename) {
-- 
2.43.0


From acc8dcaf342bee10f05421c088107c9fa3af7ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:25 +0000
Subject: [PATCH 118/118] fix: injectors and weighters that could not be
 written to disk are lost in silence

---
 projects/injection/private/Injector.cxx | 3 +++
 projects/injection/private/Weighter.cxx | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/projects/injection/private/Injector.cxx b/projects/injection/private/Injector.cxx
index 849b1ed..d9a31c2 100644
--- a/projects/injection/private/Injector.cxx
+++ b/projects/injection/private/Injector.cxx
@@ -506,6 +506,9 @@ void Injector::SaveInjector(std::string const & filename) const {
     std::ofstream os(filename, std::ios::binary);
     ::cereal::BinaryOutputArchive archive(os);
     this->save(archive,0);
+    os.flush();
+    if(not os)
+        throw std::runtime_error("Failed to write " + filename);
 }
 
 void Injector::LoadInjector(std::string const & filename) {
diff --git a/projects/injection/private/Weighter.cxx b/projects/injection/private/Weighter.cxx
index 15803ec..3b0a154 100644
--- a/projects/injection/private/Weighter.cxx
+++ b/projects/injection/private/Weighter.cxx
@@ -213,6 +213,9 @@ void Weighter::SaveWeighter(std::string const & filename) const {
     std::ofstream os(filename+".siren_weighter", std::ios::binary);
     ::cereal::BinaryOutputArchive archive(os);
     this->save(archive,0);
+    os.flush();
+    if(not os)
+        throw std::runtime_error("Failed to write " + filename + ".siren_weighter");
 }
 
 void Weighter::LoadWeighter(std::string const & filename) {
-- 
2.43.0

