From 4ca2e76d4996d9582a0443ea31ee93065a30b52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 01/41] fix: redraw when the random number is exactly zero in
 the time propagation

With -ffast-math std::isinf is folded to false, so a draw of exactly 0.0
(probability 2^-32 per step) set the simulation time to infinity.
---
 c++/src/simulationtimer.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/c++/src/simulationtimer.cpp b/c++/src/simulationtimer.cpp
index 0249397..5d67a77 100644
--- a/c++/src/simulationtimer.cpp
+++ b/c++/src/simulationtimer.cpp
@@ -29,12 +29,10 @@ void SimulationTimer::propagateTime(const double total_rate)
 {
     // Propagate the time of the system.
     double rnd;
-    double dt;
     do
     {
         rnd = randomDouble01();
-        dt  = -std::log(rnd)/total_rate;
     }
-    while (std::isinf(dt));
-    simulation_time_ += dt;
+    while (!(rnd > 0.0));
+    simulation_time_ += -std::log(rnd)/total_rate;
 }
-- 
2.43.0


From 3e517983addaacc700691ae03d50df07c78e73a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 02/41] fix: never pick a process without available sites

A random number of exactly 0.0 (probability 2^-32 per step) selected the first
process in the list even if it had no available site, followed by an out of
bounds read when picking the site.
---
 c++/src/interactions.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index 202ea3a..6b2048a 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -250,7 +250,15 @@ int Interactions::pickProcessIndex() const
                                                                                          pairComp );
 
     // Find the index in the process list.
-    return it1-begin;
+    // A process with no available sites spans an empty interval and may not be
+    // picked, which the bisection does if the random number is exactly zero.
+    std::vector<std::pair<double, int> >::const_iterator picked = it1;
+    while (picked != end && (*picked).second == 0)
+    {
+        ++picked;
+    }
+
+    return (picked != end ? picked : it1) - begin;
 }
 
 
-- 
2.43.0


From ade924addc9fc033797c501c33739d47de8a8846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 03/41] fix: do not accumulate round-off in the total rate of a
 process

Subtracting the rate of a removed site from the running total lost the
contribution of all sites with much smaller rates.
---
 c++/src/customrateprocess.cpp | 13 ++++++++-----
 c++/src/process.cpp           |  5 +++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/c++/src/customrateprocess.cpp b/c++/src/customrateprocess.cpp
index f5d2f07..849f808 100644
--- a/c++/src/customrateprocess.cpp
+++ b/c++/src/customrateprocess.cpp
@@ -82,8 +82,7 @@ void CustomRateProcess::removeSite(const int index)
     // Swap and remove.
     std::swap((*it2), (*last_rate));
 
-    // Store the value temporarily.
-    const double site_rate = site_rates_.back();
+    // Remove.
     site_rates_.pop_back();
 
     // Calculate the position in the site_multiplicity_ vector.
@@ -93,11 +92,15 @@ void CustomRateProcess::removeSite(const int index)
     // Swap and remove.
     std::swap((*it3), (*last_multiplicity));
 
-    // Update the total rate.
-    total_rate_ -= site_rate * site_multiplicity_.back();
-
     site_multiplicity_.pop_back();
 
+    // Update the total rate. Rates can differ by many orders of magnitude, so
+    // sum the remaining ones instead of subtracting the removed.
+    total_rate_ = std::inner_product(site_rates_.begin(),
+                                     site_rates_.end(),
+                                     site_multiplicity_.begin(),
+                                     0.0);
+
 }
 
 
diff --git a/c++/src/process.cpp b/c++/src/process.cpp
index 1bb9681..19f944f 100644
--- a/c++/src/process.cpp
+++ b/c++/src/process.cpp
@@ -133,6 +133,11 @@ void Process::removeSite(const int index)
     total_rate_ -= site_multiplicity_.back() * rate_;
     site_multiplicity_.pop_back();
 
+    // Do not leave round-off behind when there is nothing left to sum.
+    if (sites_.empty())
+    {
+        total_rate_ = 0.0;
+    }
 }
 
 
-- 
2.43.0


From abf764cdfd6ca372fe148333b3cd5b3353f211fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 04/41] fix: search all cells within reach of a process

A process reaching a non-integer distance in a positive direction (e.g. +1.5),
or a custom rate with a non-integer cutoff, can involve sites one cell further
away than the truncated distance. Such processes were never matched, and the
custom rates were calculated from an incomplete environment and not updated.
---
 c++/src/interactions.cpp | 30 ++++++++++++++++++++++++++++++
 c++/src/interactions.h   |  6 ++++++
 c++/src/latticemodel.cpp |  4 ++--
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index 6b2048a..859503e 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -101,6 +101,36 @@ int Interactions::maxRange() const
 }
 
 
+// -----------------------------------------------------------------------------
+//
+int Interactions::searchRange() const
+{
+    int search_range = maxRange();
+
+    std::vector<Process*>::const_iterator it1 = process_pointers_.begin();
+    for ( ; it1 != process_pointers_.end(); ++it1 )
+    {
+        // A non-integer distance can, depending on the basis position started
+        // from, reach into one more cell in the positive directions as well.
+        const ProcessBucketMatchList & match_list = (**it1).processMatchList();
+        for (size_t i = 0; i < match_list.size(); ++i)
+        {
+            const Coordinate & c = match_list[i].coordinate;
+            const double reach = std::max(c.x(), std::max(c.y(), c.z()));
+            search_range = std::max( search_range, static_cast<int>(reach + 0.99999) );
+        }
+
+        // Custom rates depend on everything within the cutoff.
+        if (use_custom_rates_)
+        {
+            search_range = std::max( search_range, static_cast<int>((**it1).cutoff() + 0.99999) );
+        }
+    }
+
+    return search_range;
+}
+
+
 // -----------------------------------------------------------------------------
 //
 void Interactions::updateProcessMatchLists(const Configuration & configuration,
diff --git a/c++/src/interactions.h b/c++/src/interactions.h
index e6bc987..648d931 100644
--- a/c++/src/interactions.h
+++ b/c++/src/interactions.h
@@ -54,6 +54,12 @@ public:
      */
     int maxRange() const;
 
+    /*! \brief Query for the number of cells to search in each direction to
+     *         find all sites any process involves or has its rate depend on.
+     *  \return : The number of cells.
+     */
+    int searchRange() const;
+
     /*! \brief Query for the custom rates flag.
      *  \return : The custom rates flag, (true) if we use custom rates.
      */
diff --git a/c++/src/latticemodel.cpp b/c++/src/latticemodel.cpp
index 2a2e4e2..9ead2d3 100644
--- a/c++/src/latticemodel.cpp
+++ b/c++/src/latticemodel.cpp
@@ -43,7 +43,7 @@ LatticeModel::LatticeModel(Configuration & configuration,
 void LatticeModel::calculateInitialMatching()
 {
     // Calculate the match lists.
-    configuration_.initMatchLists(lattice_map_, interactions_.maxRange());
+    configuration_.initMatchLists(lattice_map_, interactions_.searchRange());
 
     // Update the interactions matchlists.
     interactions_.clearMatching();
@@ -87,7 +87,7 @@ void LatticeModel::singleStep()
 
     // Run the re-matching of the affected sites and their neighbours.
     const std::vector<int> & indices = \
-        lattice_map_.supersetNeighbourIndices(process.affectedIndices(), interactions_.maxRange());
+        lattice_map_.supersetNeighbourIndices(process.affectedIndices(), interactions_.searchRange());
 
     matcher_.calculateMatching(interactions_,
                                configuration_,
-- 
2.43.0


From fa2d5a6c36abd415b55d1d234efea086450bd16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 05/41] fix: include the sites at the cutoff distance in the
 custom rate input

Round-off could leave out sites at exactly the cutoff distance, also such that
are part of the process, in which case the types after the process were written
out of bounds. The end of the list was also checked after dereferencing it.
---
 c++/src/hash.cpp    | 7 ++++---
 c++/src/matcher.cpp | 9 +++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/c++/src/hash.cpp b/c++/src/hash.cpp
index e3a85b7..c574cfb 100644
--- a/c++/src/hash.cpp
+++ b/c++/src/hash.cpp
@@ -119,8 +119,9 @@ uint64_t hashCustomRateInput(const int index,
     // This number uniquely identifies the process parameters.
     const int process_number = process.processNumber();
 
-    // Get cutoff distance from the process.
-    const double cutoff = process.cutoff();
+    // Get cutoff distance from the process, with the tolerance for comparing
+    // lattice positions added to not miss sites at the cutoff due to round-off.
+    const double cutoff = process.cutoff() + 1.0e-5;
 
     // This is the source of configuration information we will need.
     const ConfigBucketMatchList & config_match_list  = configuration.configMatchList(index);
@@ -131,7 +132,7 @@ uint64_t hashCustomRateInput(const int index,
 
     // Add the match types of the config match list to the data to hash.
     ConfigBucketMatchList::const_iterator it1 = config_match_list.begin();
-    while ( (*it1).distance <= cutoff && it1 != config_match_list.end())
+    while ( it1 != config_match_list.end() && (*it1).distance <= cutoff )
     {
         for (int i = 0; i < (*it1).match_types.size(); ++i)
         {
diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index cfb646f..f2939c2 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -536,11 +536,12 @@ double Matcher::updateSingleRate(const int index,
     const std::vector<std::vector<std::string> > & elements = configuration.elements();
     const std::vector<TypeBucket> & types = configuration.types();
 
-    // Get cutoff distance from the process.
-    const double cutoff = process.cutoff();
+    // Get cutoff distance from the process, with the tolerance for comparing
+    // lattice positions added to not miss sites at the cutoff due to round-off.
+    const double cutoff = process.cutoff() + 1.0e-5;
     ConfigBucketMatchList::const_iterator it1 = config_match_list.begin();
     int len = 0;
-    while ( (*it1).distance <= cutoff && it1 != config_match_list.end())
+    while ( it1 != config_match_list.end() && (*it1).distance <= cutoff )
     {
         ++it1;
         ++len;
@@ -573,7 +574,7 @@ double Matcher::updateSingleRate(const int index,
     std::vector<TypeBucket> update(len, TypeBucket(occupations[0].size()));
 
     // Loop over the process match list and update the types_after vector.
-    for (size_t i = 0; i < process_match_list.size(); ++i)
+    for (size_t i = 0; i < process_match_list.size() && i < distance; ++i)
     {
         const TypeBucket & update_types = process_match_list[i].update_types;
 
-- 
2.43.0


From 9efb23a243088f537b6f8e7535f24594411ee9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 06/41] fix: list each neighbouring site once in small periodic
 systems

With fewer repetitions than cells within the range the match lists contained
the same site several times, which hid matching processes and gave the custom
rate calculators an environment with duplicated sites.
---
 c++/src/configuration.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/c++/src/configuration.cpp b/c++/src/configuration.cpp
index d9bdfda..65626c8 100644
--- a/c++/src/configuration.cpp
+++ b/c++/src/configuration.cpp
@@ -116,7 +116,14 @@ void Configuration::initMatchLists( const LatticeMap & lattice_map,
     {
         // Calculate and store the match list.
         const int origin_index = i;
-        const std::vector<int> neighbourhood = lattice_map.neighbourIndices(origin_index, range);
+        std::vector<int> neighbourhood = lattice_map.neighbourIndices(origin_index, range);
+
+        // In a small periodic system the same site can be found via several
+        // cells, but it must only be listed once.
+        std::sort(neighbourhood.begin(), neighbourhood.end());
+        neighbourhood.erase(std::unique(neighbourhood.begin(), neighbourhood.end()),
+                            neighbourhood.end());
+
         match_lists_[i] = configMatchList(origin_index,
                                           neighbourhood,
                                           lattice_map);
-- 
2.43.0


From 97ec64eef1748572efe1252cbacff6a67c94098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 07/41] fix: match an updated wildcard only where its site
 exists

At the edge of a non-periodic lattice a wildcard entry matched whatever site
was next in the list, so that a bucket process with an update on a wildcard was
applied to the wrong site.
---
 c++/src/matchlistentry.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c++/src/matchlistentry.h b/c++/src/matchlistentry.h
index 807f4f3..af21b13 100644
--- a/c++/src/matchlistentry.h
+++ b/c++/src/matchlistentry.h
@@ -126,6 +126,14 @@ public:
         // Handle the wildcard case.
         if (match_types[0] == 1)
         {
+            // A wildcard site to update must be present in the geometry.
+            for (int i = 1; i < update_types.size(); ++i)
+            {
+                if (update_types[i] != 0)
+                {
+                    return samePoint((*this), m2);
+                }
+            }
             return true;
         }
 
-- 
2.43.0


From c110ba39605b79d5f3c803602f050362ea23d692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 08/41] fix: track moved atoms at sites where the type stays
 the same

In a concerted move an atom can leave a site that the next atom of the same type
enters. Its atom id was moved but its coordinate and move vector were not, and
wildcard entries had the move information uninitialised.
---
 c++/src/configuration.cpp | 14 ++++++++++++++
 c++/src/matchlistentry.h  |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/c++/src/configuration.cpp b/c++/src/configuration.cpp
index 65626c8..615f9f7 100644
--- a/c++/src/configuration.cpp
+++ b/c++/src/configuration.cpp
@@ -316,6 +316,20 @@ void Configuration::performBucketProcess(Process & process,
             sum += std::abs(update_types[i]);
         }
 
+        // An atom can move to a site that holds the same type before and after.
+        if (sum == 0 && (*it1).has_move_coordinate)
+        {
+            const int atom_id = atom_id_[index];
+            atom_id_coordinates_[atom_id] += (*it1).move_coordinate;
+
+            (*it4) = atom_id;
+            ++it4;
+            ++n_moved_;
+
+            (*it5) = (*it1).move_coordinate;
+            ++it5;
+        }
+
         // NOTE: The !(update_types[0] > 0) is needed for handling the wildcard match.
         if (sum > 0 && !(update_types[0] > 0))
         {
diff --git a/c++/src/matchlistentry.h b/c++/src/matchlistentry.h
index af21b13..54cab08 100644
--- a/c++/src/matchlistentry.h
+++ b/c++/src/matchlistentry.h
@@ -159,6 +159,8 @@ public:
         match_types  = TypeBucket(c.match_types.size());
         update_types = TypeBucket(c.match_types.size());
         match_types[0] = 1;           // Indicating wildcard.
+        has_move_coordinate = false;
+        move_coordinate = Coordinate(0.0, 0.0, 0.0);
     }
 };
 
-- 
2.43.0


From a1a6840f62d122aa810eda4ed274acc9e3f1f833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 09/41] fix: tell different geometries apart when caching
 custom rates

The cache key held the types only, so that sites with the same types but another
geometry around them (several basis sites, non-periodic edges) shared one rate.
---
 c++/src/hash.cpp    | 24 ++++++++++++++++++++++++
 c++/src/hash.h      | 13 +++++++++++++
 c++/src/matcher.cpp |  6 ++++--
 3 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/c++/src/hash.cpp b/c++/src/hash.cpp
index c574cfb..4811e06 100644
--- a/c++/src/hash.cpp
+++ b/c++/src/hash.cpp
@@ -18,6 +18,7 @@
 #include "matchlist.h"
 #include "externals/md5.h"
 
+#include <cmath>
 #include <cstdio>
 #include <cstring>
 #include <cinttypes>
@@ -144,3 +145,26 @@ uint64_t hashCustomRateInput(const int index,
     // Hash and return.
     return hash64MD5xor(data_to_hash);
 }
+
+
+// -------------------------------------------------------------------------- //
+//
+uint64_t hashCustomRateGeometry(const int index,
+                                const Process & process,
+                                const Configuration & configuration)
+{
+    const double cutoff = process.cutoff() + 1.0e-5;
+    const ConfigBucketMatchList & config_match_list  = configuration.configMatchList(index);
+
+    // The positions are hashed with the precision used for comparing them.
+    std::vector<int> data_to_hash;
+    ConfigBucketMatchList::const_iterator it1 = config_match_list.begin();
+    for ( ; it1 != config_match_list.end() && (*it1).distance <= cutoff; ++it1 )
+    {
+        data_to_hash.push_back(static_cast<int>(std::floor((*it1).x * 1.0e4 + 0.5)));
+        data_to_hash.push_back(static_cast<int>(std::floor((*it1).y * 1.0e4 + 0.5)));
+        data_to_hash.push_back(static_cast<int>(std::floor((*it1).z * 1.0e4 + 0.5)));
+    }
+
+    return hash64MD5xor(data_to_hash);
+}
diff --git a/c++/src/hash.h b/c++/src/hash.h
index ad0b5da..70bd5e8 100644
--- a/c++/src/hash.h
+++ b/c++/src/hash.h
@@ -83,5 +83,18 @@ uint64_t hashCustomRateInput(const int index,
                              const Configuration & configurartion);
 
 
+/*! \brief Function for generating a 64-bit hash of the geometry handed to the
+ *         custom rate calculator, which can differ between sites with the
+ *         same types around them (basis sites, non-periodic edges).
+ *  \param index         : The global site index.
+ *  \param process       : The process that takes place.
+ *  \param configuration : The global configuration of the system.
+ *  \returns: 64-bit hash value.
+ */
+uint64_t hashCustomRateGeometry(const int index,
+                                const Process & process,
+                                const Configuration & configuration);
+
+
 #endif // __HASH__
 
diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index f2939c2..1f53cc4 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -107,7 +107,8 @@ void Matcher::calculateMatching(Interactions & interactions,
             // Calculate the key.
             const Process & process = (*interactions.processes()[add_tasks[i].process]);
             const int index   = add_tasks[i].index;
-            const ratekey key = hashCustomRateInput(index, process, configuration);
+            const ratekey key = hashCustomRateInput(index, process, configuration) ^
+                hashCustomRateGeometry(index, process, configuration);
 
             // Check if the key has a stored value.
             if (rate_table_.stored(key) != -1)
@@ -130,7 +131,8 @@ void Matcher::calculateMatching(Interactions & interactions,
             // Calculate the key.
             const Process & process = (*interactions.processes()[update_tasks[i].process]);
             const int index   = update_tasks[i].index;
-            const ratekey key = hashCustomRateInput(index, process, configuration);
+            const ratekey key = hashCustomRateInput(index, process, configuration) ^
+                hashCustomRateGeometry(index, process, configuration);
 
             // Check if the key has a stored value.
             if (rate_table_.stored(key) != -1)
-- 
2.43.0


From b69cba8bfaf9a0fe51fb9e75ba32f922ea585768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 10/41] fix: do not read the first element of an empty site

A site of a bucket model can be empty, initially or after a process.
---
 c++/src/configuration.cpp | 8 ++++++--
 c++/src/matcher.cpp       | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/c++/src/configuration.cpp b/c++/src/configuration.cpp
index 615f9f7..88af8a3 100644
--- a/c++/src/configuration.cpp
+++ b/c++/src/configuration.cpp
@@ -53,7 +53,10 @@ Configuration::Configuration(const std::vector<std::vector<double> >  & coordina
         atom_id_.push_back(i);
 
         // FIXME
-        atom_id_elements_[i] = elements_[i][0];
+        if (!elements_[i].empty())
+        {
+            atom_id_elements_[i] = elements_[i][0];
+        }
     }
 
     // Set the atom id coordinates to the same as the coordinates to start with.
@@ -368,7 +371,8 @@ void Configuration::performBucketProcess(Process & process,
                 //            Now we only take the first occuring type at the site.
                 //            This is expected behavior but incorrect in general and
                 //            works only for one atom per site simulations.
-                atom_id_elements_[atom_id] = elements_[index][0];
+                atom_id_elements_[atom_id] = elements_at_index.empty() ?
+                    std::string() : elements_at_index[0];
             }
 
             // Mark this index as affected.
diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index 1f53cc4..6cff75a 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -567,7 +567,7 @@ double Matcher::updateSingleRate(const int index,
         numpy_geo[3*i+2] = coord.z();
 
         const int idx   = config_match_list[i].index;
-        types_before[i] = elements[idx][0];
+        types_before[i] = elements[idx].empty() ? std::string() : elements[idx][0];
         occupations[i]  = types[idx];
     }
 
-- 
2.43.0


From fbdc1463ff53ed63e39976e7f0f78b3fdf877c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 11/41] fix: return the sites of the cell only from
 indicesFromCell

The shared storage kept the size set by the last lattice map constructed, so
that another map returned too many sites or wrote past the end.
---
 c++/src/latticemap.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c++/src/latticemap.cpp b/c++/src/latticemap.cpp
index 65d9abd..6b008df 100644
--- a/c++/src/latticemap.cpp
+++ b/c++/src/latticemap.cpp
@@ -199,6 +199,9 @@ const std::vector<int> & LatticeMap::indicesFromCell(const int i,
     const int tmp2 = tmp1 * repetitions_[2] + k;
     const int tmp3 = tmp2 * n_basis_;
 
+    // Another map may have set another size.
+    tmp_cell_indices__.resize(n_basis_);
+
     for (int l = 0; l < n_basis_; ++l)
     {
         tmp_cell_indices__[l] = tmp3 + l;
-- 
2.43.0


From 5b164077c216e3b805f038b4a4af852295f1fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 12/41] fix: write the lattice trajectory of a single site
 system

---
 python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
index 6614879..5fb8f09 100644
--- a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
+++ b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
@@ -153,7 +153,7 @@ class LatticeTrajectory(Trajectory):
                     indent = " "*14
                     row_length = len(types_str)
 
-                    if isinstance(types[:-1][0], str):
+                    if isinstance(types[0], str):
                         for t in types[:-1]:
                             row_length += len(t) + 2
                             types_str += "\"" + t + "\"" + ","
-- 
2.43.0


From 86f54df1453402ec4a3f2bfb9c307f176909544d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 13/41] fix: set up the breakers before the loop as documented

---
 python/src/KMCLib/CoreComponents/KMCLatticeModel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 2a68eee..8d38d12 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -195,6 +195,12 @@ must be given as string."""
                      self.__cpp_timer.simulationTime(),
                      self.__configuration);
 
+        # Setup the breaker objects.
+        for b in breakers:
+            b.setup(0,
+                    self.__cpp_timer.simulationTime(),
+                    self.__configuration)
+
         # Get the needed parameters.
         n_steps   = control_parameters.numberOfSteps()
         n_dump    = control_parameters.dumpInterval()
-- 
2.43.0


From 802616760d8b4f1c6d508cdb54247b3d173633e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 14/41] fix: keep the time interval dumps at the sample times
 of the run

After a step longer than the interval the following steps were dumped for sample
times that had passed before them, and in a second run of the same model nearly
every step was, since the sample times were counted from time zero.
---
 python/src/KMCLib/CoreComponents/KMCLatticeModel.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 8d38d12..a325ca6 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -172,7 +172,7 @@ must be given as string."""
             raise Error("No available processes. None of the processes defined as input match any position in the configuration. Change the initial configuration or processes to run KMC.")
 
         # Setup a trajectory object.
-        last_time = self.__cpp_timer.simulationTime()
+        start_time = self.__cpp_timer.simulationTime()
         if use_trajectory:
             if trajectory_type == 'lattice':
                 trajectory = LatticeTrajectory(trajectory_filename=trajectory_filename,
@@ -228,11 +228,11 @@ must be given as string."""
                 time_after  = self.__cpp_timer.simulationTime()
 
                 # Check if it is time to dump the previous step to the equidistant trajectory.
-                if ((dump_time is not None) and ((time_after-last_time) >= dump_time)):
-                    time_step += 1
-                    sample_time = time_step * dump_time
+                # The sample times are counted from the start of this run. A step can pass several.
+                if ((dump_time is not None) and (int((time_after-start_time)/dump_time) > time_step)):
+                    time_step = int((time_after-start_time)/dump_time)
+                    sample_time = start_time + time_step * dump_time
                     prettyPrint(" KMCLib: %14i steps executed. time: %20.10e"%(step-1, sample_time))
-                    last_time = sample_time
 
                     # Perform IO using the trajectory object.
                     if use_trajectory:
@@ -248,7 +248,6 @@ must be given as string."""
 
                 # Check if it is time to write a trajectory dump.
                 if ((dump_time is None) and ((step)%n_dump == 0)):
-                    last_time = now
                     prettyPrint(" KMCLib: %i steps executed. time: %20.10e "%(step, now))
 
                     # Perform IO using the trajectory object.
-- 
2.43.0


From 29a1ff28a141cb63e3bf332596082a6fa7ba280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 15/41] fix: refuse a process with an empty list of basis sites

---
 python/src/KMCLib/CoreComponents/KMCBaseProcess.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCBaseProcess.py b/python/src/KMCLib/CoreComponents/KMCBaseProcess.py
index 3d98817..c203fdd 100644
--- a/python/src/KMCLib/CoreComponents/KMCBaseProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBaseProcess.py
@@ -13,6 +13,7 @@ from KMCLib.Utilities.CoordinateUtilities import centerCoordinates
 from KMCLib.Utilities.CheckUtilities import checkCoordinateList
 from KMCLib.Utilities.CheckUtilities import checkSequenceOfPositiveIntegers
 from KMCLib.Utilities.CheckUtilities import checkPositiveFloat
+from KMCLib.Exceptions.Error import Error
 
 class KMCBaseProcess(object):
     """
@@ -52,6 +53,7 @@ class KMCBaseProcess(object):
 
         if len(basis_sites) == 0:
             msg = "The list of available basis sites for a process may not be empty."
+            raise Error(msg)
 
         # Passed the  tests.
         self._basis_sites = basis_sites
-- 
2.43.0


From c7a14776a97b64fefce503f33a9aa26238e46716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 16/41] fix: check the update of a bucket process

An update of the wrong length, or with a type that is not possible in the
configuration, was accepted and read out of bounds in the backend.
---
 python/src/KMCLib/CoreComponents/KMCBucketProcess.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
index 31911d5..34f6be6 100644
--- a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
@@ -59,6 +59,9 @@ class KMCBucketProcess(KMCBaseProcess):
         # Check the update information.
         self.__update = self.__checkUpdateInfo(update)
 
+        if not len(self.__update) == len(coordinates):
+            raise Error("The 'update' information to a KMCBucketProcess constructor must be of the same length as the coordinates.")
+
         # Construct elements before based on the match and update.
         self._elements_before = self.__minimum_match
 
@@ -74,6 +77,12 @@ class KMCBucketProcess(KMCBaseProcess):
                     elif isinstance(ee, tuple):
                         all_types.append(ee[1])
 
+        # The update can introduce types not present in the match.
+        for e in self.__update:
+            for ee in e:
+                if isinstance(ee, tuple):
+                    all_types.append(ee[1])
+
         # Remove doublets and store on the class.
         self._all_present_types = list(set(all_types))
 
-- 
2.43.0


From 2fcde175bb3d6d806813545a23b37c1a2f8aa9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 17/41] fix: check the length of the bucket types of a
 configuration

---
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index 5dce0ce..d5d79b9 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -209,6 +209,10 @@ class KMCConfiguration(object):
         if default_type is not None:
             raise Error("A default type can only be used in combination with the long types format\nwhen constructing a KMCConfiguration object.")
 
+        # Check the length.
+        if len(types) != self.__n_lattice_sites:
+            raise Error("The length of the types list must match the number of lattice sites.")
+
         # For each element, check that the foramt is any of the valid
         # "A" - single particle
         # (N,"A") - numbered single particle
-- 
2.43.0


From c21b39fd3466ddef3aff3930c0f196576c90a489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 18/41] fix: never pick an event with zero rate

A random number of exactly 0.0 selected the first listed process or site even
if its calculated rate was zero.
---
 c++/src/interactions.cpp | 12 +++++++++---
 c++/src/process.cpp      |  8 +++++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index 859503e..8b05f13 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -280,14 +280,20 @@ int Interactions::pickProcessIndex() const
                                                                                          pairComp );
 
     // Find the index in the process list.
-    // A process with no available sites spans an empty interval and may not be
-    // picked, which the bisection does if the random number is exactly zero.
+    // A process with no available sites, or with zero rate, spans an empty interval
+    // and may not be picked, which the bisection does if the random number is zero.
     std::vector<std::pair<double, int> >::const_iterator picked = it1;
-    while (picked != end && (*picked).second == 0)
+    while (picked != end && ((*picked).second == 0 || !((*picked).first > 0.0)))
     {
         ++picked;
     }
 
+    // If all rates are zero there is no other choice than any available process.
+    if (picked == end)
+    {
+        for (picked = it1; picked != end && (*picked).second == 0; ++picked) {}
+    }
+
     return (picked != end ? picked : it1) - begin;
 }
 
diff --git a/c++/src/process.cpp b/c++/src/process.cpp
index 19f944f..52e8bd4 100644
--- a/c++/src/process.cpp
+++ b/c++/src/process.cpp
@@ -171,7 +171,13 @@ int Process::pickSite() const
     // Pick the site.
     const std::vector<double>::const_iterator begin = incremental_rate_table_.begin();
     const std::vector<double>::const_iterator end   = incremental_rate_table_.end();
-    const std::vector<double>::const_iterator it1   = std::lower_bound( begin, end, rnd);
+    std::vector<double>::const_iterator it1         = std::lower_bound( begin, end, rnd);
+
+    // A site with zero rate may not be picked if the random number is zero.
+    while (it1+1 != end && !((*it1) > 0.0))
+    {
+        ++it1;
+    }
 
     // Get the site index.
     const int site_index = it1-begin;
-- 
2.43.0


From 34f217dd5d8e30debcb0f6c91943f3ecd42bd304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 19/41] fix: wrap displacements of half the lattice
 consistently

A displacement of exactly half the periodic lattice came out with either sign,
depending on round-off in the coordinates of the individual sites.
---
 c++/src/latticemap.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c++/src/latticemap.h b/c++/src/latticemap.h
index 655dda2..33a3202 100644
--- a/c++/src/latticemap.h
+++ b/c++/src/latticemap.h
@@ -183,12 +183,14 @@ void LatticeMap::wrap(Coordinate & c) const
 //
 void LatticeMap::wrap(Coordinate & c, const int direction) const
 {
-    const double half_cell = 1.0 * repetitions_[direction] / 2.0;
+    // A coordinate at exactly half the cell must go the same way for all sites,
+    // regardless of round-off.
+    const double half_cell = 1.0 * repetitions_[direction] / 2.0 - 1.0e-5;
     if (c[direction] >= half_cell)
     {
         c[direction] -= repetitions_[direction];
     }
-    else if (c[direction] < -half_cell)
+    else if (c[direction] < half_cell - repetitions_[direction])
     {
         c[direction] += repetitions_[direction];
     }
-- 
2.43.0


From f3798af61c789e06f409c74622c4f3b7af7602dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 20/41] fix: divide the spatial process statistics by the time
 that passed

---
 python/src/KMCLib/Analysis/ProcessStatistics.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/Analysis/ProcessStatistics.py b/python/src/KMCLib/Analysis/ProcessStatistics.py
index 3fd3f67..1b156ee 100644
--- a/python/src/KMCLib/Analysis/ProcessStatistics.py
+++ b/python/src/KMCLib/Analysis/ProcessStatistics.py
@@ -49,6 +49,8 @@ class ProcessStatistics(KMCAnalysisPlugin):
         # Done checking.
         self.__spatially_resolved = spatially_resolved
         self.__last_time = 0.0
+        self.__start_time = 0.0
+        self.__current_time = 0.0
         self.__data = []
         self.__spatial_data = None
         self.__current_count = 0
@@ -59,6 +61,8 @@ class ProcessStatistics(KMCAnalysisPlugin):
         """
         # Set the initial time.
         self.__last_time = time
+        self.__start_time = time
+        self.__current_time = time
 
         # Allocate space for the spatially resolved information.
         if self.__spatially_resolved:
@@ -68,6 +72,8 @@ class ProcessStatistics(KMCAnalysisPlugin):
         """
         Recieves the register step call from the main loop.
         """
+        self.__current_time = time
+
         # Check if the time_intervall has passed since last block finalization.
         if (time - self.__last_time) > self.__time_interval:
 
@@ -88,8 +94,10 @@ class ProcessStatistics(KMCAnalysisPlugin):
         Recieves the finalize call after the MC loop.
         """
         if self.__spatially_resolved:
-            # Normalize the spatial data with time.
-            self.__spatial_data /= self.__last_time
+            # Normalize the spatial data with the time that has passed since setup.
+            total_time = self.__current_time - self.__start_time
+            if total_time > 0.0:
+                self.__spatial_data /= total_time
 
     def printResults(self, stream=sys.stdout):
         """
-- 
2.43.0


From 9a142a8bd81d57f0bbd006e6ff5fb688dbc013fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 21/41] fix: accept the basis sites of a process as numpy
 integers

---
 python/src/KMCLib/CoreComponents/KMCInteractions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCInteractions.py b/python/src/KMCLib/CoreComponents/KMCInteractions.py
index 6479c88..b275f12 100644
--- a/python/src/KMCLib/CoreComponents/KMCInteractions.py
+++ b/python/src/KMCLib/CoreComponents/KMCInteractions.py
@@ -219,7 +219,7 @@ the KMCRateCalculatorPlugin class itself. """
                     basis_list = []
                     for b in process.basisSites():
                         if b < n_basis:
-                            basis_list.append(b)
+                            basis_list.append(int(b))
 
                 # And construct the C++ entry.
                 cpp_basis = Backend.StdVectorInt(basis_list)
-- 
2.43.0


From d8961195434b081864485cbf90fc117b1dbcfdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 22/41] fix: match move vectors with the precision to which
 scripts are written

---
 python/src/KMCLib/CoreComponents/KMCProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index ea8b8e8..c666171 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -153,7 +153,7 @@ class KMCProcess(KMCBaseProcess):
             # Find which index this corresponds to.
             subtracted = self._coordinates - new_coord
             reduced    = numpy.abs(sum(abs(subtracted.transpose())))
-            boolean    = [ rr < 1.0e-8 for rr in reduced ]
+            boolean    = [ rr < 1.0e-5 for rr in reduced ]
             new_index  = numpy.where(boolean)
             if len(new_index[0]) == 0:
                 raise Error("Each move_vector must move an atom to a valid lattice site.")
-- 
2.43.0


From a6779c52c51ed66013d8793c85128a8cb1dc9b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 23/41] fix: write the current types to the script of a
 configuration

---
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index d5d79b9..8dda56e 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -351,6 +351,10 @@ class KMCConfiguration(object):
         # Get the lattice script.
         lattice_script = self.__lattice._script(variable_name="lattice")
 
+        # Make sure the types are those of the present state.
+        if self.__backend is not None:
+            self.types()
+
         # Get the types string.
         types_string = "types = "
         indent = " "*9
-- 
2.43.0


From fdb55f0e1e66b9106883a75edf1c12ff17b1a41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 24/41] fix: refuse malformed entries in lists of bucket types

---
 python/src/KMCLib/Utilities/CheckUtilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index d471083..ca40d47 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -305,7 +305,7 @@ def checkAndNormaliseBucketEntry(t):
             if isinstance(tt, str):
                 normalised_type.append((1,tt))
             elif isinstance(tt, tuple):
-                if not len(tt) == 2 and isinstance(tt[0], int) and isinstance(tt[1], str):
+                if not len(tt) == 2 or not isinstance(tt[0], int) or not isinstance(tt[1], str):
                     raise Error("Bucket type given as a tuple must be of format (int, str).")
                 normalised_type.append(tt)
             else:
-- 
2.43.0


From 6d18b983af4f67cdc0e6fb1390ee7e3664138aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 25/41] fix: refuse dump and analysis intervals of zero

---
 python/src/KMCLib/CoreComponents/KMCControlParameters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCControlParameters.py b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
index 0ca0e30..50e4d96 100644
--- a/python/src/KMCLib/CoreComponents/KMCControlParameters.py
+++ b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
@@ -87,6 +87,12 @@ class KMCControlParameters(object):
                                                         1,
                                                         "analysis_interval")
 
+        if self.__dump_interval == 0:
+            raise Error("The 'dump_interval' parameter must be greater than zero.")
+
+        if self.__analysis_interval == 0:
+            raise Error("The 'analysis_interval' parameter must be greater than zero.")
+
         self.__time_seed = (seed is None)
         self.__seed = checkPositiveInteger(seed,
                                            1,
-- 
2.43.0


From 3192cb49ef1aa34b248190edf11a06d780da8eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 26/41] fix: refuse places of too many elements in the types of
 a configuration

---
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index 8dda56e..96ca885 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -137,7 +137,7 @@ class KMCConfiguration(object):
             return "short"
 
         # Check all elements to see if we have the long format.
-        elif all([isinstance(t, tuple) for t in types]) and all([isinstance(tt, (int, int, int, int, str)[i]) for i,tt in enumerate(types[0])]):
+        elif all([isinstance(t, tuple) for t in types]) and all([isinstance(tt, (int, int, int, int, str)[i]) for i,tt in enumerate(types[0][:5])]):
             return "long"
 
         # No other option left but to assume the buckets format.
-- 
2.43.0


From 86635f120413bcca2bd30b5a055384298eed64dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 27/41] fix: refuse move vectors of coordinates that do not
 exist

---
 python/src/KMCLib/CoreComponents/KMCProcess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index c666171..f7be91c 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -203,10 +203,12 @@ coordinates defining where the moved index goes."""
 
         # Check the format of each element.
         for t in move_vectors:
-            if not isinstance(t, tuple):
+            if not isinstance(t, tuple) or len(t) < 2:
                 raise Error(msg)
             elif not isinstance(t[0], int):
                 raise Error(msg)
+            elif t[0] < 0 or t[0] >= len(self._coordinates):
+                raise Error("The index of each move vector must be that of one of the coordinates.")
             # Check the vector.
             checkSequenceOfFloats(t[1], msg)
             if len(t[1]) != 3:
-- 
2.43.0


From 67417f77099f7dcd3befb7a5965c1e2483db6509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 28/41] fix: refuse parameters that are not a number

---
 python/src/KMCLib/Utilities/CheckUtilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index ca40d47..abc4700 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -281,7 +281,7 @@ def checkPositiveFloat(parameter, default_parameter, parameter_name):
         raise Error(msg)
 
     # Check value.
-    if parameter < 0.0:
+    if not parameter >= 0.0:
         raise Error(msg)
 
     # Checked.
-- 
2.43.0


From 0ce7ebe0203c00f76c1f29def09f5c538d3864ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 29/41] fix: check the update information of bucket processes

---
 .../KMCLib/CoreComponents/KMCBucketProcess.py | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
index 34f6be6..5aa624b 100644
--- a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
@@ -12,6 +12,7 @@ import numpy
 from KMCLib.CoreComponents.KMCBaseProcess import KMCBaseProcess
 from KMCLib.CoreComponents.KMCLocalConfiguration import KMCLocalConfiguration
 from KMCLib.Utilities.CheckUtilities import checkAndNormaliseBucketEntry
+from KMCLib.Utilities.CheckUtilities import checkSequence
 from KMCLib.Exceptions.Error import Error
 from KMCLib.Backend import Backend
 
@@ -51,6 +52,7 @@ class KMCBucketProcess(KMCBaseProcess):
         super(KMCBucketProcess, self).__init__(coordinates, basis_sites, rate_constant)
 
         # Check the minimum match.
+        minimum_match = checkSequence(minimum_match, "The 'minimum_match' information to a KMCBucketProcess constructor must be given as a list.")
         self.__minimum_match = [checkAndNormaliseBucketEntry(m) for m in minimum_match]
 
         if not len(self.__minimum_match) == len(coordinates):
@@ -105,8 +107,22 @@ class KMCBucketProcess(KMCBaseProcess):
         :param update_info: The update information to check.
         :returns: The checked update information.
         """
-        # FIXME
-        return update_info
+        msg = "The 'update' information to a KMCBucketProcess constructor must be given as a list with a list of tuples of format (int, str) for each coordinate."
+        update_info = checkSequence(update_info, msg)
+
+        checked_update = []
+        for entry in update_info:
+            # A wildcard does not change anything.
+            if isinstance(entry, str) and entry == "*":
+                entry = []
+            if not isinstance(entry, (list, tuple)):
+                raise Error(msg)
+            for e in entry:
+                if not isinstance(e, tuple) or len(e) != 2 or not isinstance(e[0], int) or not isinstance(e[1], str):
+                    raise Error(msg)
+            checked_update.append(entry)
+
+        return checked_update
 
     def _update(self):
         """
-- 
2.43.0


From 37b7723dfb79634737cd0f3ad7620f7b6145e070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 30/41] fix: add up the changes of a type that is listed twice
 in an update

---
 python/src/KMCLib/CoreComponents/KMCBucketProcess.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
index 5aa624b..970c85d 100644
--- a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
@@ -141,7 +141,10 @@ class KMCBucketProcess(KMCBaseProcess):
                 # Convert to C++
                 cpp_map = Backend.StdMapStringInt()
                 for e in update_entry:
-                    cpp_map[e[1]] = e[0]
+                    if e[1] in cpp_map:
+                        cpp_map[e[1]] = cpp_map[e[1]] + e[0]
+                    else:
+                        cpp_map[e[1]] = e[0]
 
                 # Add.
                 self.__cpp_update.push_back(cpp_map)
-- 
2.43.0


From 674c24ce5ece18e13e411486fec2d752b887c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 31/41] fix: refuse negative numbers of particles

---
 python/src/KMCLib/Utilities/CheckUtilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index abc4700..44b7b76 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -307,6 +307,8 @@ def checkAndNormaliseBucketEntry(t):
             elif isinstance(tt, tuple):
                 if not len(tt) == 2 or not isinstance(tt[0], int) or not isinstance(tt[1], str):
                     raise Error("Bucket type given as a tuple must be of format (int, str).")
+                if tt[0] < 0:
+                    raise Error("The number of particles of a type in a bucket may not be negative.")
                 normalised_type.append(tt)
             else:
                 raise Error("Bucket entry given as a list must only contain particles, str, or numbered particles (int, str) or a combination of the two.")
@@ -340,6 +342,8 @@ def checkAndNormaliseBucketEntry(t):
     elif isinstance(t, tuple):
         if not len(t) == 2 or not isinstance(t[0], int) or not isinstance(t[1], str):
             raise Error("Bucket type given as a tuple must be of format (int, str).")
+        if t[0] < 0:
+            raise Error("The number of particles of a type in a bucket may not be negative.")
         return [t]
     elif isinstance(t, str):
         return [(1,t)]
-- 
2.43.0


From 9873a25ea0d30037f2e9d98092cc2668eb25643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 32/41] fix: refuse possible types that are listed twice

---
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index 96ca885..2cdc026 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -104,6 +104,10 @@ class KMCConfiguration(object):
             if not isinstance(possible_types, list) or not all([isinstance(pt,str) for pt in possible_types]):
                 raise Error("The possible types must be given as a list of strings.")
 
+            # Check that no type is listed twice.
+            if len(set(possible_types)) != len(possible_types):
+                raise Error("Each type may be given only once in the list of possible types.")
+
             # Check that each present type is in the list of possible types.
             possible_set = set(possible_types)
             present_set = set(all_types_present)
-- 
2.43.0


From 25838ea0a72d7038d6d20bd60e57bd44b568c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 33/41] fix: refuse random number generators that are not given
 as a string

---
 python/src/KMCLib/CoreComponents/KMCControlParameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCControlParameters.py b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
index 50e4d96..4d52627 100644
--- a/python/src/KMCLib/CoreComponents/KMCControlParameters.py
+++ b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
@@ -131,7 +131,7 @@ class KMCControlParameters(object):
                      "DEVICE"   : Backend.DEVICE,
                      }
 
-        if not rng_type in rng_dict:
+        if not isinstance(rng_type, str) or not rng_type in rng_dict:
             raise Error("'rng_type' input must be one of the supported types. Check the documentation for the list of supported types. Default is 'MT' (Mersenne-Twister) [std::mt19937].")
 
         return rng_dict[rng_type]
-- 
2.43.0


From cf12c4187d9031154b3ff72af614f170c9de1c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 34/41] fix: a model whose events all have rate zero cannot
 take a step

---
 python/src/KMCLib/CoreComponents/KMCLatticeModel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index a325ca6..0f35ab2 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -168,7 +168,8 @@ must be given as string."""
             self.__printMatchInfo(cpp_model)
 
         # Check that we have at least one available process to run the KMC simulation.
-        if cpp_model.interactions().totalAvailableSites() == 0:
+        # With all rates zero nothing can happen, either.
+        if cpp_model.interactions().totalAvailableSites() == 0 or cpp_model.interactions().totalRate() <= 0.0:
             raise Error("No available processes. None of the processes defined as input match any position in the configuration. Change the initial configuration or processes to run KMC.")
 
         # Setup a trajectory object.
@@ -219,7 +220,7 @@ must be given as string."""
 
                 # Check if it is possible to take a step.
                 nP = cpp_model.interactions().totalAvailableSites()
-                if nP == 0:
+                if nP == 0 or cpp_model.interactions().totalRate() <= 0.0:
                     raise Error("No more available processes.")
 
                 # Take a step.
-- 
2.43.0


From 67dc5837f060875391d5bc9a29ea5f0efc769873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 35/41] fix: bucket processes that require many particles
 crashed

The multiplicity was calculated with factorials in integers, which overflow
to zero for 34 particles and above, and divided by.
---
 c++/src/matchlist.cpp | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/c++/src/matchlist.cpp b/c++/src/matchlist.cpp
index 20d3ffa..1c9bb90 100644
--- a/c++/src/matchlist.cpp
+++ b/c++/src/matchlist.cpp
@@ -147,7 +147,8 @@ double multiplicity(const ProcessBucketMatchList & process_match_list,
     ProcessBucketMatchList::const_iterator end = process_match_list.end();
     ConfigBucketMatchList::const_iterator it2  = config_match_list.begin();
 
-    int m = 1;
+    // The factorials do not fit into integers already for moderate numbers.
+    double m = 1.0;
 
     for ( ; it1 != end; ++it1, ++it2 )
     {
@@ -166,30 +167,12 @@ double multiplicity(const ProcessBucketMatchList & process_match_list,
                     // Local variables we need.
                     const int n = t2[i];
                     const int r = t1[i];
-                    const int n_minus_r = n - r;
-                    const int max = std::max(r, n_minus_r);
-                    const int min = std::min(r, n_minus_r);
+                    const int min = std::min(r, n - r);
 
-                    if (min != 0)
+                    // Calculate n! / (r!(n-r)!)
+                    for (int j = 1; j <= min; ++j)
                     {
-                        // Calculate n! / (r!(n-r)!)
-
-                        // Get the numerator.
-                        int local_n = t2[i];
-                        for (int j = t2[i] - 1; j > max; --j)
-                        {
-                            local_n *= j;
-                        }
-
-                        // Calculate the denominator.
-                        int local_r = min;
-                        for (int j = min-1; j > 0; --j)
-                        {
-                            local_r *= j;
-                        }
-
-                        // Multiply m by (n! / (r! (n-r)!))
-                        m *= (local_n / local_r);
+                        m = m * (n - min + j) / j;
                     }
                 }
             }
@@ -197,5 +180,5 @@ double multiplicity(const ProcessBucketMatchList & process_match_list,
     }
 
     // Done.
-    return static_cast<double>(m);
+    return m;
 }
-- 
2.43.0


From 6b3c98952a8364597dbdccdaad917288d1826ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:04 +0000
Subject: [PATCH 36/41] fix: interactions and processes used in a second model
 kept the types and the matching of the first

The C++ interactions and local configurations were set up for the types of the
configuration of the first model, and the copies of the interactions in the
models shared their processes.
---
 c++/src/interactions.cpp                      | 29 +++++++++++++++++++
 c++/src/interactions.h                        |  6 ++++
 .../KMCLib/CoreComponents/KMCInteractions.py  |  7 ++++-
 .../KMCLib/CoreComponents/KMCLatticeModel.py  |  3 ++
 .../CoreComponents/KMCLocalConfiguration.py   |  4 ++-
 5 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index 8b05f13..2bb9e2d 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -83,6 +83,35 @@ Interactions::Interactions(const std::vector<CustomRateProcess> & processes,
 }
 
 
+// -----------------------------------------------------------------------------
+//
+Interactions::Interactions(const Interactions & other) :
+    processes_(other.processes_),
+    custom_rate_processes_(other.custom_rate_processes_),
+    process_pointers_(other.process_pointers_.size(), NULL),
+    probability_table_(other.probability_table_),
+    implicit_wildcards_(other.implicit_wildcards_),
+    use_custom_rates_(other.use_custom_rates_),
+    rate_calculator_placeholder_(RateCalculator()),
+    rate_calculator_(other.use_custom_rates_ ? other.rate_calculator_ : rate_calculator_placeholder_)
+{
+    // Point the process pointers to the processes of this object.
+    for (size_t i = 0; i < process_pointers_.size(); ++i)
+    {
+        if (use_custom_rates_)
+        {
+            process_pointers_[i] = &custom_rate_processes_[i];
+        }
+        else
+        {
+            process_pointers_[i] = &processes_[i];
+        }
+    }
+
+    // DONE
+}
+
+
 // -----------------------------------------------------------------------------
 //
 int Interactions::maxRange() const
diff --git a/c++/src/interactions.h b/c++/src/interactions.h
index 648d931..5d81699 100644
--- a/c++/src/interactions.h
+++ b/c++/src/interactions.h
@@ -49,6 +49,12 @@ public:
                  const bool implicit_wildcards,
                  const RateCalculator & rate_calculator);
 
+    /*! \brief Copy constructor, needed since the pointers to the processes must
+     *         point to those of the copy.
+     *  \param other : The interactions to copy.
+     */
+    Interactions(const Interactions & other);
+
     /*! \brief Get the max range of all processes.
      *  \return : The max range in shells.
      */
diff --git a/python/src/KMCLib/CoreComponents/KMCInteractions.py b/python/src/KMCLib/CoreComponents/KMCInteractions.py
index b275f12..750ca69 100644
--- a/python/src/KMCLib/CoreComponents/KMCInteractions.py
+++ b/python/src/KMCLib/CoreComponents/KMCInteractions.py
@@ -57,6 +57,7 @@ class KMCInteractions(object):
 
         # Set the backend to be generated at first query.
         self.__backend = None
+        self.__backend_configuration = None
 
         # Set the rate calculator.
         self.__rate_calculator = None
@@ -156,7 +157,8 @@ be a class (not instantiated) inheriting from the KMCRateCalculatorPlugin. """
 
         :returns: The interactions object in C++
         """
-        if self.__backend is None:
+        # The backend depends on the types of the configuration.
+        if self.__backend is None or self.__backend_configuration is not configuration:
 
             # Check the possible_types against the types in the processes.
             for process_number, process in enumerate(self.__processes):
@@ -269,6 +271,9 @@ the KMCRateCalculatorPlugin class itself. """
                 self.__backend = Backend.Interactions(cpp_processes,
                                                       self.__implicit_wildcards)
 
+            # Remember which configuration this was set up for.
+            self.__backend_configuration = configuration
+
         # Return the stored backend.
         return self.__backend
 
diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 0f35ab2..eb64423 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -76,6 +76,9 @@ class KMCLatticeModel(object):
             cpp_interactions = self.__interactions._backend(self.__configuration.possibleTypes(),
                                                             cpp_lattice_map.nBasis(),
                                                             self.__configuration)
+            # The C++ interactions refer to the rate calculator.
+            self.__rate_calculator = self.__interactions.rateCalculator()
+
             # Construct a timer.
             self.__cpp_timer = Backend.SimulationTimer()
 
diff --git a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
index c138598..9ecb0cf 100644
--- a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
@@ -76,6 +76,7 @@ class KMCLocalConfiguration(object):
 
         # Set the backend to None, to generate it at first query.
         self.__backend = None
+        self.__backend_possible_types = None
 
     def coordinates(self):
         """
@@ -102,7 +103,7 @@ class KMCLocalConfiguration(object):
 
         :returns: The interactions object in C++
         """
-        if self.__backend is None:
+        if self.__backend is None or self.__backend_possible_types != possible_types:
 
             # Construct the c++ backend object.
             cpp_types = bucketListToStdVectorStdVectorString(self.__types)
@@ -114,6 +115,7 @@ class KMCLocalConfiguration(object):
             self.__backend = Backend.Configuration(cpp_coords,
                                                    cpp_types,
                                                    cpp_possible_types)
+            self.__backend_possible_types = dict(possible_types)
 
         # Return the backend.
         return self.__backend
-- 
2.43.0


From bfda7948ed4241c4c35049a32c3ae54a99fccdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:47 +0000
Subject: [PATCH 37/41] fix: models that share a configuration did not see each
 other's changes of it

---
 .../KMCLib/CoreComponents/KMCConfiguration.py    | 16 ++++++++++++++++
 .../src/KMCLib/CoreComponents/KMCLatticeModel.py |  8 ++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index 2cdc026..0d1f80e 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -72,6 +72,9 @@ class KMCConfiguration(object):
         # Wait with setting up the backend until we need it.
         self.__backend = None
 
+        # The C++ model that was last set up for this configuration.
+        self.__matched_by = None
+
     def __checkAndSetTypes(self, types, default_type, possible_types):
         """ """
         """
@@ -335,6 +338,19 @@ class KMCConfiguration(object):
         """
         return self.__backend.typeNames()
 
+    def _isMatchedBy(self, cpp_model):
+        """
+        Query if the given C++ model is the last one set up for this configuration,
+        i.e. the one that keeps track of the changes of it.
+        """
+        return self.__matched_by is cpp_model
+
+    def _setMatchedBy(self, cpp_model):
+        """
+        Set the C++ model that keeps track of the changes of this configuration.
+        """
+        self.__matched_by = cpp_model
+
     def _latticeMap(self):
         """
         Get a c++ lattice map describing the lattice.
diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index eb64423..bad73b8 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -59,6 +59,7 @@ class KMCLatticeModel(object):
 
         # Set the backend to be generated at first query.
         self.__backend = None
+        self.__cpp_timer = None
 
         # Set the verbosity level of output to minimal.
         self.__verbosity_level = 0
@@ -69,7 +70,8 @@ class KMCLatticeModel(object):
 
         :returns: The C++ LatticeModel based on the parameters given to this class on construction.
         """
-        if self.__backend is None:
+        # Another model that uses the same configuration can have changed it.
+        if self.__backend is None or not self.__configuration._isMatchedBy(self.__backend):
             # Setup the C++ objects we need.
             cpp_config       = self.__configuration._backend()
             cpp_lattice_map  = self.__configuration._latticeMap()
@@ -80,13 +82,15 @@ class KMCLatticeModel(object):
             self.__rate_calculator = self.__interactions.rateCalculator()
 
             # Construct a timer.
-            self.__cpp_timer = Backend.SimulationTimer()
+            if self.__cpp_timer is None:
+                self.__cpp_timer = Backend.SimulationTimer()
 
             # Construct the backend object.
             self.__backend = Backend.LatticeModel(cpp_config,
                                                   self.__cpp_timer,
                                                   cpp_lattice_map,
                                                   cpp_interactions)
+            self.__configuration._setMatchedBy(self.__backend)
         # Return.
         return self.__backend
 
-- 
2.43.0


From e19d8f11a760279e668c92b208bd9e15fca01d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:20 +0000
Subject: [PATCH 38/41] fix: wrong cells of the sites of lattices with many
 cells

---
 c++/src/latticemap.cpp | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/c++/src/latticemap.cpp b/c++/src/latticemap.cpp
index 6b008df..1d5cd6f 100644
--- a/c++/src/latticemap.cpp
+++ b/c++/src/latticemap.cpp
@@ -282,24 +282,13 @@ void LatticeMap::indexToCell(const int index,
                              int & cell_k) const
 {
     // Given an index, calculate the cell i,j,k.
-    const double eps   = 1.0e-9;
-    const int idx      = index / n_basis_ + 1;
-    const int factor_i = repetitions_[1] * repetitions_[2];
-    const int ii       = static_cast<int>((idx - eps) / factor_i);
-
-    const int ci       = ii * factor_i;
-    const int factor_j = repetitions_[2];
-    const int idx_j    = idx - ci;
-    const int jj       = static_cast<int>((idx_j - eps) / factor_j);
-
-    const int cij      = ci + jj * factor_j;
-    const int idx_k    = idx - cij;
-    const int kk       = static_cast<int>(idx_k - eps);
+    const int idx   = index / n_basis_;
+    const int idx_j = idx / repetitions_[2];
 
     // Set the result.
-    cell_i = ii;
-    cell_j = jj;
-    cell_k = kk;
+    cell_k = idx % repetitions_[2];
+    cell_j = idx_j % repetitions_[1];
+    cell_i = idx_j / repetitions_[1];
 
     // DONE
 }
-- 
2.43.0


From 2b39c74e9daf8f9af1dcdb7646795ca8d03ca083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 39/41] fix: names of types with quotes or backslashes in
 scripts and trajectories

---
 .../src/KMCLib/CoreComponents/KMCConfiguration.py   |  4 ++--
 python/src/KMCLib/CoreComponents/KMCProcess.py      |  4 ++--
 .../Utilities/Trajectory/LatticeTrajectory.py       | 13 +++++++------
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index 0d1f80e..21123a1 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -382,7 +382,7 @@ class KMCConfiguration(object):
         nT = len(self.__types)
         for i,t in enumerate(self.__types):
             # Add the type.
-            line += "'" + t + "'"
+            line += repr(str(t))
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
@@ -406,7 +406,7 @@ class KMCConfiguration(object):
         nT = len(possible_types)
         for i,t in enumerate(possible_types):
             # Add the type.
-            line += "'" + t + "'"
+            line += repr(str(t))
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index f7be91c..a5533eb 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -405,7 +405,7 @@ coordinates defining where the moved index goes."""
         nT = len(self._elements_before)
         for i,t in enumerate(self._elements_before):
             # Add the type.
-            line += "'" + t + "'"
+            line += repr(str(t))
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
@@ -427,7 +427,7 @@ coordinates defining where the moved index goes."""
         nT = len(self._elements_after)
         for i,t in enumerate(self._elements_after):
             # Add the type.
-            line += "'" + t + "'"
+            line += repr(str(t))
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
diff --git a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
index 5fb8f09..ffb202f 100644
--- a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
+++ b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
@@ -8,6 +8,7 @@
 #
 
 
+import json
 import sys
 import time
 
@@ -156,7 +157,7 @@ class LatticeTrajectory(Trajectory):
                     if isinstance(types[0], str):
                         for t in types[:-1]:
                             row_length += len(t) + 2
-                            types_str += "\"" + t + "\"" + ","
+                            types_str += json.dumps(t, ensure_ascii=False) + ","
 
                             # Berak the row if above 70 positions.
                             if row_length >= 70:
@@ -164,7 +165,7 @@ class LatticeTrajectory(Trajectory):
                                 row_length = len(indent)
 
                         # Add the last type.
-                        types_str += "\"" + types[-1] + "\"" + "])\n"
+                        types_str += json.dumps(types[-1], ensure_ascii=False) + "])\n"
 
                     # With bucket types.
                     else:
@@ -176,10 +177,10 @@ class LatticeTrajectory(Trajectory):
                             # Start the types for this site.
                             types_str += "["
                             for t in bt[:-1]:
-                                types_str += "(" + str(t[0]) + ",\"" + t[1] + "\"),"
+                                types_str += "(" + str(t[0]) + "," + json.dumps(t[1], ensure_ascii=False) + "),"
                             if len(bt) > 0:
                                 t = bt[-1]
-                                types_str += "(" + str(t[0]) + ",\"" + t[1] + "\")"
+                                types_str += "(" + str(t[0]) + "," + json.dumps(t[1], ensure_ascii=False) + ")"
                                 types_str += "],\n" + indent
 
                             else:
@@ -189,10 +190,10 @@ class LatticeTrajectory(Trajectory):
                         bt = bucket_types[-1]
                         types_str += "["
                         for t in bt[:-1]:
-                            types_str += "(" + str(t[0]) + ",\"" + t[1] + "\"),"
+                            types_str += "(" + str(t[0]) + "," + json.dumps(t[1], ensure_ascii=False) + "),"
                         if len(bt) > 0:
                             t = bt[-1]
-                            types_str += "(" + str(t[0]) + ",\"" + t[1] + "\")]"
+                            types_str += "(" + str(t[0]) + "," + json.dumps(t[1], ensure_ascii=False) + ")]"
                         else:
                             types_str += "]"
 
-- 
2.43.0


From 16178648289d9f4081ca9611e3c8ec053c0d2b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:36 +0000
Subject: [PATCH 40/41] fix: move vectors that are not pairs are refused with
 the error of the package

---
 python/src/KMCLib/CoreComponents/KMCProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index a5533eb..099caba 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -203,7 +203,7 @@ coordinates defining where the moved index goes."""
 
         # Check the format of each element.
         for t in move_vectors:
-            if not isinstance(t, tuple) or len(t) < 2:
+            if not isinstance(t, tuple) or len(t) != 2:
                 raise Error(msg)
             elif not isinstance(t[0], int):
                 raise Error(msg)
-- 
2.43.0


From e3091322772907db268543de7405292505e395bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:42 +0000
Subject: [PATCH 41/41] fix: models keep their own copy of the lists and arrays
 they are made from

---
 .../src/KMCLib/CoreComponents/KMCBucketProcess.py   |  2 +-
 python/src/KMCLib/CoreComponents/KMCProcess.py      |  2 +-
 python/src/KMCLib/Utilities/CheckUtilities.py       | 13 +++++++------
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
index 970c85d..3790ea8 100644
--- a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
@@ -120,7 +120,7 @@ class KMCBucketProcess(KMCBaseProcess):
             for e in entry:
                 if not isinstance(e, tuple) or len(e) != 2 or not isinstance(e[0], int) or not isinstance(e[1], str):
                     raise Error(msg)
-            checked_update.append(entry)
+            checked_update.append(list(entry))
 
         return checked_update
 
diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index 099caba..24ba698 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -214,7 +214,7 @@ coordinates defining where the moved index goes."""
             if len(t[1]) != 3:
                 raise Error(msg)
         # Passed all tests.
-        return move_vectors
+        return [(t[0], list(t[1])) for t in move_vectors]
 
     def __reconstructMoveVectors(self):
         """
diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index 44b7b76..58b7628 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -8,6 +8,7 @@
 #
 
 
+import copy
 import numpy
 
 from KMCLib.Exceptions.Error import Error
@@ -73,8 +74,8 @@ def checkCellVectors(cell_vectors):
     if cell_determinant < 0.00001:
         raise Error("The unit cell vectors are linearly dependent with determinant = %f."%(cell_determinant))
 
-    # Done checking.
-    return cell_vectors
+    # Done checking. Later changes to the input are of no concern to the one who checked it.
+    return numpy.array(cell_vectors)
 
 
 def checkCoordinateList(coordinates, varname="coordinates"):
@@ -127,8 +128,8 @@ def checkSequence(sequence, msg="The tested object is not a sequence."):
     if not ('__len__' in dir(sequence)):
         raise Error(msg)
 
-    # Done.
-    return sequence
+    # Done. Later changes to the input are of no concern to the one who checked it.
+    return copy.copy(sequence)
 
 
 def checkSequenceOfPositiveIntegers(sequence, msg="The tested object is not a sequence of positive integers."):
@@ -222,8 +223,8 @@ def checkTypes(types, length):
     if len(types) != length:
         raise Error("The length of the 'types' parameter must match the coordinates.")
 
-    # Done.
-    return types
+    # Done. Later changes to the input are of no concern to the one who checked it.
+    return list(types)
 
 
 def checkPositiveInteger(parameter, default_parameter, parameter_name):
-- 
2.43.0

