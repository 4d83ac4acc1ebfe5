From a160622c9fe741d5516f2ea07786322e9266ff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:54 +0000
Subject: [PATCH 01/26] fix: rebuild a cluster's cumulative hop distributions
 instead of appending to them

updateProbabilitiesAndTimeConstant() appended to the cumulative
distributions, so after a second update (sites added, clusters merged) the
picks still followed the old distribution: new sites were never chosen and
an exit could lead to a site that had become internal.
---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index c813414..b514cfa 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -608,6 +608,7 @@ void Cluster::calculateProbabilityHopToInternalSite_() {
       });
 
   total = 0.0;
+  cumulitive_probabilityHopToInternalSite_.clear();
   for(pair<int,double> site_and_prob : probabilityHopToInternalSite_){
     site_and_prob.second+=total;
     total = site_and_prob.second;
@@ -660,6 +661,7 @@ void Cluster::calculateProbabilityHopToNeighbors_() {
       });
 
   total = 0.0;
+  cumulitive_probabilityHopToNeighbor_.clear();
   for(pair<int,double>  site_and_prob : probabilityHopToNeighbor_){
     site_and_prob.second+=total;
     total = site_and_prob.second;
-- 
2.43.0


From a7c5cb5c822931aafdaa574a030e5fd266f4090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:54 +0000
Subject: [PATCH 02/26] fix: forget the remaining dwell time of a walker
 removed from a cluster

The cluster never installed its removal handler, so a walker that was
removed and later came back under the same id continued the old sojourn.
---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index b514cfa..118b508 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -62,6 +62,7 @@ Cluster::Cluster() : TopologyFeature() {
   occupy_siteId_ptr_ = occupyCluster_;
   vacate_siteId_ptr_ = vacateCluster_;
   isOccupied_siteId_ptr_ = isOccupiedCluster_;
+  remove_ptr_ = removeWalkerCluster_;
 
 }
 
-- 
2.43.0


From b18406b2cef436cb2ae368b686b3e175459df332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:21 +0000
Subject: [PATCH 03/26] fix: keep a cluster's occupancy count in step with its
 sites

vacate(site) lowered the cluster's count but occupy(site) never raised it,
and sites that were already occupied when they joined (or arrived with an
absorbed cluster) were not counted, so the count drifted below zero and an
occupied cluster reported itself free.
---
 .../src/libmythical/topologyfeatures/cluster.cpp           | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 118b508..c2e6df3 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -28,7 +28,7 @@ void occupyCluster_(TopologyFeature* feature, const int& siteId){
   
   Site & site = cluster->sitesInCluster_[siteId];
   assert(cluster->site_visits_.count(siteId));
-  ++cluster->total_visit_freq_; 
+  cluster->occupy();
   site.setToOccupiedStatus(); 
 }
 
@@ -71,6 +71,7 @@ void Cluster::addSite(Site& newSite) {
       "added to the cluster");
   newSite.setClusterId(this->getId());
   sitesInCluster_[newSite.getId()] = newSite;
+  if(newSite.isOccupied()) ++occupied_;
 
 }
 
@@ -80,6 +81,7 @@ void Cluster::addSites(vector<Site>& newSites) {
         "added to the cluster");
     site.setClusterId(this->getId());
     sitesInCluster_[site.getId()] = site;
+    if(site.isOccupied()) ++occupied_;
   }
 }
 
@@ -152,6 +154,9 @@ void Cluster::migrateSitesFrom(Cluster& cluster) {
       cluster.sitesInCluster_.end(),
       inserter(this->sitesInCluster_,this->sitesInCluster_.end()));
 
+  occupied_ += cluster.occupied_;
+  cluster.occupied_ = 0;
+
   // Change the cluster so that it will not be used unless sites are added 
   cluster.sitesInCluster_.clear();
   cluster.probabilityOnSite_.clear();
-- 
2.43.0


From 1073113318e1d34e0423d586864cd482fa168ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:21 +0000
Subject: [PATCH 04/26] fix: normalise the internal hop probabilities, not the
 escape probabilities

The loop over the internal hop probabilities divided the escape
probabilities by the internal sum, which inflated the escape time constant
of every cluster.
---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index c2e6df3..ac9ee65 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -515,8 +515,8 @@ void Cluster::calculateProbabilityHopBetweenInternalSite_() {
   }
 
   // Normalize
-  for(auto site : probabilityHopBetweenInternalSite_){
-    probabilityHopOffInternalSite_[site.first]/=sum_internal;
+  for(auto & site : probabilityHopBetweenInternalSite_){
+    site.second/=sum_internal;
   }
   
 }
-- 
2.43.0


From 73c3191b29a2268054348097b9abd0859f5b7d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:49 +0000
Subject: [PATCH 05/26] fix: count the time on sites that cannot leave the
 cluster in its escape time

Sites without a rate off the cluster were left out, so a cluster in which
one of two equivalent sites has the only way out escaped twice as fast as
the sites it replaces.
---
 .../src/libmythical/topologyfeatures/cluster.cpp   | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index ac9ee65..84eac4d 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -565,12 +565,16 @@ void Cluster::calculateEscapeTimeConstant_() {
   if(getRatesToNeighborsOfCluster_().size()==0){
     escape_time_constant_ = constants::unassigned_value;
   }else{
-    for( auto site_prob : probabilityHopOffInternalSite_ ){
-      auto rate_off = sumOfEscapeRateFromSiteToNeighbor_[site_prob.first];
-      if(rate_off>0){
-        escape_time_constant_ += 1.0/rate_off *site_prob.second ;
-      }
+    // Mean time spent on the sites divided by the mean number of escapes in
+    // that time, sites with no rate off the cluster take time as well
+    double time_on_sites = 0.0;
+    double escapes = 0.0;
+    for( auto site_prob : probabilityOnSite_ ){
+      double time_on_site = site_prob.second*sitesInCluster_[site_prob.first].getTimeConstant();
+      time_on_sites += time_on_site;
+      escapes += time_on_site*sumOfEscapeRateFromSiteToNeighbor_[site_prob.first];
     }
+    escape_time_constant_ = time_on_sites/escapes;
   }
   time_increment_ = TopologyFeature::escape_time_constant_/resolution_;
 }
-- 
2.43.0


From 520d440485126184ea0c2de01dbcfbe137951607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:33 +0000
Subject: [PATCH 06/26] fix: make a cluster's visit counts independent of the
 unit of time

The estimate multiplied a time by a time before dividing by one, so the
visits of clustered sites scaled with the unit the rates are expressed in
(with rates of 1e12/s they were all zero), and every recorded visit was
taken to last the full time increment although the last one of a stay does
not. Use the mean time per recorded visit over the mean time per hop.
---
 .../src/libmythical/topologyfeatures/cluster.cpp    | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 84eac4d..742318b 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -248,11 +248,16 @@ int Cluster::getVisitFrequency(const int & siteId){
 
   if(total_visit_freq_!=prev_total_visit_freq_){
     double difference = total_visit_freq_ - prev_total_visit_freq_; 
+    // Mean time between two hops of a walker within the cluster
+    double time_per_hop = 0.0;
     for(auto site_visit : site_visits_){
-      double visits = static_cast<double>(difference)*probabilityOnSite_[site_visit.first]*sitesInCluster_.at(site_visit.first).getTimeConstant();
-      visits = visits/internal_dwell_time_.at(site_visit.first);
-      visits = escape_time_constant_*visits;
-      visits = visits/resolution_;
+      time_per_hop += probabilityOnSite_[site_visit.first]*sitesInCluster_.at(site_visit.first).getTimeConstant();
+    }
+    // Mean time of a recorded visit, the last one of a stay ends when the
+    // walker leaves the cluster and is shorter than the time increment
+    double time_per_visit = escape_time_constant_*(1.0-exp(-1.0/resolution_));
+    for(auto site_visit : site_visits_){
+      double visits = difference*time_per_visit/time_per_hop*probabilityOnSite_[site_visit.first];
       site_visits_[site_visit.first] += round(visits);
     }
     prev_total_visit_freq_ = total_visit_freq_;
-- 
2.43.0


From 756ef7df9d64d91ddbb3054edbf065bdd00be2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:33 +0000
Subject: [PATCH 07/26] fix: do not round a cluster's visit counts every time
 they are read

The stored counts were rounded on each read, so reading them often lost
(or invented) visits; the value that is returned is rounded already.
---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 742318b..8f88d84 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -258,7 +258,7 @@ int Cluster::getVisitFrequency(const int & siteId){
     double time_per_visit = escape_time_constant_*(1.0-exp(-1.0/resolution_));
     for(auto site_visit : site_visits_){
       double visits = difference*time_per_visit/time_per_hop*probabilityOnSite_[site_visit.first];
-      site_visits_[site_visit.first] += round(visits);
+      site_visits_[site_visit.first] += visits;
     }
     prev_total_visit_freq_ = total_visit_freq_;
   }
-- 
2.43.0


From c554d4af150359bd0769b40355b7d4cd34f85e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:52 +0000
Subject: [PATCH 08/26] fix: let clusters contain one-way rates between their
 sites

The master equation looked up the reverse rate of every internal rate, so a
cluster with a one-way rate (1->2->3->1, say) hit an assertion, or read past
the end of the probabilities when assertions are off. Push the flow along
each rate instead.
---
 .../src/libmythical/topologyfeatures/cluster.cpp  | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 8f88d84..0408011 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -349,18 +349,19 @@ void Cluster::iterate_() {
     temp_probabilityOnSite[site.first] = probabilityOnSite_[site.first];
   }
   
-  double total = 0.0;
   for (auto site : sitesInCluster_) {
     for (auto neighsite : site.second.getNeighborSiteIds()) {
+      double flow = site.second.getProbabilityOfHoppingToNeighboringSite(neighsite) *
+        probabilityOnSite_[site.first];
       if (siteIsInCluster(neighsite)) {
-        temp_probabilityOnSite[site.first] +=
-          sitesInCluster_[neighsite].getProbabilityOfHoppingToNeighboringSite(site.first) *
-          probabilityOnSite_[neighsite];
+        temp_probabilityOnSite[neighsite] += flow;
       }
-      temp_probabilityOnSite[site.first] -=
-        sitesInCluster_[site.first].getProbabilityOfHoppingToNeighboringSite(neighsite) *
-        probabilityOnSite_[site.first];
+      temp_probabilityOnSite[site.first] -= flow;
     }
+  }
+
+  double total = 0.0;
+  for (auto site : sitesInCluster_) {
     total += temp_probabilityOnSite[site.first];
   }
 
-- 
2.43.0


From fb1dd2eecd90da61dc260fb61ae218dd88b2cb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:30 +0000
Subject: [PATCH 09/26] fix: wrap periodic lattice positions that are more than
 one period below zero

getIndex(-length-1,...) returned a negative index and neighbours reached
across two periods were dropped.
---
 .../charge_transport/cuboid_lattice.cpp           | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 6cc2787..36a6185 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -155,24 +155,15 @@ namespace mythical {
 
 
     int Cuboid::getXPeriodic_( const int x ) const noexcept{
-      if(x<0){
-        return x+length_;
-      }
-      return x % length_;
+      return ((x % length_) + length_) % length_;
     }
 
     int Cuboid::getYPeriodic_( const int y ) const noexcept{
-      if(y<0){
-        return y+width_;
-      }
-      return y % width_;
+      return ((y % width_) + width_) % width_;
     }
 
     int Cuboid::getZPeriodic_( const int z ) const noexcept{
-      if(z<0){
-        return z+height_;
-      }
-      return z % height_;
+      return ((z % height_) + height_) % height_;
     }
 
     void Cuboid::setDistributions_() {
-- 
2.43.0


From 4a72c4e7008db8a8c6090073777159e45d39bf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:30 +0000
Subject: [PATCH 10/26] fix: measure the smallest periodic distance from the
 first site

The second site was placed at the coordinate difference instead of at the
first site plus the difference (and z used the y coordinates), so the result
was only right when the first site was at the origin.
---
 .../libmythical/charge_transport/cuboid_lattice.cpp    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 36a6185..33db6b7 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -504,7 +504,7 @@ namespace mythical {
         const int diff1 = abs(x2 - x1 + length_);
         const int diff2 = abs(x2 - x1 - length_);
         const int diff = min(diff1, diff2); 
-        pos_2.at(0) = min(diff,abs(x2 - x1));
+        pos_2.at(0) = x1 + min(diff,abs(x2 - x1));
       }
       const int y1 = pos_1.at(1);
       const int y2 = pos_2.at(1);
@@ -512,15 +512,15 @@ namespace mythical {
         const int diff1 = abs(y2 - y1 + width_);
         const int diff2 = abs(y2 - y1 - width_);
         const int diff = min(diff1, diff2); 
-        pos_2.at(1) = min(diff,abs(y2 - y1));
+        pos_2.at(1) = y1 + min(diff,abs(y2 - y1));
       }
-      const int z1 = pos_1.at(1);
-      const int z2 = pos_2.at(1);
+      const int z1 = pos_1.at(2);
+      const int z2 = pos_2.at(2);
       if ( z_bound_ == BoundarySetting::Periodic ){
         const int diff1 = abs(z2 - z1 + height_);
         const int diff2 = abs(z2 - z1 - height_);
         const int diff = min(diff1, diff2); 
-        pos_2.at(2) = min(diff,abs(z2 - z1));
+        pos_2.at(2) = z1 + min(diff,abs(z2 - z1));
       }
       return getDistance_(pos_1.at(0), pos_1.at(1), pos_1.at(2), pos_2.at(0), pos_2.at(1), pos_2.at(2));
     }
-- 
2.43.0


From 1c562b7f790358ccfdc5a2b00669042af6dccaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:30 +0000
Subject: [PATCH 11/26] fix: draw random sites of an XY plane over the width,
 and check the plane index

y was drawn from the height of the lattice (out of bounds, or never reaching
part of the plane), and the bounds check could not be true, so a plane that
does not exist was accepted on periodic lattices.
---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 33db6b7..51c1825 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -278,7 +278,7 @@ namespace mythical {
       int y_lattice_pos = plane_index;
       int z_lattice_pos = plane_index;
       if ( plane == Plane::YZ ) {
-        if (x_lattice_pos < 0 && x_lattice_pos >= length_ ) {
+        if (x_lattice_pos < 0 || x_lattice_pos >= length_ ) {
           std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
             "with x pos " + to_string(plane_index) + " when the x"
             "bounds are 0 to " + to_string(length_-1);
@@ -287,7 +287,7 @@ namespace mythical {
         y_lattice_pos = distribution_y_(generator_);
         z_lattice_pos = distribution_z_(generator_);
       } else if ( plane == Plane::XZ ) {
-        if (y_lattice_pos < 0 && y_lattice_pos >= width_ ) {
+        if (y_lattice_pos < 0 || y_lattice_pos >= width_ ) {
           std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
             "with y pos " + to_string(plane_index) + " when the y"
             "bounds are 0 to " + to_string(width_-1);
@@ -296,14 +296,14 @@ namespace mythical {
         x_lattice_pos = distribution_x_(generator_);
         z_lattice_pos = distribution_z_(generator_);
       } else {
-        if (z_lattice_pos < 0 && z_lattice_pos >= height_ ) {
+        if (z_lattice_pos < 0 || z_lattice_pos >= height_ ) {
           std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
             "with z pos " + to_string(plane_index) + " when the z"
             "bounds are 0 to " + to_string(height_-1);
             throw std::invalid_argument(error_msg);
         }
         x_lattice_pos = distribution_x_(generator_);
-        y_lattice_pos = distribution_z_(generator_);
+        y_lattice_pos = distribution_y_(generator_);
       }
       return getIndex(x_lattice_pos,y_lattice_pos,z_lattice_pos);
     }
-- 
2.43.0


From 7bcaf3637b19560b3b4c02d55c94285870848c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:30 +0000
Subject: [PATCH 12/26] fix: reject negative indices when asking for the
 position of a lattice site

---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 51c1825..1178321 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -309,7 +309,7 @@ namespace mythical {
     }
 
     std::vector<int> Cuboid::getPosition(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
@@ -320,7 +320,7 @@ namespace mythical {
     }
 
     int Cuboid::getX(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
@@ -333,7 +333,7 @@ namespace mythical {
     }
 
     int Cuboid::getY(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
@@ -346,7 +346,7 @@ namespace mythical {
     }
 
     int Cuboid::getZ(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
-- 
2.43.0


From fe16303eacd123412a4ad8065848f403b5bf73e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:10 +0000
Subject: [PATCH 13/26] fix: list each neighbour of a lattice site once, at its
 closest image

When the cutoff reaches around a periodic direction the same site was listed
once per image, at different distances, and a cutoff of several hundred
spacings overflowed the size that is reserved for the list.
---
 .../charge_transport/cuboid_lattice.cpp       | 62 +++++++++++++------
 1 file changed, 44 insertions(+), 18 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 1178321..7bdcfc7 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -1,12 +1,32 @@
 
 #include "mythical/charge_transport/cuboid_lattice.hpp"
 
+#include <algorithm>
+#include <cmath>
 #include <iostream>
 #include <string>
 #include <vector>
 #include <stdexcept>
 
 using namespace std;
+
+namespace {
+  // Range of positions that are within reach of pos along one direction of the
+  // lattice. The range of a periodic direction never covers a site twice, it
+  // holds the closest image of each site.
+  std::pair<int,int> getRange(const int pos, const int size, const double reach, const bool periodic) {
+    const int num_sites = static_cast<int>(std::min(std::floor(reach), static_cast<double>(size)));
+    if ( periodic ) {
+      if ( 2*num_sites + 1 > size ) {
+        const int min_pos = pos - (size-1)/2;
+        return std::pair<int,int>(min_pos, min_pos + size - 1);
+      }
+      return std::pair<int,int>(pos - num_sites, pos + num_sites);
+    }
+    return std::pair<int,int>(std::max(pos - num_sites, 0), std::min(pos + num_sites, size - 1));
+  }
+}
+
 namespace mythical {
 
   namespace charge_transport {
@@ -101,20 +121,23 @@ namespace mythical {
     std::vector<std::pair<int,double>> Cuboid::getNeighborDistances_(const std::vector<int> pos_i, const double cutoff) const {
 
       // Calculate the number of sites that will be within the cutoff 
-      int num_sites = static_cast<int>(std::floor(cutoff/inter_site_distance_));  
+      const double reach = cutoff/inter_site_distance_;
 
       const int x = pos_i.at(0);
       const int y = pos_i.at(1);
       const int z = pos_i.at(2);
       const int index = getIndex_(x, y, z);
-      const int x_min = pos_i.at(0) - num_sites;
-      const int x_max = pos_i.at(0) + num_sites;
-      const int y_min = pos_i.at(1) - num_sites;
-      const int y_max = pos_i.at(1) + num_sites;
-      const int z_min = pos_i.at(2) - num_sites;
-      const int z_max = pos_i.at(2) + num_sites;
-
-      const int max_num_neigh =2*num_sites*2*num_sites*2*num_sites;
+      const std::pair<int,int> x_range = getRange(x, length_, reach, isXPeriodic());
+      const std::pair<int,int> y_range = getRange(y, width_, reach, isYPeriodic());
+      const std::pair<int,int> z_range = getRange(z, height_, reach, isZPeriodic());
+      const int x_min = x_range.first;
+      const int x_max = x_range.second;
+      const int y_min = y_range.first;
+      const int y_max = y_range.second;
+      const int z_min = z_range.first;
+      const int z_max = z_range.second;
+
+      const int max_num_neigh = (x_max-x_min+1)*(y_max-y_min+1)*(z_max-z_min+1);
       std::vector<std::pair<int,double>> neighbors;
       neighbors.reserve(max_num_neigh);
 
@@ -360,19 +383,22 @@ namespace mythical {
       checkIndex_(index);
       std::vector<int> pos_i = getPosition(index);
       // Calculate the number of sites that will be within the cutoff 
-      int num_sites = static_cast<int>(std::floor(cutoff/inter_site_distance_));  
+      const double reach = cutoff/inter_site_distance_;
 
       const int x = pos_i.at(0);
       const int y = pos_i.at(1);
       const int z = pos_i.at(2);
-      const int x_min = x - num_sites;
-      const int x_max = x + num_sites;
-      const int y_min = y - num_sites;
-      const int y_max = y + num_sites;
-      const int z_min = z - num_sites;
-      const int z_max = z + num_sites;
-
-      const int max_num_neigh = 2*num_sites*2*num_sites*2*num_sites;
+      const std::pair<int,int> x_range = getRange(x, length_, reach, isXPeriodic());
+      const std::pair<int,int> y_range = getRange(y, width_, reach, isYPeriodic());
+      const std::pair<int,int> z_range = getRange(z, height_, reach, isZPeriodic());
+      const int x_min = x_range.first;
+      const int x_max = x_range.second;
+      const int y_min = y_range.first;
+      const int y_max = y_range.second;
+      const int z_min = z_range.first;
+      const int z_max = z_range.second;
+
+      const int max_num_neigh = (x_max-x_min+1)*(y_max-y_min+1)*(z_max-z_min+1);
       std::vector<int> neighbors;
       neighbors.reserve(max_num_neigh);
 
-- 
2.43.0


From 1881381d3ef8848aa3813433308b1ae0b95f2dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:10 +0000
Subject: [PATCH 14/26] fix: return all neighbour pairs when asking for the
 whole lattice

Only the octant of smaller coordinates was scanned, so pairs such as
(0,1,0)-(1,0,0) were missing once the cutoff reaches a diagonal, and on small
periodic lattices the distance to a further image replaced the smallest one.
---
 .../charge_transport/cuboid_lattice.cpp       | 54 ++-----------------
 1 file changed, 3 insertions(+), 51 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 7bdcfc7..ef955ca 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -458,61 +458,13 @@ namespace mythical {
 
     std::unordered_map<int, std::unordered_map<int,double>> Cuboid::getNeighborDistances(const double cutoff) const {
 
-      // Calculate the number of sites that will be within the cutoff 
-      int num_sites = static_cast<int>(std::floor(cutoff/inter_site_distance_));  
-      
       int total_num_sites = length_*width_*height_;
-      // So as not to return redundant info, only provide distance if the 
-      // neighbor has a smaller index
       std::unordered_map<int, std::unordered_map<int, double>> neigh_distances;
 
       for ( int index = 0; index < total_num_sites; ++index ) {
-        
-        std::vector<int> pos_i = getPos_(index);
-        const int x = pos_i.at(0);
-        const int y = pos_i.at(1);
-        const int z = pos_i.at(2);
-
-        const int x_min = x - num_sites;
-        const int x_max = x;
-        const int y_min = y - num_sites;
-        const int y_max = y;
-        const int z_min = z - num_sites;
-        const int z_max = z;
-
-        for ( int x_ind = x_min; x_ind <= x_max; ++x_ind ) {
-          int x_lattice_pos = x_ind;
-          if ( x_bound_ == BoundarySetting::Periodic ) {
-            x_lattice_pos = getXPeriodic_(x_ind);
-          }       
-          if ( x_lattice_pos >= 0 && x_lattice_pos < length_ ) {
-            for ( int y_ind = y_min; y_ind <= y_max; ++y_ind ) {
-              int y_lattice_pos = y_ind;
-              if ( y_bound_ == BoundarySetting::Periodic ) {
-                y_lattice_pos = getYPeriodic_(y_ind);
-              }       
-              if ( y_lattice_pos >= 0 && y_lattice_pos < width_ ) {
-                for ( int z_ind = z_min; z_ind <= z_max; ++z_ind ){
-                  int z_lattice_pos = z_ind;
-
-                  if ( z_bound_ == BoundarySetting::Periodic ) {
-                    z_lattice_pos = getZPeriodic_(z_ind);
-                  }       
-                  if ( z_lattice_pos >= 0 && z_lattice_pos < height_ ) {
-                    double dist = getDistance_(x_ind, y_ind, z_ind, pos_i.at(0), pos_i.at(1), pos_i.at(2));
-                    if ( dist <= cutoff ) {
-                      int neigh_index = getIndex_(x_lattice_pos, y_lattice_pos, z_lattice_pos);
-                      if ( neigh_index != index ) {
-                        neigh_distances[neigh_index][index] = dist;
-                        neigh_distances[index][neigh_index] = dist;
-                      }
-                    }
-                  }
-                } // for z
-              }
-            } // for y
-          }
-        } // for x
+        for ( const std::pair<int,double> & neigh : getNeighborDistances_(getPos_(index), cutoff) ) {
+          neigh_distances[index][neigh.first] = neigh.second;
+        }
       } // index
       return neigh_distances;
     }
-- 
2.43.0


From 6aa38d87ff3bf53d04e3cfb1b215dd36917bd8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:31 +0000
Subject: [PATCH 15/26] fix: do not add rates to the rate container when it is
 queried

Asking for a rate that was not added returned a null pointer when the site
has another rate, and left an entry behind; asking for the outgoing rates of
an unknown site turned it into a source or hid a sink.
---
 CoarseGrainSites/src/libmythical/rate_container.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/rate_container.cpp b/CoarseGrainSites/src/libmythical/rate_container.cpp
index e0f72c4..7ae06cb 100644
--- a/CoarseGrainSites/src/libmythical/rate_container.cpp
+++ b/CoarseGrainSites/src/libmythical/rate_container.cpp
@@ -31,10 +31,8 @@ namespace mythical {
   }
 
   double * Rate_Container::getRate(int siteId, int neighId) {
-    if(rates_.count(siteId)==0){
-      if(rates_[siteId].count(neighId)==0){
-        throw invalid_argument("Cannot retrieve rate as it has not been added.");
-      }
+    if(rates_.count(siteId)==0 || rates_[siteId].count(neighId)==0){
+      throw invalid_argument("Cannot retrieve rate as it has not been added.");
     }
     return rates_[siteId][neighId];
   }
@@ -46,6 +44,7 @@ namespace mythical {
   }
 
   size_t Rate_Container::outgoingRateCount(int siteId) {
+    if(rates_.count(siteId)==0) return 0;
     return rates_[siteId].size();
   }
 
-- 
2.43.0


From 678681b15a8b5b6ab85013a0476eb61e9c58a8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:31 +0000
Subject: [PATCH 16/26] fix: do not add unknown sites when asking for the
 smallest cluster id

The lookup created a site without an id in the container; it now throws like
every other query for a site that is not stored.
---
 CoarseGrainSites/src/libmythical/site_container.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/site_container.cpp b/CoarseGrainSites/src/libmythical/site_container.cpp
index 0866e21..bc975ad 100644
--- a/CoarseGrainSites/src/libmythical/site_container.cpp
+++ b/CoarseGrainSites/src/libmythical/site_container.cpp
@@ -66,7 +66,7 @@ namespace mythical {
     LOG("Getting the favored cluster Id", 1);
     int favoredClusterId = constants::unassignedId;
     for (auto siteId : siteIds) {
-      int clusterId = sites_[siteId].getClusterId();
+      int clusterId = getClusterIdOfSite(siteId);
       if (favoredClusterId == constants::unassignedId) {
         favoredClusterId = clusterId;
       } else if (clusterId != constants::unassignedId &&
-- 
2.43.0


From 017730ad44d3580a1b9348b11efc0c0b3b48c9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:31 +0000
Subject: [PATCH 17/26] fix: mark the site occupied when a walker starts on a
 clustered site

Only the cluster was told, so the site itself still counted as free and a
second walker could hop onto it.
---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 5c3693d..9e44ad7 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -165,7 +165,7 @@ namespace mythical {
           "within the rates parameter.";
         throw runtime_error(error_msg);
       }
-      topology_features_[siteId]->occupy();
+      topology_features_[siteId]->occupy(siteId);
 
       auto hopTime = topology_features_[siteId]->getDwellTime(walkers.at(index).first);
       int newId = topology_features_[siteId]->pickNewSiteId(walkers.at(index).first);
-- 
2.43.0


From 818f2f427e9268c81b55af7d02fbbb9dd72bc41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:31 +0000
Subject: [PATCH 18/26] fix: move every site of an absorbed cluster to the
 cluster that absorbs it

Sites of the absorbed cluster that are not part of the basin kept the id of,
and a pointer to, the cluster that is erased.
---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 9e44ad7..8de936d 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -363,6 +363,13 @@ namespace mythical {
         sites_->setClusterId(site_and_cluster.first,favoredClusterId);
       }
     }
+    // Sites of an absorbed cluster move with it, even if not in the basin
+    for(auto clusterId : cluster_ids ){
+      for(auto siteId : clusters_->getCluster(clusterId).getSiteIdsInCluster()){
+        topology_features_[siteId] = &(clusters_->getCluster(favoredClusterId));
+        sites_->setClusterId(siteId,favoredClusterId);
+      }
+    }
     clusters_->getCluster(favoredClusterId).addSites(isolated_sites);
     clusters_->getCluster(favoredClusterId).updateProbabilitiesAndTimeConstant();
     for(auto clusterId : cluster_ids ){
-- 
2.43.0


From 178160d7c0e418144d07207f3930d07816f0826d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:42 +0000
Subject: [PATCH 19/26] fix: choose the resolution of a cluster again after it
 has grown

A cluster kept the resolution of its first sites, so once it absorbed others
its time increment could exceed the time resolution of the system, which the
equilibrium condition is there to rule out.
---
 .../src/libmythical/coarsegrainsystem.cpp     | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 8de936d..c0d6f1c 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -45,6 +45,7 @@ namespace mythical {
 
   size_t countUniqueClusters(const unordered_map<int,int> & sites_and_clusters);
   int getFavoredClusterId(unordered_map<int,int> sites_and_clusters);
+  double chooseResolution(double cluster_time_const, double internal_time_limit, double time_resolution);
 
   /****************************************************************************
    * Public Facing Functions
@@ -265,6 +266,8 @@ namespace mythical {
         // Joint clusters and sites to an existing cluster
         int favored_clusterId = getFavoredClusterId(sites_and_clusters);
         mergeSitesAndClusters_(sites_and_clusters,favored_clusterId);
+        Cluster & cluster = clusters_->getCluster(favored_clusterId);
+        cluster.setResolution(chooseResolution(cluster.getTimeConstant(),internal_time_limit,time_resolution_));
         return true;
       }
     }
@@ -292,6 +295,19 @@ namespace mythical {
     return clusterId;
   }
 
+  double chooseResolution(double cluster_time_const, double internal_time_limit, double time_resolution){
+    // Cut the resolution in half from what it would otherwise be otherwise not worth doing
+    double res = cluster_time_const/(2*internal_time_limit);
+    double allowed_resolution = cluster_time_const/time_resolution;
+    double chosen_resolution = res;
+
+    // The coarser the resolution is the better
+    if(allowed_resolution <  chosen_resolution) chosen_resolution=allowed_resolution;
+
+    if(chosen_resolution<2.0) chosen_resolution=2.0;
+    return chosen_resolution;
+  }
+
   // The first int is the site id the second int is the cluster id 
   unordered_map<int,int> CoarseGrainSystem::getClustersOfSites(const vector<int> & siteIds){
     unordered_map<int,int> sites_and_clusters;
@@ -318,18 +334,7 @@ namespace mythical {
     cluster.addSites(sites);
     cluster.updateProbabilitiesAndTimeConstant();
 
-    double cluster_time_const = cluster.getTimeConstant();
-    // Cut the resolution in half from what it would otherwise be otherwise not worth doing
-    double res = cluster_time_const/(2*internal_time_limit);
-    double allowed_resolution = cluster_time_const/time_resolution_;
-    double chosen_resolution = res;
-
-    // The coarser the resolution is the better
-    if(allowed_resolution <  chosen_resolution) chosen_resolution=allowed_resolution;
-
-    if(chosen_resolution<2.0) chosen_resolution=2.0;
-   
-    cluster.setResolution(chosen_resolution);
+    cluster.setResolution(chooseResolution(cluster.getTimeConstant(),internal_time_limit,time_resolution_));
     if (seed_set_) {
       cluster.setRandomSeed(seed_);
       ++seed_;
-- 
2.43.0


From d37b67507d9b74f876562f57f31eaeaace454357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:32 +0000
Subject: [PATCH 20/26] fix: do not lose lattice neighbours exactly at the
 cutoff

---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index ef955ca..89f764b 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -13,9 +13,10 @@ using namespace std;
 namespace {
   // Range of positions that are within reach of pos along one direction of the
   // lattice. The range of a periodic direction never covers a site twice, it
-  // holds the closest image of each site.
+  // holds the closest image of each site. The reach is rounded up as the division
+  // that led to it may have rounded it down, distances are compared later.
   std::pair<int,int> getRange(const int pos, const int size, const double reach, const bool periodic) {
-    const int num_sites = static_cast<int>(std::min(std::floor(reach), static_cast<double>(size)));
+    const int num_sites = static_cast<int>(std::min(std::ceil(reach), static_cast<double>(size)));
     if ( periodic ) {
       if ( 2*num_sites + 1 > size ) {
         const int min_pos = pos - (size-1)/2;
-- 
2.43.0


From 8f4c6fa4020e3062d97c651e2016590ac00deb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:28 +0000
Subject: [PATCH 21/26] fix: forget the stays of walkers in a cluster that was
 absorbed

---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 0408011..b931009 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -163,6 +163,7 @@ void Cluster::migrateSitesFrom(Cluster& cluster) {
   cluster.sumOfEscapeRateFromSiteToNeighbor_.clear();
   cluster.site_visits_.clear();
   cluster.internal_dwell_time_.clear();
+  cluster.remaining_walker_dwell_times_.clear();
   cluster.probabilityHopToNeighbor_.clear();
   cluster.cumulitive_probabilityHopToNeighbor_.clear();
   cluster.escape_time_constant_ = constants::unassigned_value;
-- 
2.43.0


From c6fbe82d08527f71092e9bf6a038b7c87bb39bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:50 +0000
Subject: [PATCH 22/26] fix: credit recorded visits before a count or the
 resolution is replaced

---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 2 ++
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index b931009..b19970c 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -235,6 +235,8 @@ void Cluster::setVisitFrequency(int frequency,const int & siteId){
       "that you have called the update function and that there exist at least "
       "one rate off the cluster.");
 
+  // Visits made before belong to the count that is replaced
+  getVisitFrequency(siteId);
   // Need to convert to the right storage format 
   double visits = static_cast<double>(frequency);
   site_visits_[siteId] = visits;
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
index d5b4cb0..042c71c 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
@@ -178,6 +178,8 @@ class Cluster : public TopologyFeature {
   void setResolution(const double resolution) { 
     // Must be greater than 1
     assert(resolution>=2.0); 
+    // Visits made before were made with the previous resolution
+    if(escape_time_constant_!=constants::unassigned_value) getVisitFrequencies_();
     resolution_ = resolution; 
     time_increment_ = TopologyFeature::escape_time_constant_/static_cast<double>(resolution_);
   }
-- 
2.43.0


From 49d1cc6354185913c9cdb7a0dc0b803e2d295b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:30 +0000
Subject: [PATCH 23/26] fix: do not join clusters into one that cannot be left

---
 .../src/libmythical/coarsegrainsystem.cpp             | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index c0d6f1c..a206b2e 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -263,6 +263,17 @@ namespace mythical {
         createCluster_(basin_site_ids,internal_time_limit);
         return true;
       }else if(number_clusters!=1){
+        // Clusters join as a whole, leave them if there was no way out then
+        vector<int> joined_site_ids = basin_site_ids;
+        for(auto site_and_cluster : sites_and_clusters){
+          if(site_and_cluster.second!=constants::unassignedId){
+            for(auto siteId : clusters_->getCluster(site_and_cluster.second).getSiteIdsInCluster()){
+              joined_site_ids.push_back(siteId);
+            }
+          }
+        }
+        if(getExternalTimeLimit_(joined_site_ids)==0.0) return false;
+
         // Joint clusters and sites to an existing cluster
         int favored_clusterId = getFavoredClusterId(sites_and_clusters);
         mergeSitesAndClusters_(sites_and_clusters,favored_clusterId);
-- 
2.43.0


From 81bae8685288932bf29f5c567d60a403892b6016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:15 +0000
Subject: [PATCH 24/26] fix: do not make a cluster of a single site

---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index a206b2e..09babcb 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -250,6 +250,8 @@ namespace mythical {
   bool CoarseGrainSystem::coarseGrain_(int siteId){
     BasinExplorer basin_explorer;
     auto basin_site_ids = basin_explorer.findBasin(*sites_,*clusters_,siteId);
+    // A site whose fastest rate leads to itself is no cluster
+    if(basin_site_ids.size()<2) return false;
 
     double internal_time_limit = getInternalTimeLimit_(basin_site_ids);
 
-- 
2.43.0


From 8985fe083c7389d1d741c6e9dc9c68ac06bf0503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:18 +0000
Subject: [PATCH 25/26] fix: refuse a time resolution that is not a number

---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 09babcb..35d9bd7 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -76,7 +76,7 @@ namespace mythical {
   }
 
   void CoarseGrainSystem::setTimeResolution(const double time_resolution){
-    if(time_resolution<=0.0){
+    if(!(time_resolution>0.0)){
       throw invalid_argument("The time resolution must be a positive value.");
     }
     time_resolution_set_ = true;
-- 
2.43.0


From 8d4f80bbaaf8b0865077d5a074098cc17680cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:30 +0000
Subject: [PATCH 26/26] fix: converge the occupation of a cluster until it is
 accurate

A tolerance of 0.001 on the last step stops the iteration long before the
occupation has settled when the cluster is made of groups joined by slower
rates, so that the share of time spent on its sites and around it was off
by several percent.
---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 35d9bd7..bebfb77 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -339,7 +339,7 @@ namespace mythical {
 
     Cluster cluster;
     cluster.setConvergenceMethod(Cluster::Method::converge_by_tolerance);
-    cluster.setConvergenceTolerance(0.001);
+    cluster.setConvergenceTolerance(1E-6);
     vector<Site> sites;
     for (auto siteId : siteIds){
       sites.push_back(sites_->getSite(siteId));
-- 
2.43.0

