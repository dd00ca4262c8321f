From 2527ecec8d6513697fd5c4190ce450c4a99bd9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:34 +0000
Subject: [PATCH 01/57] fix: portions of an untracked resource stay untracked

---
 src/res_tracker.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/res_tracker.cc b/src/res_tracker.cc
index 2bbe6f8..879cc3f 100644
--- a/src/res_tracker.cc
+++ b/src/res_tracker.cc
@@ -42,6 +42,8 @@ void ResTracker::Modify() {
 }
 
 void ResTracker::Extract(ResTracker* removed) {
+  // a portion of an untracked resource is untracked too
+  removed->tracked_ = tracked_;
   if (!tracked_) {
     return;
   }
@@ -56,7 +58,6 @@ void ResTracker::Extract(ResTracker* removed) {
   // after being bumped)
   removed->parent1_ = res_->state_id();
   removed->parent2_ = 0;
-  removed->tracked_ = tracked_;
   removed->Record();
 
   if (res_->quantity() > eps_rsrc()) {
@@ -75,11 +76,14 @@ void ResTracker::Absorb(ResTracker* absorbed) {
 }
 
 void ResTracker::Package(ResTracker* parent) {
+  if (parent != NULL) {
+    // a portion of an untracked resource is untracked too
+    tracked_ = parent->tracked_;
+  }
   if (!tracked_) {
     return;
   }
   parent2_ = 0;
-  tracked_ = tracked_;
   package_name_ = res_->package_name();
 
   if (parent != NULL) {
-- 
2.43.0


From bfa33b7beaf3e3422d47a9d20ad24b79df297fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:34 +0000
Subject: [PATCH 02/57] fix: Transmute records the decay time it sets

---
 src/material.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/material.cc b/src/material.cc
index 9a80b07..23dbb21 100644
--- a/src/material.cc
+++ b/src/material.cc
@@ -126,7 +126,6 @@ void Material::Absorb(Material::Ptr mat) {
 
 void Material::Transmute(Composition::Ptr c) {
   comp_ = c;
-  tracker_.Modify();
 
   // Presumably the user has chosen the new composition to be accurate for
   // the current simulation time.  The next call to decay should not include
@@ -138,6 +137,9 @@ void Material::Transmute(Composition::Ptr c) {
   if (ctx_ != NULL && ctx_->time() > prev_decay_time_) {
     prev_decay_time_ = ctx_->time();
   }
+
+  // record only after the decay time is set, it is part of what is recorded
+  tracker_.Modify();
 }
 
 Resource::Ptr Material::PackageExtract(double qty, std::string new_package_name) {
-- 
2.43.0


From 037feea1f017e2df58ae03aba4e1a58e3c8aadfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:34 +0000
Subject: [PATCH 03/57] fix: ChangePackage applies the limits of the new
 package and records every change

---
 src/material.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/material.cc b/src/material.cc
index 23dbb21..be09815 100644
--- a/src/material.cc
+++ b/src/material.cc
@@ -164,17 +164,18 @@ Resource::Ptr Material::PackageExtract(double qty, std::string new_package_name)
 }
 
 void Material::ChangePackage(std::string new_package_name) {
-  if (ctx_ == NULL) {
+  if (new_package_name == package_name_ || ctx_ == NULL) {
     // no change needed
     return;
   }
   else if (new_package_name == Package::unpackaged_name()) {
     // unpackaged has functionally no restrictions
     package_name_ = new_package_name;
+    tracker_.Package();
     return;
   }
  
-  Package::Ptr p = ctx_->GetPackage(package_name_);
+  Package::Ptr p = ctx_->GetPackage(new_package_name);
   double min = p->fill_min();
   double max = p->fill_max();
   if (qty_ >= min && qty_ <= max) {
-- 
2.43.0


From 02a0c053300a5abba01252d77878431ed0ab0603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:59 +0000
Subject: [PATCH 04/57] fix: Arc assignment copies the preference

---
 src/exchange_graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/exchange_graph.h b/src/exchange_graph.h
index 7a21a1b..e7e4ebe 100644
--- a/src/exchange_graph.h
+++ b/src/exchange_graph.h
@@ -80,6 +80,7 @@ class Arc {
     vnode_ = other.vnode();
     exclusive_ = other.exclusive();
     excl_val_ = other.excl_val();
+    pref_ = other.pref();
     return *this;
   }
 
-- 
2.43.0


From 3800acbf51e447bb7bde3cae180dc896a8d595d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:59 +0000
Subject: [PATCH 05/57] fix: unmet demand keeps a finite cost when exclusive
 orders are ignored

---
 src/exchange_solver.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exchange_solver.cc b/src/exchange_solver.cc
index 1ac3121..e797527 100644
--- a/src/exchange_solver.cc
+++ b/src/exchange_solver.cc
@@ -90,7 +90,9 @@ double ExchangeSolver::PseudoCostByPref(double cost_factor) {
     const Arc& a = arcs[i];
     // remove exclusive value factor from costs for preferences that are less
     // than unity. otherwise they can artificially raise the maximum cost.
-    double factor = (a.exclusive() && a.excl_val() < 1) ? 1 / a.excl_val() : 1.0;
+    // (costs have that factor only if exclusive orders are respected)
+    double factor = (exclusive_orders_ && a.exclusive() && a.excl_val() > 0 &&
+                     a.excl_val() < 1) ? 1 / a.excl_val() : 1.0;
     max_cost = std::max(max_cost, ArcCost(a) * factor);
   }
   return max_cost * (1 + cost_factor);
-- 
2.43.0


From df79aad50fcd2b9a53088c8970ade81f9e88c181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:59 +0000
Subject: [PATCH 06/57] fix: a used-up constraint an offer does not use no
 longer lifts its limits

---
 src/greedy_solver.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/greedy_solver.cc b/src/greedy_solver.cc
index ebf97e1..27300e7 100644
--- a/src/greedy_solver.cc
+++ b/src/greedy_solver.cc
@@ -117,8 +117,9 @@ double GreedySolver::Capacity(ExchangeNode::Ptr n, const Arc& a, bool min_cap,
     CLOG(cyclus::LEV_DEBUG1) << "    unit capacity: " << u_cap;
     CLOG(cyclus::LEV_DEBUG1) << "         capacity: " << cap;
 
-    // special case for unlimited capacities
-    if (grp_cap == std::numeric_limits<double>::max()) {
+    // special case for unlimited capacities and for constraints that do not
+    // apply to this arc (0 / 0 is not a number once a capacity is used up)
+    if (grp_cap == std::numeric_limits<double>::max() || u_cap == 0) {
       caps.push_back(std::numeric_limits<double>::max());
     } else {
       caps.push_back(cap);
-- 
2.43.0


From b7738e9fdae596abc1271600f21f4cab004c8916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:59 +0000
Subject: [PATCH 07/57] fix: the optimisation solver keeps trades within the
 bid's offer and survives graphs without arcs

---
 src/prog_translator.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/prog_translator.cc b/src/prog_translator.cc
index 50d387c..f53bbbf 100644
--- a/src/prog_translator.cc
+++ b/src/prog_translator.cc
@@ -105,8 +105,10 @@ void ProgTranslator::Populate() {
   iface_->setObjSense(1.0);  // minimize
 
   // load er up!
-  iface_->loadProblem(ctx_.m, &ctx_.col_lbs[0], &ctx_.col_ubs[0],
-                      &ctx_.obj_coeffs[0], &ctx_.row_lbs[0], &ctx_.row_ubs[0]);
+  // data() rather than &v[0]: every arc may have been removed by preference
+  iface_->loadProblem(ctx_.m, ctx_.col_lbs.data(), ctx_.col_ubs.data(),
+                      ctx_.obj_coeffs.data(), ctx_.row_lbs.data(),
+                      ctx_.row_ubs.data());
 
 
   if (excl_) {
@@ -165,7 +167,8 @@ void ProgTranslator::XlateGrp_(ExchangeNodeGroup* grp, bool request) {
         ctx_.obj_coeffs[arc_id] = ExchangeSolver::Cost(a, excl_);
         ctx_.col_lbs[arc_id] = 0;
         ctx_.col_ubs[arc_id] = (excl_ && a.exclusive()) ? 1 :
-                               std::min(nodes[i]->qty, inf);
+                               std::min(std::min(nodes[i]->qty,
+                                                 a.vnode()->qty), inf);
       }
     }
   }
-- 
2.43.0


From 6b686d02dc8c980144292d8cc9e96fce17ca3379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:21 +0000
Subject: [PATCH 08/57] fix: lifetime_force sets the lifetime of an agent that
 has entered the simulation

---
 src/agent.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agent.cc b/src/agent.cc
index b5e8c51..fcebac6 100644
--- a/src/agent.cc
+++ b/src/agent.cc
@@ -118,7 +118,7 @@ void Agent::lifetime_force(int n_timesteps) {
   }
   catch (ValueError e){
     if(enter_time_+n_timesteps <= context()->time()){
-      lifetime(context()->time() - enter_time_ + 1);
+      lifetime_ = context()->time() - enter_time_ + 1;
     }
     else{
       lifetime_ = n_timesteps;    
-- 
2.43.0


From 739e584434bd3511404333aa49171b35d477e2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:21 +0000
Subject: [PATCH 09/57] fix: institutions and regions count among the agents in
 the simulation

---
 src/institution.cc | 1 +
 src/region.cc      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/institution.cc b/src/institution.cc
index ad07f95..9b6af7b 100644
--- a/src/institution.cc
+++ b/src/institution.cc
@@ -37,6 +37,7 @@ void Institution::Build(Agent* parent) {
 }
 
 void Institution::EnterNotify() {
+  Agent::EnterNotify();
   context()->RegisterTimeListener(this);
 }
 
diff --git a/src/region.cc b/src/region.cc
index dae74b6..957e6a0 100644
--- a/src/region.cc
+++ b/src/region.cc
@@ -26,6 +26,7 @@ void Region::Build(Agent* parent) {
 }
 
 void Region::EnterNotify() {
+  Agent::EnterNotify();
   context()->RegisterTimeListener(this);
 }
 
-- 
2.43.0


From b94876850627618a80b86983accb255addde05e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:09 +0000
Subject: [PATCH 10/57] fix: a buffer refuses a resource listed twice in one
 push

---
 src/toolkit/res_buf.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/res_buf.h b/src/toolkit/res_buf.h
index ac92841..5d4cdef 100644
--- a/src/toolkit/res_buf.h
+++ b/src/toolkit/res_buf.h
@@ -328,8 +328,10 @@ class ResBuf {
       throw ValueError("Resource pushing breaks capacity limit.");
     }
 
+    std::set<typename T::Ptr> pushed;
     for (int i = 0; i < rss.size(); i++) {
-      if (rs_present_.count(rss.at(i)) == 1) {
+      if (rs_present_.count(rss.at(i)) == 1 ||
+          !pushed.insert(rss.at(i)).second) {
         throw KeyError("Duplicate resource pushing attempted");
       }
     }
@@ -346,6 +348,7 @@ class ResBuf {
       }
     }
     qty_ += tot_qty;
+    UpdateQty();
   }
 
   /// Decays all the materials in a resource buffer
-- 
2.43.0


From 96b9baea5927423004b7848da4e682a198a285d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:09 +0000
Subject: [PATCH 11/57] fix: changing the dump count starts the emptied buffer
 from its beginning

---
 src/recorder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/recorder.cc b/src/recorder.cc
index a3e2ad3..4bb756a 100644
--- a/src/recorder.cc
+++ b/src/recorder.cc
@@ -55,6 +55,7 @@ void Recorder::set_dump_count(unsigned int count) {
     delete data_[i];
   }
   data_.clear();
+  index_ = 0;
   data_.reserve(count);
   for (int i = 0; i < count; ++i) {
     Datum* d = new Datum(this, "");
-- 
2.43.0


From 081fa39c6a2f35d744210a649fd291e405dac28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:09 +0000
Subject: [PATCH 12/57] fix: a SQLite query with no conditions selects every
 row

---
 src/sqlite_back.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqlite_back.cc b/src/sqlite_back.cc
index fff1b0c..1fb1a20 100644
--- a/src/sqlite_back.cc
+++ b/src/sqlite_back.cc
@@ -106,7 +106,7 @@ QueryResult SqliteBack::Query(std::string table, std::vector<Cond>* conds) {
 
   std::stringstream sql;
   sql << "SELECT * FROM " << table;
-  if (conds != NULL) {
+  if (conds != NULL && !conds->empty()) {
     sql << " WHERE ";
     for (int i = 0; i < conds->size(); ++i) {
       if (i > 0) {
-- 
2.43.0


From 3846aa468845b822048ed8fcd4a3441b6d137ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:09 +0000
Subject: [PATCH 13/57] fix: PrefixInjector describes the columns of the table
 it queries

---
 src/query_backend.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/query_backend.h b/src/query_backend.h
index 59e07f7..d40aa0a 100644
--- a/src/query_backend.h
+++ b/src/query_backend.h
@@ -567,11 +567,11 @@ class PrefixInjector: public QueryableBackend {
   }
 
   virtual std::map<std::string, DbTypes> ColumnTypes(std::string table) {
-    return b_->ColumnTypes(table);
+    return b_->ColumnTypes(prefix_ + table);
   }
 
   virtual std::list<ColumnInfo> Schema(std::string table) {
-    return b_->Schema(table);
+    return b_->Schema(prefix_ + table);
   }
 
   virtual std::set<std::string> Tables() { return b_->Tables(); }
-- 
2.43.0


From 8663497f5f3a539d7108ae419420fbe498a6604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:36 +0000
Subject: [PATCH 14/57] fix: a dump count of zero passes each datum on as it
 comes

---
 src/recorder.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/recorder.cc b/src/recorder.cc
index 4bb756a..b3a2de9 100644
--- a/src/recorder.cc
+++ b/src/recorder.cc
@@ -56,8 +56,10 @@ void Recorder::set_dump_count(unsigned int count) {
   }
   data_.clear();
   index_ = 0;
-  data_.reserve(count);
-  for (int i = 0; i < count; ++i) {
+  // a datum needs a place while it is built, also when none are collected
+  unsigned int n = count > 0 ? count : 1;
+  data_.reserve(n);
+  for (int i = 0; i < n; ++i) {
     Datum* d = new Datum(this, "");
     if (inject_sim_id_) {
       d->AddVal("SimId", uuid_);
-- 
2.43.0


From 4f57387bdfe73619de9fb22c8b6628d08f3b417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:36 +0000
Subject: [PATCH 15/57] fix: backends name columns by the datum's own field
 names

---
 src/hdf5_back.cc.in |  3 ++-
 src/sqlite_back.cc  | 12 ++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hdf5_back.cc.in b/src/hdf5_back.cc.in
index 01a8805..c5f0028 100644
--- a/src/hdf5_back.cc.in
+++ b/src/hdf5_back.cc.in
@@ -339,6 +339,7 @@ void Hdf5Back::CreateTable(Datum* d) {
   using std::pair;
   using std::map;
   Datum::Vals vals = d->vals();
+  Datum::Fields fields = d->fields();
   hsize_t nvals = vals.size();
   Datum::Shape shape;
   Datum::Shapes shapes = d->shapes();
@@ -352,7 +353,7 @@ void Hdf5Back::CreateTable(Datum* d) {
   const char* field_names[nvals];
   for (int i = 0; i < nvals; ++i) {
     dst_offset[i] = dst_size;
-    field_names[i] = vals[i].first;
+    field_names[i] = fields[i].c_str();
     const std::type_info& valtype = vals[i].second.type();
 @HDF5_BACK_CC_CREATE@
     dst_size += dst_sizes[i];
diff --git a/src/sqlite_back.cc b/src/sqlite_back.cc
index 1fb1a20..b9d1662 100644
--- a/src/sqlite_back.cc
+++ b/src/sqlite_back.cc
@@ -208,25 +208,29 @@ void SqliteBack::CreateTable(Datum* d) {
 
   Datum::Vals vals = d->vals();
   Datum::Vals::iterator it = vals.begin();
+  Datum::Fields fields = d->fields();
+  Datum::Fields::iterator field = fields.begin();
 
   std::stringstream types;
   types << "INSERT INTO FieldTypes VALUES ('"
-        << name << "','" << it->first << "','"
+        << name << "','" << *field << "','"
         << Type(it->second) << "');";
   db_.Execute(types.str());
 
   std::string cmd = "CREATE TABLE " + name + " (";
-  cmd += std::string(it->first) + " " + SqlType(it->second);
+  cmd += *field + " " + SqlType(it->second);
   ++it;
+  ++field;
 
   while (it != vals.end()) {
-    cmd += ", " + std::string(it->first) + " " + SqlType(it->second);
+    cmd += ", " + *field + " " + SqlType(it->second);
     std::stringstream types;
     types << "INSERT INTO FieldTypes VALUES ('"
-          << name << "','" << it->first << "','"
+          << name << "','" << *field << "','"
           << Type(it->second) << "');";
     db_.Execute(types.str());
     ++it;
+    ++field;
   }
 
   cmd += ");";
-- 
2.43.0


From 2c48084bd1ece1ffddeaa468a9a8ff95c2144b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:29 +0000
Subject: [PATCH 16/57] fix: HDF5 keys of variable length values depend on
 where their items end

---
 src/query_backend.h | 123 ++++++++++++++++++++++++++++++++------------
 1 file changed, 89 insertions(+), 34 deletions(-)

diff --git a/src/query_backend.h b/src/query_backend.h
index d40aa0a..29d5c44 100644
--- a/src/query_backend.h
+++ b/src/query_backend.h
@@ -643,112 +643,132 @@ class Sha1 {
   inline void Update(const Blob& b) { Update(b.str()); }
 
   inline void Update(const std::vector<int>& x) {
-    hash_.process_bytes(&x[0], x.size() * sizeof(int));
+    UpdateSize(x.size());
+    hash_.process_bytes(x.data(), x.size() * sizeof(int));
   }
 
   inline void Update(const std::vector<float>& x) {
-    hash_.process_bytes(&x[0], x.size() * sizeof(float));
+    UpdateSize(x.size());
+    hash_.process_bytes(x.data(), x.size() * sizeof(float));
   }
 
   inline void Update(const std::vector<double>& x) {
-    hash_.process_bytes(&x[0], x.size() * sizeof(double));
+    UpdateSize(x.size());
+    hash_.process_bytes(x.data(), x.size() * sizeof(double));
   }
 
   inline void Update(const std::vector<std::string>& x) {
+    UpdateSize(x.size());
     for (unsigned int i = 0; i < x.size(); ++i)
-      hash_.process_bytes(x[i].c_str(), x[i].size());
+      UpdateItem(x[i]);
   }
 
   inline void Update(const std::vector<cyclus::Blob>& x) {
+    UpdateSize(x.size());
     for (unsigned int i = 0; i < x.size(); ++i)
-      hash_.process_bytes(x[i].str().c_str(), x[i].str().size());
+      UpdateItem(x[i].str());
   }
 
   inline void Update(const std::vector<boost::uuids::uuid>& x) {
+    UpdateSize(x.size());
     std::vector<boost::uuids::uuid>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), CYCLUS_UUID_SIZE);
   }
 
   inline void Update(const std::set<int>& x) {
+    UpdateSize(x.size());
     std::set<int>::iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(int));
   }
 
   inline void Update(const std::set<bool>& x) {
+    UpdateSize(x.size());
     std::set<bool>::iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(bool));
   }
 
   inline void Update(const std::set<double>& x) {
+    UpdateSize(x.size());
     std::set<double>::iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(double));
   }
 
   inline void Update(const std::set<float>& x) {
+    UpdateSize(x.size());
     std::set<float>::iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(float));
   }
 
   inline void Update(const std::set<cyclus::Blob>& x) {
+    UpdateSize(x.size());
     std::set<cyclus::Blob>::iterator it = x.begin();
     for (; it != x.end(); ++it)
-      hash_.process_bytes(it->str().c_str(), it->str().size());
+      UpdateItem(it->str());
   }
 
   inline void Update(const std::set<boost::uuids::uuid>& x) {
+    UpdateSize(x.size());
     std::set<boost::uuids::uuid>::iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), CYCLUS_UUID_SIZE);
   }
 
   inline void Update(const std::set<std::string>& x) {
+    UpdateSize(x.size());
     std::set<std::string>::iterator it = x.begin();
     for (; it != x.end(); ++it)
-      hash_.process_bytes(it->c_str(), it->size());
+      UpdateItem(*it);
   }
 
   inline void Update(const std::list<int>& x) {
+    UpdateSize(x.size());
     std::list<int>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(int));
   }
 
   inline void Update(const std::list<bool>& x) {
+    UpdateSize(x.size());
     std::list<bool>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(bool));
   }
 
   inline void Update(const std::list<double>& x) {
+    UpdateSize(x.size());
     std::list<double>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(double));
   }
 
   inline void Update(const std::list<float>& x) {
+    UpdateSize(x.size());
     std::list<float>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), sizeof(float));
   }
 
   inline void Update(const std::list<std::string>& x) {
+    UpdateSize(x.size());
     std::list<std::string>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
-      hash_.process_bytes(it->c_str(), it->size());
+      UpdateItem(*it);
   }
 
   inline void Update(const std::list<cyclus::Blob>& x) {
+    UpdateSize(x.size());
     std::list<cyclus::Blob>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
-      hash_.process_bytes(it->str().c_str(), it->str().size());
+      UpdateItem(it->str());
   }
 
   inline void Update(const std::list<boost::uuids::uuid>& x) {
+    UpdateSize(x.size());
     std::list<boost::uuids::uuid>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
       hash_.process_bytes(&(*it), CYCLUS_UUID_SIZE);
@@ -761,10 +781,11 @@ class Sha1 {
 
   inline void Update(const std::pair<int, std::string>& x) {
     hash_.process_bytes(&(x.first), sizeof(int));
-    hash_.process_bytes(x.second.c_str(), x.second.size());
+    UpdateItem(x.second);
   }
 
   inline void Update(const std::map<int, int>& x) {
+    UpdateSize(x.size());
     std::map<int, int>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
@@ -773,6 +794,7 @@ class Sha1 {
   }
 
   inline void Update(const std::map<int, bool>& x) {
+    UpdateSize(x.size());
     std::map<int, bool>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
@@ -781,6 +803,7 @@ class Sha1 {
   }
 
   inline void Update(const std::map<int, double>& x) {
+    UpdateSize(x.size());
     std::map<int, double>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
@@ -789,6 +812,7 @@ class Sha1 {
   }
 
   inline void Update(const std::map<int, float>& x) {
+    UpdateSize(x.size());
     std::map<int, float>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
@@ -797,14 +821,16 @@ class Sha1 {
   }
 
   inline void Update(const std::map<int, cyclus::Blob>& x) {
+    UpdateSize(x.size());
     std::map<int, cyclus::Blob>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
-      hash_.process_bytes(it->second.str().c_str(), it->second.str().size());
+      UpdateItem(it->second.str());
     }
   }
 
   inline void Update(const std::map<int, boost::uuids::uuid>& x) {
+    UpdateSize(x.size());
     std::map<int, boost::uuids::uuid>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
@@ -813,104 +839,117 @@ class Sha1 {
   }
 
   inline void Update(const std::map<int, std::string>& x) {
+    UpdateSize(x.size());
     std::map<int, std::string>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
-      hash_.process_bytes(it->second.c_str(), it->second.size());
+      UpdateItem(it->second);
     }
   }
 
   inline void Update(const std::map<std::string, int>& x) {
+    UpdateSize(x.size());
     std::map<std::string, int>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateItem(it->first);
       hash_.process_bytes(&(it->second), sizeof(int));
     }
   }
 
   inline void Update(const std::map<std::string, double>& x) {
+    UpdateSize(x.size());
     std::map<std::string, double>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateItem(it->first);
       hash_.process_bytes(&(it->second), sizeof(double));
     }
   }
 
   inline void Update(const std::map<std::string, float>& x) {
+    UpdateSize(x.size());
     std::map<std::string, float>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateItem(it->first);
       hash_.process_bytes(&(it->second), sizeof(float));
     }
   }
 
   inline void Update(const std::map<std::string, bool>& x) {
+    UpdateSize(x.size());
     std::map<std::string, bool>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateItem(it->first);
       hash_.process_bytes(&(it->second), sizeof(bool));
     }
   }
 
   inline void Update(const std::map<std::string, cyclus::Blob>& x) {
+    UpdateSize(x.size());
     std::map<std::string, cyclus::Blob>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
-      hash_.process_bytes(it->second.str().c_str(), it->second.str().size());
+      UpdateItem(it->first);
+      UpdateItem(it->second.str());
     }
   }
 
   inline void Update(const std::map<std::string, boost::uuids::uuid>& x) {
+    UpdateSize(x.size());
     std::map<std::string, boost::uuids::uuid>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateItem(it->first);
       hash_.process_bytes(&(it->second), CYCLUS_UUID_SIZE);
     }
   }
 
   inline void Update(const std::map<std::string, std::string>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::string>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
-      hash_.process_bytes(it->second.c_str(), it->second.size());
+      UpdateItem(it->first);
+      UpdateItem(it->second);
     }
   }
 
   inline void Update(const std::map<std::pair<int, std::string>, double>& x) {
+    UpdateSize(x.size());
     std::map<std::pair<int, std::string>, double>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first.first), sizeof(int));
-      hash_.process_bytes(it->first.second.c_str(), it->first.second.size());
+      UpdateItem(it->first.second);
       hash_.process_bytes(&(it->second), sizeof(double));
     }
   }
 
   inline void Update(const std::map<std::pair<std::string, std::string>, int>& x) {
+    UpdateSize(x.size());
     std::map<std::pair<std::string, std::string>, int>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.first.c_str(), it->first.first.size());
-      hash_.process_bytes(it->first.second.c_str(), it->first.second.size());
+      UpdateItem(it->first.first);
+      UpdateItem(it->first.second);
       hash_.process_bytes(&(it->second), sizeof(int));
     }
   }
 
   inline void Update(const std::map<std::string, std::vector<double>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::vector<double>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateItem(it->first);
       Update(it->second);
     }
   }
 
   inline void Update(const std::map<std::string, std::map<int, double>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::map<int, double>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateItem(it->first);
       Update(it->second);
     }
   }
 
   inline void Update(const std::map<int, std::map<std::string, double>>& x) {
+    UpdateSize(x.size());
     std::map<int, std::map<std::string, double>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
@@ -924,20 +963,22 @@ class Sha1 {
   }
 
   inline void Update(const std::map<std::string, std::pair<double, std::map<int, double>>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::pair<double, std::map<int, double>>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(&(it->first), it->first.size());
+      UpdateItem(it->first);
       Update(it->second);
     }
   }
 
   inline void Update(const std::pair<int, std::pair<std::string, std::string>>& x) {
     hash_.process_bytes(&(x.first), sizeof(int));
-    hash_.process_bytes(x.second.first.c_str(), x.second.first.size());
-    hash_.process_bytes(x.second.second.c_str(), x.second.second.size());
+    UpdateItem(x.second.first);
+    UpdateItem(x.second.second);
   }
 
   inline void Update(const std::vector<std::pair<int, std::pair<std::string, std::string>>>& x) {
+    UpdateSize(x.size());
     std::vector<std::pair<int, std::pair<std::string, std::string>>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       Update(*it);
@@ -945,14 +986,16 @@ class Sha1 {
   }
 
   inline void Update(const std::map<std::string, std::vector<std::pair<int, std::pair<std::string, std::string>>>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::vector<std::pair<int, std::pair<std::string, std::string>>>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateItem(it->first);
       Update(it->second);
     }
   }
 
   inline void Update(const std::list<std::pair<int, int>>& x){
+    UpdateSize(x.size());
     std::list<std::pair<int, int>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       Update(*it);
@@ -960,22 +1003,24 @@ class Sha1 {
   }
 
   inline void Update(const std::pair<std::string, std::vector<double>>& x) {
-    hash_.process_bytes(x.first.c_str(), x.first.size());
+    UpdateItem(x.first);
     Update(x.second);
   }
 
   inline void Update(const std::map<std::string, std::pair<std::string, std::vector<double>>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::pair<std::string, std::vector<double>>>::const_iterator it = x.begin();
     for(; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateItem(it->first);
       Update(it->second);
     }
   }
 
   inline void Update(const std::map<std::string, std::map<std::string, int>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::map<std::string, int>>::const_iterator it = x.begin();
     for(; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateItem(it->first);
       Update(it->second);
     }
   }
@@ -991,6 +1036,7 @@ class Sha1 {
   }
 
   inline void Update(const std::vector<std::pair<std::pair<double, double>, std::map<std::string, double>>>& x) {
+    UpdateSize(x.size());
     std::vector<std::pair<std::pair<double, double>, std::map<std::string, double>>>::const_iterator it = x.begin();
     for(; it != x.end(); ++it) {
       Update(*it);
@@ -998,9 +1044,10 @@ class Sha1 {
   }
 
   inline void Update(const std::map<std::string, std::map<std::string, double>>& x) {
+    UpdateSize(x.size());
     std::map<std::string, std::map<std::string, double>>::const_iterator it = x.begin();
     for(; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateItem(it->first);
       Update(it->second);
     }
   }
@@ -1038,6 +1085,14 @@ class Sha1 {
   }
 
  private:
+  /// Items of a container are told apart by their sizes.
+  inline void UpdateSize(std::size_t n) { hash_.process_bytes(&n, sizeof(n)); }
+
+  inline void UpdateItem(const std::string& s) {
+    UpdateSize(s.size());
+    Update(s);
+  }
+
   boost::uuids::detail::sha1 hash_;
 };
 
-- 
2.43.0


From 3c5aff8376795ccb16d91dcd5c5a3fe1370929c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:39 +0000
Subject: [PATCH 17/57] fix: HDF5 files can be reopened to append variable
 length columns

When a dataset was already open for another type that shares it, or a column
nests variable length types, the reopened backend had no VL type for it.
---
 src/hdf5_back.cc.in | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/hdf5_back.cc.in b/src/hdf5_back.cc.in
index c5f0028..c73bf11 100644
--- a/src/hdf5_back.cc.in
+++ b/src/hdf5_back.cc.in
@@ -421,6 +421,12 @@ void Hdf5Back::CreateTable(Datum* d) {
   }
   H5Dclose(tb_set);
 
+  // keep the variable length types in the file, even before their first value,
+  // so that the table can be appended to after the file is opened again
+  std::map<DbTypes, hid_t>::iterator vldt;
+  for (vldt = vldts_.begin(); vldt != vldts_.end(); ++vldt)
+    VLDataset(vldt->first, false);
+
   // record everything for later
   col_offsets_[d->title()] = dst_offset;
   schema_sizes_[d->title()] = dst_size;
@@ -703,9 +709,14 @@ hid_t Hdf5Back::VLDataset(DbTypes dbtype, bool forkeys) {
   }
   name += forkeys ? "Keys" : "Vals";
 
-  // already opened
-  if (vldatasets_.count(name) > 0)
+  // already opened, maybe for another type kept in the same dataset
+  if (vldatasets_.count(name) > 0) {
+    if (!forkeys && vldts_.count(dbtype) == 0) {
+      vldts_[dbtype] = H5Dget_type(vldatasets_[name]);
+      opened_types_.insert(vldts_[dbtype]);
+    }
     return vldatasets_[name];
+  }
 
   // already in db
   hid_t dt;
-- 
2.43.0


From 57768d77429f4bad7500006323e8fae59a6cf80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:59 +0000
Subject: [PATCH 18/57] fix: packaging a product tolerates rounding and never
 extracts more than there is

---
 src/material.cc | 4 +++-
 src/product.cc  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/material.cc b/src/material.cc
index be09815..25af9fb 100644
--- a/src/material.cc
+++ b/src/material.cc
@@ -146,7 +146,9 @@ Resource::Ptr Material::PackageExtract(double qty, std::string new_package_name)
   if ((qty - qty_) > eps_rsrc()) {
     throw ValueError("Attempted to extract more quantity than exists.");
   }
-  
+
+  // rounding in the fill masses must not take out more than there is
+  qty = std::min(qty, qty_);
   qty_ -= qty;
   Material::Ptr other(new Material(ctx_, qty, comp_, new_package_name));
 
diff --git a/src/product.cc b/src/product.cc
index 3081512..684b7e3 100644
--- a/src/product.cc
+++ b/src/product.cc
@@ -78,10 +78,12 @@ std::string Product::package_name() {
 }
 
 Resource::Ptr Product::PackageExtract(double qty, std::string new_package_name) {
-  if (qty > quantity_) {
+  if ((qty - quantity_) > eps_rsrc()) {
     throw ValueError("Attempted to extract more quantity than exists.");
   }
 
+  // rounding in the fill masses must not take out more than there is
+  qty = std::min(qty, quantity_);
   quantity_ -= qty;
   Product::Ptr other(new Product(ctx_, qty, quality_, new_package_name));
 
-- 
2.43.0


From 2328b40160a258c3d4f58fcf43e6964b15f46760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:59 +0000
Subject: [PATCH 19/57] fix: packages without a minimum fill equally, and
 nothing fills no package

---
 src/package.cc | 7 ++++---
 src/package.h  | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/package.cc b/src/package.cc
index 4665d93..31fdb01 100644
--- a/src/package.cc
+++ b/src/package.cc
@@ -44,7 +44,7 @@ void Package::SetDistribution() {
 
 std::vector<double> Package::GetFillMass(double qty) {
   std::vector<double> packages;
-  if ((qty - fill_min_) < -eps_rsrc()) {
+  if (qty <= 0 || (qty - fill_min_) < -eps_rsrc()) {
     // less than one pkg of material available
     return packages;
   }
@@ -58,8 +58,9 @@ std::vector<double> Package::GetFillMass(double qty) {
   if (strategy_ == "first") {
     fill_mass = fill_max_;
   } else if (strategy_ == "equal") {
-    int num_min_fill = std::floor(qty / fill_min_);
-    int num_max_fill = std::ceil(qty / fill_max_);
+    // may be infinite (fill_min of zero), so these stay doubles
+    double num_min_fill = std::floor(qty / fill_min_);
+    double num_max_fill = std::ceil(qty / fill_max_);
     if (num_min_fill >= num_max_fill) {
       // all material can fit in package(s)
       fill_mass = qty / num_max_fill;
diff --git a/src/package.h b/src/package.h
index eb90920..731961c 100644
--- a/src/package.h
+++ b/src/package.h
@@ -70,7 +70,7 @@ class Package {
     // returns the unpackaged singleton object
     static Ptr& unpackaged();
 
-    static void ExceedsSplitLimits(int pkgs, std::string ss_extra = "") {
+    static void ExceedsSplitLimits(double pkgs, std::string ss_extra = "") {
       if (pkgs > SplitLimit() || pkgs < (0.9*std::numeric_limits<int>::min())) {
         throw ValueError("Resource::Package() cannot package into more than " + 
                          std::to_string(SplitLimit()) + 
-- 
2.43.0


From 0323f6a5e9d70d295c0bca9f03eaa5aa310e253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:09 +0000
Subject: [PATCH 20/57] fix: transport units without a minimum or maximum fill

---
 src/package.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/package.cc b/src/package.cc
index 31fdb01..388dacf 100644
--- a/src/package.cc
+++ b/src/package.cc
@@ -137,7 +137,7 @@ TransportUnit::Ptr& TransportUnit::unrestricted() {
 }
 
 int TransportUnit::GetTransportUnitFill(int qty) {
-  if (qty < fill_min_) {
+  if (qty < std::max(fill_min_, 1) || fill_max_ == 0) {
     // less than one TransportUnit of material available
     return 0;
   }
@@ -147,8 +147,8 @@ int TransportUnit::GetTransportUnitFill(int qty) {
   } else if (strategy_ == "equal" || strategy_ == "hybrid") {
     // int division automatically rounds down. don't need floor in min, and 
     // get ceil by hand instead 
-    int num_at_min_fill = qty / fill_min_;
-    int num_at_max_fill = (qty + fill_max_ - 1) / fill_max_;
+    int num_at_min_fill = qty / std::max(fill_min_, 1);
+    int num_at_max_fill = qty / fill_max_ + (qty % fill_max_ > 0 ? 1 : 0);
 
     if (num_at_min_fill >= num_at_max_fill) {
       // all material *might* fit transport units. However, this is more
@@ -167,7 +167,7 @@ int TransportUnit::MaxShippablePackages(int pkgs) {
   int TU_fill;
   int shippable = 0;
 
-  if (pkgs == 0 || pkgs < fill_min_) {
+  if (pkgs == 0 || pkgs < fill_min_ || fill_max_ == 0) {
     return 0;
 
   } else if (name_ == unrestricted_name_) {
-- 
2.43.0


From aa98a9c5d4452d4037b8c5ec3cce0af15399c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:16 +0000
Subject: [PATCH 21/57] fix: a sell policy that ignores composition sends the
 composition asked for

---
 src/toolkit/matl_sell_policy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toolkit/matl_sell_policy.cc b/src/toolkit/matl_sell_policy.cc
index 62188d9..c65f6fd 100644
--- a/src/toolkit/matl_sell_policy.cc
+++ b/src/toolkit/matl_sell_policy.cc
@@ -284,7 +284,7 @@ void MatlSellPolicy::GetMatlTrades(
         trade_mat = mat;
       }
 
-      if (ignore_comp_ && compmath::AlmostEq(it->request->target()->comp()->mass(), trade_mat->comp()->mass(), eps_rsrc())) {
+      if (ignore_comp_ && !compmath::AlmostEq(it->request->target()->comp()->mass(), trade_mat->comp()->mass(), eps_rsrc())) {
         trade_mat->Transmute(it->request->target()->comp());
       }
       responses.push_back(std::make_pair(*it, trade_mat));
-- 
2.43.0


From b3ca797e3027688b0ebe76ef92ec03e7939c3d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:16 +0000
Subject: [PATCH 22/57] fix: a sell policy refuses quanta too small for its
 package

---
 src/toolkit/matl_sell_policy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toolkit/matl_sell_policy.cc b/src/toolkit/matl_sell_policy.cc
index c65f6fd..3b50ef4 100644
--- a/src/toolkit/matl_sell_policy.cc
+++ b/src/toolkit/matl_sell_policy.cc
@@ -52,7 +52,7 @@ void MatlSellPolicy::set_package(std::string x) {
     if (quantize_ > 0 && pkg->name() != Package::unpackaged_name()) {
       if (pkg->strategy() == "first" || pkg->strategy() == "equal") {
         std::vector<double> fill = pkg->GetFillMass(quantize_);
-        if (fill.size() > 1 ||  std::fmod(fill.front(), quantize_) > 0) {
+        if (fill.size() != 1 ||  std::fmod(fill.front(), quantize_) > 0) {
           ss << "Quantize " << quantize_ 
              << " is not fully packagable based on fill min/max values (" 
              << pkg->fill_min() << ", " << pkg->fill_max() << ")";
-- 
2.43.0


From 2bcf4565fd5b48f22baaf131ffa9416fec8d21dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:16 +0000
Subject: [PATCH 23/57] fix: resetting a buy policy forgets its former active
 and dormant periods

---
 src/toolkit/matl_buy_policy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toolkit/matl_buy_policy.cc b/src/toolkit/matl_buy_policy.cc
index 746642a..ee3c4d6 100644
--- a/src/toolkit/matl_buy_policy.cc
+++ b/src/toolkit/matl_buy_policy.cc
@@ -41,6 +41,8 @@ MatlBuyPolicy& MatlBuyPolicy::ResetBehavior() {
   req_at_ = std::numeric_limits<double>::max();
   cumulative_cap_ = -1;
   cycle_total_inv_ = 0;
+  next_active_end_ = 0;
+  next_dormant_end_ = 0;
   active_dist_ = NULL;
   dormant_dist_ = NULL;
   size_dist_ = NULL;
-- 
2.43.0


From 229a2d0b3c83366bed79ec63ba88a7077df2a780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:01 +0000
Subject: [PATCH 24/57] fix: uniform packages with equal limits

---
 src/package.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/package.cc b/src/package.cc
index 388dacf..fd3d7db 100644
--- a/src/package.cc
+++ b/src/package.cc
@@ -31,7 +31,10 @@ Package::Ptr& Package::unpackaged() {
 }
 
 void Package::SetDistribution() {
-  if (strategy_ == "uniform") {
+  if (strategy_ == "uniform" && fill_min_ == fill_max_) {
+    // there is only one fill to choose, sampling an empty range would not end
+    dist_ = FixedDoubleDist::Ptr (new FixedDoubleDist(fill_max_));
+  } else if (strategy_ == "uniform") {
     dist_ = UniformDoubleDist::Ptr (new UniformDoubleDist(fill_min_, fill_max_));
   } else if (strategy_ == "normal") {
     dist_ = NormalDoubleDist::Ptr (new NormalDoubleDist(
-- 
2.43.0


From 089a4ff1f49d68a208d631e0938349125cbe49d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:54 +0000
Subject: [PATCH 25/57] fix: required boolean input accepts the words the
 schema does

The schema validates booleans as xsd:boolean, so "true" and "false" pass
validation, and Query<bool> then failed with bad_lexical_cast. Read them as
OptionalQuery<bool> does.
---
 src/infile_tree.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/infile_tree.h b/src/infile_tree.h
index 3db7b2b..ea1ede1 100644
--- a/src/infile_tree.h
+++ b/src/infile_tree.h
@@ -111,6 +111,14 @@ inline double Query(InfileTree* tree, std::string query, int index) {
   return boost::lexical_cast<double>(s.c_str());
 }
 
+template <>
+inline bool Query(InfileTree* tree, std::string query, int index) {
+  std::string s = tree->GetString(query, index);
+  boost::trim(s);
+  std::transform(s.begin(), s.end(), s.begin(), ::tolower);
+  return s == "true" || s == "t" || s == "1";
+}
+
 /// @brief a query method for optional parameters
 /// @param tree the infile tree to use
 /// @param query the query to be made
-- 
2.43.0


From ff473a7373626be840d7a25f03d55ea8670ed5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:54 +0000
Subject: [PATCH 26/57] fix: JSON input text may contain characters special to
 XML

A string such as "R&D" made the converted document malformed.
---
 src/toolkit/infile_converters.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/infile_converters.cc b/src/toolkit/infile_converters.cc
index ac49b78..2d60cee 100644
--- a/src/toolkit/infile_converters.cc
+++ b/src/toolkit/infile_converters.cc
@@ -12,6 +12,20 @@
 namespace cyclus {
 namespace toolkit {
 
+// the characters that have a meaning in XML text, escaped
+static std::string EscapeXml(const std::string& s) {
+  std::string rtn;
+  for (int i = 0; i < s.size(); ++i) {
+    switch (s[i]) {
+      case '&': rtn += "&amp;"; break;
+      case '<': rtn += "&lt;"; break;
+      case '>': rtn += "&gt;"; break;
+      default: rtn += s[i];
+    }
+  }
+  return rtn;
+}
+
 void AddJsonToXml(Json::Value& node, std::stringstream& ss,
                   std::string parent_name, std::string indent) {
   using std::string;
@@ -62,7 +76,7 @@ void AddJsonToXml(Json::Value& node, std::stringstream& ss,
       }
     }
   } else if (node.isString()) {
-    ss << node.asString();
+    ss << EscapeXml(node.asString());
   } else if (node.isInt()) {
     ss << node.asInt64();
   } else if (node.isUInt()) {
-- 
2.43.0


From 0f3dfe0a9b7f506c6d4f7c858710a753644b3e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:54 +0000
Subject: [PATCH 27/57] fix: JSON input numbers keep their precision

Numbers were converted to XML with six significant digits.
---
 src/toolkit/infile_converters.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/toolkit/infile_converters.cc b/src/toolkit/infile_converters.cc
index 2d60cee..63b90ba 100644
--- a/src/toolkit/infile_converters.cc
+++ b/src/toolkit/infile_converters.cc
@@ -82,7 +82,10 @@ void AddJsonToXml(Json::Value& node, std::stringstream& ss,
   } else if (node.isUInt()) {
     ss << node.asUInt64();
   } else if (node.isDouble()) {
+    // enough digits to read the same number back
+    std::streamsize digits = ss.precision(17);
     ss << node.asDouble();
+    ss.precision(digits);
   } else if (node.isBool()) {
     ss << node.asBool();
   } else {
-- 
2.43.0


From 9dc5be555d9f1df0e3cd530239be6950014c59bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:54 +0000
Subject: [PATCH 28/57] fix: commodity solution priorities reach the solver

The loader records the column SolutionPriority; reading SolutionOrder threw
and the preconditioner was silently left out.
---
 src/sim_init.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 9e80110..076c35b 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -247,7 +247,7 @@ void* SimInit::LoadPreconditioner(std::string name) {
     QueryResult qr = b_->Query("CommodPriority", NULL);
     for (int i = 0; i < qr.rows.size(); ++i) {
       std::string commod = qr.GetVal<string>("Commodity", i);
-      double order = qr.GetVal<double>("SolutionOrder", i);
+      double order = qr.GetVal<double>("SolutionPriority", i);
       commod_order[commod] = order;
     }
   } catch (std::exception err) {
-- 
2.43.0


From ae9417653fd16322f30a5d8e4b20c93e22e1fc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:54 +0000
Subject: [PATCH 29/57] fix: inputs without commodities do not read past the
 end of the map

---
 src/xml_file_loader.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xml_file_loader.cc b/src/xml_file_loader.cc
index 3c4d6c4..c59b992 100644
--- a/src/xml_file_loader.cc
+++ b/src/xml_file_loader.cc
@@ -285,6 +285,9 @@ void XMLFileLoader::LoadSolver() {
 
 void XMLFileLoader::ProcessCommodities(
   std::map<std::string, double>* commod_priority) {
+  if (commod_priority->empty()) {
+    return;
+  }
   double max = std::max_element(
                  commod_priority->begin(),
                  commod_priority->end(),
-- 
2.43.0


From 5a22cec91633ae984856f7be7c306ac6d4d786db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:54 +0000
Subject: [PATCH 30/57] fix: the default transport unit limit fits the integer
 it is stored in

---
 src/xml_file_loader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml_file_loader.cc b/src/xml_file_loader.cc
index c59b992..85d8c7c 100644
--- a/src/xml_file_loader.cc
+++ b/src/xml_file_loader.cc
@@ -355,7 +355,7 @@ void XMLFileLoader::LoadTransportUnits() {
     CLOG(LEV_DEBUG3) << "loading transport unit: " << name;
     
     double fill_min = cyclus::OptionalQuery<double>(qe, "fill_min", eps());
-    double fill_max = cyclus::OptionalQuery<double>(qe, "fill_max", std::numeric_limits<double>::max());
+    double fill_max = cyclus::OptionalQuery<double>(qe, "fill_max", std::numeric_limits<int>::max());
     
     std::string strategy = cyclus::OptionalQuery<std::string>(qe, "strategy", "first");
 
-- 
2.43.0


From a9e999841f61c474c3bb5a8176ad3828ec55fed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:11 +0000
Subject: [PATCH 31/57] fix: a restart resumes the schedules of the snapshot

Builds due at the time of the snapshot were lost, builds and
decommissionings scheduled after it were loaded although they are scheduled
again when the time comes, and entries of agents that are not alive at that
time dereferenced a null pointer.
---
 src/sim_init.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 076c35b..0253a29 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -486,7 +486,7 @@ void SimInit::LoadInventories() {
 
 void SimInit::LoadBuildSched() {
   std::vector<Cond> conds;
-  conds.push_back(Cond("BuildTime", ">", t_));
+  conds.push_back(Cond("BuildTime", ">=", t_));
   QueryResult qr;
   try {
     qr = b_->Query("BuildSchedule", &conds);
@@ -494,9 +494,19 @@ void SimInit::LoadBuildSched() {
 
   for (int i = 0; i < qr.rows.size(); ++i) {
     int t = qr.GetVal<int>("BuildTime", i);
+    if (t_ > 0 && qr.GetVal<int>("SchedTime", i) >= t_) {
+      continue;  // scheduled after the snapshot: will be scheduled again
+    }
     int parentid = qr.GetVal<int>("ParentId", i);
     std::string proto = qr.GetVal<std::string>("Prototype", i);
-    ctx_->SchedBuild(agents_[parentid], proto, t);
+    Agent* parent = NULL;
+    if (parentid != -1) {
+      if (agents_.count(parentid) == 0) {
+        continue;  // the parent has left
+      }
+      parent = agents_[parentid];
+    }
+    ctx_->SchedBuild(parent, proto, t);
   }
 }
 
@@ -511,6 +521,12 @@ void SimInit::LoadDecomSched() {
   for (int i = 0; i < qr.rows.size(); ++i) {
     int t = qr.GetVal<int>("DecomTime", i);
     int agentid = qr.GetVal<int>("AgentId", i);
+    if (t_ > 0 && qr.GetVal<int>("SchedTime", i) >= t_) {
+      continue;  // scheduled after the snapshot: will be scheduled again
+    }
+    if (agents_.count(agentid) == 0) {
+      continue;  // the agent has left or was not there yet
+    }
     ctx_->SchedDecom(agents_[agentid], t);
   }
 }
-- 
2.43.0


From 5df54756d56ba166891ff5319d28b1aa6321af8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:11 +0000
Subject: [PATCH 32/57] fix: a restart does not wait for parents that have left

Restarting a simulation in which an agent outlived its parent looped
forever.
---
 src/sim_init.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 0253a29..05835d5 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -441,6 +441,13 @@ void SimInit::LoadInitialAgents() {
       ++it;
       unbuilt.erase(id);
       enter_list.push_back(m);
+    } else if (agents_.count(parentid) == 0 && unbuilt.count(parentid) == 0) {
+      // parent has left the simulation
+      m->Connect(NULL);
+      agents_[id] = m;
+      ++it;
+      unbuilt.erase(id);
+      enter_list.push_back(m);
     } else if (agents_.count(parentid) > 0) {  // parent is built
       m->Connect(agents_[parentid]);
       agents_[id] = m;
-- 
2.43.0


From 4a5f8bf5ea49b17b71384a78b78417d4c3ed7d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:11 +0000
Subject: [PATCH 33/57] fix: resources restored from a database keep their
 package

---
 src/sim_init.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 05835d5..c0f4c05 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -624,11 +624,12 @@ Material::Ptr SimInit::LoadMaterial(Context* ctx, QueryableBackend* b, int state
   qr = b->Query("Resources", &conds);
   double qty = qr.GetVal<double>("Quantity");
   int stateid = qr.GetVal<int>("QualId");
+  std::string package = qr.GetVal<std::string>("PackageName");
 
   // create the composition and material
   Composition::Ptr comp = LoadComposition(b, stateid);
   Agent* dummy = new Dummy(ctx);
-  Material::Ptr mat = Material::Create(dummy, qty, comp);
+  Material::Ptr mat = Material::Create(dummy, qty, comp, package);
   mat->prev_decay_time_ = prev_decay;
   ctx->DelAgent(dummy);
 
@@ -658,6 +659,7 @@ Product::Ptr SimInit::LoadProduct(Context* ctx, QueryableBackend* b, int state_i
   QueryResult qr = b->Query("Resources", &conds);
   double qty = qr.GetVal<double>("Quantity");
   int stateid = qr.GetVal<int>("QualId");
+  std::string package = qr.GetVal<std::string>("PackageName");
 
   // get special Product internal state
   conds.clear();
@@ -669,7 +671,7 @@ Product::Ptr SimInit::LoadProduct(Context* ctx, QueryableBackend* b, int state_i
   Product::qualids_[quality] = stateid;
 
   Agent* dummy = new Dummy(ctx);
-  Product::Ptr r = Product::Create(dummy, qty, quality);
+  Product::Ptr r = Product::Create(dummy, qty, quality, package);
   ctx->DelAgent(dummy);
   return r;
 }
-- 
2.43.0


From 42c03a910b928306422be7920fb9c7ef1e679526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:11 +0000
Subject: [PATCH 34/57] fix: a restart uses the tolerances of the simulation

They were read from the database but only put in force when an input file is
loaded.
---
 src/sim_init.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index c0f4c05..1bea092 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -166,8 +166,8 @@ void SimInit::LoadInfo() {
   si_.dt = qr.GetVal<int>("DurationSecs");
 
   qr = b_->Query("Epsilon", NULL);
-  si_.eps = qr.GetVal<double>("GenericEpsilon");
-  si_.eps_rsrc = qr.GetVal<double>("ResourceEpsilon");
+  cy_eps = si_.eps = qr.GetVal<double>("GenericEpsilon");
+  cy_eps_rsrc = si_.eps_rsrc = qr.GetVal<double>("ResourceEpsilon");
 
   qr = b_->Query("InfoExplicitInv", NULL);
   si_.explicit_inventory = qr.GetVal<bool>("RecordInventory");
-- 
2.43.0


From 087f6e96696c00a3bceaf4a1dfc4f1fc20f55f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:12 +0000
Subject: [PATCH 35/57] fix: a restart at the first time step leaves out later
 schedules

Builds and decommissionings scheduled in later steps are scheduled again when
their time comes.
---
 src/sim_init.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 1bea092..487aa4e 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -501,7 +501,8 @@ void SimInit::LoadBuildSched() {
 
   for (int i = 0; i < qr.rows.size(); ++i) {
     int t = qr.GetVal<int>("BuildTime", i);
-    if (t_ > 0 && qr.GetVal<int>("SchedTime", i) >= t_) {
+    int sched = qr.GetVal<int>("SchedTime", i);
+    if (sched > 0 && sched >= t_) {
       continue;  // scheduled after the snapshot: will be scheduled again
     }
     int parentid = qr.GetVal<int>("ParentId", i);
@@ -528,7 +529,8 @@ void SimInit::LoadDecomSched() {
   for (int i = 0; i < qr.rows.size(); ++i) {
     int t = qr.GetVal<int>("DecomTime", i);
     int agentid = qr.GetVal<int>("AgentId", i);
-    if (t_ > 0 && qr.GetVal<int>("SchedTime", i) >= t_) {
+    int sched = qr.GetVal<int>("SchedTime", i);
+    if (sched > 0 && sched >= t_) {
       continue;  // scheduled after the snapshot: will be scheduled again
     }
     if (agents_.count(agentid) == 0) {
-- 
2.43.0


From fc4170ca91c7fecfa867c9e1511b729b017c5683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:01 +0000
Subject: [PATCH 36/57] fix: explicit inventories of mixed resources record the
 materials

An inventory whose first resource is a material and that also holds a product
dereferenced a null pointer; one that starts with a product was left out.
---
 src/timer.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/timer.cc b/src/timer.cc
index 49fab5e..cdd6cb3 100644
--- a/src/timer.cc
+++ b/src/timer.cc
@@ -135,15 +135,22 @@ void Timer::RecordInventories(Agent* a) {
   for (it2 = invs.begin(); it2 != invs.end(); ++it2) {
     std::string name = it2->first;
     std::vector<Resource::Ptr> mats = it2->second;
-    if (mats.empty() || ResCast<Material>(mats[0]) == NULL) {
-      continue; // skip non-material inventories
+    Material::Ptr m;
+    for (int i = 0; i < mats.size(); i++) {
+      Material::Ptr next = ResCast<Material>(mats[i]);
+      if (next == NULL) {
+        continue; // skip non-material resources
+      }
+      next = ResCast<Material>(next->Clone());
+      if (m == NULL) {
+        m = next;
+      } else {
+        m->Absorb(next);
+      }
     }
-
-    Material::Ptr m = ResCast<Material>(mats[0]->Clone());
-    for (int i = 1; i < mats.size(); i++) {
-      m->Absorb(ResCast<Material>(mats[i]->Clone()));
+    if (m != NULL) {
+      RecordInventory(a, name, m);
     }
-    RecordInventory(a, name, m);
   }
 }
 
-- 
2.43.0


From 0a8ee6b14a90765561dd262ee9cf5aaf8d824e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:57 +0000
Subject: [PATCH 37/57] fix: trades are executed in the order of the agents

---
 src/trade_executor.h | 45 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/trade_executor.h b/src/trade_executor.h
index 17f12a4..d0b4e54 100644
--- a/src/trade_executor.h
+++ b/src/trade_executor.h
@@ -1,6 +1,7 @@
 #ifndef CYCLUS_SRC_TRADE_EXECUTOR_H_
 #define CYCLUS_SRC_TRADE_EXECUTOR_H_
 
+#include <algorithm>
 #include <map>
 #include <set>
 #include <utility>
@@ -13,6 +14,22 @@
 
 namespace cyclus {
 
+/// @brief orders traders by their manager's id, so that trades are executed and
+/// recorded in an order that does not depend on where traders lie in memory
+inline bool TraderIdLess(Trader* lhs, Trader* rhs) {
+  int left = lhs->manager()->id();
+  int right = rhs->manager()->id();
+  return (left != right) ? left < right : lhs < rhs;
+}
+
+inline bool TraderPairIdLess(const std::pair<Trader*, Trader*>& lhs,
+                             const std::pair<Trader*, Trader*>& rhs) {
+  if (lhs.first != rhs.first) {
+    return TraderIdLess(lhs.first, rhs.first);
+  }
+  return TraderIdLess(lhs.second, rhs.second);
+}
+
 /// @class TradeExecutor::Context
 ///
 /// @brief a holding class for information related to a TradeExecutor
@@ -76,14 +93,20 @@ class TradeExecutor {
   /// occur
   void RecordTrades(Context* ctx) {
     // record all trades
+    std::vector<std::pair<Trader*, Trader*> > partners;
     typename std::map<std::pair<Trader*, Trader*>,
         std::vector< std::pair<Trade<T>, typename T::Ptr> > >::iterator m_it;
     for (m_it = trade_ctx_.all_trades.begin();
          m_it != trade_ctx_.all_trades.end(); ++m_it) {
-      Agent* supplier = m_it->first.first->manager();
-      Agent* requester = m_it->first.second->manager();
+      partners.push_back(m_it->first);
+    }
+    std::sort(partners.begin(), partners.end(), TraderPairIdLess);
+
+    for (int i = 0; i < partners.size(); ++i) {
+      Agent* supplier = partners[i].first->manager();
+      Agent* requester = partners[i].second->manager();
       typename std::vector< std::pair<Trade<T>, typename T::Ptr> >&
-          trades = m_it->second;
+          trades = trade_ctx_.all_trades[partners[i]];
       typename std::vector< std::pair<Trade<T>, typename T::Ptr> >::iterator
           v_it;
       for (v_it = trades.begin(); v_it != trades.end(); ++v_it) {
@@ -131,9 +154,11 @@ void GroupTradesBySupplier(TradeExecutionContext<T>& trade_ctx,
 /// populates trades_by_requester_ and all_trades_ with the results
 template<class T>
 static void GetTradeResponses(TradeExecutionContext<T>& trade_ctx) {
-  std::set<Trader*>::iterator it;
-  for (it = trade_ctx.suppliers.begin(); it != trade_ctx.suppliers.end();
-       ++it) {
+  std::vector<Trader*> suppliers(trade_ctx.suppliers.begin(),
+                                 trade_ctx.suppliers.end());
+  std::sort(suppliers.begin(), suppliers.end(), TraderIdLess);
+  std::vector<Trader*>::iterator it;
+  for (it = suppliers.begin(); it != suppliers.end(); ++it) {
     // get responses
     Trader* supplier = *it;
     std::vector< std::pair<Trade<T>, typename T::Ptr> > responses;
@@ -158,9 +183,11 @@ static void GetTradeResponses(TradeExecutionContext<T>& trade_ctx) {
 
 template <class T>
 static void SendTradeResources(TradeExecutionContext<T>& trade_ctx) {
-  std::set<Trader*>::iterator it;
-  for (it = trade_ctx.requesters.begin(); it != trade_ctx.requesters.end();
-       ++it) {
+  std::vector<Trader*> requesters(trade_ctx.requesters.begin(),
+                                  trade_ctx.requesters.end());
+  std::sort(requesters.begin(), requesters.end(), TraderIdLess);
+  std::vector<Trader*>::iterator it;
+  for (it = requesters.begin(); it != requesters.end(); ++it) {
     Trader* requester = *it;
     AcceptTrades(requester, trade_ctx.trades_by_requester[requester]);
   }
-- 
2.43.0


From 01c240c0553996b4010571764bd290380eb3713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:40 +0000
Subject: [PATCH 38/57] fix: distributions use and report the mean or
 probability they are given

---
 src/random_number_generator.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index 9072618..ed93087 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -152,7 +152,7 @@ class PoissonDoubleDist : public DoubleDistribution {
   public:
     typedef boost::shared_ptr<PoissonDoubleDist> Ptr;
 
-    PoissonDoubleDist(double mean) : dist(mean_) {
+    PoissonDoubleDist(double mean) : dist(mean), mean_(mean) {
       if (mean_ < 0) {
         throw ValueError("Mean must be positive");
       }
@@ -188,7 +188,7 @@ class BinaryDoubleDist : public DoubleDistribution {
   public:
 
     BinaryDoubleDist(double p_success, double choice_a, double choice_b) : 
-      dist(1, p_success),choice_a_(choice_a), choice_b_(choice_b) {
+      dist(1, p_success), p_success_(p_success), choice_a_(choice_a), choice_b_(choice_b) {
       if (p_success < 0) {
         throw ValueError("Probability of choice A must be positive");
       }
@@ -266,7 +266,7 @@ class BinomialIntDist : public IntDistribution {
     };
     virtual int sample() { return dist(RandomNumberGenerator::gen_); }
     virtual int trials() { return trials_; }
-    virtual int p() { return p_success_; }
+    virtual double p() { return p_success_; }
 };
 
 /// NegativeBinomialIntDist takes the number of successes desired and a 
@@ -291,7 +291,7 @@ class NegativeBinomialIntDist : public IntDistribution {
     };
     virtual int sample() { return dist(RandomNumberGenerator::gen_); }
     virtual int successes() { return successes_; }
-    virtual int p() { return p_success_; }
+    virtual double p() { return p_success_; }
 };
 
 /// Poisson distribution requires a mean 
@@ -302,7 +302,7 @@ class PoissonIntDist : public IntDistribution {
   public:
     typedef boost::shared_ptr<PoissonIntDist> Ptr;
 
-    PoissonIntDist(double mean) : dist(mean_) {
+    PoissonIntDist(double mean) : dist(mean), mean_(mean) {
       if (mean_ < 0) {
         throw ValueError("Mean must be positive");
       }
@@ -337,7 +337,7 @@ class BinaryIntDist : public IntDistribution {
   public:
 
     BinaryIntDist(double p_success, int choice_a, int choice_b) : 
-      dist(1, p_success),choice_a_(choice_a), choice_b_(choice_b) {
+      dist(1, p_success), p_success_(p_success), choice_a_(choice_a), choice_b_(choice_b) {
       if (p_success < 0) {
         throw ValueError("Probability of choice A must be positive");
       }
-- 
2.43.0


From 0c1e573d28b45930fb25dd942dbee87429166a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:29 +0000
Subject: [PATCH 39/57] fix: the mass fraction of several nuclides of an empty
 material is a number

---
 src/toolkit/mat_query.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/toolkit/mat_query.cc b/src/toolkit/mat_query.cc
index df7cc78..987cc24 100644
--- a/src/toolkit/mat_query.cc
+++ b/src/toolkit/mat_query.cc
@@ -27,12 +27,12 @@ double MatQuery::mass_frac(Nuc nuc) {
 }
 
 double MatQuery::mass_frac(std::set<Nuc> nucs) {
-  double m_tot = 0;
+  double frac_tot = 0;
   std::set<Nuc>::iterator it ;
   for (it = nucs.begin(); it != nucs.end(); ++it) {
-    m_tot += mass(*it);
+    frac_tot += mass_frac(*it);
   }
-  return m_tot/qty();
+  return frac_tot;
 }
 
 double MatQuery::atom_frac(Nuc nuc) {
-- 
2.43.0


From e9f21aeb418b39f4a2e00e5f4a2bb08fcac5dd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:40 +0000
Subject: [PATCH 40/57] fix: no build orders when no builder has a producer of
 the commodity

---
 src/toolkit/building_manager.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/toolkit/building_manager.cc b/src/toolkit/building_manager.cc
index ea61643..2e8a54a 100644
--- a/src/toolkit/building_manager.cc
+++ b/src/toolkit/building_manager.cc
@@ -22,6 +22,9 @@ std::vector<BuildOrder> BuildingManager::MakeBuildDecision(Commodity& commodity,
     std::map<CommodityProducer*, Builder*> p_to_b;
     std::map<int, CommodityProducer*> idx_to_p;
     SetUp_(iface, ctx, p_to_b, idx_to_p, commodity, demand);
+    if (idx_to_p.empty()) {
+      return orders;  // nobody can build a producer of the commodity
+    }
     Solve_(iface, ctx, p_to_b, idx_to_p, orders);
   }
   return orders;
-- 
2.43.0


From d830c4f4eecc6551cf7bbebddedde70fb67a42d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:52 +0000
Subject: [PATCH 41/57] fix: the distance between antipodes is a number

---
 src/toolkit/position.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/position.cc b/src/toolkit/position.cc
index cb5ac72..6199e6e 100644
--- a/src/toolkit/position.cc
+++ b/src/toolkit/position.cc
@@ -77,7 +77,8 @@ double Position::Distance(Position target) const {
       pow(sin(dlong / 2), 2) * cos(curr_latitude) * cos(tarlatitude);
 
   double angular_distance =
-      2 * atan2(sqrt(half_chord_length_sq), sqrt(1 - half_chord_length_sq));
+      2 * atan2(sqrt(half_chord_length_sq),
+                sqrt(fmax(0, 1 - half_chord_length_sq)));
   return earth_radius * angular_distance;
 }
 
-- 
2.43.0


From 060dbc36ea5b9e346fee26ce4cfa5751a4a5e4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:23 +0000
Subject: [PATCH 42/57] fix: the bids of a portfolio are exchanged in the order
 they were made

---
 src/bid_portfolio.h       | 16 ++++++++++++++--
 src/exchange_context.h    |  4 ++--
 src/exchange_manager.h    |  4 ++--
 src/exchange_translator.h | 10 +++++-----
 4 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/bid_portfolio.h b/src/bid_portfolio.h
index 855c74b..e6aefbc 100644
--- a/src/bid_portfolio.h
+++ b/src/bid_portfolio.h
@@ -4,6 +4,7 @@
 #include <set>
 #include <sstream>
 #include <string>
+#include <vector>
 
 #include <boost/shared_ptr.hpp>
 
@@ -58,9 +59,10 @@ class BidPortfolio : public boost::enable_shared_from_this<BidPortfolio<T>> {
     Bid<T>* b = Bid<T>::Create(request, offer, bidder, this->shared_from_this(),
                                exclusive, preference);
     VerifyResponder_(b);
-    if (offer->quantity() > 0)
+    if (offer->quantity() > 0) {
       bids_.insert(b);
-    else {
+      ordered_bids_.push_back(b);
+    } else {
       std::stringstream ss;
       ss << GetTraderPrototype(bidder) << " from " << GetTraderSpec(bidder)
          << " is offering a bid quantity <= 0, Q = " << offer->quantity();
@@ -98,6 +100,11 @@ class BidPortfolio : public boost::enable_shared_from_this<BidPortfolio<T>> {
   /// @return const access to the bids
   inline const std::set<Bid<T>*>& bids() const { return bids_; }
 
+  /// @return const access to the bids, in the order in which they were added
+  inline const std::vector<Bid<T>*>& ordered_bids() const {
+    return ordered_bids_;
+  }
+
   /// @return the set of constraints over the bids
   inline const std::set<CapacityConstraint<T>>& constraints() const {
     return constraints_;
@@ -109,6 +116,7 @@ class BidPortfolio : public boost::enable_shared_from_this<BidPortfolio<T>> {
   BidPortfolio(const BidPortfolio& rhs) {
     bidder_ = rhs.bidder_;
     bids_ = rhs.bids_;
+    ordered_bids_ = rhs.ordered_bids_;
     constraints_ = rhs.constraints_;
     typename std::set<Bid<T>*>::iterator it;
     for (it = bids_.begin(); it != bids_.end(); ++it) {
@@ -137,6 +145,10 @@ class BidPortfolio : public boost::enable_shared_from_this<BidPortfolio<T>> {
   // bid and a request, i.e., bids are unique
   std::set<Bid<T>*> bids_;
 
+  // the same bids in the order in which they were added: the order of the
+  // set is that of their addresses
+  std::vector<Bid<T>*> ordered_bids_;
+
   // constraints_ is a set because constraints are assumed to be unique
   std::set<CapacityConstraint<T>> constraints_;
 
diff --git a/src/exchange_context.h b/src/exchange_context.h
index a876ed1..e6707ea 100644
--- a/src/exchange_context.h
+++ b/src/exchange_context.h
@@ -71,8 +71,8 @@ struct ExchangeContext {
   /// @brief adds a bid to the context
   void AddBidPortfolio(const typename BidPortfolio<T>::Ptr port) {
     bids.push_back(port);
-    const std::set<Bid<T>*>& vr = port->bids();
-    typename std::set<Bid<T>*>::const_iterator it;
+    const std::vector<Bid<T>*>& vr = port->ordered_bids();
+    typename std::vector<Bid<T>*>::const_iterator it;
 
     for (it = vr.begin(); it != vr.end(); ++it) {
       Bid<T>* pb = *it;
diff --git a/src/exchange_manager.h b/src/exchange_manager.h
index 1a7d784..d04de0b 100644
--- a/src/exchange_manager.h
+++ b/src/exchange_manager.h
@@ -93,8 +93,8 @@ class ExchangeManager {
 
     typename std::vector<typename BidPortfolio<T>::Ptr>::iterator it3;
     for (it3 = exctx.bids.begin(); it3 != exctx.bids.end(); ++it3) {
-      std::set<Bid<T>*> bids = (*it3)->bids();
-      typename std::set<Bid<T>*>::iterator it4;
+      const std::vector<Bid<T>*>& bids = (*it3)->ordered_bids();
+      typename std::vector<Bid<T>*>::const_iterator it4;
       for (it4 = bids.begin(); it4 != bids.end(); ++it4) {
         Bid<T>* b = *it4;
         Request<T>* r = b->request();
diff --git a/src/exchange_translator.h b/src/exchange_translator.h
index a4ed768..000e590 100644
--- a/src/exchange_translator.h
+++ b/src/exchange_translator.h
@@ -64,8 +64,8 @@ class ExchangeTranslator {
       graph->AddSupplyGroup(ns);
 
       // add each request-bid arc
-      const std::set<Bid<T>*>& bids = (*bp_it)->bids();
-      typename std::set<Bid<T>*>::const_iterator b_it;
+      const std::vector<Bid<T>*>& bids = (*bp_it)->ordered_bids();
+      typename std::vector<Bid<T>*>::const_iterator b_it;
       for (b_it = bids.begin(); b_it != bids.end(); ++b_it) {
         Bid<T>* bid = *b_it;
         Request<T>* req = bid->request();
@@ -191,9 +191,9 @@ ExchangeNodeGroup::Ptr TranslateBidPortfolio(
 
   std::map<typename T::Ptr, std::vector<ExchangeNode::Ptr> > excl_bid_grps;
 
-  typename std::set<Bid<T>*>::const_iterator b_it;
-  for (b_it = bp->bids().begin();
-       b_it != bp->bids().end();
+  typename std::vector<Bid<T>*>::const_iterator b_it;
+  for (b_it = bp->ordered_bids().begin();
+       b_it != bp->ordered_bids().end();
        ++b_it) {
     Bid<T>* b = *b_it;
     ExchangeNode::Ptr n(
-- 
2.43.0


From cb83528995fe8aec6b5109cfa85fbc2a111ec8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:23 +0000
Subject: [PATCH 43/57] fix: facilities at the end of their lifetime leave in
 the order of their ids

---
 src/institution.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/institution.cc b/src/institution.cc
index 9b6af7b..7e523d3 100644
--- a/src/institution.cc
+++ b/src/institution.cc
@@ -2,6 +2,7 @@
 #include "institution.h"
 
 #include <iostream>
+#include <map>
 #include <sstream>
 #include <string>
 
@@ -47,9 +48,15 @@ void Institution::Decommission() {
 }
 
 void Institution::Tock() {
-  std::set<Agent*>::iterator it;
-  for (it = children().begin(); it != children().end(); ++it) {
-    Agent* a = *it;
+  // by id: the order of the set is that of the children's addresses
+  std::map<int, Agent*> by_id;
+  std::set<Agent*>::iterator c;
+  for (c = children().begin(); c != children().end(); ++c) {
+    by_id[(*c)->id()] = *c;
+  }
+  std::map<int, Agent*>::iterator it;
+  for (it = by_id.begin(); it != by_id.end(); ++it) {
+    Agent* a = it->second;
     if (a->lifetime() != -1 && context()->time() >= a->exit_time()) {
       Facility* fac = dynamic_cast<Facility*>(a);
       if (fac == NULL || fac->CheckDecommissionCondition()) {
-- 
2.43.0


From 8a5e6d80a20b7ad4f034c008aa1d1bb325f436ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 44/57] fix: preferences are adjusted in the order of the
 agents

---
 src/resource_exchange.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/resource_exchange.h b/src/resource_exchange.h
index 7495bed..1056e65 100644
--- a/src/resource_exchange.h
+++ b/src/resource_exchange.h
@@ -96,7 +96,8 @@ class ResourceExchange {
   /// @brief adjust preferences for requests given bid responses
   void AdjustAll() {
     InitTraders();
-    std::set<Trader*> traders = ex_ctx_.requesters;
+    std::set<Trader*, trader_compare> traders(ex_ctx_.requesters.begin(),
+                                              ex_ctx_.requesters.end());
     std::for_each(
         traders.begin(),
         traders.end(),
-- 
2.43.0


From 0e5881e267188f3bf90d02f6a27f2bfc50e3b348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:37 +0000
Subject: [PATCH 45/57] fix: portfolios of a trader are exchanged in the order
 they were made

---
 src/bid_portfolio.h     |  9 ++++++++-
 src/request_portfolio.h |  9 ++++++++-
 src/resource_exchange.h | 25 +++++++++++++++++++------
 3 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/bid_portfolio.h b/src/bid_portfolio.h
index e6aefbc..18c4187 100644
--- a/src/bid_portfolio.h
+++ b/src/bid_portfolio.h
@@ -35,7 +35,10 @@ class BidPortfolio : public boost::enable_shared_from_this<BidPortfolio<T>> {
   typedef boost::shared_ptr<BidPortfolio<T>> Ptr;
 
   /// @brief default constructor
-  BidPortfolio() : bidder_(NULL) {}
+  BidPortfolio() : bidder_(NULL), id_(next_id_++) {}
+
+  /// @return the id of the portfolio; later portfolios have higher ids
+  inline int id() const { return id_; }
 
   /// deletes all bids associated with it
   ~BidPortfolio() {
@@ -153,8 +156,12 @@ class BidPortfolio : public boost::enable_shared_from_this<BidPortfolio<T>> {
   std::set<CapacityConstraint<T>> constraints_;
 
   Trader* bidder_;
+  int id_;
+  static int next_id_;
 };
 
+template <class T> int BidPortfolio<T>::next_id_ = 0;
+
 }  // namespace cyclus
 
 #endif  // CYCLUS_SRC_BID_PORTFOLIO_H_
diff --git a/src/request_portfolio.h b/src/request_portfolio.h
index fbfc42a..505748a 100644
--- a/src/request_portfolio.h
+++ b/src/request_portfolio.h
@@ -90,7 +90,10 @@ class RequestPortfolio
   typedef std::function<double(boost::shared_ptr<T>)> cost_function_t;
   typedef Request<T>* request_ptr;
 
-  RequestPortfolio() : requester_(NULL), qty_(0) {}
+  RequestPortfolio() : requester_(NULL), qty_(0), id_(next_id_++) {}
+
+  /// @return the id of the portfolio; later portfolios have higher ids
+  inline int id() const { return id_; }
 
   /// deletes all requests associated with it
   ~RequestPortfolio() {
@@ -233,8 +236,12 @@ class RequestPortfolio
   /// the total quantity of resources associated with the portfolio
   double qty_;
   Trader* requester_;
+  int id_;
+  static int next_id_;
 };
 
+template <class T> int RequestPortfolio<T>::next_id_ = 0;
+
 }  // namespace cyclus
 
 #endif  // CYCLUS_SRC_REQUEST_PORTFOLIO_H_
diff --git a/src/resource_exchange.h b/src/resource_exchange.h
index 1056e65..105b98d 100644
--- a/src/resource_exchange.h
+++ b/src/resource_exchange.h
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <functional>
+#include <map>
 #include <set>
 
 #include "bid_portfolio.h"
@@ -122,12 +123,23 @@ class ResourceExchange {
     }
   }
 
+  /// @brief portfolios by id: the order of the set is that of their addresses
+  template <class P> static std::map<int, P> ById_(const std::set<P>& ports) {
+    std::map<int, P> by_id;
+    typename std::set<P>::const_iterator it;
+    for (it = ports.begin(); it != ports.end(); ++it) {
+      by_id[(*it)->id()] = *it;
+    }
+    return by_id;
+  }
+
   /// @brief queries a given facility agent for
   void AddRequests_(Trader* t) {
     std::set<typename RequestPortfolio<T>::Ptr> rp = QueryRequests<T>(t);
-    typename std::set<typename RequestPortfolio<T>::Ptr>::iterator it;
-    for (it = rp.begin(); it != rp.end(); ++it) {
-      ex_ctx_.AddRequestPortfolio(*it);
+    std::map<int, typename RequestPortfolio<T>::Ptr> by_id = ById_(rp);
+    typename std::map<int, typename RequestPortfolio<T>::Ptr>::iterator it;
+    for (it = by_id.begin(); it != by_id.end(); ++it) {
+      ex_ctx_.AddRequestPortfolio(it->second);
     }
   }
 
@@ -135,9 +147,10 @@ class ResourceExchange {
   void AddBids_(Trader* t) {
     std::set<typename BidPortfolio<T>::Ptr> bp =
         QueryBids<T>(t, ex_ctx_.commod_requests);
-    typename std::set<typename BidPortfolio<T>::Ptr>::iterator it;
-    for (it = bp.begin(); it != bp.end(); ++it) {
-      ex_ctx_.AddBidPortfolio(*it);
+    std::map<int, typename BidPortfolio<T>::Ptr> by_id = ById_(bp);
+    typename std::map<int, typename BidPortfolio<T>::Ptr>::iterator it;
+    for (it = by_id.begin(); it != by_id.end(); ++it) {
+      ex_ctx_.AddBidPortfolio(it->second);
     }
   }
 
-- 
2.43.0


From b2a03f5e9ae1a47bc3fce450001cbd012bacafe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:01 +0000
Subject: [PATCH 46/57] fix: blobs given in Python are kept whole, not cut at
 their first zero byte

---
 cyclus/gentypesystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cyclus/gentypesystem.py b/cyclus/gentypesystem.py
index 0fba046..c8c9316 100644
--- a/cyclus/gentypesystem.py
+++ b/cyclus/gentypesystem.py
@@ -474,7 +474,7 @@ VARS_TO_CPP = {
     'float': '<float> {var}',
     'double': '<double> {var}',
     'std::string': 'str_py_to_cpp({var})',
-    'cyclus::Blob': 'cpp_cyclus.Blob(std_string(<const char*> {var}))',
+    'cyclus::Blob': 'cpp_cyclus.Blob(std_string(<const char*> {var}, len({var})))',
     'boost::uuids::uuid': 'uuid_py_to_cpp({var})',
     }
 
@@ -660,7 +660,7 @@ TO_CPP_CONVERTERS = {
         'else:\n'
         '   b_{var} = bytes({var})\n',
         'std_string(<const char*> b_{var})'),
-    'cyclus::Blob': ('', '', 'cpp_cyclus.Blob(std_string(<const char*> {var}))'),
+    'cyclus::Blob': ('', '', 'cpp_cyclus.Blob(std_string(<const char*> {var}, len({var})))'),
     'boost::uuids::uuid': ('', '', 'uuid_py_to_cpp({var})'),
     'cyclus::Material': (
         'cdef _Material py{var}\n'
-- 
2.43.0


From cdd7f76d69890c1042700a199e1464eaab38be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:40 +0000
Subject: [PATCH 47/57] fix: inventories of Python agents are snapshot whole

---
 cyclus/gentypesystem.py | 2 +-
 cyclus/lib.pyx          | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclus/gentypesystem.py b/cyclus/gentypesystem.py
index c8c9316..a521ae7 100644
--- a/cyclus/gentypesystem.py
+++ b/cyclus/gentypesystem.py
@@ -1389,7 +1389,7 @@ cdef class _{{tclassname}}:
         For ResBuf, this iteratively calls push().
         """
         for r in rs:
-            self.push(r)
+            self.ptx.Push((<_Resource> r).ptx)
 
 {% elif ts.norms[t][0] == 'cyclus::toolkit::ResMap' %}
 {% set k = ts.norms[t][1] %}
diff --git a/cyclus/lib.pyx b/cyclus/lib.pyx
index 4aaaf25..6564a62 100644
--- a/cyclus/lib.pyx
+++ b/cyclus/lib.pyx
@@ -1289,6 +1289,7 @@ cdef cpp_cyclus.Inventories inventories_to_cpp(object pyinvs):
         value = std_vector[shared_ptr[cpp_cyclus.Resource]]()
         for r in pyvalue:
             value.push_back((<ts._Resource> r).ptx)
+        invs[name] = value
     return invs
 
 
-- 
2.43.0


From 54b727b92e1a2c559725076ee4959029d6e12552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:40 +0000
Subject: [PATCH 48/57] fix: agents found from Python are the ones asked for,
 not earlier ones of the same id

---
 cyclus/agents.pyx |  8 ++++----
 cyclus/lib.pxd    |  1 +
 cyclus/lib.pyx    | 23 +++++++++++++++++++++--
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/cyclus/agents.pyx b/cyclus/agents.pyx
index dffb055..71f3d9e 100644
--- a/cyclus/agents.pyx
+++ b/cyclus/agents.pyx
@@ -97,7 +97,7 @@ cdef cppclass CyclusAgentShim "CyclusAgentShim" (cpp_cyclus.Agent):
         # call generic python
         self = (<object> this.self)
         self.init_from_dict(res)
-        lib._AGENT_REFS[self.id] = self
+        lib._renumber_agent(self)
 
     void Snapshot(cpp_cyclus.DbInit di) except *:
         cdef lib._DbInit py_di = lib.DbInit(free=False)
@@ -221,7 +221,7 @@ cdef cppclass CyclusRegionShim "CyclusRegionShim" (cpp_cyclus.Region):
         # call generic python
         self = (<object> this.self)
         self.init_from_dict(res)
-        lib._AGENT_REFS[self.id] = self
+        lib._renumber_agent(self)
 
     void Snapshot(cpp_cyclus.DbInit di) except *:
         cdef lib._DbInit py_di = lib.DbInit(free=False)
@@ -357,7 +357,7 @@ cdef cppclass CyclusInstitutionShim "CyclusInstitutionShim" (cpp_cyclus.Institut
         # call generic python
         self = (<object> this.self)
         self.init_from_dict(res)
-        lib._AGENT_REFS[self.id] = self
+        lib._renumber_agent(self)
 
     void Snapshot(cpp_cyclus.DbInit di) except *:
         cdef lib._DbInit py_di = lib.DbInit(free=False)
@@ -502,7 +502,7 @@ cdef cppclass CyclusFacilityShim "CyclusFacilityShim" (cpp_cyclus.Facility):
         # call generic python
         self = (<object> this.self)
         self.init_from_dict(res)
-        lib._AGENT_REFS[self.id] = self
+        lib._renumber_agent(self)
 
     void Snapshot(cpp_cyclus.DbInit di) except *:
         cdef lib._DbInit py_di = lib.DbInit(free=False)
diff --git a/cyclus/lib.pxd b/cyclus/lib.pxd
index 5d281b4..65542d2 100644
--- a/cyclus/lib.pxd
+++ b/cyclus/lib.pxd
@@ -118,3 +118,4 @@ cdef dict _AGENT_REFS
 cpdef object make_py_agent(object libname, object agentname, object ctx)
 cpdef void _clear_agent_refs()
 cpdef void _del_agent(int i)
+cpdef void _renumber_agent(object agent)
diff --git a/cyclus/lib.pyx b/cyclus/lib.pyx
index 6564a62..8158b7e 100644
--- a/cyclus/lib.pyx
+++ b/cyclus/lib.pyx
@@ -1246,8 +1246,12 @@ cdef object agent_to_py(cpp_cyclus.Agent* a_ptx, object ctx):
     if a_ptx == NULL:
         return None
     cdef int a_id = a_ptx.id()
-    if a_id in _AGENT_REFS:
-        return _AGENT_REFS[a_id]
+    ref = _AGENT_REFS.get(a_id, None)
+    # a wrapper may have been made for an earlier agent of the same id, such as
+    # that of the input file loader
+    if ref is not None and (type(ref) is not Agent or
+                            (<_Agent> ref).ptx == <void*> a_ptx):
+        return ref
     if ctx is None:
         # have to make new wrapper instance
         ctx = Context(init=False)
@@ -1921,6 +1925,21 @@ cpdef object make_py_agent(object libname, object agentname, object ctx_capsule)
     return rtn, agent.kind
 
 
+cpdef void _renumber_agent(object agent):
+    """Moves an agent whose id has been replaced, such as by that of the agent in
+    the database, to its new id in the reference cache. Users should never need to
+    call this.
+    """
+    global _AGENT_REFS
+    # an agent is renumbered right after it is made, so its old id is a recent one
+    for i in reversed(_AGENT_REFS):
+        if _AGENT_REFS[i] is agent:
+            if i != agent.id:
+                del _AGENT_REFS[i]
+            break
+    _AGENT_REFS[agent.id] = agent
+
+
 cpdef void _clear_agent_refs():
     """Clears the agent references cache. Users should never need to call this."""
     global _AGENT_REFS
-- 
2.43.0


From c023f209f1fea63d575036b84ffbb33f801a5b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:40 +0000
Subject: [PATCH 49/57] fix: Python agents can pass facilities to the
 simulation and to family queries

---
 cyclus/agents.pyx | 24 ++++++++++++------------
 cyclus/lib.pyx    | 11 +++++++----
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/cyclus/agents.pyx b/cyclus/agents.pyx
index 71f3d9e..cac6f18 100644
--- a/cyclus/agents.pyx
+++ b/cyclus/agents.pyx
@@ -1081,7 +1081,7 @@ cdef class _Region(_Agent):
         """Returns a list of children strings representing the parent-child tree
         at the node for Agent m.
         """
-        cdef cpp_cyclus.Agent* cpp_m = <cpp_cyclus.Agent*> (<_Agent> m).ptx
+        cdef cpp_cyclus.Agent* cpp_m = lib.dynamic_agent_ptr(m)
         rtn = std_vector_std_string_to_py(
                 (<CyclusRegionShim*> (<_Agent> self).shim).GetTreePrintOuts(cpp_m))
         return rtn
@@ -1090,7 +1090,7 @@ cdef class _Region(_Agent):
         """Returns true if this agent is in the parent-child family tree of an
         other agent.
         """
-        cdef cpp_cyclus.Agent* cpp_other = <cpp_cyclus.Agent*> (<_Agent> other).ptx
+        cdef cpp_cyclus.Agent* cpp_other = lib.dynamic_agent_ptr(other)
         rtn = bool_to_py((<CyclusRegionShim*> (<_Agent> self).shim).InFamilyTree(cpp_other))
         return rtn
 
@@ -1098,7 +1098,7 @@ cdef class _Region(_Agent):
         """Returns true if this agent is an ancestor of an other agent (i.e., resides
         above an other agent in the family tree).
         """
-        cdef cpp_cyclus.Agent* cpp_other = <cpp_cyclus.Agent*> (<_Agent> other).ptx
+        cdef cpp_cyclus.Agent* cpp_other = lib.dynamic_agent_ptr(other)
         rtn = bool_to_py((<CyclusRegionShim*> (<_Agent> self).shim).AncestorOf(cpp_other))
         return rtn
 
@@ -1106,7 +1106,7 @@ cdef class _Region(_Agent):
         """Returns true if this agent is an decendent of an other agent (i.e., resides
         above an other agent in the family tree).
         """
-        cdef cpp_cyclus.Agent* cpp_other = <cpp_cyclus.Agent*> (<_Agent> other).ptx
+        cdef cpp_cyclus.Agent* cpp_other = lib.dynamic_agent_ptr(other)
         rtn = bool_to_py((<CyclusRegionShim*> (<_Agent> self).shim).DecendentOf(cpp_other))
         return rtn
 
@@ -1281,7 +1281,7 @@ cdef class _Institution(_Agent):
         """Returns a list of children strings representing the parent-child tree
         at the node for Agent m.
         """
-        cdef cpp_cyclus.Agent* cpp_m = <cpp_cyclus.Agent*> (<_Agent> m).ptx
+        cdef cpp_cyclus.Agent* cpp_m = lib.dynamic_agent_ptr(m)
         rtn = std_vector_std_string_to_py(
                 (<CyclusInstitutionShim*> (<_Agent> self).shim).GetTreePrintOuts(cpp_m))
         return rtn
@@ -1290,7 +1290,7 @@ cdef class _Institution(_Agent):
         """Returns true if this agent is in the parent-child family tree of an
         other agent.
         """
-        cdef cpp_cyclus.Agent* cpp_other = <cpp_cyclus.Agent*> (<_Agent> other).ptx
+        cdef cpp_cyclus.Agent* cpp_other = lib.dynamic_agent_ptr(other)
         rtn = bool_to_py((<CyclusInstitutionShim*> (<_Agent> self).shim).InFamilyTree(cpp_other))
         return rtn
 
@@ -1298,7 +1298,7 @@ cdef class _Institution(_Agent):
         """Returns true if this agent is an ancestor of an other agent (i.e., resides
         above an other agent in the family tree).
         """
-        cdef cpp_cyclus.Agent* cpp_other = <cpp_cyclus.Agent*> (<_Agent> other).ptx
+        cdef cpp_cyclus.Agent* cpp_other = lib.dynamic_agent_ptr(other)
         rtn = bool_to_py((<CyclusInstitutionShim*> (<_Agent> self).shim).AncestorOf(cpp_other))
         return rtn
 
@@ -1306,7 +1306,7 @@ cdef class _Institution(_Agent):
         """Returns true if this agent is an decendent of an other agent (i.e., resides
         above an other agent in the family tree).
         """
-        cdef cpp_cyclus.Agent* cpp_other = <cpp_cyclus.Agent*> (<_Agent> other).ptx
+        cdef cpp_cyclus.Agent* cpp_other = lib.dynamic_agent_ptr(other)
         rtn = bool_to_py((<CyclusInstitutionShim*> (<_Agent> self).shim).DecendentOf(cpp_other))
         return rtn
 
@@ -1482,7 +1482,7 @@ cdef class _Facility(_Agent):
         """Returns a list of children strings representing the parent-child tree
         at the node for Agent m.
         """
-        cdef cpp_cyclus.Agent* cpp_m = <cpp_cyclus.Agent*> (<_Agent> m).ptx
+        cdef cpp_cyclus.Agent* cpp_m = lib.dynamic_agent_ptr(m)
         rtn = std_vector_std_string_to_py(
                 (<CyclusFacilityShim*> (<_Agent> self).shim).GetTreePrintOuts(cpp_m))
         return rtn
@@ -1491,7 +1491,7 @@ cdef class _Facility(_Agent):
         """Returns true if this agent is in the parent-child family tree of an
         other agent.
         """
-        cdef cpp_cyclus.Agent* cpp_other = <cpp_cyclus.Agent*> (<_Agent> other).ptx
+        cdef cpp_cyclus.Agent* cpp_other = lib.dynamic_agent_ptr(other)
         rtn = bool_to_py((<CyclusFacilityShim*> (<_Agent> self).shim).InFamilyTree(cpp_other))
         return rtn
 
@@ -1499,7 +1499,7 @@ cdef class _Facility(_Agent):
         """Returns true if this agent is an ancestor of an other agent (i.e., resides
         above an other agent in the family tree).
         """
-        cdef cpp_cyclus.Agent* cpp_other = <cpp_cyclus.Agent*> (<_Agent> other).ptx
+        cdef cpp_cyclus.Agent* cpp_other = lib.dynamic_agent_ptr(other)
         rtn = bool_to_py((<CyclusFacilityShim*> (<_Agent> self).shim).AncestorOf(cpp_other))
         return rtn
 
@@ -1507,7 +1507,7 @@ cdef class _Facility(_Agent):
         """Returns true if this agent is an decendent of an other agent (i.e., resides
         above an other agent in the family tree).
         """
-        cdef cpp_cyclus.Agent* cpp_other = <cpp_cyclus.Agent*> (<_Agent> other).ptx
+        cdef cpp_cyclus.Agent* cpp_other = lib.dynamic_agent_ptr(other)
         rtn = bool_to_py((<CyclusFacilityShim*> (<_Agent> self).shim).DecendentOf(cpp_other))
         return rtn
 
diff --git a/cyclus/lib.pyx b/cyclus/lib.pyx
index 8158b7e..1a905d0 100644
--- a/cyclus/lib.pyx
+++ b/cyclus/lib.pyx
@@ -56,6 +56,9 @@ cdef cpp_cyclus.Agent* dynamic_agent_ptr(object a):
     """Dynamically casts an agent instance to the correct agent pointer"""
     if a is None:
         return NULL
+    elif type(a) is Agent:
+        # wraps an agent that is not written in Python
+        return <cpp_cyclus.Agent*> (<_Agent> a).ptx
     elif a.kind == "Region":
         return dynamic_cast[agent_ptr](
             reinterpret_cast[region_ptr]((<_Agent> a).ptx))
@@ -1331,7 +1334,7 @@ cdef class _Agent:
         """Returns a list of children strings representing the parent-child tree
         at the node for Agent m.
         """
-        cdef cpp_cyclus.Agent* cpp_m = <cpp_cyclus.Agent*> (<_Agent> m).ptx
+        cdef cpp_cyclus.Agent* cpp_m = dynamic_agent_ptr(m)
         rtn = std_vector_std_string_to_py(
                 (<cpp_cyclus.Agent*> self.ptx).GetTreePrintOuts(cpp_m))
         return rtn
@@ -1340,7 +1343,7 @@ cdef class _Agent:
         """Returns true if this agent is in the parent-child family tree of an
         other agent.
         """
-        cdef cpp_cyclus.Agent* cpp_other = <cpp_cyclus.Agent*> (<_Agent> other).ptx
+        cdef cpp_cyclus.Agent* cpp_other = dynamic_agent_ptr(other)
         rtn = bool_to_py((<cpp_cyclus.Agent*> self.ptx).InFamilyTree(cpp_other))
         return rtn
 
@@ -1348,7 +1351,7 @@ cdef class _Agent:
         """Returns true if this agent is an ancestor of an other agent (i.e., resides
         above an other agent in the family tree).
         """
-        cdef cpp_cyclus.Agent* cpp_other = <cpp_cyclus.Agent*> (<_Agent> other).ptx
+        cdef cpp_cyclus.Agent* cpp_other = dynamic_agent_ptr(other)
         rtn = bool_to_py((<cpp_cyclus.Agent*> self.ptx).AncestorOf(cpp_other))
         return rtn
 
@@ -1356,7 +1359,7 @@ cdef class _Agent:
         """Returns true if this agent is an decendent of an other agent (i.e., resides
         above an other agent in the family tree).
         """
-        cdef cpp_cyclus.Agent* cpp_other = <cpp_cyclus.Agent*> (<_Agent> other).ptx
+        cdef cpp_cyclus.Agent* cpp_other = dynamic_agent_ptr(other)
         rtn = bool_to_py((<cpp_cyclus.Agent*> self.ptx).DecendentOf(cpp_other))
         return rtn
 
-- 
2.43.0


From da64b75495155b21baecb4a953f537d354658069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:40 +0000
Subject: [PATCH 50/57] fix: requests given in Python as mappings or sequences
 reach the exchange

---
 cyclus/lib.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cyclus/lib.pyx b/cyclus/lib.pyx
index 1a905d0..e75f097 100644
--- a/cyclus/lib.pyx
+++ b/cyclus/lib.pyx
@@ -1845,7 +1845,7 @@ cpdef dict normalize_request_portfolio(object inp):
             elif isinstance(val, Mapping):
                 req = default_req.copy()
                 req.update(val)
-                commods[key] = [req]
+                commods[index][key] = [req]
             elif isinstance(val, Sequence):
                 newval = []
                 for x in val:
@@ -1858,7 +1858,7 @@ cpdef dict normalize_request_portfolio(object inp):
                         raise TypeError('Did not recognize type of request while '
                                         'converting to portfolio: ' + repr(inp))
                     newval.append(req)
-                commods[key] = newval
+                commods[index][key] = newval
             else:
                 raise TypeError('Did not recognize type of commodity while '
                                 'converting to portfolio: ' + repr(inp))
-- 
2.43.0


From 61ea01f352bb202050e38d7d906ebf2854105ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:40 +0000
Subject: [PATCH 51/57] fix: the bidder of a bid can be asked for in Python

---
 cyclus/gentypesystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclus/gentypesystem.py b/cyclus/gentypesystem.py
index a521ae7..b2bce0f 100644
--- a/cyclus/gentypesystem.py
+++ b/cyclus/gentypesystem.py
@@ -2259,7 +2259,8 @@ cdef class _{{rclsname}}Bid:
         """This bid's agent"""
         if self._bidder is not None:
             return self._bidder
-        self._bidder = lib.agent_to_py(<cpp_cyclus.Agent*> self.ptx.bidder(), None)
+        self._bidder = lib.agent_to_py(dynamic_cast[agent_ptr](self.ptx.bidder()),
+                                       None)
         return self._bidder
 
     @property
-- 
2.43.0


From 77e102ef60408e6844c09da83879782c4bb46f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:40 +0000
Subject: [PATCH 52/57] fix: requests and preferences shown to Python agents
 are those of their own simulation

---
 cyclus/agents.pyx | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/cyclus/agents.pyx b/cyclus/agents.pyx
index cac6f18..8667039 100644
--- a/cyclus/agents.pyx
+++ b/cyclus/agents.pyx
@@ -43,11 +43,16 @@ _VAR_DECL = VarDeclarationFilter()
 _SCHEMA = SchemaFilter()
 
 
-cdef int _GET_MAT_PREFS_TIME = -9999999999
+cdef object _exchange_time(cpp_cyclus.Context* ctx):
+    """The time of an exchange that tells the simulations of a process apart."""
+    return ctx.time(), ts.uuid_cpp_to_py(ctx.sim_id())
+
+
+cdef object _GET_MAT_PREFS_TIME = None
 cdef cpp_cyclus.PrefMap[cpp_cyclus.Material].type* _GET_MAT_PREFS_PTR = NULL
 cdef dict _GET_MAT_PREFS = {}
 
-cdef int _GET_PROD_PREFS_TIME = -9999999999
+cdef object _GET_PROD_PREFS_TIME = None
 cdef cpp_cyclus.PrefMap[cpp_cyclus.Product].type* _GET_PROD_PREFS_PTR = NULL
 cdef dict _GET_PROD_PREFS = {}
 
@@ -138,7 +143,7 @@ cdef cppclass CyclusAgentShim "CyclusAgentShim" (cpp_cyclus.Agent):
     void AdjustMatlPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Material].type& prefs) except *:
         # cache the commod_reqs wrappers globally
         global _GET_MAT_PREFS_TIME, _GET_MAT_PREFS_PTR, _GET_MAT_PREFS
-        cdef int curr_time = this.context().time()
+        cdef object curr_time = _exchange_time(this.context())
         cdef cpp_cyclus.PrefMap[cpp_cyclus.Material].type* curr_ptr = &prefs
         if curr_time == _GET_MAT_PREFS_TIME and curr_ptr == _GET_MAT_PREFS_PTR:
             pyprefs = _GET_MAT_PREFS
@@ -159,7 +164,7 @@ cdef cppclass CyclusAgentShim "CyclusAgentShim" (cpp_cyclus.Agent):
     void AdjustProductPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Product].type& prefs) except *:
         # cache the commod_reqs wrappers globally
         global _GET_PROD_PREFS_TIME, _GET_PROD_PREFS_PTR, _GET_PROD_PREFS
-        cdef int curr_time = this.context().time()
+        cdef object curr_time = _exchange_time(this.context())
         cdef cpp_cyclus.PrefMap[cpp_cyclus.Product].type* curr_ptr = &prefs
         if curr_time == _GET_PROD_PREFS_TIME and curr_ptr == _GET_PROD_PREFS_PTR:
             pyprefs = _GET_PROD_PREFS
@@ -262,7 +267,7 @@ cdef cppclass CyclusRegionShim "CyclusRegionShim" (cpp_cyclus.Region):
     void AdjustMatlPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Material].type& prefs) except *:
         # cache the commod_reqs wrappers globally
         global _GET_MAT_PREFS_TIME, _GET_MAT_PREFS_PTR, _GET_MAT_PREFS
-        cdef int curr_time = this.context().time()
+        cdef object curr_time = _exchange_time(this.context())
         cdef cpp_cyclus.PrefMap[cpp_cyclus.Material].type* curr_ptr = &prefs
         if curr_time == _GET_MAT_PREFS_TIME and curr_ptr == _GET_MAT_PREFS_PTR:
             pyprefs = _GET_MAT_PREFS
@@ -283,7 +288,7 @@ cdef cppclass CyclusRegionShim "CyclusRegionShim" (cpp_cyclus.Region):
     void AdjustProductPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Product].type& prefs) except *:
         # cache the commod_reqs wrappers globally
         global _GET_PROD_PREFS_TIME, _GET_PROD_PREFS_PTR, _GET_PROD_PREFS
-        cdef int curr_time = this.context().time()
+        cdef object curr_time = _exchange_time(this.context())
         cdef cpp_cyclus.PrefMap[cpp_cyclus.Product].type* curr_ptr = &prefs
         if curr_time == _GET_PROD_PREFS_TIME and curr_ptr == _GET_PROD_PREFS_PTR:
             pyprefs = _GET_PROD_PREFS
@@ -398,7 +403,7 @@ cdef cppclass CyclusInstitutionShim "CyclusInstitutionShim" (cpp_cyclus.Institut
     void AdjustMatlPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Material].type& prefs) except *:
         # cache the commod_reqs wrappers globally
         global _GET_MAT_PREFS_TIME, _GET_MAT_PREFS_PTR, _GET_MAT_PREFS
-        cdef int curr_time = this.context().time()
+        cdef object curr_time = _exchange_time(this.context())
         cdef cpp_cyclus.PrefMap[cpp_cyclus.Material].type* curr_ptr = &prefs
         if curr_time == _GET_MAT_PREFS_TIME and curr_ptr == _GET_MAT_PREFS_PTR:
             pyprefs = _GET_MAT_PREFS
@@ -419,7 +424,7 @@ cdef cppclass CyclusInstitutionShim "CyclusInstitutionShim" (cpp_cyclus.Institut
     void AdjustProductPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Product].type& prefs) except *:
         # cache the commod_reqs wrappers globally
         global _GET_PROD_PREFS_TIME, _GET_PROD_PREFS_PTR, _GET_PROD_PREFS
-        cdef int curr_time = this.context().time()
+        cdef object curr_time = _exchange_time(this.context())
         cdef cpp_cyclus.PrefMap[cpp_cyclus.Product].type* curr_ptr = &prefs
         if curr_time == _GET_PROD_PREFS_TIME and curr_ptr == _GET_PROD_PREFS_PTR:
             pyprefs = _GET_PROD_PREFS
@@ -451,11 +456,11 @@ cdef cppclass CyclusInstitutionShim "CyclusInstitutionShim" (cpp_cyclus.Institut
         return True
     
 
-cdef int _GET_MAT_BIDS_TIME = -9999999999
+cdef object _GET_MAT_BIDS_TIME = None
 cdef cpp_cyclus.CommodMap[cpp_cyclus.Material].type* _GET_MAT_BIDS_PTR = NULL
 cdef dict _GET_MAT_BIDS = {}
 
-cdef int _GET_PROD_BIDS_TIME = -9999999999
+cdef object _GET_PROD_BIDS_TIME = None
 cdef cpp_cyclus.CommodMap[cpp_cyclus.Product].type* _GET_PROD_BIDS_PTR = NULL
 cdef dict _GET_PROD_BIDS = {}
 
@@ -543,7 +548,7 @@ cdef cppclass CyclusFacilityShim "CyclusFacilityShim" (cpp_cyclus.Facility):
     void AdjustMatlPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Material].type& prefs) except *:
         # cache the commod_reqs wrappers globally
         global _GET_MAT_PREFS_TIME, _GET_MAT_PREFS_PTR, _GET_MAT_PREFS
-        cdef int curr_time = this.context().time()
+        cdef object curr_time = _exchange_time(this.context())
         cdef cpp_cyclus.PrefMap[cpp_cyclus.Material].type* curr_ptr = &prefs
         if curr_time == _GET_MAT_PREFS_TIME and curr_ptr == _GET_MAT_PREFS_PTR:
             pyprefs = _GET_MAT_PREFS
@@ -564,7 +569,7 @@ cdef cppclass CyclusFacilityShim "CyclusFacilityShim" (cpp_cyclus.Facility):
     void AdjustProductPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Product].type& prefs) except *:
         # cache the commod_reqs wrappers globally
         global _GET_PROD_PREFS_TIME, _GET_PROD_PREFS_PTR, _GET_PROD_PREFS
-        cdef int curr_time = this.context().time()
+        cdef object curr_time = _exchange_time(this.context())
         cdef cpp_cyclus.PrefMap[cpp_cyclus.Product].type* curr_ptr = &prefs
         if curr_time == _GET_PROD_PREFS_TIME and curr_ptr == _GET_PROD_PREFS_PTR:
             pyprefs = _GET_PROD_PREFS
@@ -626,7 +631,7 @@ cdef cppclass CyclusFacilityShim "CyclusFacilityShim" (cpp_cyclus.Facility):
     std_set[shared_ptr[cpp_cyclus.BidPortfolio[cpp_cyclus.Material]]] GetMatlBids(cpp_cyclus.CommodMap[cpp_cyclus.Material].type& commod_requests) except *:
         # cache the commod_reqs wrappers globally
         global _GET_MAT_BIDS_TIME, _GET_MAT_BIDS_PTR, _GET_MAT_BIDS
-        cdef int curr_time = this.context().time()
+        cdef object curr_time = _exchange_time(this.context())
         cdef cpp_cyclus.CommodMap[cpp_cyclus.Material].type* curr_ptr = &commod_requests
         if curr_time == _GET_MAT_BIDS_TIME and curr_ptr == _GET_MAT_BIDS_PTR:
             pyreq = _GET_MAT_BIDS
@@ -656,7 +661,7 @@ cdef cppclass CyclusFacilityShim "CyclusFacilityShim" (cpp_cyclus.Facility):
     std_set[shared_ptr[cpp_cyclus.BidPortfolio[cpp_cyclus.Product]]] GetProductBids(cpp_cyclus.CommodMap[cpp_cyclus.Product].type& commod_requests) except *:
         # cache the commod_reqs wrappers globally
         global _GET_PROD_BIDS_TIME, _GET_PROD_BIDS_PTR, _GET_PROD_BIDS
-        cdef int curr_time = this.context().time()
+        cdef object curr_time = _exchange_time(this.context())
         cdef cpp_cyclus.CommodMap[cpp_cyclus.Product].type* curr_ptr = &commod_requests
         if curr_time == _GET_PROD_BIDS_TIME and curr_ptr == _GET_PROD_BIDS_PTR:
             pyreq = _GET_PROD_BIDS
-- 
2.43.0


From a111782a46515d339e0974c3e2e3dfe9db2edbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:52 +0000
Subject: [PATCH 53/57] fix: Python archetypes with internal state variables
 only have a valid schema

---
 cyclus/agents.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclus/agents.pyx b/cyclus/agents.pyx
index 8667039..15c079e 100644
--- a/cyclus/agents.pyx
+++ b/cyclus/agents.pyx
@@ -974,7 +974,8 @@ cdef class _Agent(lib._Agent):
         """"The class schema based on the state variables."""
         if self._schema is None:
             cls = type(self)
-            ctx = {name: var.to_dict() for name, var in cls._statevars}
+            ctx = {name: var.to_dict() for name, var in cls._statevars
+                   if not var.internal}
             self._schema = _SCHEMA.xml_from_ctx(ctx)
         return self._schema
 
-- 
2.43.0


From 9f009e82c4a38a7340de118c34f887199ee1ba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:14 +0000
Subject: [PATCH 54/57] fix: conditions on columns named like val0 are applied
 in the in-memory backend

---
 cyclus/memback.pyx | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cyclus/memback.pyx b/cyclus/memback.pyx
index 3c6106d..c65251c 100644
--- a/cyclus/memback.pyx
+++ b/cyclus/memback.pyx
@@ -262,8 +262,7 @@ cdef class _MemBack(lib._FullBackend):
         ctx = {'__builtins__': None}
         for i, (field, op, val) in enumerate(conds):
             key += field + op  # the value doesn't affect the key since it is loaded.
-            if field not in ctx:
-                ctx[field] = df[field]
+            ctx['col' + str(i)] = df[field]
             ctx['val' + str(i)] = val
         qccache = self._query_code_cache
         if key in qccache:
@@ -288,8 +287,8 @@ cdef class _MemBack(lib._FullBackend):
         """Parses conditions and then ANDs them together, eg.
         cond0 & cond1 & cond2, etc.
         """
-        for i, (field, op, _) in enumerate(conds):
-            cond_tree = self._parse_cond(field, op, 'val' + str(i))
+        for i, (_, op, _) in enumerate(conds):
+            cond_tree = self._parse_cond('col' + str(i), op, 'val' + str(i))
             if i == 0:
                 tree = cond_tree
             else:
-- 
2.43.0


From 2ff387cfa75c9b2c785622b8b185abe07c093f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:33 +0000
Subject: [PATCH 55/57] fix: AgentSpec given no alias uses the agent's name

---
 src/dynamic_module.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_module.cc b/src/dynamic_module.cc
index aa01528..cc84082 100644
--- a/src/dynamic_module.cc
+++ b/src/dynamic_module.cc
@@ -27,7 +27,7 @@ AgentSpec::AgentSpec(std::string path, std::string lib, std::string agent,
     lib_ = agent_;
   }
   if (alias_ == "") {
-    alias = agent_;
+    alias_ = agent_;
   }
 }
 
-- 
2.43.0


From 83ef9955c96e4e1c254aaf7fb68cfcb4a07482aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:33 +0000
Subject: [PATCH 56/57] fix: zzllaaam names of elements with three-digit charge
 numbers

---
 src/pyne.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyne.cc b/src/pyne.cc
index bf446ea..191ff4e 100644
--- a/src/pyne.cc
+++ b/src/pyne.cc
@@ -3152,10 +3152,9 @@ int pyne::nucname::zzllaaam_to_id(std::string nuc) {
 
   // Get the string into a regular form
   std::string nucstr = pyne::to_upper(nuc);
-  // Removing first two characters (redundant), for 1 digit nuclides, such
-  // as 2-He-4, the first slash will be removed, and the second attempt to
-  // remove the second slash will do nothing.  
-  nucstr.erase(0,2);
+  // Removing the charge number (redundant), which has one, two or three digits
+  size_t dash = nucstr.find("-");
+  nucstr.erase(0, dash == std::string::npos ? 2 : dash);
   nucstr = pyne::remove_substring(nucstr, "-");
   // Does nothing if nuclide is short, otherwise removes the second "-" instance
   nucstr = pyne::remove_substring(nucstr, "-");
-- 
2.43.0


From 56ea96252de11d3ff6747e801f1d4fb8995e802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:18 +0000
Subject: [PATCH 57/57] fix: messages of nuclide name errors outlive the call
 that makes them

---
 src/pyne.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyne.h b/src/pyne.h
index c058868..7d45003 100644
--- a/src/pyne.h
+++ b/src/pyne.h
@@ -924,12 +924,14 @@ namespace nucname
         NaNEstr += " --> ";
         NaNEstr += nucnow;
       }
-      return (const char *) NaNEstr.c_str();
+      msg = NaNEstr;
+      return msg.c_str();
     };
 
   private:
     std::string nucwas; ///< previous nuclide state
     std::string nucnow; ///< current nuclide state
+    mutable std::string msg; ///< error string, kept for what()
   };
 
   /// Custom expection for declaring that a value represents one or more nuclides
@@ -992,12 +994,14 @@ namespace nucname
         INFEstr += " --> ";
         INFEstr += nucnow;
       }
-      return (const char *) INFEstr.c_str();
+      msg = INFEstr;
+      return msg.c_str();
     }
 
   private:
     std::string nucwas; ///< previous nuclide state
     std::string nucnow; ///< current nuclide state
+    mutable std::string msg; ///< error string, kept for what()
   };
 
   /// \name isnuclide functions
-- 
2.43.0

