From 95b24ef11db594c85b1295aa96d519234a4e4e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:57 +0000
Subject: [PATCH 01/28] fix: Agent::lifetime_force throws for a built agent
 whose new lifetime has already passed

---
 src/agent.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agent.cc b/src/agent.cc
index b5e8c51..fcebac6 100644
--- a/src/agent.cc
+++ b/src/agent.cc
@@ -118,7 +118,7 @@ void Agent::lifetime_force(int n_timesteps) {
   }
   catch (ValueError e){
     if(enter_time_+n_timesteps <= context()->time()){
-      lifetime(context()->time() - enter_time_ + 1);
+      lifetime_ = context()->time() - enter_time_ + 1;
     }
     else{
       lifetime_ = n_timesteps;    
-- 
2.43.0


From 32ed64d90cab3c51e306f8365b6a34864da852f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:57 +0000
Subject: [PATCH 02/28] fix: Agent::PrintChildren recurses forever for agents
 with children

---
 src/agent.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agent.cc b/src/agent.cc
index fcebac6..76e6a2a 100644
--- a/src/agent.cc
+++ b/src/agent.cc
@@ -211,7 +211,7 @@ std::vector<std::string> Agent::GetTreePrintOuts(Agent* m) {
   ss << m->prototype() << std::endl;
   ret.push_back(ss.str());
   std::set<Agent*>::iterator it;
-  for (it = children_.begin(); it != children_.end(); ++it) {
+  for (it = m->children_.begin(); it != m->children_.end(); ++it) {
     Agent* child = *it;
     std::vector<std::string> outs = GetTreePrintOuts(child);
     for (int j = 0; j < outs.size(); j++) {
-- 
2.43.0


From 97ac05c74f38bdd55be0e8bcfb0bf63e44ce1e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:57 +0000
Subject: [PATCH 03/28] fix: institutions and regions are unregistered on
 decommission but never registered on entry

---
 src/institution.cc | 1 +
 src/region.cc      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/institution.cc b/src/institution.cc
index ad07f95..9b6af7b 100644
--- a/src/institution.cc
+++ b/src/institution.cc
@@ -37,6 +37,7 @@ void Institution::Build(Agent* parent) {
 }
 
 void Institution::EnterNotify() {
+  Agent::EnterNotify();
   context()->RegisterTimeListener(this);
 }
 
diff --git a/src/region.cc b/src/region.cc
index dae74b6..957e6a0 100644
--- a/src/region.cc
+++ b/src/region.cc
@@ -26,6 +26,7 @@ void Region::Build(Agent* parent) {
 }
 
 void Region::EnterNotify() {
+  Agent::EnterNotify();
   context()->RegisterTimeListener(this);
 }
 
-- 
2.43.0


From 3d46d27310ab475b1dbccaf83292bb3936b87fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:57 +0000
Subject: [PATCH 04/28] fix: Arc assignment drops the preference

---
 src/exchange_graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/exchange_graph.h b/src/exchange_graph.h
index 7a21a1b..e7e4ebe 100644
--- a/src/exchange_graph.h
+++ b/src/exchange_graph.h
@@ -80,6 +80,7 @@ class Arc {
     vnode_ = other.vnode();
     exclusive_ = other.exclusive();
     excl_val_ = other.excl_val();
+    pref_ = other.pref();
     return *this;
   }
 
-- 
2.43.0


From a37ead350c200dfe77b1977ad80761073454b7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:57 +0000
Subject: [PATCH 05/28] fix: commodity priorities written by the input loader
 are never read back

---
 src/sim_init.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 9e80110..076c35b 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -247,7 +247,7 @@ void* SimInit::LoadPreconditioner(std::string name) {
     QueryResult qr = b_->Query("CommodPriority", NULL);
     for (int i = 0; i < qr.rows.size(); ++i) {
       std::string commod = qr.GetVal<string>("Commodity", i);
-      double order = qr.GetVal<double>("SolutionOrder", i);
+      double order = qr.GetVal<double>("SolutionPriority", i);
       commod_order[commod] = order;
     }
   } catch (std::exception err) {
-- 
2.43.0


From e7e386c557d63a96fdc8d8785d785913f0961b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:57 +0000
Subject: [PATCH 06/28] fix: coin solver options are uninitialised when
 CoinSolverInfo is absent

---
 src/sim_init.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 076c35b..60f8027 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -295,8 +295,8 @@ ExchangeSolver* SimInit::LoadCoinSolver(bool exclusive,
                                         std::set<std::string> tables) {
 #if CYCLUS_HAS_COIN
   ExchangeSolver* solver;
-  double timeout;
-  bool verbose, mps;
+  double timeout = ProgSolver::kDefaultTimeout;
+  bool verbose = false, mps = false;
 
   std::string solver_info = "CoinSolverInfo";
   if (0 < tables.count(solver_info)) {
-- 
2.43.0


From 94bdcb8a4ae1914bf0dc234d87ba9c155f2b2348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:57 +0000
Subject: [PATCH 07/28] fix: AgentSpec never defaults its alias to the agent
 name

---
 src/dynamic_module.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_module.cc b/src/dynamic_module.cc
index aa01528..cc84082 100644
--- a/src/dynamic_module.cc
+++ b/src/dynamic_module.cc
@@ -27,7 +27,7 @@ AgentSpec::AgentSpec(std::string path, std::string lib, std::string agent,
     lib_ = agent_;
   }
   if (alias_ == "") {
-    alias = agent_;
+    alias_ = agent_;
   }
 }
 
-- 
2.43.0


From 6da2f78058038c72f4c7378168cc31fa4d029763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:57 +0000
Subject: [PATCH 08/28] fix: Poisson and binary distributions use uninitialised
 parameters

---
 src/random_number_generator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index 9072618..1e4ec27 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -152,7 +152,7 @@ class PoissonDoubleDist : public DoubleDistribution {
   public:
     typedef boost::shared_ptr<PoissonDoubleDist> Ptr;
 
-    PoissonDoubleDist(double mean) : dist(mean_) {
+    PoissonDoubleDist(double mean) : dist(mean), mean_(mean) {
       if (mean_ < 0) {
         throw ValueError("Mean must be positive");
       }
@@ -188,7 +188,7 @@ class BinaryDoubleDist : public DoubleDistribution {
   public:
 
     BinaryDoubleDist(double p_success, double choice_a, double choice_b) : 
-      dist(1, p_success),choice_a_(choice_a), choice_b_(choice_b) {
+      dist(1, p_success), p_success_(p_success), choice_a_(choice_a), choice_b_(choice_b) {
       if (p_success < 0) {
         throw ValueError("Probability of choice A must be positive");
       }
@@ -302,7 +302,7 @@ class PoissonIntDist : public IntDistribution {
   public:
     typedef boost::shared_ptr<PoissonIntDist> Ptr;
 
-    PoissonIntDist(double mean) : dist(mean_) {
+    PoissonIntDist(double mean) : dist(mean), mean_(mean) {
       if (mean_ < 0) {
         throw ValueError("Mean must be positive");
       }
@@ -337,7 +337,7 @@ class BinaryIntDist : public IntDistribution {
   public:
 
     BinaryIntDist(double p_success, int choice_a, int choice_b) : 
-      dist(1, p_success),choice_a_(choice_a), choice_b_(choice_b) {
+      dist(1, p_success), p_success_(p_success), choice_a_(choice_a), choice_b_(choice_b) {
       if (p_success < 0) {
         throw ValueError("Probability of choice A must be positive");
       }
-- 
2.43.0


From ba218f294e8719cb66a2ead9deec68ddb128b76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:57 +0000
Subject: [PATCH 09/28] fix: Material::ChangePackage checks the fill limits of
 the old package

---
 src/material.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/material.cc b/src/material.cc
index 9a80b07..1898b27 100644
--- a/src/material.cc
+++ b/src/material.cc
@@ -162,17 +162,18 @@ Resource::Ptr Material::PackageExtract(double qty, std::string new_package_name)
 }
 
 void Material::ChangePackage(std::string new_package_name) {
-  if (ctx_ == NULL) {
+  if (new_package_name == package_name_ || ctx_ == NULL) {
     // no change needed
     return;
   }
   else if (new_package_name == Package::unpackaged_name()) {
     // unpackaged has functionally no restrictions
     package_name_ = new_package_name;
+    tracker_.Package();
     return;
   }
- 
-  Package::Ptr p = ctx_->GetPackage(package_name_);
+
+  Package::Ptr p = ctx_->GetPackage(new_package_name);
   double min = p->fill_min();
   double max = p->fill_max();
   if (qty_ >= min && qty_ <= max) {
-- 
2.43.0


From dc26569477310f0c7b7196bd5144501ee2c491bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:57 +0000
Subject: [PATCH 10/28] fix: transport units without fill_max overflow the
 integer limit

---
 src/xml_file_loader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xml_file_loader.cc b/src/xml_file_loader.cc
index 3c4d6c4..95a171f 100644
--- a/src/xml_file_loader.cc
+++ b/src/xml_file_loader.cc
@@ -351,8 +351,8 @@ void XMLFileLoader::LoadTransportUnits() {
     std::string name = cyclus::OptionalQuery<std::string>(qe, "name", "default");
     CLOG(LEV_DEBUG3) << "loading transport unit: " << name;
     
-    double fill_min = cyclus::OptionalQuery<double>(qe, "fill_min", eps());
-    double fill_max = cyclus::OptionalQuery<double>(qe, "fill_max", std::numeric_limits<double>::max());
+    int fill_min = cyclus::OptionalQuery<int>(qe, "fill_min", 0);
+    int fill_max = cyclus::OptionalQuery<int>(qe, "fill_max", std::numeric_limits<int>::max());
     
     std::string strategy = cyclus::OptionalQuery<std::string>(qe, "strategy", "first");
 
-- 
2.43.0


From d90a2ae1a434f8c54728e5a012f879bddfb17613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:35 +0000
Subject: [PATCH 11/28] fix: resources split off an untracked resource become
 tracked

---
 src/res_tracker.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/res_tracker.cc b/src/res_tracker.cc
index 2bbe6f8..d19ebfa 100644
--- a/src/res_tracker.cc
+++ b/src/res_tracker.cc
@@ -42,6 +42,7 @@ void ResTracker::Modify() {
 }
 
 void ResTracker::Extract(ResTracker* removed) {
+  removed->tracked_ = tracked_;
   if (!tracked_) {
     return;
   }
@@ -56,7 +57,6 @@ void ResTracker::Extract(ResTracker* removed) {
   // after being bumped)
   removed->parent1_ = res_->state_id();
   removed->parent2_ = 0;
-  removed->tracked_ = tracked_;
   removed->Record();
 
   if (res_->quantity() > eps_rsrc()) {
@@ -75,11 +75,13 @@ void ResTracker::Absorb(ResTracker* absorbed) {
 }
 
 void ResTracker::Package(ResTracker* parent) {
+  if (parent != NULL) {
+    tracked_ = parent->tracked_;
+  }
   if (!tracked_) {
     return;
   }
   parent2_ = 0;
-  tracked_ = tracked_;
   package_name_ = res_->package_name();
 
   if (parent != NULL) {
-- 
2.43.0


From af7c6e5014e23577f3222af714b4b674f20d7968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:35 +0000
Subject: [PATCH 12/28] fix: resources restored from a database lose their
 package

---
 src/sim_init.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 60f8027..973828b 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -601,11 +601,12 @@ Material::Ptr SimInit::LoadMaterial(Context* ctx, QueryableBackend* b, int state
   qr = b->Query("Resources", &conds);
   double qty = qr.GetVal<double>("Quantity");
   int stateid = qr.GetVal<int>("QualId");
+  std::string package_name = qr.GetVal<std::string>("PackageName");
 
   // create the composition and material
   Composition::Ptr comp = LoadComposition(b, stateid);
   Agent* dummy = new Dummy(ctx);
-  Material::Ptr mat = Material::Create(dummy, qty, comp);
+  Material::Ptr mat = Material::Create(dummy, qty, comp, package_name);
   mat->prev_decay_time_ = prev_decay;
   ctx->DelAgent(dummy);
 
@@ -635,6 +636,7 @@ Product::Ptr SimInit::LoadProduct(Context* ctx, QueryableBackend* b, int state_i
   QueryResult qr = b->Query("Resources", &conds);
   double qty = qr.GetVal<double>("Quantity");
   int stateid = qr.GetVal<int>("QualId");
+  std::string package_name = qr.GetVal<std::string>("PackageName");
 
   // get special Product internal state
   conds.clear();
@@ -646,7 +648,7 @@ Product::Ptr SimInit::LoadProduct(Context* ctx, QueryableBackend* b, int state_i
   Product::qualids_[quality] = stateid;
 
   Agent* dummy = new Dummy(ctx);
-  Product::Ptr r = Product::Create(dummy, qty, quality);
+  Product::Ptr r = Product::Create(dummy, qty, quality, package_name);
   ctx->DelAgent(dummy);
   return r;
 }
-- 
2.43.0


From 13d12ca607f43df42a46971df85ab52dacd96d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:35 +0000
Subject: [PATCH 13/28] fix: cumulative capacity of a buy policy never counts
 material pushed to a bulk buffer

---
 src/toolkit/matl_buy_policy.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toolkit/matl_buy_policy.cc b/src/toolkit/matl_buy_policy.cc
index 746642a..6934c6e 100644
--- a/src/toolkit/matl_buy_policy.cc
+++ b/src/toolkit/matl_buy_policy.cc
@@ -328,11 +328,11 @@ void MatlBuyPolicy::AcceptMatlTrades(
     rsrc_commods_[it->second] = it->first.request->commodity();
     LGH(INFO3) << "got " << it->second->quantity() << " kg of "
                << it->first.request->commodity()  << std::endl;
-    buf_->Push(it->second);
-    // cumulative capacity handling
+    // cumulative capacity handling (a bulk buffer empties what it is given)
     if (use_cumulative_capacity()) {
       cycle_total_inv_ += it->second->quantity();
     }
+    buf_->Push(it->second);
   }
   // check if cumulative cap has been reached. If yes, then sample for dormant
   // length and reset cycle_total_inv
-- 
2.43.0


From 7873e1e771dc6f1c7a6c711e2ea01ded87814b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:35 +0000
Subject: [PATCH 14/28] fix: SqliteBack leaves its transaction open when
 writing a datum fails

---
 src/sqlite_back.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqlite_back.cc b/src/sqlite_back.cc
index fff1b0c..fb868b9 100644
--- a/src/sqlite_back.cc
+++ b/src/sqlite_back.cc
@@ -81,9 +81,9 @@ void SqliteBack::Notify(DatumList data) {
       }
       WriteDatum(*it);
     }
-  } catch (ValueError err) {
+  } catch (...) {
     db_.Execute("END TRANSACTION;");
-    throw ValueError(err.what());
+    throw;
   }
   db_.Execute("END TRANSACTION;");
   Flush();
-- 
2.43.0


From 9b4d844366a8791eb4fd0a2fbd3c7e81437face1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:35 +0000
Subject: [PATCH 15/28] fix: changing a recorder's dump count loses buffered
 data

---
 src/recorder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/recorder.cc b/src/recorder.cc
index a3e2ad3..1c0f9ce 100644
--- a/src/recorder.cc
+++ b/src/recorder.cc
@@ -51,6 +51,7 @@ boost::uuids::uuid Recorder::sim_id() {
 }
 
 void Recorder::set_dump_count(unsigned int count) {
+  Flush();
   for (int i = 0; i < data_.size(); ++i) {
     delete data_[i];
   }
-- 
2.43.0


From eb626cef73e8dbef419ed0414d8a104207717639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:35 +0000
Subject: [PATCH 16/28] fix: binomial distributions report their probability
 truncated to zero

---
 src/random_number_generator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index 1e4ec27..ed93087 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -266,7 +266,7 @@ class BinomialIntDist : public IntDistribution {
     };
     virtual int sample() { return dist(RandomNumberGenerator::gen_); }
     virtual int trials() { return trials_; }
-    virtual int p() { return p_success_; }
+    virtual double p() { return p_success_; }
 };
 
 /// NegativeBinomialIntDist takes the number of successes desired and a 
@@ -291,7 +291,7 @@ class NegativeBinomialIntDist : public IntDistribution {
     };
     virtual int sample() { return dist(RandomNumberGenerator::gen_); }
     virtual int successes() { return successes_; }
-    virtual int p() { return p_success_; }
+    virtual double p() { return p_success_; }
 };
 
 /// Poisson distribution requires a mean 
-- 
2.43.0


From 63e61d6e67a6e9cddc5ce65ec915144d86da3494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:33 +0000
Subject: [PATCH 17/28] fix: transport units without a minimum fill divide by
 zero

With the default fill_min of 0 the equal and hybrid strategies divide by
zero, and with the default fill_max the rounding up overflows int.
---
 src/package.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/package.cc b/src/package.cc
index 4665d93..149f577 100644
--- a/src/package.cc
+++ b/src/package.cc
@@ -136,7 +136,7 @@ TransportUnit::Ptr& TransportUnit::unrestricted() {
 }
 
 int TransportUnit::GetTransportUnitFill(int qty) {
-  if (qty < fill_min_) {
+  if (qty < fill_min_ || qty < 1 || fill_max_ < 1) {
     // less than one TransportUnit of material available
     return 0;
   }
@@ -145,9 +145,9 @@ int TransportUnit::GetTransportUnitFill(int qty) {
     return fill_max_;
   } else if (strategy_ == "equal" || strategy_ == "hybrid") {
     // int division automatically rounds down. don't need floor in min, and 
-    // get ceil by hand instead 
-    int num_at_min_fill = qty / fill_min_;
-    int num_at_max_fill = (qty + fill_max_ - 1) / fill_max_;
+    // get ceil by hand instead. A unit without minimum carries at least one.
+    int num_at_min_fill = qty / std::max(fill_min_, 1);
+    int num_at_max_fill = qty / fill_max_ + (qty % fill_max_ != 0 ? 1 : 0);
 
     if (num_at_min_fill >= num_at_max_fill) {
       // all material *might* fit transport units. However, this is more
@@ -183,6 +183,9 @@ int TransportUnit::MaxShippablePackages(int pkgs) {
   } else if (strategy_ == "hybrid") {
     while ((pkgs > 0) && (pkgs >= fill_min_)) {
       TU_fill = GetTransportUnitFill(pkgs);
+      if (TU_fill == 0) {
+        break;
+      }
       shippable += TU_fill;
       pkgs -= TU_fill;
     }
-- 
2.43.0


From 0cdc3756287a3b92026317126dc36d85d74cd120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:33 +0000
Subject: [PATCH 18/28] fix: transmuted material is recorded with its old decay
 time

Transmute recorded the new state before it brought prev_decay_time_ up to
date, so a material restored from the output decayed a second time.
---
 src/material.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/material.cc b/src/material.cc
index 1898b27..28b516f 100644
--- a/src/material.cc
+++ b/src/material.cc
@@ -126,7 +126,6 @@ void Material::Absorb(Material::Ptr mat) {
 
 void Material::Transmute(Composition::Ptr c) {
   comp_ = c;
-  tracker_.Modify();
 
   // Presumably the user has chosen the new composition to be accurate for
   // the current simulation time.  The next call to decay should not include
@@ -138,6 +137,9 @@ void Material::Transmute(Composition::Ptr c) {
   if (ctx_ != NULL && ctx_->time() > prev_decay_time_) {
     prev_decay_time_ = ctx_->time();
   }
+
+  // the new state is recorded with its decay time, so this must go last
+  tracker_.Modify();
 }
 
 Resource::Ptr Material::PackageExtract(double qty, std::string new_package_name) {
-- 
2.43.0


From 39f2916702f436aa35ee4bb9b793690a8ff4da5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:45 +0000
Subject: [PATCH 19/28] fix: LMatrix product sums over the inner dimension

operator*= ran the inner sum over the rows of the left matrix instead of its
columns, so products of non-square matrices read past a row or dropped terms.
---
 src/l_matrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/l_matrix.cc b/src/l_matrix.cc
index eda54f8..dbcae42 100644
--- a/src/l_matrix.cc
+++ b/src/l_matrix.cc
@@ -191,7 +191,7 @@ const LMatrix& LMatrix::operator*=(const LMatrix& rhs) {
 
         // sums the product of the row vector from A and the column vector
         // from B using the formula aij = ai1*b1j + ai2*b2j + ...
-        for (int k = 0; k < rows_; k++) {
+        for (int k = 0; k < cols_; k++) {
           aij = aij + M_[i][k] * rhs.M_[k][j];
         }
 
-- 
2.43.0


From 81135008e53cfb970fbcbf28b58e811b7241501a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:15 +0000
Subject: [PATCH 20/28] fix: JSON lists that are empty or hold null convert to
 well-formed XML

A null at either end of a list left its element unopened or unclosed, and an
empty list (which looking at its first entry filled with a null) became an
element nested in itself.
---
 src/toolkit/infile_converters.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/toolkit/infile_converters.cc b/src/toolkit/infile_converters.cc
index ac49b78..6de0ab0 100644
--- a/src/toolkit/infile_converters.cc
+++ b/src/toolkit/infile_converters.cc
@@ -23,7 +23,8 @@ void AddJsonToXml(Json::Value& node, std::stringstream& ss,
     Value::Members members = node.getMemberNames();
     for (int n = 0; n < members.size(); ++n) {
       name = members[n];
-      if (node[name].isNull()) {
+      if (node[name].isNull() ||
+          (node[name].isArray() && node[name].size() == 0)) {
         ss << indent << "<" << name << "/>\n";
         continue;
       }
@@ -44,10 +45,6 @@ void AddJsonToXml(Json::Value& node, std::stringstream& ss,
     indent = indent.substr(0, indent.size() - 2);
     int nchildren = node.size();
     for (int n = 0; n < nchildren; ++n) {
-      if (node[n].isNull()) {
-        ss << indent << "<" << parent_name << "/>\n";
-        continue;
-      }
       indent_child = node[n].isObject() || node[n].isArray();
       if (n > 0) {
         ss << indent << "<" << parent_name << ">";
-- 
2.43.0


From 47788623825c7d1f2342668ea796e2e134cf0f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:16 +0000
Subject: [PATCH 21/28] fix: numbers in JSON inputs keep their digits

JsonToXml wrote doubles with the stream's default six digits, so 123456.789
reached the simulation as 123457.
---
 src/toolkit/infile_converters.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toolkit/infile_converters.cc b/src/toolkit/infile_converters.cc
index 6de0ab0..d3521ad 100644
--- a/src/toolkit/infile_converters.cc
+++ b/src/toolkit/infile_converters.cc
@@ -1,3 +1,4 @@
+#include <limits>
 #include <sstream>
 
 #include <boost/shared_ptr.hpp>
@@ -81,6 +82,7 @@ std::string JsonToXml(std::string s) {
   using Json::Value;
 
   stringstream x;
+  x.precision(std::numeric_limits<double>::max_digits10);
 
   // parse the JSON string
   Value root;
-- 
2.43.0


From b14d4af2b66bf15c02acadc3d25ebcbc1b10dad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:51 +0000
Subject: [PATCH 22/28] fix: cycpp pads a state variable's short shape instead
 of dropping it

list.extend returns None, so a shape shorter than the type's depth was lost
and the generated code referred to a cycpp_shape_ member that was not declared.
---
 cli/cycpp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/cycpp.py b/cli/cycpp.py
index e4c2b69..3ab79b5 100755
--- a/cli/cycpp.py
+++ b/cli/cycpp.py
@@ -864,7 +864,7 @@ class StateAccumulator(object):
         # Shape is too short.
         elif len(current_shape) < expected_shape_length:
             diff = expected_shape_length - len(current_shape)
-            new_shape = current_shape.extend([-1] * diff)
+            new_shape = list(current_shape) + [-1] * diff
         # Shape is too long- we throw an error.
         elif len(current_shape) > expected_shape_length:
             err_string = ("Shape array for type {t} is not formatted correctly."
-- 
2.43.0


From e7521c116ab234ee028c0357a0586661d91d76cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:32 +0000
Subject: [PATCH 23/28] fix: HDF5 pads fixed-size containers that are not full

The padding was guarded by the declared length instead of the number of
elements written, so the rest of the column was left uninitialised.
---
 src/hdf5_back_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5_back_gen.py b/src/hdf5_back_gen.py
index 5815620..3b2f41e 100644
--- a/src/hdf5_back_gen.py
+++ b/src/hdf5_back_gen.py
@@ -2311,7 +2311,7 @@ def get_write_body(t, shape_array, depth=0, prefix="", variable="a",
                 if depth == 0:
                     result.nodes.append(If(cond=BinOp(
                                                   x=Raw(code=total_size+"*"
-                                                             +container_length),
+                                                             +count),
                                                   op="<", y=Raw(code="column")),
                                            body=[memset(dest, str(0), length)]))
                 else:
-- 
2.43.0


From 479b596d73dd60a1d9d34287011c8723bc0a1973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:16 +0000
Subject: [PATCH 24/28] fix: mutual requests weigh a full order of each as the
 whole demand

AddMutualReqs gave each request the inverse of the coefficient its
documentation states (quantity over average instead of average over
quantity), so a larger alternative was cut off before its full order and a
smaller one left demand to be filled twice.
---
 src/request_portfolio.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_portfolio.h b/src/request_portfolio.h
index fbfc42a..37b0874 100644
--- a/src/request_portfolio.h
+++ b/src/request_portfolio.h
@@ -155,7 +155,7 @@ class RequestPortfolio
     for (int i = 0; i < rs.size(); i++) {
       r = rs[i];
       qty = r->target()->quantity();
-      mass_coeffs_[r] = r->target()->quantity() / avg_qty;
+      mass_coeffs_[r] = avg_qty / qty;
       qty_ -= qty;
     }
     qty_ += avg_qty;
-- 
2.43.0


From 1efa832bb26bb333db5aa04c252135ce38998032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:40 +0000
Subject: [PATCH 25/28] fix: restart keeps the builds due at the restart step

A snapshot is taken before the builds of its step, and the agents entered
in that step are not restored because they are to be built again, but only
builds due after it were loaded.
---
 src/sim_init.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 973828b..89c5e93 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -486,7 +486,7 @@ void SimInit::LoadInventories() {
 
 void SimInit::LoadBuildSched() {
   std::vector<Cond> conds;
-  conds.push_back(Cond("BuildTime", ">", t_));
+  conds.push_back(Cond("BuildTime", ">=", t_));
   QueryResult qr;
   try {
     qr = b_->Query("BuildSchedule", &conds);
-- 
2.43.0


From 59a8493235db48318bb517d36386b10d0ebee1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:47 +0000
Subject: [PATCH 26/28] fix: restart loads only schedule entries made before
 the restart time

Entries made at or after it are made again by the restarted simulation, so
such agents were built twice, and a decommissioning superseded by an earlier
one was scheduled for an agent that does not exist any more (crash).
---
 src/sim_init.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 89c5e93..7118513 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -487,6 +487,10 @@ void SimInit::LoadInventories() {
 void SimInit::LoadBuildSched() {
   std::vector<Cond> conds;
   conds.push_back(Cond("BuildTime", ">=", t_));
+  if (t_ > 0) {
+    // entries made at or after t_ are made again by the restarted simulation
+    conds.push_back(Cond("SchedTime", "<", t_));
+  }
   QueryResult qr;
   try {
     qr = b_->Query("BuildSchedule", &conds);
@@ -503,6 +507,10 @@ void SimInit::LoadBuildSched() {
 void SimInit::LoadDecomSched() {
   std::vector<Cond> conds;
   conds.push_back(Cond("DecomTime", ">=", t_));
+  if (t_ > 0) {
+    // entries made at or after t_ are made again by the restarted simulation
+    conds.push_back(Cond("SchedTime", "<", t_));
+  }
   QueryResult qr;
   try {
     qr = b_->Query("DecomSchedule", &conds);
@@ -511,6 +519,9 @@ void SimInit::LoadDecomSched() {
   for (int i = 0; i < qr.rows.size(); ++i) {
     int t = qr.GetVal<int>("DecomTime", i);
     int agentid = qr.GetVal<int>("AgentId", i);
+    if (agents_.count(agentid) == 0) {
+      continue;  // agent left before t_ (rescheduled to an earlier time)
+    }
     ctx_->SchedDecom(agents_[agentid], t);
   }
 }
-- 
2.43.0


From 6aec2becdf2ee1308115fc98e4284ccc48c5271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:33 +0000
Subject: [PATCH 27/28] fix: sell policies ignoring composition deliver the
 buffer's composition

The traded material was transmuted to the requested composition only where
the two were already equal.
---
 src/toolkit/matl_sell_policy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toolkit/matl_sell_policy.cc b/src/toolkit/matl_sell_policy.cc
index 62188d9..0250c5b 100644
--- a/src/toolkit/matl_sell_policy.cc
+++ b/src/toolkit/matl_sell_policy.cc
@@ -284,7 +284,7 @@ void MatlSellPolicy::GetMatlTrades(
         trade_mat = mat;
       }
 
-      if (ignore_comp_ && compmath::AlmostEq(it->request->target()->comp()->mass(), trade_mat->comp()->mass(), eps_rsrc())) {
+      if (ignore_comp_ && trade_mat->comp() != it->request->target()->comp()) {
         trade_mat->Transmute(it->request->target()->comp());
       }
       responses.push_back(std::make_pair(*it, trade_mat));
-- 
2.43.0


From 18ab33b0432948dc21595155b58531f460217b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:33 +0000
Subject: [PATCH 28/28] fix: sell policy reads an empty fill list for a
 quantize below the package minimum

---
 src/toolkit/matl_sell_policy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toolkit/matl_sell_policy.cc b/src/toolkit/matl_sell_policy.cc
index 0250c5b..14800b3 100644
--- a/src/toolkit/matl_sell_policy.cc
+++ b/src/toolkit/matl_sell_policy.cc
@@ -52,7 +52,7 @@ void MatlSellPolicy::set_package(std::string x) {
     if (quantize_ > 0 && pkg->name() != Package::unpackaged_name()) {
       if (pkg->strategy() == "first" || pkg->strategy() == "equal") {
         std::vector<double> fill = pkg->GetFillMass(quantize_);
-        if (fill.size() > 1 ||  std::fmod(fill.front(), quantize_) > 0) {
+        if (fill.size() != 1 ||  std::fmod(fill.front(), quantize_) > 0) {
           ss << "Quantize " << quantize_ 
              << " is not fully packagable based on fill min/max values (" 
              << pkg->fill_min() << ", " << pkg->fill_max() << ")";
-- 
2.43.0

