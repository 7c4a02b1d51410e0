From 79057eca316f3e2f58164f4e94d9a691e05079a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:08 +0000
Subject: [PATCH 01/77] fix: n-best lists repeat derivations whose scores
 differ by rounding

---
 src/include/travatar/hyper-graph.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/include/travatar/hyper-graph.h b/src/include/travatar/hyper-graph.h
index 600a7f4..ef49a10 100644
--- a/src/include/travatar/hyper-graph.h
+++ b/src/include/travatar/hyper-graph.h
@@ -338,7 +338,13 @@ public:
 
     typedef std::set<boost::shared_ptr<NbestStackItem>, StackScoreMore> NbestStateStack;
 
-    void PushStack(const boost::shared_ptr<NbestStackItem> & item) { stack.insert(item); }
+    // Add an item to the stack. The same item can be reached through several
+    // children with scores that differ by a rounding error, so remember which
+    // items have already been added independently of the score
+    void PushStack(const boost::shared_ptr<NbestStackItem> & item) {
+        if(added.insert(std::make_pair(item->edge_rank, item->child_ranks)).second)
+            stack.insert(item);
+    }
     boost::shared_ptr<NbestStackItem> PopStack() {
         NbestStateStack::iterator beg = stack.begin();
         boost::shared_ptr<NbestStackItem> ret = *beg;
@@ -348,6 +354,7 @@ public:
 
     std::vector<NbestEdge> edges;
     NbestStateStack stack;
+    std::set<std::pair<int, std::vector<int> > > added;
     std::vector<boost::shared_ptr<HyperPath> > paths;
     std::set<CfgDataVector> uniq_sents;
 
-- 
2.43.0


From 0abef8c8a2f481b3d1d7bd7afc706bcc0b270992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:08 +0000
Subject: [PATCH 02/77] fix: unique n-best lists repeat strings that were built
 from different numbers of children

---
 src/lib/hyper-graph.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index ba937f5..a3952ef 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -343,6 +343,9 @@ boost::shared_ptr<HyperPath> HyperGraph::NbestGetNthPath(int node, int rank, boo
         // Check whether to add it or not
         if(uniq) {
             CfgDataVector trg = act_path->CalcTranslations();
+            // Only the words matter, not how many variables were substituted
+            BOOST_FOREACH(CfgData & data, trg)
+                data.syms.clear();
             if(state->uniq_sents.find(trg) == state->uniq_sents.end()) {
                 state->uniq_sents.insert(trg);
                 state->paths.push_back(act_path);
-- 
2.43.0


From 4d4842d6921b8985b194652dfd1eba21c2e357f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 03/77] fix: log-sum-exp overflows when the largest term is
 neither first nor last

---
 src/include/travatar/softmax.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/travatar/softmax.h b/src/include/travatar/softmax.h
index f9f15f0..f7d1b1c 100644
--- a/src/include/travatar/softmax.h
+++ b/src/include/travatar/softmax.h
@@ -9,8 +9,9 @@ namespace travatar {
 inline Real AddLogProbs(const std::vector<Real> & probs) {
     if(probs.size() == 0)
         return -REAL_MAX;
-    const unsigned size = probs.size();
-    Real myMax = std::max(probs[0],probs[size-1]), norm=0;
+    Real myMax = probs[0], norm = 0;
+    for(unsigned i = 1; i < probs.size(); i++)
+        myMax = std::max(myMax, probs[i]);
     for(unsigned i = 0; i < probs.size(); i++)
         norm += exp(probs[i]-myMax);
     return log(norm)+myMax;
-- 
2.43.0


From c5ab94704e7e6393090ebe5382ec856604a26b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 04/77] fix: building a sparse vector with repeated features
 and subtracting in place lose values

---
 src/lib/sparse-map.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 8c97133..7b36992 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -124,7 +124,7 @@ SparseVector::SparseVector(const std::vector<SparsePair> & vec) : impl_(vec) {
     SparseVectorImpl::iterator itl = impl_.begin(), itr = impl_.begin()+1;
     while(itr != impl_.end()) {
         if(itl->first == itr->first) {
-            itl->second += itr->first;
+            itl->second += itr->second;
         } else {
             itl++;
             *itl = *itr;
@@ -214,7 +214,8 @@ SparseVector & operator-=(SparseVector & lhs, const SparseVector & rhs) {
     SparseVector::SparseVectorImpl & impl = lhs.GetImpl();
     while(itr != rhs.end()) {
         if(itl == lhs.end()) {
-            impl.insert(itl, itr, rhs.end());
+            for(; itr != rhs.end(); itr++)
+                impl.push_back(make_pair(itr->first, -itr->second));
             break;
         } else if(itl->first == itr->first) {
             itl->second -= itr->second;
@@ -222,7 +223,7 @@ SparseVector & operator-=(SparseVector & lhs, const SparseVector & rhs) {
         } else if(itl->first < itr->first) {
             itl++;
         } else {
-            itl = impl.insert(itl, *itr);
+            itl = impl.insert(itl, make_pair(itr->first, -itr->second));
             itr++;
         }
     }
-- 
2.43.0


From b13ecebbf18ccf06a88596972b4f6faf3a081b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 05/77] fix: sparse vectors that differ only in explicit zero
 entries compare unequal

---
 src/lib/sparse-map.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 7b36992..4cd6213 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -12,12 +12,13 @@ namespace travatar {
 
 bool operator==(const SparseMap & lhs, const SparseMap & rhs) {
     // cerr << "Comparing " << lhs << " to " << rhs << endl;
-    if(lhs.size() != rhs.size())
-        return false;
+    // A feature that is missing has the value zero
     BOOST_FOREACH(const SparsePair & kv, lhs) {
         SparseMap::const_iterator it = rhs.find(kv.first);
-        if(it == rhs.end() || abs(it->second - kv.second) > 1e-6) return false;
+        if(abs((it == rhs.end() ? 0 : it->second) - kv.second) > 1e-6) return false;
     }
+    BOOST_FOREACH(const SparsePair & kv, rhs)
+        if(abs(kv.second) > 1e-6 && lhs.find(kv.first) == lhs.end()) return false;
     return true;
 }
 bool operator!=(const SparseMap & lhs, const SparseMap & rhs) {
@@ -164,10 +165,18 @@ void SparseVector::Add(int k, Real v) {
 
 bool operator==(const SparseVector & lhs, const SparseVector & rhs) {
     const vector<SparsePair> &limpl = lhs.GetImpl(), &rimpl = rhs.GetImpl();
-    if(limpl.size() != rimpl.size()) return false;
-    for(size_t i = 0; i < limpl.size(); i++)
-        if(limpl[i].first != rimpl[i].first || abs(limpl[i].second - rimpl[i].second) > 1e-6)
-            return false;
+    // A feature that is missing has the value zero
+    size_t i = 0, j = 0;
+    while(i < limpl.size() || j < rimpl.size()) {
+        Real diff;
+        if(j == rimpl.size() || (i < limpl.size() && limpl[i].first < rimpl[j].first))
+            diff = limpl[i++].second;
+        else if(i == limpl.size() || rimpl[j].first < limpl[i].first)
+            diff = rimpl[j++].second;
+        else
+            diff = limpl[i++].second - rimpl[j++].second;
+        if(abs(diff) > 1e-6) return false;
+    }
     return true;
 }
 bool operator!=(const SparseVector & lhs, const SparseVector & rhs) {
-- 
2.43.0


From d8361e265a57ee129efcd725a2c766f291b2065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 06/77] fix: numeric options accept trailing garbage and reject
 zeros such as 0.00

---
 src/lib/config-base.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/config-base.cc b/src/lib/config-base.cc
index 29e833f..bad2dff 100644
--- a/src/lib/config-base.cc
+++ b/src/lib/config-base.cc
@@ -3,6 +3,7 @@
 #include <boost/algorithm/string.hpp>
 #include <boost/lexical_cast.hpp>
 #include <fstream>
+#include <cstdlib>
 
 using namespace std;
 using namespace travatar;
@@ -119,15 +120,17 @@ std::vector<int> ConfigBase::GetIntArray(const std::string & name) const {
 }
 int ConfigBase::GetInt(const std::string & name) const {
     std::string str = GetString(name);
-    int ret = atoi(str.c_str());
-    if(ret == 0 && str != "0" && str != "00" && str != "000" && str != "0000")
+    char * end;
+    int ret = strtol(str.c_str(), &end, 10);
+    if(str.length() == 0 || *end != 0)
         DIE_HELP("Value '"<<str<<"' for argument "<<name<<" was not an integer");
     return ret;
 }
 Real ConfigBase::GetReal(const std::string & name) const {
     std::string str = GetString(name);
-    Real ret = atof(str.c_str());
-    if(ret == 0 && str != "0" && str != "0.0")
+    char * end;
+    Real ret = strtod(str.c_str(), &end);
+    if(str.length() == 0 || *end != 0)
         DIE_HELP("Value '"<<str<<"' for argument "<<name<<" was not float");
     return ret;
 }
-- 
2.43.0


From b7e81837a5ba94d13a18e7c1ec6251202e4a1f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 07/77] fix: boolean options set by a program cannot be read
 back

---
 src/lib/config-base.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/config-base.cc b/src/lib/config-base.cc
index bad2dff..5ad89bb 100644
--- a/src/lib/config-base.cc
+++ b/src/lib/config-base.cc
@@ -163,5 +163,5 @@ void ConfigBase::SetReal(const std::string & name, Real val) {
     std::ostringstream oss; oss << val; SetString(name,oss.str());
 }
 void ConfigBase::SetBool(const std::string & name, bool val) {
-    std::ostringstream oss; oss << val; SetString(name,oss.str());
+    SetString(name, val ? "true" : "false");
 }
-- 
2.43.0


From e14ff328eacd3e0bfab6f4372e641a48f6862650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 08/77] fix: subtracting a sparse map from itself erases
 elements while iterating over them

---
 src/lib/sparse-map.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 4cd6213..bf3f392 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -48,6 +48,7 @@ SparseMap & operator+=(SparseMap & lhs, const SparseMap & rhs) {
 }
 
 SparseMap & operator-=(SparseMap & lhs, const SparseMap & rhs) {
+    if(&lhs == &rhs) { lhs.clear(); return lhs; }
     BOOST_FOREACH(const SparsePair & val, rhs)
         if(val.second != 0) {
             lhs[val.first] -= val.second;
-- 
2.43.0


From fb5ae71f53818161bed98c3cb513bee839578ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 09/77] fix: waiting for the thread pool can miss the last
 wake-up and return before tasks have finished

---
 src/include/travatar/thread-pool.h |  1 +
 src/lib/thread-pool.cc             | 11 ++++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/include/travatar/thread-pool.h b/src/include/travatar/thread-pool.h
index a2ecc5c..5e5a100 100644
--- a/src/include/travatar/thread-pool.h
+++ b/src/include/travatar/thread-pool.h
@@ -46,6 +46,7 @@ protected:
     bool stopping_;
     bool delete_tasks_;
     int queue_limit_;
+    int running_;
 
 };
 
diff --git a/src/lib/thread-pool.cc b/src/lib/thread-pool.cc
index a5674a7..c1655f7 100644
--- a/src/lib/thread-pool.cc
+++ b/src/lib/thread-pool.cc
@@ -8,7 +8,7 @@ using namespace boost;
 
 ThreadPool::ThreadPool(int num_threads, int queue_limit) :
         stopped_(false), stopping_(false), delete_tasks_(true),
-        queue_limit_(queue_limit) {
+        queue_limit_(queue_limit), running_(0) {
     for(int i = 0; i < num_threads; i++)
         threads_.create_thread(bind(&ThreadPool::Run, this));
 }
@@ -23,12 +23,15 @@ void ThreadPool::Run() {
             if(!stopped_ && !tasks_.empty()) {
                 task = tasks_.front();
                 tasks_.pop();
+                ++running_;
             }
         }
         if(task) {
             task->Run();
             if(delete_tasks_)
                 delete task;
+            boost::mutex::scoped_lock lock(mutex_);
+            --running_;
         }
         thread_available_.notify_all();
     }
@@ -45,11 +48,9 @@ void ThreadPool::Submit(Task* task) {
 }
 
 void ThreadPool::Wait() {
-    while(!tasks_.empty()) {
-        boost::mutex::scoped_lock lock(mutex_);
+    boost::mutex::scoped_lock lock(mutex_);
+    while(!tasks_.empty() || running_ != 0)
         thread_available_.wait(lock);
-    }
-    sleep(1);
 }
 
 void ThreadPool::Stop(bool process_remaining) {
-- 
2.43.0


From 8540e37b33235c92082ef52937d06042998837bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:38 +0000
Subject: [PATCH 10/77] fix: -forest_nbest_trim has no effect

---
 src/lib/travatar-runner.cc | 1 -
 src/lib/trimmer-nbest.cc   | 6 ++++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index a5f49e5..dbe3a7b 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -361,7 +361,6 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
     }
 
     // Get the class to trim the forest if necessary
-    scoped_ptr<Trimmer> trimmer_;
     if(config.GetInt("forest_nbest_trim") != 0)
         trimmer_.reset(new TrimmerNbest(config.GetInt("forest_nbest_trim")));
 
diff --git a/src/lib/trimmer-nbest.cc b/src/lib/trimmer-nbest.cc
index 090b362..932b945 100644
--- a/src/lib/trimmer-nbest.cc
+++ b/src/lib/trimmer-nbest.cc
@@ -12,9 +12,11 @@ using namespace boost;
 void TrimmerNbest::FindActive(const HyperGraph & hg,
                 std::map<int,int> & active_nodes,
                 std::map<int,int> & active_edges) const {
+    // There is nothing to keep in an empty graph
+    if(hg.GetNodes().size() == 0)
+        return;
     // Always preserve the root node
-    if(hg.GetNodes().size() != 0)
-        Trimmer::AddId(active_nodes, 0);
+    Trimmer::AddId(active_nodes, 0);
     // Get the n-best
     // TODO: const_cast is a bit dangerous, but let's leave it for now
     NbestList nbest = const_cast<HyperGraph&>(hg).GetNbest(n_);;
-- 
2.43.0


From 3c2cd7befd73ce3ea2e200500e2e115135aea095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:38 +0000
Subject: [PATCH 11/77] fix: -nbest_out and -trace_out STDOUT or STDERR delete
 the standard streams

---
 src/lib/travatar-runner.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index dbe3a7b..77e1cd3 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -337,9 +337,9 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
     scoped_ptr<OutputCollector> nbest_collector;
     if(config.GetString("nbest_out") != "") {
         if (config.GetString("nbest_out") == "STDOUT") {
-            nbest_out.reset(&cout);
+            nbest_out.reset(new ostream(cout.rdbuf()));
         } else if (config.GetString("nbest_out") == "STDERR") {
-            nbest_out.reset(&cerr);
+            nbest_out.reset(new ostream(cerr.rdbuf()));
         } else {
             nbest_out.reset(new ofstream(config.GetString("nbest_out").c_str()));
         }
@@ -369,9 +369,9 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
     scoped_ptr<OutputCollector> trace_collector;
     if(config.GetString("trace_out") != "") {
         if (config.GetString("trace_out") == "STDOUT") {
-            trace_out.reset(&cout);
+            trace_out.reset(new ostream(cout.rdbuf()));
         } else if (config.GetString("trace_out") == "STDERR") {
-            trace_out.reset(&cerr);
+            trace_out.reset(new ostream(cerr.rdbuf()));
         } else {
             trace_out.reset(new ofstream(config.GetString("trace_out").c_str()));
         }
-- 
2.43.0


From 10898f8c4682b8b01b276106d8dcc1795667abcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:31 +0000
Subject: [PATCH 12/77] fix: threads sharing a binarizer update its table of
 barred symbols without synchronisation

---
 src/include/travatar/binarizer.h | 5 ++++-
 src/lib/binarizer.cc             | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/travatar/binarizer.h b/src/include/travatar/binarizer.h
index 30edb48..54b2143 100644
--- a/src/include/travatar/binarizer.h
+++ b/src/include/travatar/binarizer.h
@@ -3,6 +3,7 @@
 
 #include <travatar/graph-transformer.h>
 #include <travatar/sentence.h>
+#include <boost/thread/mutex.hpp>
 #include <map>
 #include <string>
 
@@ -12,7 +13,9 @@ namespace travatar {
 class Binarizer : public GraphTransformer {
 
 protected:
-    std::map<int,int> barred_map_;
+    mutable std::map<int,int> barred_map_;
+    // The map is shared by all the threads using this binarizer
+    mutable boost::mutex barred_mutex_;
 
 public:
 
diff --git a/src/lib/binarizer.cc b/src/lib/binarizer.cc
index 5e8b38c..9eb6c20 100644
--- a/src/lib/binarizer.cc
+++ b/src/lib/binarizer.cc
@@ -25,9 +25,10 @@ Binarizer * Binarizer::CreateBinarizerFromString(const std::string & bin) {
 }
 
 WordId Binarizer::GetBarredSymbol(WordId sym) const {
+    boost::mutex::scoped_lock lock(barred_mutex_);
     map<int,int>::const_iterator it = barred_map_.find(sym);
     if(it != barred_map_.end()) return it->second;
     WordId ret = Dict::WID(Dict::WSym(sym)+"'");
-    const_cast<map<int,int>& >(barred_map_).insert(make_pair(sym, ret));
+    barred_map_.insert(make_pair(sym, ret));
     return ret;
 }
-- 
2.43.0


From 0469d10de67e348b7c7a9d6c45f8ebf940a7219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:23 +0000
Subject: [PATCH 13/77] fix: printing the tree of an n-best derivation of one
 edge reads past its end

---
 src/lib/hyper-graph.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index a3952ef..50eb3c1 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -402,12 +402,15 @@ void HyperPath::Print(std::ostream & out) const {
 
 
 std::string HyperPath::GetTreeStr() const{
-    if ((int)edges_.size() < 1) return "";
+    // The language model adds edges that have no source side above the top rule
+    int first = 0;
+    while(first < (int)edges_.size() && edges_[first]->GetSrcStr() == "") first++;
+    if (first == (int)edges_.size()) return "";
 
-    string tree = edges_[1]->GetSrcStr();
+    string tree = edges_[first]->GetSrcStr();
     boost::regex e ("\\bx[0-9]:(.*?) ");
     boost::smatch m;
-    for(int i = 2; i < (int)edges_.size(); i++){
+    for(int i = first + 1; i < (int)edges_.size(); i++){
        string nextTree = edges_[i]->GetSrcStr() + " ";
        if(boost::regex_search(tree, m, e) == true){
            tree = boost::regex_replace(tree, e, nextTree, boost::format_first_only);
-- 
2.43.0


From 30178f5e2e4529aa301078a7937190c051f411ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:51 +0000
Subject: [PATCH 14/77] fix: cycles of two or more unary CFG rules are not
 detected when the table is read

---
 src/lib/rule-fsm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rule-fsm.cc b/src/lib/rule-fsm.cc
index 69afd1a..5e5591b 100644
--- a/src/lib/rule-fsm.cc
+++ b/src/lib/rule-fsm.cc
@@ -64,7 +64,7 @@ RuleFSM * RuleFSM::ReadFromRuleTable(istream & in) {
                 UnaryMap::iterator it = unaries.find(target);
                 if(it != unaries.end()) {
                     BOOST_FOREACH(const HieroHeadLabels & second_trg, it->second) {
-                        set<HieroHeadLabels>::iterator it2 = val.second.find(target);
+                        set<HieroHeadLabels>::iterator it2 = val.second.find(second_trg);
                         if(it2 == val.second.end()) {
                             added = true;
                             val.second.insert(second_trg);
-- 
2.43.0


From 8426778dd48a824916b1460ba05cdaebf2db7c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:59 +0000
Subject: [PATCH 15/77] fix: hiero rules of one table do not apply to nodes
 built by a later table

Every grammar was run over all spans from a position before the next one, so with
several tables a rule (such as a glue rule) missed the items of tables listed after
its own. All grammars now finish a span before any of them continues from it.
---
 src/include/travatar/rule-fsm.h |  9 +++++
 src/lib/lookup-table-fsm.cc     | 15 +++++++--
 src/lib/rule-fsm.cc             | 59 +++++++++++++++++++++------------
 3 files changed, 60 insertions(+), 23 deletions(-)

diff --git a/src/include/travatar/rule-fsm.h b/src/include/travatar/rule-fsm.h
index c08a588..521af4b 100644
--- a/src/include/travatar/rule-fsm.h
+++ b/src/include/travatar/rule-fsm.h
@@ -72,6 +72,15 @@ protected:
     void BuildHyperGraphComponent(HieroNodeMap & node_map, EdgeList & edge_set,
         const Sentence & input, const std::string & state, int position, HieroRuleSpans & spans) const;
 
+    // The parts of the above: match the word at position, or nodes starting at position and ending in next_begin..next_end
+    void MatchWord(HieroNodeMap & node_map, EdgeList & edge_set,
+        const Sentence & input, const std::string & state, int position, HieroRuleSpans & spans) const;
+    void MatchNonterms(HieroNodeMap & node_map, EdgeList & edge_set, const Sentence & input, const std::string & state,
+        int position, int next_begin, int next_end, HieroRuleSpans & spans) const;
+
+    // Add the nodes that unary rules build over a span, return true if there were any
+    bool ExpandUnary(HieroNodeMap & node_map, int position, int next_pos) const;
+
     static std::string CreateKey(const CfgData & src_data,
                                  const std::vector<CfgData> & trg_data);
 private:
diff --git a/src/lib/lookup-table-fsm.cc b/src/lib/lookup-table-fsm.cc
index 2af3aba..d3a91b2 100644
--- a/src/lib/lookup-table-fsm.cc
+++ b/src/lib/lookup-table-fsm.cc
@@ -186,9 +186,20 @@ HyperGraph * LookupTableFSM::TransformGraph(const HyperGraph & graph) const {
             // Add a size 0 node for unknown words
             RuleFSM::FindNode(node_map, i, i+1, unk_symbol_);
         }
-        // For each grammar, add rules
+        // For each grammar, add rules. As rules may use the nodes of every grammar,
+        // all grammars finish a span before any of them continues from it.
         BOOST_FOREACH(RuleFSM* rule_fsm, rule_fsms_)
-            rule_fsm->BuildHyperGraphComponent(node_map, edge_list, sent, "", i, span);
+            rule_fsm->MatchWord(node_map, edge_list, sent, "", i, span);
+        for(int next_pos = i+1; next_pos <= (int)sent.size(); next_pos++) {
+            bool added;
+            do {
+                added = false;
+                BOOST_FOREACH(RuleFSM* rule_fsm, rule_fsms_)
+                    if(rule_fsm->ExpandUnary(node_map, i, next_pos)) added = true;
+            } while(added);
+            BOOST_FOREACH(RuleFSM* rule_fsm, rule_fsms_)
+                rule_fsm->MatchNonterms(node_map, edge_list, sent, "", i, next_pos, next_pos, span);
+        }
     }
 
     // Add rules for unknown words
diff --git a/src/lib/rule-fsm.cc b/src/lib/rule-fsm.cc
index 5e5591b..e497fed 100644
--- a/src/lib/rule-fsm.cc
+++ b/src/lib/rule-fsm.cc
@@ -101,6 +101,17 @@ void RuleFSM::BuildHyperGraphComponent(
         HieroRuleSpans & spans) const {
     if (position >= (int)input.size())
         return;
+    MatchWord(node_map, edge_list, input, state, position, spans);
+    MatchNonterms(node_map, edge_list, input, state, position, position+1, input.size(), spans);
+}
+
+void RuleFSM::MatchWord(
+        HieroNodeMap & node_map, 
+        EdgeList & edge_list, 
+        const Sentence & input,
+        const string & state,
+        int position, 
+        HieroRuleSpans & spans) const {
 
     // First, match single words
     string next_state = state;
@@ -126,30 +137,36 @@ void RuleFSM::BuildHyperGraphComponent(
         // Recurse to match the following rules
         BuildHyperGraphComponent(node_map, edge_list, input, next_state, position+1, rule_span_next);
     }
+}
+
+bool RuleFSM::ExpandUnary(HieroNodeMap & node_map, int position, int next_pos) const {
+    HieroNodeMap::iterator it = node_map.find(make_pair(position,next_pos));
+    if(it == node_map.end() || next_pos > position+span_length_)
+        return false;
+    size_t start_size = it->second.size(), last_size;
+    do {
+        last_size = it->second.size();
+        BOOST_FOREACH(const UnaryMap::value_type & val, unaries_)
+            if(it->second.find(val.first) != it->second.end())
+                BOOST_FOREACH(const HieroHeadLabels & child_lab, val.second)
+                    RuleFSM::FindNode(node_map, position, next_pos, child_lab);
+    } while(last_size != it->second.size());
+    return start_size != it->second.size();
+}
 
+void RuleFSM::MatchNonterms(
+        HieroNodeMap & node_map, 
+        EdgeList & edge_list, 
+        const Sentence & input,
+        const string & state,
+        int position, 
+        int next_begin,
+        int next_end,
+        HieroRuleSpans & spans) const {
     // Continue until the end of the sentence or the max span length
-    int until = min((int)input.size(), position+span_length_);
-    for(int next_pos = position+1; next_pos <= until; next_pos++) {
+    int until = min(next_end, position+span_length_);
+    for(int next_pos = next_begin; next_pos <= until; next_pos++) {
         pair<int,int> span(position,next_pos);
-        // If this is the root, ensure unary nodes are expanded
-        if(state.length() == 0) {
-            set<HieroHeadLabels> next_set;
-            int last_size;
-            do {
-                last_size = next_set.size();
-                BOOST_FOREACH(const UnaryMap::value_type & val, unaries_) {
-                    HieroNodeMap::iterator it = node_map.find(span);
-                    if(it != node_map.end()) {
-                        if(it->second.find(val.first) != it->second.end()) {
-                            BOOST_FOREACH(HieroHeadLabels child_lab, val.second) {
-                                next_set.insert(child_lab);
-                                RuleFSM::FindNode(node_map, position, next_pos, child_lab);
-                            }
-                        }
-                    }
-                }
-            } while(last_size != (int)next_set.size());
-        }
         // Find nodes that match the current span
         HieroNodeMap::iterator node_it = node_map.find(span);
         if(node_it == node_map.end()) continue;
-- 
2.43.0


From 7c931942f459ca62e9ce072788ec60f5df7f88cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:15 +0000
Subject: [PATCH 16/77] fix: compact rule table loses rules whose source side
 occurs at several places in the file

---
 src/lib/lookup-table-marisa.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/lookup-table-marisa.cc b/src/lib/lookup-table-marisa.cc
index 248406a..3974d05 100644
--- a/src/lib/lookup-table-marisa.cc
+++ b/src/lib/lookup-table-marisa.cc
@@ -68,7 +68,9 @@ LookupTableMarisa * LookupTableMarisa::ReadFromRuleTable(std::istream & in) {
         agent.set_query(str.c_str());
         if(!ret->GetTrie().lookup(agent))
             THROW_ERROR("Internal error when building rule table @ " << str);
-        main_rules[agent.key().id()] = my_rules;
+        // The rules of one source side may be at several places in the table
+        RuleVec & id_rules = main_rules[agent.key().id()];
+        id_rules.insert(id_rules.end(), my_rules.begin(), my_rules.end());
     }
     return ret;
 }
-- 
2.43.0


From f6900c3371344d87c2d999f4b2403227ad505a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:28 +0000
Subject: [PATCH 17/77] fix: incremental LM search attaches children to the
 wrong tails when a rule permutes three or more variables

---
 src/lib/lm-composer-incremental.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/lm-composer-incremental.cc b/src/lib/lm-composer-incremental.cc
index 1082c19..aefba33 100644
--- a/src/lib/lm-composer-incremental.cc
+++ b/src/lib/lm-composer-incremental.cc
@@ -58,12 +58,15 @@ NBestComplete Forest::Complete(std::vector<PartialEdge> &partial) {
             wids = Sentence(1,-1);
             node_id = vector<WordId>(1);
         }
+        int target_pos = 0;
         BOOST_FOREACH(WordId wid, wids) {
             if(wid < 0) {
                 int tid = -1-wid;
-                const PartialVertex & part = add.NT()[tid];
+                // The non-terminals of the search are in *target* order
+                const PartialVertex & part = add.NT()[target_pos++];
                 HyperNode* child = (HyperNode*)part.End();
-                tails.push_back(child);
+                if((int)tails.size() <= tid) tails.resize(tid+1);
+                tails[tid] = child;
                 edge_score -= child->GetViterbiScore();
                 // Keep track of the node ID
                 node_id[tid] = child->GetId();
-- 
2.43.0


From 677d03f0c380f00d05089b9ee8602e724c8f43af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:28 +0000
Subject: [PATCH 18/77] fix: language model states of an empty and an
 unknown-word string are merged

---
 src/kenlm/lm/state.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kenlm/lm/state.hh b/src/kenlm/lm/state.hh
index f6c51d6..258b3b3 100644
--- a/src/kenlm/lm/state.hh
+++ b/src/kenlm/lm/state.hh
@@ -56,14 +56,15 @@ inline uint64_t hash_value(const State &state, uint64_t seed = 0) {
 struct Left {
   bool operator==(const Left &other) const {
     return 
-      length == other.length &&
-      (!length || (pointers[length - 1] == other.pointers[length - 1] && full == other.full));
+      length == other.length && full == other.full &&
+      (!length || pointers[length - 1] == other.pointers[length - 1]);
   }
 
   int Compare(const Left &other) const {
     if (length < other.length) return -1;
     if (length > other.length) return 1;
-    if (length == 0) return 0; // Must be full.
+    // An empty left state is full (unless there are no words at all)
+    if (length == 0) return (int)full - (int)other.full;
     if (pointers[length - 1] > other.pointers[length - 1]) return 1;
     if (pointers[length - 1] < other.pointers[length - 1]) return -1;
     return (int)full - (int)other.full;
-- 
2.43.0


From b063ea385c80dc7f22369f226ee3016b56a8a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 19/77] fix: decoding with an integrated language model loses
 unary rules over all but one state of their child and fails without words

---
 src/lib/lookup-table-cfglm.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/lib/lookup-table-cfglm.cc b/src/lib/lookup-table-cfglm.cc
index ac9cedb..4098588 100644
--- a/src/lib/lookup-table-cfglm.cc
+++ b/src/lib/lookup-table-cfglm.cc
@@ -257,8 +257,9 @@ void LookupTableCFGLM::CubePrune(int N, int i, int j, vector<CFGCollection> & co
         // Add the hypothesis to the hypergraph
         RecombIndex ridx = make_pair(rule->GetHeadLabels(), my_state);
         RecombMap::iterator rit = recomb_map.find(ridx);
+        bool new_node = (rit == recomb_map.end());
         ret.AddEdge(next_edge);
-        if(rit != recomb_map.end()) {
+        if(!new_node) {
             rit->second->AddEdge(next_edge);
             next_edge->SetHead(rit->second);
         } else {
@@ -271,8 +272,8 @@ void LookupTableCFGLM::CubePrune(int N, int i, int j, vector<CFGCollection> & co
             node->AddEdge(next_edge);
             recomb_map.insert(make_pair(ridx, node));
         }
-        // Advance the hypothesis
-        for(size_t j = 0; j < path->size(); j++) {
+        // Advance the hypothesis (unary rules are advanced when nodes are created)
+        for(size_t j = 0; id_str[0] >= 0 && j < path->size(); j++) {
             const pair<int,int> & my_span = (*path)[j];
             Real my_score = top_score + chart[my_span.first*N + my_span.second].GetHypScoreDiff(rule->GetChildHeadLabels(j), id_str[j+1]+1);
             if(my_score > -REAL_MAX/2) {
@@ -280,11 +281,12 @@ void LookupTableCFGLM::CubePrune(int N, int i, int j, vector<CFGCollection> & co
                 hypo_queue.push(make_pair(my_score, pos));
             }
         }
-        // If unary rules exist
+        // If unary rules exist, apply them to every new node
         UnaryIds::const_iterator uit = unary_ids_.find(rule->GetHeadLabels());
-        if(uit != unary_ids_.end()) {
+        if(new_node && uit != unary_ids_.end()) {
+            int node_pos = (int)chart[id].GetNodes()[rule->GetHeadLabels()].size() - 1;
             BOOST_FOREACH(int urid, uit->second) {
-                vector<int> pos(2); pos[0] = -1-urid; pos[1] = 0;
+                vector<int> pos(2); pos[0] = -1-urid; pos[1] = node_pos;
                 // TODO: Recalculating the features for unary rules every time is extremely wasteful. Do something.
                 Real my_score = top_score + weights_->GetCurrent() * unary_rules_[urid]->GetFeatures();
                 hypo_queue.push(make_pair(my_score, pos));
@@ -336,6 +338,12 @@ HyperGraph * LookupTableCFGLM::TransformGraph(const HyperGraph & graph) const {
         }
     }
 
+    // If there are no words, there is no derivation
+    if(N == 0) {
+        delete ret;
+        return new HyperGraph;
+    }
+
     // Build the final nodes
     CFGChartItem::StatefulNodeMap::iterator snmit = chart[N-1].GetNodes().find(root_symbol_);
     if(snmit != chart[N-1].GetNodes().end()) {
-- 
2.43.0


From 86a66ee4eef7618520b0dcdcffca24e442e85771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 20/77] fix: BLEU of equal lengths with a fractional precision
 weight exceeded one

---
 src/lib/eval-measure-bleu.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/eval-measure-bleu.cc b/src/lib/eval-measure-bleu.cc
index c0716d9..ac18cd8 100644
--- a/src/lib/eval-measure-bleu.cc
+++ b/src/lib/eval-measure-bleu.cc
@@ -113,7 +113,9 @@ BleuReport EvalStatsBleu::CalcBleuReport() const {
         Real sys = (vals_[3*i+1]+smooth);
         Real ref = (vals_[3*i+2]+smooth);
         
-        Real fmeas = (sys == 0 ? 0 : mat / (prec_weight_ * sys + (1-prec_weight_) * ref));
+        // The weights are not exact, so do not use them when the two are equal
+        Real denom = (sys == ref ? sys : prec_weight_ * sys + (1-prec_weight_) * ref);
+        Real fmeas = (sys == 0 || denom == 0 ? 0 : mat / denom);
         // To support PINC
         if (inverse_)
             fmeas = 1.0 - fmeas;
-- 
2.43.0


From 4668d3868eeb3ccf26c23e17cd955970148d2593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:27 +0000
Subject: [PATCH 21/77] fix: RIBES never looked at the longest contexts, so "a
 a" against itself scored zero

---
 src/lib/eval-measure-ribes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/eval-measure-ribes.cc b/src/lib/eval-measure-ribes.cc
index ad8fd4e..cae73b8 100644
--- a/src/lib/eval-measure-ribes.cc
+++ b/src/lib/eval-measure-ribes.cc
@@ -52,7 +52,7 @@ boost::shared_ptr<EvalStats> EvalMeasureRibes::CalculateStats(const Sentence & r
             // These vectors store all hypotheses that are still matching on the right or left
             vector<int> left_ref = ref_match, left_sys = sys_match,
                         right_ref = ref_match, right_sys = sys_match;
-            for(int window = 1; window < max(i, (int)sys.size()-i); window++) {
+            for(int window = 1; window <= max(i, (int)sys.size()-i-1); window++) {
                 // Update the possible hypotheses on the left
                 if(window <= i) {
                     vector<int> new_left_ref, new_left_sys;
-- 
2.43.0


From 523f0d0a5d6a7d8bc97acdfd06f0298f38ce2da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:27 +0000
Subject: [PATCH 22/77] fix: NIST was not a number for hypotheses shorter than
 the n-gram order

---
 src/lib/eval-measure-nist.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/eval-measure-nist.cc b/src/lib/eval-measure-nist.cc
index 5b56928..d8001a4 100644
--- a/src/lib/eval-measure-nist.cc
+++ b/src/lib/eval-measure-nist.cc
@@ -98,7 +98,7 @@ NistReport EvalStatsNist::CalcNistReport() const {
     // Calculate the precision for each order
     report.nist = 0.0;
     for (int i=0; i < ngram_order; i++) {
-        Real score = vals_[2*i]/vals_[2*i+1];
+        Real score = (vals_[2*i+1] ? vals_[2*i]/vals_[2*i+1] : 0);
         report.scores.push_back(score);
         report.nist += score;
     }
@@ -107,7 +107,7 @@ NistReport EvalStatsNist::CalcNistReport() const {
     report.sys_len = vals_[1];
     report.ref_len = *vals_.rbegin();
     // Calculate the brevity penalty
-    report.ratio = (Real)report.sys_len/report.ref_len;
+    report.ratio = (report.ref_len ? (Real)report.sys_len/report.ref_len : 1.0);
     if(report.ratio >= 1.0) {
       report.brevity = 1.0;
     } else if(report.ratio <= 0.0) {
-- 
2.43.0


From 6985c4a438444de6739a6891c8052ad29f0a339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:27 +0000
Subject: [PATCH 23/77] fix: written evaluation statistics kept only six digits

---
 src/lib/eval-measure.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/eval-measure.cc b/src/lib/eval-measure.cc
index 85badd0..e56c76f 100644
--- a/src/lib/eval-measure.cc
+++ b/src/lib/eval-measure.cc
@@ -91,6 +91,7 @@ void EvalStats::ReadStats(const std::string & str) {
 }
 std::string EvalStats::WriteStats() {
     std::ostringstream oss;
+    oss.precision(15);
     for(int i = 0; i < (int)vals_.size(); i++) {
         if(i) oss << ' ';
         oss << vals_[i];
-- 
2.43.0


From ae2bf06482fa830d27ec8f77404310a635c2dc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:27 +0000
Subject: [PATCH 24/77] fix: interpolated measures ignored weighted addition,
 references and cache clearing

---
 src/include/travatar/eval-measure-adv-interp.h |  7 +++++++
 src/include/travatar/eval-measure-interp.h     |  7 +++++++
 src/lib/eval-measure-adv-interp.cc             | 18 ++++++++++++++++++
 src/lib/eval-measure-interp.cc                 | 18 ++++++++++++++++++
 4 files changed, 50 insertions(+)

diff --git a/src/include/travatar/eval-measure-adv-interp.h b/src/include/travatar/eval-measure-adv-interp.h
index 6b764bd..8199461 100644
--- a/src/include/travatar/eval-measure-adv-interp.h
+++ b/src/include/travatar/eval-measure-adv-interp.h
@@ -28,6 +28,7 @@ public:
     // Check if the value is zero
     virtual bool IsZero();
     virtual EvalStats & PlusEquals(const EvalStats & rhs);
+    virtual EvalStats & PlusEqualsTimes(const EvalStats & rhs, Real p);
     virtual EvalStats & TimesEquals(EvalStatsDataType mult);
     virtual bool Equals(const EvalStats & rhs) const;
 
@@ -52,6 +53,12 @@ public:
     EvalMeasureAdvInterp(const std::string & str);
     virtual ~EvalMeasureAdvInterp() { }
 
+    // Initialize with reference
+    virtual void InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs);
+
+    // Clear the caches of all measures
+    virtual void ClearCache();
+
     // Calculate the stats for a single sentence
     virtual boost::shared_ptr<EvalStats> CalculateStats(
                 const Sentence & ref,
diff --git a/src/include/travatar/eval-measure-interp.h b/src/include/travatar/eval-measure-interp.h
index 86139e2..383f3a3 100644
--- a/src/include/travatar/eval-measure-interp.h
+++ b/src/include/travatar/eval-measure-interp.h
@@ -29,6 +29,7 @@ public:
     // Check if the value is zero
     virtual bool IsZero();
     virtual EvalStats & PlusEquals(const EvalStats & rhs);
+    virtual EvalStats & PlusEqualsTimes(const EvalStats & rhs, Real p);
     virtual EvalStats & TimesEquals(EvalStatsDataType mult);
     virtual bool Equals(const EvalStats & rhs) const;
 
@@ -52,6 +53,12 @@ public:
     EvalMeasureInterp(const std::string & str);
     virtual ~EvalMeasureInterp() { }
 
+    // Initialize with reference
+    virtual void InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs);
+
+    // Clear the caches of all measures
+    virtual void ClearCache();
+
     // Calculate the stats for a single sentence
     virtual boost::shared_ptr<EvalStats> CalculateStats(
                 const Sentence & ref,
diff --git a/src/lib/eval-measure-adv-interp.cc b/src/lib/eval-measure-adv-interp.cc
index 272bc0d..94815c4 100644
--- a/src/lib/eval-measure-adv-interp.cc
+++ b/src/lib/eval-measure-adv-interp.cc
@@ -46,6 +46,14 @@ EvalStats & EvalStatsAdvInterp::PlusEquals(const EvalStats & rhs) {
         stats_[i]->PlusEquals(*rhsi.stats_[i]);
     return *this;
 }
+EvalStats & EvalStatsAdvInterp::PlusEqualsTimes(const EvalStats & rhs, Real p) {
+    const EvalStatsAdvInterp & rhsi = (const EvalStatsAdvInterp &)rhs;
+    if(stats_.size() != rhsi.stats_.size())
+        THROW_ERROR("Interpreted eval measure sizes don't match");
+    for(int i = 0; i < (int)stats_.size(); i++)
+        stats_[i]->PlusEqualsTimes(*rhsi.stats_[i], p);
+    return *this;
+}
 EvalStats & EvalStatsAdvInterp::TimesEquals(EvalStatsDataType mult) {
     for(int i = 0; i < (int)stats_.size(); i++)
         stats_[i]->TimesEquals(mult);
@@ -68,6 +76,16 @@ EvalStatsPtr EvalStatsAdvInterp::Clone() const {
     return EvalStatsPtr(new EvalStatsAdvInterp(newstats, vars_, query_));
 }
 
+// Pass these on to every measure
+void EvalMeasureAdvInterp::InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs) {
+    for(int i = 0; i < (int)measures_.size(); i++)
+        measures_[i]->InitializeWithReferences(refs);
+}
+void EvalMeasureAdvInterp::ClearCache() {
+    for(int i = 0; i < (int)measures_.size(); i++)
+        measures_[i]->ClearCache();
+}
+
 // Measure the score of the sys output according to the ref
 EvalStatsPtr EvalMeasureAdvInterp::CalculateStats(const Sentence & ref, const Sentence & sys) const {
     // Calculate all the stats independently and add them
diff --git a/src/lib/eval-measure-interp.cc b/src/lib/eval-measure-interp.cc
index 5087c82..af3184f 100644
--- a/src/lib/eval-measure-interp.cc
+++ b/src/lib/eval-measure-interp.cc
@@ -46,6 +46,14 @@ EvalStats & EvalStatsInterp::PlusEquals(const EvalStats & rhs) {
         stats_[i]->PlusEquals(*rhsi.stats_[i]);
     return *this;
 }
+EvalStats & EvalStatsInterp::PlusEqualsTimes(const EvalStats & rhs, Real p) {
+    const EvalStatsInterp & rhsi = (const EvalStatsInterp &)rhs;
+    if(stats_.size() != rhsi.stats_.size())
+        THROW_ERROR("Interpreted eval measure sizes don't match");
+    for(int i = 0; i < (int)stats_.size(); i++)
+        stats_[i]->PlusEqualsTimes(*rhsi.stats_[i], p);
+    return *this;
+}
 EvalStats & EvalStatsInterp::TimesEquals(EvalStatsDataType mult) {
     for(int i = 0; i < (int)stats_.size(); i++)
         stats_[i]->TimesEquals(mult);
@@ -68,6 +76,16 @@ EvalStatsPtr EvalStatsInterp::Clone() const {
     return EvalStatsPtr(new EvalStatsInterp(newstats, coeffs_));
 }
 
+// Pass these on to every measure
+void EvalMeasureInterp::InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs) {
+    for(int i = 0; i < (int)measures_.size(); i++)
+        measures_[i]->InitializeWithReferences(refs);
+}
+void EvalMeasureInterp::ClearCache() {
+    for(int i = 0; i < (int)measures_.size(); i++)
+        measures_[i]->ClearCache();
+}
+
 // Measure the score of the sys output according to the ref
 EvalStatsPtr EvalMeasureInterp::CalculateStats(const Sentence & ref, const Sentence & sys) const {
     // Calculate all the stats independently and add them
-- 
2.43.0


From 2a0a965a9de73445b17075557985b3f375a66229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:27 +0000
Subject: [PATCH 25/77] fix: comparing formula-combined statistics read past
 the end of the formula

---
 src/lib/eval-measure-adv-interp.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/eval-measure-adv-interp.cc b/src/lib/eval-measure-adv-interp.cc
index 94815c4..6f784af 100644
--- a/src/lib/eval-measure-adv-interp.cc
+++ b/src/lib/eval-measure-adv-interp.cc
@@ -61,9 +61,9 @@ EvalStats & EvalStatsAdvInterp::TimesEquals(EvalStatsDataType mult) {
 }
 bool EvalStatsAdvInterp::Equals(const EvalStats & rhs) const {
     const EvalStatsAdvInterp & rhsi = (const EvalStatsAdvInterp &)rhs;
-    if(stats_.size() != rhsi.stats_.size()) return false;
+    if(stats_.size() != rhsi.stats_.size() || query_ != rhsi.query_) return false;
     for(int i = 0; i < (int)stats_.size(); i++) {
-        if(!stats_[i]->Equals(*rhsi.stats_[i]) || vars_[i] != rhsi.vars_[i] || query_[i] != rhsi.query_[i])
+        if(!stats_[i]->Equals(*rhsi.stats_[i]) || vars_[i] != rhsi.vars_[i])
             return false;
     }
     return true;
-- 
2.43.0


From 270654d54c1ede147967dec53b9ff5ab65f8292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 26/77] fix: TER wrote outside its tables for sentences of 1000
 words or more

---
 src/lib/eval-measure-ter.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/eval-measure-ter.cc b/src/lib/eval-measure-ter.cc
index 019f312..4eb473b 100644
--- a/src/lib/eval-measure-ter.cc
+++ b/src/lib/eval-measure-ter.cc
@@ -14,6 +14,10 @@ using namespace TERCpp;
 // Measure the score of the sys output according to the ref
 boost::shared_ptr<EvalStats> EvalMeasureTer::CalculateStats(const Sentence & ref, const Sentence & sys) const {
 
+  // The tables of tercpp have a fixed size
+  if(ref.size() >= 1000 || sys.size() >= 1000)
+    THROW_ERROR("TER can not be calculated for sentences of 1000 words or more");
+
   terCalc * evaluation = new terCalc;
   terAlignment result = evaluation->TER ( ref, sys );
   delete evaluation;
-- 
2.43.0


From 0a794dcd6801a1fd0bb519ec979f08760d28b63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 27/77] fix: words that are numbers became word identifiers
 when reading JSON forests

---
 src/lib/tree-io.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index a8c72e6..9039d4b 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -232,8 +232,9 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
                 // Get the words
                 try {
                     BOOST_FOREACH(ptree::value_type &x, t.second.get_child("words")) {
+                        // Negative numbers are variables, everything else is a word
                         int val = x.second.get<int>("", INT_MAX);
-                        if(val == INT_MAX)
+                        if(val >= 0)
                             val = Dict::WID(x.second.get<string>(""));
                         trg_data.words.push_back(val);
                     }
-- 
2.43.0


From bb046b9029742d87bb6ff97ecf2b0497a9f35032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 28/77] fix: repeated words of an Egret forest were merged into
 one terminal with the wrong position

---
 src/include/travatar/tree-io.h |  2 +-
 src/lib/tree-io.cc             | 19 ++++++++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/include/travatar/tree-io.h b/src/include/travatar/tree-io.h
index 0f4d614..aa15507 100644
--- a/src/include/travatar/tree-io.h
+++ b/src/include/travatar/tree-io.h
@@ -69,7 +69,7 @@ public:
     void SetNormalize(bool normalize) { normalize_ = normalize; }
     bool GetNormalize(bool normalize) const { return normalize_; }
 private:
-    HyperNode * MakeEgretNode(const std::string & str_id, SymbolSet<int> & node_map, HyperGraph * graph);
+    HyperNode * MakeEgretNode(const std::string & str_id, const std::pair<int,int> & parent_span, SymbolSet<int> & node_map, HyperGraph * graph);
 
     // Whether to normalize edge posteriors to per-node confusions (def: true)
     bool normalize_;
diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index 9039d4b..1b36f6c 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -271,16 +271,19 @@ void JSONTreeIO::WriteTree(const HyperGraph & tree, ostream & out) {
     out << "]}";
 }
 
-HyperNode * EgretTreeIO::MakeEgretNode(const string & str_id, SymbolSet<int> & node_map, HyperGraph * graph) {
+HyperNode * EgretTreeIO::MakeEgretNode(const string & str_id, const pair<int,int> & parent_span, SymbolSet<int> & node_map, HyperGraph * graph) {
+    regex node_regex("(.*)\\[(\\d+),(\\d+)\\]");
+    smatch node_match;
+    bool is_nonterm = regex_match(str_id, node_match, node_regex);
     // Try to find the node
-    int id = node_map.GetId(str_id, true);
+    ostringstream key; key << str_id;
+    if(!is_nonterm) key << ' ' << parent_span.first << ' ' << parent_span.second;
+    int id = node_map.GetId(key.str(), true);
     if(id < graph->NumNodes()) return graph->GetNode(id);
     else if (id != graph->NumNodes()) THROW_ERROR("Mismatched ID numbers in MakeEgretTreeNode()");
     // Make the node if it doesn't exist
-    regex node_regex("(.*)\\[(\\d+),(\\d+)\\]");
-    smatch node_match;
     HyperNode * new_node;
-    if(!regex_match(str_id, node_match, node_regex)) {
+    if(!is_nonterm) {
         new_node = new HyperNode(Dict::WID(str_id));
     } else {
         new_node = new HyperNode(Dict::WID(node_match[1]), 
@@ -324,14 +327,16 @@ HyperGraph * EgretTreeIO::ReadTree(istream & in) {
         istringstream iss(line);
         // Get the head
         iss >> buff;
-        HyperNode * head = MakeEgretNode(buff, node_map, ret);
+        HyperNode * head = MakeEgretNode(buff, make_pair(-1,-1), node_map, ret);
         HyperEdge * edge = new HyperEdge(head); ret->AddEdge(edge); head->AddEdge(edge);
         // The next string should always be "=>"
         iss >> buff;
         if(buff != "=>") THROW_ERROR("=> not found in Egret node string: " << line);
         // Read the tail nodes
         while(iss >> buff && buff != "|||") {
-            HyperNode * tail = MakeEgretNode(buff, node_map, ret);
+            // Terminals have no span of their own, so distinguish several
+            // occurrences of the same word by the span of their parent
+            HyperNode * tail = MakeEgretNode(buff, head->GetSpan(), node_map, ret);
             // Set terminal node's spans to those of their parent
             if(tail->GetSpan().first == -1)
                 tail->SetSpan(head->GetSpan());
-- 
2.43.0


From d07113c63e1f2932edd42cb47433f12d22637826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 29/77] fix: splitting a word dropped the score and features of
 its pre-terminal edge

---
 src/lib/word-splitter.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/word-splitter.cc b/src/lib/word-splitter.cc
index 95fd738..a874258 100644
--- a/src/lib/word-splitter.cc
+++ b/src/lib/word-splitter.cc
@@ -62,6 +62,8 @@ HyperGraph * WordSplitter::TransformGraph(const HyperGraph & hg) const {
             vector<HyperEdge*> & edges = node->GetEdges();
             HyperEdge* edge = new HyperEdge(node);
             edge->SetId(edges[0]->GetId());
+            edge->SetScore(edges[0]->GetScore());
+            edge->SetFeatures(edges[0]->GetFeatures());
             delete ret->GetEdges()[edge->GetId()];
             ret->GetEdges()[edge->GetId()] = edge;
             BOOST_FOREACH(HyperNode* new_node, new_nodes[node_idx]) {
-- 
2.43.0


From 47164d79fd4a38ec5106c66bb6ab588b8f8aec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 30/77] fix: flattening left longer unary chains half merged
 with edges pointing at the wrong head

---
 src/lib/unary-flattener.cc | 46 +++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/lib/unary-flattener.cc b/src/lib/unary-flattener.cc
index 24b2940..43337d2 100644
--- a/src/lib/unary-flattener.cc
+++ b/src/lib/unary-flattener.cc
@@ -2,32 +2,42 @@
 #include <travatar/hyper-graph.h>
 #include <travatar/dict.h>
 #include <boost/foreach.hpp>
+#include <set>
 
 using namespace travatar;
 using namespace std;
 using namespace boost;
 
-// Binarize the graph to the right
+// Flatten the children before the node itself, so that whole chains are merged
+static void FlattenNode(HyperNode * node, set<HyperNode*> & done) {
+    if(!done.insert(node).second) return;
+    BOOST_FOREACH(HyperEdge * edge, node->GetEdges())
+        BOOST_FOREACH(HyperNode * tail, edge->GetTails())
+            FlattenNode(tail, done);
+    if(node->NumEdges() > 1) {
+        // THROW_ERROR("Flatten does not currently work for hypergraphs of degree > 1");
+    } else if(node->NumEdges() == 0 ||
+              node->GetEdge(0)->NumTails() != 1) {
+        return;
+    }
+    HyperEdge * old_edge = node->GetEdge(0);
+    HyperNode * old_child = old_edge->GetTail(0);
+    if(old_child->NumEdges() > 0) {
+        node->GetEdges().clear();
+        node->GetEdges().push_back(old_child->GetEdge(0));
+        node->GetEdge(0)->SetHead(node);
+        node->SetSym(Dict::WID(Dict::WSym(node->GetSym())+"_"+
+                               Dict::WSym(old_child->GetSym())));
+    }
+}
+
+// Flatten the unary productions of the graph
 HyperGraph * UnaryFlattener::TransformGraph(const HyperGraph & hg) const {
     // First copy the graph
     HyperGraph * ret = new HyperGraph(hg);
-    BOOST_FOREACH(HyperNode * node, ret->GetNodes()) {
-        if(node->NumEdges() > 1) {
-            // THROW_ERROR("Flatten does not currently work for hypergraphs of degree > 1");
-        } else if(node->NumEdges() == 0 ||
-                  node->GetEdge(0)->NumTails() != 1) {
-            continue;
-        }
-        HyperEdge * old_edge = node->GetEdge(0);
-        HyperNode * old_child = old_edge->GetTail(0);
-        if(old_child->NumEdges() > 0) {
-            node->GetEdges().clear();
-            node->GetEdges().push_back(old_child->GetEdge(0));
-            node->GetEdge(0)->SetHead(node);
-            node->SetSym(Dict::WID(Dict::WSym(node->GetSym())+"_"+
-                                   Dict::WSym(old_child->GetSym())));
-        } 
-    }
+    set<HyperNode*> done;
+    if(ret->NumNodes() > 0)
+        FlattenNode(ret->GetNode(0), done);
     return ret;
 
 }
-- 
2.43.0


From ee471da8e13dfed5fc72448b8c61ec29a1a7e89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:56 +0000
Subject: [PATCH 31/77] fix: feature names with quotes or backslashes made
 printed forests invalid JSON

---
 src/lib/sparse-map.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index bf3f392..dc4568f 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -31,7 +31,7 @@ std::ostream & operator<<(std::ostream & out, const SparseMap & rhs) {
     BOOST_FOREACH(const SparsePair & kv, rhs) {
         if(kv.second != 0) {
             if(count++ != 0) out << ", ";
-            out << "\"" << Dict::WSym(kv.first) << "\": " << kv.second;
+            out << Dict::WSymEscaped(kv.first) << ": " << kv.second;
         }
     }
     out << "}";
@@ -190,7 +190,7 @@ std::ostream & operator<<(std::ostream & out, const SparseVector & rhs) {
     BOOST_FOREACH(const SparsePair & kv, rhs.GetImpl()) {
         if(kv.second != 0) {
             if(count++ != 0) out << ", ";
-            out << "\"" << Dict::WSym(kv.first) << "\": " << kv.second;
+            out << Dict::WSymEscaped(kv.first) << ": " << kv.second;
         }
     }
     out << "}";
-- 
2.43.0


From cf6810499c36198e5cea2410da155d5535d26a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 32/77] fix: flattened trees kept the merged nodes and edges

---
 src/lib/unary-flattener.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/lib/unary-flattener.cc b/src/lib/unary-flattener.cc
index 43337d2..493b5b8 100644
--- a/src/lib/unary-flattener.cc
+++ b/src/lib/unary-flattener.cc
@@ -38,6 +38,25 @@ HyperGraph * UnaryFlattener::TransformGraph(const HyperGraph & hg) const {
     set<HyperNode*> done;
     if(ret->NumNodes() > 0)
         FlattenNode(ret->GetNode(0), done);
+    // Remove the nodes that were merged into others, and their edges
+    set<HyperNode*> used;
+    vector<HyperNode*> stack;
+    if(ret->NumNodes() > 0) stack.push_back(ret->GetNode(0));
+    while(stack.size() > 0) {
+        HyperNode * node = stack.back(); stack.pop_back();
+        if(!used.insert(node).second) continue;
+        BOOST_FOREACH(HyperEdge * edge, node->GetEdges())
+            stack.insert(stack.end(), edge->GetTails().begin(), edge->GetTails().end());
+    }
+    set<HyperEdge*> used_edges;
+    BOOST_FOREACH(HyperNode * node, used)
+        used_edges.insert(node->GetEdges().begin(), node->GetEdges().end());
+    vector<HyperNode*> nodes; nodes.swap(ret->GetNodes());
+    vector<HyperEdge*> edges; edges.swap(ret->GetEdges());
+    BOOST_FOREACH(HyperNode * node, nodes)
+        if(used.find(node) != used.end()) { node->SetId(-1); ret->AddNode(node); } else delete node;
+    BOOST_FOREACH(HyperEdge * edge, edges)
+        if(used_edges.find(edge) != used_edges.end()) ret->AddEdge(edge); else delete edge;
     return ret;
 
 }
-- 
2.43.0


From 3e14f4f2c303a4554214b276b7d004ca986759cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 33/77] fix: regularize online weights for the right number of
 iterations, and allow constant access to them

A weight created by an update was regularized on the next read for all of the
iterations before it existed; GetFinal removed weights while iterating over
them; and reading through a constant reference (as TuneOnline does) threw.
---
 src/include/travatar/weights-perceptron.h |  3 ++
 src/include/travatar/weights.h            |  4 +--
 src/lib/weights-perceptron.cc             | 37 +++++++++++++++--------
 3 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/include/travatar/weights-perceptron.h b/src/include/travatar/weights-perceptron.h
index f6a913c..4219657 100644
--- a/src/include/travatar/weights-perceptron.h
+++ b/src/include/travatar/weights-perceptron.h
@@ -52,6 +52,9 @@ public:
 
 protected:
 
+    // The value of a weight after a number of iterations without updates
+    Real Regularize(const SparseMap::key_type & key, Real val, int iters) const;
+
     SparseIntMap last_update_;
     int curr_iter_;
     Real l1_coeff_;
diff --git a/src/include/travatar/weights.h b/src/include/travatar/weights.h
index de19054..744ac3a 100644
--- a/src/include/travatar/weights.h
+++ b/src/include/travatar/weights.h
@@ -78,9 +78,9 @@ public:
     void SetRange(int id, Real min, Real max) {
         ranges_[id] = std::pair<Real,Real>(min,max);
     }
-    std::pair<Real,Real> GetRange(int id) {
+    std::pair<Real,Real> GetRange(int id) const {
         RangeMap::const_iterator it = ranges_.find(id);
-        return (it == ranges_.end() ? ranges_[-1] : it->second);
+        return (it == ranges_.end() ? ranges_.find(-1)->second : it->second);
     }
 
 protected:
diff --git a/src/lib/weights-perceptron.cc b/src/lib/weights-perceptron.cc
index 7758465..c29fd74 100644
--- a/src/lib/weights-perceptron.cc
+++ b/src/lib/weights-perceptron.cc
@@ -10,8 +10,12 @@ inline Real InRange(Real val, pair<Real,Real> range) {
 
 // Get the final values of the weights
 const SparseMap & WeightsPerceptron::GetFinal() {
-    BOOST_FOREACH(SparseMap::value_type val, current_)
-        val.second = GetCurrent(val.first);
+    // Bringing a weight up to date may remove it, so do not do so while iterating
+    vector<SparseMap::key_type> keys;
+    BOOST_FOREACH(const SparseMap::value_type & val, current_)
+        keys.push_back(val.first);
+    BOOST_FOREACH(SparseMap::key_type key, keys)
+        GetCurrent(key);
     return current_;
 }
 
@@ -27,16 +31,31 @@ void WeightsPerceptron::Update(
             Real new_val = GetCurrent(change_val.first) + change_val.second * rate_;
             // And ensure we are in the correct range
             current_[change_val.first] = InRange(new_val, GetRange(change_val.first));
+            // The weight is up to date, even if it did not exist until now
+            last_update_[change_val.first] = curr_iter_;
         }
     }
     curr_iter_++;
     PRINT_DEBUG(current_ << std::endl, 2);
 }
 
-// Not currently implemented. Will need to add the weights as volataile and locks.
+// Get the current values of the weights without bringing them up to date
 Real WeightsPerceptron::GetCurrent(const SparseMap::key_type & key) const {
-    THROW_ERROR("Constant access to perceptron weights is not currently supported");
-    return 0.0;
+    SparseMap::const_iterator it = current_.find(key);
+    if(it == current_.end())
+        return 0.0;
+    SparseIntMap::const_iterator last = last_update_.find(key);
+    int diff = curr_iter_ - (last == last_update_.end() ? 0 : last->second);
+    return diff == 0 ? it->second : Regularize(key, it->second, diff);
+}
+// Regularize a weight for a number of iterations
+Real WeightsPerceptron::Regularize(const SparseMap::key_type & key, Real val, int iters) const {
+    Real reg = iters*l1_coeff_;
+    if(val > 0)
+        val = max(val-reg,(Real)0.0);
+    else
+        val = min(val+reg,(Real)0.0);
+    return InRange(val, GetRange(key));
 }
 // Get the current values of the weights at this point in learning
 Real WeightsPerceptron::GetCurrent(const SparseMap::key_type & key) {
@@ -47,13 +66,7 @@ Real WeightsPerceptron::GetCurrent(const SparseMap::key_type & key) {
     // Find the difference between the last update
     int diff = curr_iter_ - last_update_[key];
     if(diff != 0) {
-        Real reg = diff*l1_coeff_;
-        // Find the value
-        if(it->second > 0)
-            it->second = max(it->second-reg,(Real)0.0);
-        else
-            it->second = min(it->second+reg,(Real)0.0);
-        it->second = InRange(it->second, GetRange(key));
+        it->second = Regularize(key, it->second, diff);
         last_update_[key] = curr_iter_;
         if(it->second == 0) {
             current_.erase(it);
-- 
2.43.0


From 2be3c28bd82e0f886abb9e45aadb2806ff7eaa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 34/77] fix: reading a weight of the averaged perceptron does
 not change the average

Reading marked the weight as averaged up to the current iteration without
averaging it, and a weight that had returned to zero was dropped from the
average (while iterating over the weights, in GetFinal).
---
 src/lib/weights-average-perceptron.cc | 33 +++++++--------------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/src/lib/weights-average-perceptron.cc b/src/lib/weights-average-perceptron.cc
index 6308526..8ddf674 100644
--- a/src/lib/weights-average-perceptron.cc
+++ b/src/lib/weights-average-perceptron.cc
@@ -52,33 +52,16 @@ void WeightsAveragePerceptron::Update(
     PRINT_DEBUG(current_ << std::endl, 2);
 }
 
-// Not currently implemented. Will need to add the weights as volataile and locks.
+// Get the current values of the weights at this point in learning. As there is no
+// regularization, this does not depend on when the weight was last updated, which
+// is only kept for the average.
 Real WeightsAveragePerceptron::GetCurrent(const SparseMap::key_type & key) const {
-    THROW_ERROR("Constant access to perceptron weights is not currently supported");
-    return 0.0;
-}
-// Get the current values of the weights at this point in learning
-Real WeightsAveragePerceptron::GetCurrent(const SparseMap::key_type & key) {
-    SparseMap::iterator it = current_.find(key);
+    SparseMap::const_iterator it = current_.find(key);
     // Non-existant weights are zero
     if(it == current_.end())
         return 0.0;
-    // Find the difference between the last update
-    int diff = curr_iter_ - last_update_[key];
-    if(diff != 0) {
-        Real reg = diff*l1_coeff_;
-        // Find the value
-        if(it->second > 0)
-            it->second = max(it->second-reg,(Real)0.0);
-        else
-            it->second = min(it->second+reg,(Real)0.0);
-        it->second = InRange(it->second, GetRange(key));
-        last_update_[key] = curr_iter_;
-        if(it->second == 0) {
-            current_.erase(it);
-            return 0.0;
-        }
-    }
-    // std::cerr << " RET: " << it->second << std::endl;
-    return it->second;
+    return InRange(it->second, GetRange(key));
+}
+Real WeightsAveragePerceptron::GetCurrent(const SparseMap::key_type & key) {
+    return const_cast<const WeightsAveragePerceptron*>(this)->GetCurrent(key);
 }
-- 
2.43.0


From c47432cca22ac2b24ef6eb726c3d5282f9c98208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 35/77] fix: score edges with the regularized weights in online
 tuning

---
 src/lib/hyper-graph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index 50eb3c1..737ca19 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -453,7 +453,7 @@ CfgData HyperPath::CalcTranslation(int factor, int & idx) {
 // Score each edge in the graph
 void HyperGraph::ScoreEdges(const Weights & weights) {
     BOOST_FOREACH(HyperEdge * edge, edges_)
-        edge->SetScore(weights.GetCurrent() * edge->GetFeatures());
+        edge->SetScore(weights * edge->GetFeatures());
 }
 
 class QueueEntry {
-- 
2.43.0


From 34f8582cd4fc64134071831721e3333f597ede09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 36/77] fix: online tuning skips sentences without translations

---
 src/lib/weights-pairwise.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/weights-pairwise.cc b/src/lib/weights-pairwise.cc
index c5f170e..555bb26 100644
--- a/src/lib/weights-pairwise.cc
+++ b/src/lib/weights-pairwise.cc
@@ -13,6 +13,8 @@ void WeightsPairwise::Adjust(const Sentence & src,
                              const std::vector<Sentence> & refs,
                              const EvalMeasure & eval,
                              const NbestList & nbest) {
+    // There is nothing to learn from a sentence without translations
+    if(nbest.size() == 0) return;
     // Find the oracle
     int oracle = -1;
     Real oracle_eval = -REAL_MAX;
-- 
2.43.0


From d292af1c8b64608fece6b432a5c6593e841abe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 37/77] fix: greedy MERT crashed when no feature improved the
 score any more

---
 src/lib/tune-greedy-mert.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/tune-greedy-mert.cc b/src/lib/tune-greedy-mert.cc
index 9f2d1d4..d1ef855 100644
--- a/src/lib/tune-greedy-mert.cc
+++ b/src/lib/tune-greedy-mert.cc
@@ -115,7 +115,8 @@ Real TuneGreedyMert::RunTuning(SparseMap & weights) {
     do {
         result = TuneOnce(weights);
     } while(result.gain > gain_threshold_);
-    return result.after->ConvertToScore();
+    // The last attempt does not have a result, so find the score of the weights themselves
+    return TuneMert::LineSearch(weights, SparseMap(), examps_).after->ConvertToScore();
 }
 
 Real TuneGreedyMert::GetBestGain() { return best_result_.gain; }
-- 
2.43.0


From 796e4d1ae45fab85408c349927e81f9246b5b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 38/77] fix: line search in a range of a single point reported
 an unreachable gain

When the point was a boundary no span was selected, and the leftmost one was
reported, so greedy MERT with a fixed weight never terminated.
---
 src/lib/tune-mert.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/tune-mert.cc b/src/lib/tune-mert.cc
index f8efe2d..82ed828 100644
--- a/src/lib/tune-mert.cc
+++ b/src/lib/tune-mert.cc
@@ -65,7 +65,8 @@ LineSearchResult TuneMert::LineSearch(
             zero_stats = curr_stats->Clone();
         // Update the span if it exceeds the previous best and is in the acceptable gradient range
         Real curr_score = curr_stats->ConvertToScore();
-        if(curr_score > best_score && (last_bound < range.second && boundary.first > range.first)) {
+        // (where the range is a single point, also when that point starts the span)
+        if(curr_score > best_score && ((last_bound < range.second || last_bound == range.first) && boundary.first > range.first)) {
             best_span = ScoredSpan(Span(last_bound, boundary.first), curr_stats->Clone());
             best_score = curr_score;
         }
-- 
2.43.0


From 998fd8ca2d8157256bc977cffd073f97a4a8435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 39/77] fix: the rescored n-best list kept counting sentences
 instead of their ids

With an n-best list that has no entry for some sentence, all later entries of
-nbest_out were attributed to the wrong sentence.
---
 src/lib/rescorer-runner.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/rescorer-runner.cc b/src/lib/rescorer-runner.cc
index 9671141..b114f4e 100644
--- a/src/lib/rescorer-runner.cc
+++ b/src/lib/rescorer-runner.cc
@@ -146,9 +146,8 @@ void RescorerRunner::Run(const ConfigRescorer & config) {
             Rescore(nbest);
             Print(nbest);
             nbest.clear();
-            sent_++;
         }
-        last_id = id;
+        last_id = sent_ = id;
         nbest.push_back(RescorerNbestElement(Dict::ParseWords(columns[1]), 
                                              Dict::ParseSparseVector(columns[3]),
                                              boost::lexical_cast<Real>(columns[2])));
-- 
2.43.0


From 16a3fc921dabce46ce6efb49221b8655d99a49bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 40/77] fix: rescoring an empty n-best list is not an error

---
 src/lib/rescorer-runner.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/rescorer-runner.cc b/src/lib/rescorer-runner.cc
index b114f4e..343db1c 100644
--- a/src/lib/rescorer-runner.cc
+++ b/src/lib/rescorer-runner.cc
@@ -152,7 +152,9 @@ void RescorerRunner::Run(const ConfigRescorer & config) {
                                              Dict::ParseSparseVector(columns[3]),
                                              boost::lexical_cast<Real>(columns[2])));
     }
-    Rescore(nbest);
-    Print(nbest);
+    if(nbest.size() > 0) {
+        Rescore(nbest);
+        Print(nbest);
+    }
 
 }
-- 
2.43.0


From fd74fda194a6eef7e7ac7609cf0f317da83b97ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 41/77] fix: tails of extracted rules in the order of the
 source side

When a node that is not on the frontier came before a sibling that is, its
frontier descendants were listed after the sibling, so the target side (and
composed rules, and alignments) referred to the wrong variables.
---
 src/lib/forest-extractor.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lib/forest-extractor.cc b/src/lib/forest-extractor.cc
index d06175b..3aae57c 100644
--- a/src/lib/forest-extractor.cc
+++ b/src/lib/forest-extractor.cc
@@ -61,6 +61,12 @@ HyperGraph* ForestExtractor::ExtractMinimalRules(
             else {
                 // Get the next node to process and remove it from the stack
                 HyperNode* u = frag_front.second.front(); frag_front.second.pop_front();
+                // If it is another frontier node, it becomes the next tail
+                if(u->IsFrontier() == HyperNode::IS_FRONTIER && u != v) {
+                    frag_front.first->AddTail(ret->GetNode(old_new_ids[u->GetId()]));
+                    open.push(frag_front);
+                    continue;
+                }
                 // If it has no edges, push back onto the stack and continue
                 if(u->GetEdges().size() == 0) {
                     open.push(frag_front);
@@ -74,13 +80,8 @@ HyperGraph* ForestExtractor::ExtractMinimalRules(
                     // in ascending order
                     deque<HyperNode*> new_front;
                     RuleEdge * new_frag(new RuleEdge(*frag_front.first));
-                    BOOST_FOREACH(HyperNode* t, e->GetTails()) {
-                        // If this is not a frontier node, push it on the queue
-                        if(t->IsFrontier() != HyperNode::IS_FRONTIER)
-                            new_front.push_back(t);
-                        else
-                            new_frag->AddTail(ret->GetNode(old_new_ids[t->GetId()]));
-                    }
+                    BOOST_FOREACH(HyperNode* t, e->GetTails())
+                        new_front.push_back(t);
                     BOOST_FOREACH(HyperNode * stack_node, frag_front.second)
                         new_front.push_back(stack_node);
                     // Push this on to the queue
-- 
2.43.0


From 62a1cc0b7e4761b23de3cd83ffd9aa3fbe429f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 42/77] fix: rule alignments missed words of nodes with several
 edges or children

A source word was only counted as part of a rule below a node with exactly one
edge to exactly one word.
---
 src/lib/forest-extractor.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/forest-extractor.cc b/src/lib/forest-extractor.cc
index 3aae57c..1149531 100644
--- a/src/lib/forest-extractor.cc
+++ b/src/lib/forest-extractor.cc
@@ -10,6 +10,7 @@
 #include <list>
 #include <map>
 #include <cmath>
+#include <algorithm>
 
 using namespace travatar;
 using namespace std;
@@ -364,12 +365,11 @@ string RuleExtractor::RuleToString(const RuleEdge & rule, const Sentence & src_s
     BOOST_FOREACH(HyperEdge *edge, rule.GetFragmentEdges()) {
         remaining_fragments.push_back(edge);
         // Add the terminal ids for the source
-        pair<int,int> src_span = edge->GetHead()->GetSpan();
-        if(edge->GetHead()->IsPreTerminal()) {
-            for(int i = src_span.first; i < src_span.second; i++)
-                src_ids.push_back(i);
-        }
+        BOOST_FOREACH(const HyperNode* tail, edge->GetTails())
+            if(tail->IsTerminal())
+                src_ids.push_back(tail->GetSpan().first);
     }
+    sort(src_ids.begin(), src_ids.end());
     int tail_num = 0;
     PrintRuleSurface(*(*remaining_fragments.begin())->GetHead(), src_sent, remaining_fragments, tail_num, oss);
     if(remaining_fragments.size() > 0)
-- 
2.43.0


From 427ec90adf13fbbcbb5f3b55983cefa3ab68df24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 43/77] fix: keep the words before an impossible segment end
 when segmenting

---
 src/lib/mt-segmenter-runner.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/mt-segmenter-runner.cc b/src/lib/mt-segmenter-runner.cc
index 473b5c2..3d1a307 100644
--- a/src/lib/mt-segmenter-runner.cc
+++ b/src/lib/mt-segmenter-runner.cc
@@ -42,8 +42,10 @@ MTSegmenterRunner::MTSegmenterMemo::mapped_type MTSegmenterRunner::GetNextRefSys
             const MTSegmenterMemo::mapped_type & next_val = GetNextRefSys(
                         ref_sents, sys_corpus, eval_measure, next_refsys, memo);
             // If the value is null, then we are not in the acceptable beam
-            if(next_val.second.get() == NULL)
+            if(next_val.second.get() == NULL) {
+                if(i != last) curr_sentence.push_back(sys_corpus[i]);
                 continue;
+            }
             next_eval = next_val.second;
         }
         eval = eval_measure->CalculateCachedStats(
-- 
2.43.0


From f1bcea966d7e1a3fafff367f94f8c1ec8066725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 44/77] fix: report output that cannot be segmented within the
 slack

---
 src/lib/mt-segmenter-runner.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/mt-segmenter-runner.cc b/src/lib/mt-segmenter-runner.cc
index 3d1a307..f8efa32 100644
--- a/src/lib/mt-segmenter-runner.cc
+++ b/src/lib/mt-segmenter-runner.cc
@@ -82,6 +82,8 @@ void MTSegmenterRunner::SegmentMT(
         MTSegmenterMemo::mapped_type next_refsys = GetNextRefSys(
             ref_sents, sys_corpus, eval_measure,
             curr_refsys, memo);
+        if(next_refsys.second.get() == NULL)
+            THROW_ERROR("Could not segment the output within " << slack_ << " times the length of the references");
         sys_sents.push_back(Sentence());
         for(int i = curr_refsys.second; i < next_refsys.first.second; i++)
             sys_sents.rbegin()->push_back(sys_corpus[i]);
-- 
2.43.0


From 96353fa5e3627e28c35b46ba35aaa4101b5bc881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 45/77] fix: no phrase pairs without any link

---
 src/lib/hiero-extractor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/hiero-extractor.cc b/src/lib/hiero-extractor.cc
index 506e4b4..b4c5fed 100644
--- a/src/lib/hiero-extractor.cc
+++ b/src/lib/hiero-extractor.cc
@@ -140,6 +140,8 @@ HieroExtractor::PhrasePairs HieroExtractor::ExtractPhrase(const SourceAlignment
                 BOOST_FOREACH(int _t, s2t[s_end])
                     tp[_t]++;
             }
+            if (tp.empty())
+                continue;
             int t_begin = MapMinKey(tp);
             int t_end = MapMaxKey(tp);
             if (QuasiConsecutive(t_begin,t_end,tp,t2s)) {
-- 
2.43.0


From 6adcd90003b55896af53b266d2a3a1a0db05de26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:50 +0000
Subject: [PATCH 46/77] fix: filter-rt.pl looks at every symbol of a rule and
 at the last word of a sentence

---
 script/train/filter-rt.pl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/script/train/filter-rt.pl b/script/train/filter-rt.pl
index 8e707ef..a70f2b7 100755
--- a/script/train/filter-rt.pl
+++ b/script/train/filter-rt.pl
@@ -42,6 +42,7 @@ if($SRC) {
             chomp;
             @sent = split(/ +/);
         } elsif ($SRC_FORMAT eq "word") {
+            chomp;
             @sent = split(/ +/);
         } else {
             die "Illegal source format: $SRC_FORMAT";
@@ -62,7 +63,7 @@ while($line = <STDIN>) {
     die "Wrong number of columns in $line" if @cols < 2;
     if(@cols == 2) { push @cols, ""; }
     my ($term, $nonterm, $bad, @currsrc);
-    while($cols[0] =~ / ("([^ ]+)"|x\d+:[^ ]+) /g) {
+    while($cols[0] =~ /(?<![^ ])("([^ ]+)"|x\d+:[^ ]+)(?![^ ])/g) {
         my $myid = $2;
         if($myid) {
             $term++;
-- 
2.43.0


From bed931b28da23000239f1f1f45a16051ed8273da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:50 +0000
Subject: [PATCH 47/77] fix: normalizing the scores of an empty graph does not
 crash

---
 src/lib/hyper-graph.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index 737ca19..1d8a6aa 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -515,6 +515,8 @@ vector< vector<HyperEdge*> > HyperGraph::GetReversedEdges() {
 
 // Perform the inside-outside algorithm, where each edge score is a log probability
 void HyperGraph::InsideOutsideNormalize() {
+    // A graph without nodes has no scores
+    if(nodes_.size() == 0) return;
     // Calculate the inside and outside probabilities
     vector<Real> inside(nodes_.size(), -REAL_MAX), outside(nodes_.size(), -REAL_MAX);
     vector<vector<HyperEdge*> > rev_edges = GetReversedEdges();
-- 
2.43.0


From b22a7a3d4da9ed6d2b9cd256f079b0cd2139a350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 48/77] fix: forest-extractor reads Egret forests of several
 lines and goes on after a sentence without a parse

---
 src/lib/forest-extractor-runner.cc | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/lib/forest-extractor-runner.cc b/src/lib/forest-extractor-runner.cc
index fe4f552..9dfbb82 100644
--- a/src/lib/forest-extractor-runner.cc
+++ b/src/lib/forest-extractor-runner.cc
@@ -72,11 +72,19 @@ void ForestExtractorRunner::Run(const ConfigForestExtractorRunner & config) {
     // Get the lines
     string src_line, trg_line, align_line;
     int has_src, has_trg, has_align;
+    // Egret forests take several lines each, all other formats one
+    bool src_is_line = config.GetString("input_format") != "egret";
     int sent = 0;
     cerr << "Extracting rules (.=10,000, !=100,000 sentences)" << endl;
     while(true) {
         // Load one line from each file and check that they all exist
-        has_src = getline(src_in, src_line) ? 1 : 0;
+        boost::shared_ptr<HyperGraph> src_graph;
+        if(src_is_line) {
+            has_src = getline(src_in, src_line) ? 1 : 0;
+        } else {
+            src_graph.reset(src_io->ReadTree(src_in));
+            has_src = src_graph.get() != NULL ? 1 : 0;
+        }
         has_trg = getline(trg_in, trg_line) ? 1 : 0;
         has_align = getline(align_in, align_line) ? 1 : 0;
         if(has_src + has_trg + has_align == 0) break;
@@ -85,12 +93,19 @@ void ForestExtractorRunner::Run(const ConfigForestExtractorRunner & config) {
                         <<", trg="<<has_trg<<", align="<<has_align);
         PRINT_DEBUG("Extracting from:" << endl << src_line << endl << trg_line << endl << align_line << endl, 1);
         // Parse into the appropriate data structures
-        boost::shared_ptr<HyperGraph> src_graph;
-        try {
-            istringstream src_iss(src_line);
-            src_graph.reset(src_io->ReadTree(src_iss));
-        } catch (std::runtime_error & e) {
-            THROW_ERROR("Error reading tree on line " << sent+1 << endl << src_line << endl << e.what());
+        if(src_is_line) {
+            try {
+                istringstream src_iss(src_line);
+                src_graph.reset(src_io->ReadTree(src_iss));
+            } catch (std::runtime_error & e) {
+                THROW_ERROR("Error reading tree on line " << sent+1 << endl << src_line << endl << e.what());
+            }
+        }
+        // There are no rules in sentences that could not be parsed
+        if(src_graph.get() == NULL || src_graph->NumNodes() == 0) {
+            if(count_rules) cout << 0 << endl;
+            sent++;
+            continue;
         }
         // { /* DEBUG */ JSONTreeIO io; io.WriteTree(*src_graph, cerr); cerr << endl; }
         // Binarizer if necessary
-- 
2.43.0


From c6c7f5f49fb36c0d11d3540dab60906402ec11c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:46 +0000
Subject: [PATCH 49/77] fix: the length limit of extracted rules counts the
 words in the rule

---
 src/lib/rule-filter.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/rule-filter.cc b/src/lib/rule-filter.cc
index a9e1afa..6b0802b 100644
--- a/src/lib/rule-filter.cc
+++ b/src/lib/rule-filter.cc
@@ -14,10 +14,12 @@ bool RuleSizeFilter::PassesFilter(
         PRINT_DEBUG("RuleSizeFilter: " << rule << ": nonterm" << endl, 2);
         return false;
     }
-    std::pair<int,int> src_cov = rule.GetHead()->GetSpan(), 
-                       trg_cov = rule.GetHead()->GetTrgCovered();
+    // Count what is in the rule: without attachment the root does not
+    // cover the unaligned words at the ends of the target
+    std::pair<int,int> src_cov = rule.GetHead()->GetSpan();
+    const std::set<int> & trg_span = rule.GetHead()->GetTrgSpan();
     int src_len = src_cov.second - src_cov.first,
-        trg_len = min(trg_cov.second,(int)trg_sent.size()) - trg_cov.first;
+        trg_len = (trg_span.size() ? min(*trg_span.rbegin()+1,(int)trg_sent.size()) - *trg_span.begin() : 0);
     BOOST_FOREACH(const HyperNode * tail, rule.GetTails()) {
         std::pair<int,int> tsrc_cov = tail->GetSpan(), ttrg_cov = tail->GetTrgCovered();
         src_len -= tsrc_cov.second - tsrc_cov.first;
-- 
2.43.0


From 0f66cf91c34c3d23a8dea9a22c72486c44ee804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 50/77] fix: count a target word's links at its own position in
 score-t2s.pl --lex-type=aligned

---
 script/train/score-t2s.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/train/score-t2s.pl b/script/train/score-t2s.pl
index d028c13..06b9da8 100755
--- a/script/train/score-t2s.pl
+++ b/script/train/score-t2s.pl
@@ -77,8 +77,8 @@ sub m1prob {
     if($LEX_ALIGNED and $align) {
         my (@probs, @num);
         while($align =~ /([0-9]+)-([0-9]+)/g) {
-            $probs[$1] += $lex{"$trgarr->[$2]\t$srcarr->[$1]"};
-            $num[$1] += 1;
+            $probs[$2] += $lex{"$trgarr->[$2]\t$srcarr->[$1]"};
+            $num[$2] += 1;
         }
         for(0 .. @$trgarr-1) {
             my $prob = ($num[$_] ? $probs[$_]/$num[$_] : $lex{"$trgarr->[$_]\tNULL"});
-- 
2.43.0


From 3db9757d9ff39fa58f6f6bf5f54950f61c541e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 51/77] fix: train-travatar.pl passes -src_lex_len on to the
 extractor

---
 script/train/train-travatar.pl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/script/train/train-travatar.pl b/script/train/train-travatar.pl
index 4bca60d..8b27cf2 100755
--- a/script/train/train-travatar.pl
+++ b/script/train/train-travatar.pl
@@ -269,6 +269,7 @@ if(not $TM_FILE) {
         $EXTRACT_FILE = $DEFAULT_FILE{'EXTRACT_FILE'};
         if ($TRANSLATION_METHOD eq "t2s") {
             my $EXTRACT_OPTIONS = "-input_format $SRC_FORMAT -output_format $TRG_FORMAT -normalize_probs $NORMALIZE -binarize $BINARIZE -compose $COMPOSE -attach $ATTACH -attach_len $ATTACH_LEN -nonterm_len $NONTERM_LEN -term_len $TERM_LEN";
+            $EXTRACT_OPTIONS .= " -src_lex_len $SRC_LEX_LEN" if $SRC_LEX_LEN >= 0;
             safesystem("$TRAVATAR_DIR/src/bin/forest-extractor $EXTRACT_OPTIONS $SRC_FILE $TRG_FILE $ALIGN_FILE $PV_PIPE | gzip -c > $EXTRACT_FILE") or die;
         } elsif ($TRANSLATION_METHOD eq "hiero") {
             my $EXTRACT_OPTIONS = "-max_initial_phrase $MAX_INITIAL_PHRASE -max_terminals $MAX_TERMINALS";
-- 
2.43.0


From 84f2c4bba30ff85f786cf629887b2d4e0771c721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 52/77] fix: train-travatar.pl passes -symmetrize on to
 symmetrize.pl

---
 script/train/train-travatar.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/train/train-travatar.pl b/script/train/train-travatar.pl
index 8b27cf2..cb3f2e7 100755
--- a/script/train/train-travatar.pl
+++ b/script/train/train-travatar.pl
@@ -233,7 +233,7 @@ if(not $ALIGN_FILE) {
         my $GIZA_TRGSRC_CMD = "$GIZA -CoocurrenceFile $TSPREF.cooc -c $TSPREF.snt -m1 5 -m2 0 -m3 3 -m4 3 -model1dumpfrequency 1 -model4smoothfactor 0.4 -nodumps 1 -nsmooth 4 -o $TSPREF.giza -onlyaldumps 1 -p0 0.999 -s $TRG_VCB -t $SRC_VCB";
         run_two($GIZA_SRCTRG_CMD, $GIZA_TRGSRC_CMD);
         # Symmetrize the alignments
-        safesystem("$TRAVATAR_DIR/script/train/symmetrize.pl $WORK_DIR/align/src-trg.giza.A3.final $WORK_DIR/align/trg-src.giza.A3.final > $ALIGN_FILE") or die;
+        safesystem("$TRAVATAR_DIR/script/train/symmetrize.pl --sym=$SYMMETRIZE $WORK_DIR/align/src-trg.giza.A3.final $WORK_DIR/align/trg-src.giza.A3.final > $ALIGN_FILE") or die;
     } else {
         die "Unknown alignment type $ALIGN";
     }
-- 
2.43.0


From e55d317ec88f04df4947f8365c810dd6a6cf35ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 53/77] fix: train-travatar.pl -resume keeps the files given as
 options

---
 script/train/train-travatar.pl | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/script/train/train-travatar.pl b/script/train/train-travatar.pl
index cb3f2e7..95410c7 100755
--- a/script/train/train-travatar.pl
+++ b/script/train/train-travatar.pl
@@ -467,14 +467,14 @@ sub get_ready_file {
 }
 
 sub set_processed {
-    $SRC_WORDS    = get_ready_file('SRC_WORDS');
-    $TRG_WORDS    = get_ready_file('TRG_WORDS');
-    $ALIGN_FILE   = get_ready_file('ALIGN_FILE');
-    $LEX_SRCTRG   = get_ready_file('LEX_SRCTRG');
-    $LEX_TRGSRC   = get_ready_file('LEX_TRGSRC');
-    $EXTRACT_FILE = get_ready_file('EXTRACT_FILE');
-    $RT_SRCTRG    = get_ready_file('RT_SRCTRG');
-    $RT_TRGSRC    = get_ready_file('RT_TRGSRC');
-    $TM_FILE      = get_ready_file('TM_FILE');
+    $SRC_WORDS    = get_ready_file('SRC_WORDS') if not $SRC_WORDS;
+    $TRG_WORDS    = get_ready_file('TRG_WORDS') if not $TRG_WORDS;
+    $ALIGN_FILE   = get_ready_file('ALIGN_FILE') if not $ALIGN_FILE;
+    $LEX_SRCTRG   = get_ready_file('LEX_SRCTRG') if not $LEX_SRCTRG;
+    $LEX_TRGSRC   = get_ready_file('LEX_TRGSRC') if not $LEX_TRGSRC;
+    $EXTRACT_FILE = get_ready_file('EXTRACT_FILE') if not $EXTRACT_FILE;
+    $RT_SRCTRG    = get_ready_file('RT_SRCTRG') if not $RT_SRCTRG;
+    $RT_TRGSRC    = get_ready_file('RT_TRGSRC') if not $RT_TRGSRC;
+    $TM_FILE      = get_ready_file('TM_FILE') if not $TM_FILE;
 }
 
-- 
2.43.0


From c34e44699184222d0a2e333d3e9b7ccd644458a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:56 +0000
Subject: [PATCH 54/77] fix: train-travatar.pl -resume does not trust a lexicon
 that was being written

---
 script/train/train-travatar.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/train/train-travatar.pl b/script/train/train-travatar.pl
index 95410c7..b1bc975 100755
--- a/script/train/train-travatar.pl
+++ b/script/train/train-travatar.pl
@@ -448,7 +448,7 @@ sub set_default_files {
         'SRC_WORDS' => $DEFAULT_FILE{'ALIGN_FILE'},
         'TRG_WORDS' => $DEFAULT_FILE{'ALIGN_FILE'},
         'ALIGN_FILE' => $DEFAULT_FILE{'LEX_SRCTRG'},
-        'LEX_SRCTRG' => $DEFAULT_FILE{'LEX_TRGSRC'},
+        'LEX_SRCTRG' => $DEFAULT_FILE{'EXTRACT_FILE'},
         'LEX_TRGSRC' => $DEFAULT_FILE{'EXTRACT_FILE'},
         'EXTRACT_FILE' => $DEFAULT_FILE{'RT_SRCTRG'},
         'RT_SRCTRG' => $DEFAULT_FILE{'TM_FILE'},
-- 
2.43.0


From 4058a44442a0f2783a40f4ecccc33f135a0a4fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:48 +0000
Subject: [PATCH 55/77] fix: train-travatar.pl stops when the first of two
 parallel commands fails

---
 script/train/train-travatar.pl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/script/train/train-travatar.pl b/script/train/train-travatar.pl
index b1bc975..fb8a226 100755
--- a/script/train/train-travatar.pl
+++ b/script/train/train-travatar.pl
@@ -407,6 +407,7 @@ sub run_two {
         } else {
             safesystem("$CMD2") or die;
             waitpid($pid, 0);
+            $? == 0 or die "ERROR: Execution of: $CMD1\n  failed\n";
         }
     } else {
         safesystem("$CMD1") or die;
-- 
2.43.0


From 0a052d02492cc2ef6facdff9380a06224bf0f24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 56/77] fix: train-travatar.pl stops when a command inside a
 pipeline fails

---
 script/train/train-travatar.pl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/script/train/train-travatar.pl b/script/train/train-travatar.pl
index fb8a226..6186ee6 100755
--- a/script/train/train-travatar.pl
+++ b/script/train/train-travatar.pl
@@ -337,7 +337,8 @@ if(not $CONFIG_FILE) {
 # Adapted from Moses's train-model.perl
 sub safesystem {
   print STDERR "Executing: @_\n";
-  system(@_);
+  # A pipeline fails when any of its commands fails
+  system("bash", "-o", "pipefail", "-c", "@_");
   if ($? == -1) {
       print STDERR "ERROR: Failed to execute: @_\n  $!\n";
       exit(1);
-- 
2.43.0


From 0d761d37ca62ad5bcd3a16b21550862483865bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:56 +0000
Subject: [PATCH 57/77] fix: train-travatar.pl writes the configuration to
 -config_file

---
 script/train/train-travatar.pl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/script/train/train-travatar.pl b/script/train/train-travatar.pl
index 6186ee6..85954f2 100755
--- a/script/train/train-travatar.pl
+++ b/script/train/train-travatar.pl
@@ -310,9 +310,9 @@ if ($TRANSLATION_METHOD eq "hiero") {
 # ******* 5: Create a configuration file ********
 print STDERR "(5) Creating configuration @ ".`date`;
 
-if(not $CONFIG_FILE) {
-    (safesystem("mkdir $WORK_DIR/model") or die) if (not -e "$WORK_DIR/model");
-    my $TINI_FILE = "$WORK_DIR/model/travatar.ini";
+{
+    (safesystem("mkdir $WORK_DIR/model") or die) if ((not $CONFIG_FILE) and (not -e "$WORK_DIR/model"));
+    my $TINI_FILE = $CONFIG_FILE || "$WORK_DIR/model/travatar.ini";
     open TINI, ">:utf8", $TINI_FILE or die "Couldn't open $TINI_FILE\n";
     print TINI "[tm_file]\n$TM_FILE\n\n";
     print TINI "[lm_file]\n$LM_FILE\n\n" if ($NO_LM ne "true");
-- 
2.43.0


From d396053bd7a3861dad2484dc261658943bfce099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:29 +0000
Subject: [PATCH 58/77] fix: train-travatar.pl makes the directory of the glue
 rules when the rule table is given

---
 script/train/train-travatar.pl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/script/train/train-travatar.pl b/script/train/train-travatar.pl
index 85954f2..b464ad2 100755
--- a/script/train/train-travatar.pl
+++ b/script/train/train-travatar.pl
@@ -299,6 +299,7 @@ if(not $TM_FILE) {
 }
 # If we are doing Hiero, print the glue rules too
 if ($TRANSLATION_METHOD eq "hiero") {
+    safesystem("mkdir -p $WORK_DIR/model") or die;
     my $gfile = $DEFAULT_FILE{'GFILE'};
     open GFILE, ">:utf8", $gfile or die "Couldn't open $gfile\n";
     print GFILE "x0:X @ S ||| x0:X @ S ||| \n";
-- 
2.43.0


From 6d71c886b3a1ea68260d69cb8edbfe79ab3df0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 59/77] fix: nbest-uniq.pl compares the last sentence, and
 sentences after a missing one, with the earlier lists

---
 script/mert/nbest-uniq.pl | 59 +++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 33 deletions(-)

diff --git a/script/mert/nbest-uniq.pl b/script/mert/nbest-uniq.pl
index 016780b..65602ff 100755
--- a/script/mert/nbest-uniq.pl
+++ b/script/mert/nbest-uniq.pl
@@ -17,46 +17,39 @@ for(@ARGV) {
    push @handles, $fh;
 }
 
-my (%curr, %next);
+my (%curr, @ahead);
 
-sub print_save {
-    for(@_) {
-        my @arr = split(/ \|\|\| /);
-        $arr[3] = join(" ", sort(split(/ /, $arr[3])));
-        my $id = "$arr[0] ||| $arr[1] ||| $arr[3]";
-        print "$_\n" if not $curr{$id}++;
+sub make_id {
+    my @arr = split(/ \|\|\| /, $_[0]);
+    $arr[3] = join(" ", sort(split(/ /, defined($arr[3]) ? $arr[3] : "")));
+    return "$arr[0] ||| $arr[1] ||| $arr[3]";
+}
+
+# Remember the entries that the given files have for one sentence
+sub read_sentence {
+    my $sent = shift;
+    %curr = ();
+    for my $i (0 .. $#handles) {
+        while(1) {
+            $ahead[$i] = readline($handles[$i]) if not defined($ahead[$i]);
+            last if not defined($ahead[$i]);
+            chomp $ahead[$i];
+            $ahead[$i] =~ /^(\d+) \|\|\|/ or die "Badly formed n-best $ahead[$i]\n";
+            last if $1 > $sent;
+            $curr{make_id($ahead[$i])}++ if $1 == $sent;
+            undef $ahead[$i];
+        }
     }
 }
 
-my $last = 0;
-my @save;
+my $last = -1;
 while(<STDIN>) {
     chomp;
     /^(\d+) \|\|\|/ or die "Badly formed n-best $_\n";
-    my $curr_line = $_;
+    my $line = $_;
     if($1 != $last) {
-        my $next = $1;
-        %curr = %next;
-        %next = ();
-        for(@handles) {
-            while(my $val = <$_>) {
-                chomp $val;
-                my @arr = split(/ \|\|\| /, $val);
-                $arr[3] = join(" ", sort(split(/ /, $arr[3])));
-                my $id = "$arr[0] ||| $arr[1] ||| $arr[3]";
-                if($arr[0] != $last) {
-                    $next{$id}++;
-                    last;
-                } else {
-                    $curr{$id}++;
-                }
-            }
-        }
-        print_save(@save);
-        @save = ($curr_line);
-        $last = $next;
-    } else {
-        push @save, $_;
+        $last = $1;
+        read_sentence($last);
     }
+    print "$line\n" if not $curr{make_id($line)}++;
 }
-print_save(@save);
-- 
2.43.0


From c8b1427c1e008ff7cfec56dd3c136d326db528e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 60/77] fix: filter-model.pl keeps rule tables of the same name
 apart

---
 script/train/filter-model.pl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/script/train/filter-model.pl b/script/train/filter-model.pl
index e81ac6d..0260e89 100755
--- a/script/train/filter-model.pl
+++ b/script/train/filter-model.pl
@@ -14,10 +14,14 @@ if(@ARGV != 4) {
     exit 1;
 }
 
+# Models in different directories may have the same name
+my %used;
 sub convert_to_output {
     my $str = shift;
     $str =~ s/^.*\///g;
-    return "$ARGV[2]/$str";
+    my $name = $str;
+    for(my $i = 1; $used{$name}++; $i++) { $name = "$i-$str"; }
+    return "$ARGV[2]/$name";
 }
 
 # Read in the configuration file
-- 
2.43.0


From becdcf0f5882f755f45e8adaf5ac3a5e0e1f2612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 61/77] fix: filter-model.pl stops when a command inside its
 pipeline fails

---
 script/train/filter-model.pl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/script/train/filter-model.pl b/script/train/filter-model.pl
index 0260e89..4c28a8a 100755
--- a/script/train/filter-model.pl
+++ b/script/train/filter-model.pl
@@ -62,7 +62,8 @@ close FILE3;
 # Auxiliary functions
 sub safesystem {
   print STDERR "Executing: @_\n";
-  system(@_);
+  # A pipeline fails when any of its commands fails
+  system("bash", "-o", "pipefail", "-c", "@_");
   if ($? == -1) {
       warn "Failed to execute: @_\n  $!";
       exit(1);
-- 
2.43.0


From 5ede78e15b60c5337f492b2cf6cd4c5322bf08a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 62/77] fix: filter-rule-table.py guesses the format of an
 input whose first line is empty

---
 script/train/filter-rule-table.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/script/train/filter-rule-table.py b/script/train/filter-rule-table.py
index 3100bc7..ecd48ea 100755
--- a/script/train/filter-rule-table.py
+++ b/script/train/filter-rule-table.py
@@ -224,9 +224,10 @@ def enumerateIndexSeqs(ngramMaps, sentenceIndex, minFirstIndex):
             yield [index] + seq
 
 def guessFormat(inputSentences):
-    if inputSentences[0] == ['sentence', '1', ':']:
+    first = next((s for s in inputSentences if s), [''])
+    if first == ['sentence', '1', ':']:
         return 'egret'
-    elif inputSentences[0][0][0] == '(':
+    elif first[0][:1] == '(':
         return 'penn'
     else:
         return 'word'
-- 
2.43.0


From 373b6f8a49a40146138842261cbb876a3586740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 63/77] fix: mert-travatar.pl filters the rule table for the
 given input format

---
 script/mert/mert-travatar.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/mert/mert-travatar.pl b/script/mert/mert-travatar.pl
index 80116bd..534683f 100755
--- a/script/mert/mert-travatar.pl
+++ b/script/mert/mert-travatar.pl
@@ -86,8 +86,8 @@ if ($iter_start == 0) {
   if($NO_FILTER_RT) {
       safesystem("cp $TRAVATAR_CONFIG $WORKING_DIR/run1.ini");
   } else {
-      my $format = ($IN_FORMAT ? "-src-format $IN_FORMAT" : "");
-      safesystem("$TRAVATAR_DIR/script/train/filter-model.pl $TRAVATAR_CONFIG $WORKING_DIR/run1.ini $WORKING_DIR/filtered \"$TRAVATAR_DIR/script/train/filter-rule-table.py $SRC\"") or die "Couldn't filter";
+      my $format = ($IN_FORMAT =~ /^(penn|egret|word)$/ ? "-f $IN_FORMAT" : "");
+      safesystem("$TRAVATAR_DIR/script/train/filter-model.pl $TRAVATAR_CONFIG $WORKING_DIR/run1.ini $WORKING_DIR/filtered \"$TRAVATAR_DIR/script/train/filter-rule-table.py $format $SRC\"") or die "Couldn't filter";
   }
   $iter_start = 1;
 }
-- 
2.43.0


From f553c9423cbbcd6c9cc4f96efa080d1cc5d87e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 64/77] fix: mert-travatar.pl does not stop when only new or
 dropped weights have moved

---
 script/mert/mert-travatar.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/mert/mert-travatar.pl b/script/mert/mert-travatar.pl
index 534683f..312cf49 100755
--- a/script/mert/mert-travatar.pl
+++ b/script/mert/mert-travatar.pl
@@ -152,7 +152,7 @@ foreach $iter ($iter_start .. $MAX_ITERS) {
     my %wprev = load_weights("$prev.ini");
     my %wnext = load_weights("$next.ini");
     my $diff = 0;
-    for(keys %wprev) { $diff += abs($wprev{$_} - $wnext{$_}); }
+    for(keys %{{ %wprev, %wnext }}) { $diff += abs($wprev{$_} - $wnext{$_}); }
     last if($diff < $MIN_DIFF);
 }
 
-- 
2.43.0


From d55711b2244b3e9d1d8274b2ecb550d5b53f8ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 65/77] fix: mert-travatar.pl stops when merging candidates or
 copying the configuration fails

---
 script/mert/mert-travatar.pl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/script/mert/mert-travatar.pl b/script/mert/mert-travatar.pl
index 312cf49..079fa31 100755
--- a/script/mert/mert-travatar.pl
+++ b/script/mert/mert-travatar.pl
@@ -60,7 +60,7 @@ if((not $TRAVATAR_CONFIG) or (not $SRC) or (not $REF) or (not $TRAVATAR_DIR) or
 }
 ($MERT_SOLVER eq "moses") or ($MERT_SOLVER eq "batch-tune") or die "Bad MERT solver: $MERT_SOLVER";
 ($CAND_TYPE eq "nbest") or ($CAND_TYPE eq "forest") or die "Bad candidate type: $CAND_TYPE";
-($MERT_SOLVER eq "moses") and (not $MOSES_DIR) and "Must specify -moses-dir when using the Moses MERT solver.";
+($MERT_SOLVER eq "moses") and (not $MOSES_DIR) and die "Must specify -moses-dir when using the Moses MERT solver.";
 ($EVAL =~ /^(bleu|ribes|interp|ter|ainterp)/) or die "Bad evaluation measure $EVAL";
 ($DECODER_OPTIONS =~ /(in_format|trg_factors)/) and die "Travatar's $1 should not be specified through -decoder-options, but through the option of mert-travatar.pl";
 $TRAVATAR = "$TRAVATAR_DIR/src/bin/travatar" if not $TRAVATAR;
@@ -84,7 +84,7 @@ if ($RESUME) {
 }
 if ($iter_start == 0) {
   if($NO_FILTER_RT) {
-      safesystem("cp $TRAVATAR_CONFIG $WORKING_DIR/run1.ini");
+      safesystem("cp $TRAVATAR_CONFIG $WORKING_DIR/run1.ini") or die "Couldn't copy";
   } else {
       my $format = ($IN_FORMAT =~ /^(penn|egret|word)$/ ? "-f $IN_FORMAT" : "");
       safesystem("$TRAVATAR_DIR/script/train/filter-model.pl $TRAVATAR_CONFIG $WORKING_DIR/run1.ini $WORKING_DIR/filtered \"$TRAVATAR_DIR/script/train/filter-rule-table.py $format $SRC\"") or die "Couldn't filter";
@@ -134,7 +134,7 @@ foreach $iter ($iter_start .. $MAX_ITERS) {
     } elsif($MERT_SOLVER eq "batch-tune") {
         if($CAND_TYPE eq "nbest") {
             my $nbests = join(" ", map { "$WORKING_DIR/run$_.uniq" } (1 .. $iter-1));
-            safesystem("$TRAVATAR_DIR/script/mert/nbest-uniq.pl $nbests < $WORKING_DIR/run$iter.nbest > $WORKING_DIR/run$iter.uniq");
+            safesystem("$TRAVATAR_DIR/script/mert/nbest-uniq.pl $nbests < $WORKING_DIR/run$iter.nbest > $WORKING_DIR/run$iter.uniq") or die "nbest-uniq failed";
             if(not defined($STAT_GENERATOR)) {
                 safesystem("$TRAVATAR_DIR/src/bin/batch-tune -trg_factors $TRG_FACTORS -threads $THREADS -nbest $WORKING_DIR/run$iter.uniq -stat_out $WORKING_DIR/run$iter.stats -eval \"$EVAL\" $REF 2> $prev.stats.log") or die "batch-tune stats extraction failed";
             } else {
-- 
2.43.0


From 5b3be565eabc4014d92af5cbfdf3918d2fb2907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 66/77] fix: mert-travatar.pl writes configurations whole, so
 that -resume never takes up part of one

---
 script/mert/mert-travatar.pl | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/script/mert/mert-travatar.pl b/script/mert/mert-travatar.pl
index 079fa31..929e0aa 100755
--- a/script/mert/mert-travatar.pl
+++ b/script/mert/mert-travatar.pl
@@ -84,11 +84,13 @@ if ($RESUME) {
 }
 if ($iter_start == 0) {
   if($NO_FILTER_RT) {
-      safesystem("cp $TRAVATAR_CONFIG $WORKING_DIR/run1.ini") or die "Couldn't copy";
+      safesystem("cp $TRAVATAR_CONFIG $WORKING_DIR/run1.ini.new") or die "Couldn't copy";
   } else {
       my $format = ($IN_FORMAT =~ /^(penn|egret|word)$/ ? "-f $IN_FORMAT" : "");
-      safesystem("$TRAVATAR_DIR/script/train/filter-model.pl $TRAVATAR_CONFIG $WORKING_DIR/run1.ini $WORKING_DIR/filtered \"$TRAVATAR_DIR/script/train/filter-rule-table.py $format $SRC\"") or die "Couldn't filter";
+      safesystem("$TRAVATAR_DIR/script/train/filter-model.pl $TRAVATAR_CONFIG $WORKING_DIR/run1.ini.new $WORKING_DIR/filtered \"$TRAVATAR_DIR/script/train/filter-rule-table.py $format $SRC\"") or die "Couldn't filter";
   }
+  # Resuming relies on every run*.ini being complete
+  rename("$WORKING_DIR/run1.ini.new", "$WORKING_DIR/run1.ini") or die "Couldn't move run1.ini";
   $iter_start = 1;
 }
 
@@ -130,7 +132,7 @@ foreach $iter ($iter_start .. $MAX_ITERS) {
         my $scores = join(",", map { "$WORKING_DIR/run$_.scores.dat" } (1 .. $iter));
         safesystem("$MOSES_DIR/bin/mert -d $weight_cnt --scconfig case:true --scfile $scores --ffile $feats --ifile $prev.init.opt -n 20 > $prev.mert.out 2> $prev.mert.log") or die "couldn't mert"; 
         print `grep Best $prev.mert.log`;
-        safesystem("$TRAVATAR_DIR/script/mert/update-weights.pl -log $prev.mert.log $prev.ini > $next.ini") or die "couldn't make init opt";
+        safesystem("$TRAVATAR_DIR/script/mert/update-weights.pl -log $prev.mert.log $prev.ini > $next.ini.new") or die "couldn't make init opt";
     } elsif($MERT_SOLVER eq "batch-tune") {
         if($CAND_TYPE eq "nbest") {
             my $nbests = join(" ", map { "$WORKING_DIR/run$_.uniq" } (1 .. $iter-1));
@@ -147,8 +149,9 @@ foreach $iter ($iter_start .. $MAX_ITERS) {
             my $forests = join(",", map { "$WORKING_DIR/run$_.forest" } (1 .. $iter));
             safesystem("$TRAVATAR_DIR/src/bin/batch-tune -trg_factors $TRG_FACTORS -threads $THREADS -forest $forests -eval \"$EVAL\" -weight_in $prev.weights $TUNE_OPTIONS $REF > $next.weights 2> $prev.tune.log") or die "batch-tune failed";
         }
-        safesystem("$TRAVATAR_DIR/script/mert/update-weights.pl -weights $next.weights $prev.ini > $next.ini") or die "couldn't make init opt";
+        safesystem("$TRAVATAR_DIR/script/mert/update-weights.pl -weights $next.weights $prev.ini > $next.ini.new") or die "couldn't make init opt";
     }
+    rename("$next.ini.new", "$next.ini") or die "couldn't move $next.ini";
     my %wprev = load_weights("$prev.ini");
     my %wnext = load_weights("$next.ini");
     my $diff = 0;
@@ -156,7 +159,8 @@ foreach $iter ($iter_start .. $MAX_ITERS) {
     last if($diff < $MIN_DIFF);
 }
 
-safesystem("$TRAVATAR_DIR/script/mert/update-weights.pl -model $next.ini $TRAVATAR_CONFIG > $WORKING_DIR/travatar.ini") or die "couldn't make init opt";
+safesystem("$TRAVATAR_DIR/script/mert/update-weights.pl -model $next.ini $TRAVATAR_CONFIG > $WORKING_DIR/travatar.ini.new") or die "couldn't make init opt";
+rename("$WORKING_DIR/travatar.ini.new", "$WORKING_DIR/travatar.ini") or die "couldn't move travatar.ini";
 safesystem("cat $prev.tune.log | grep \"Best\" > $WORKING_DIR/tune.best");
 
 # Auxiliary functions
-- 
2.43.0


From 6b2e2c4753020e4139735e9b880de0145cc7358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:03 +0000
Subject: [PATCH 67/77] fix: batch-tune refuses candidates and forests of
 sentences without a reference instead of reading beyond the references

---
 src/lib/batch-tune-runner.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/batch-tune-runner.cc b/src/lib/batch-tune-runner.cc
index aa59a2b..9ba8258 100644
--- a/src/lib/batch-tune-runner.cc
+++ b/src/lib/batch-tune-runner.cc
@@ -48,6 +48,8 @@ void BatchTuneRunner::LoadNbests(istream & sys_in, Tune & tune, istream * stat_i
             THROW_ERROR("Expected 4 columns in n-best list:\n" << line);
         // Get the number
         int id = atoi(columns[0].c_str());
+        if(id < 0 || id >= (int)refs_.size())
+            THROW_ERROR("No reference for sentence " << columns[0] << " of the n-best list");
         // Get the factors
         vector<Sentence> hyps = Dict::ParseWordVector(columns[1]);
         // Get the features
@@ -82,6 +84,8 @@ void BatchTuneRunner::LoadForests(istream & sys_in, Tune & tune) {
         if(id % 100 == 0)
             PRINT_DEBUG(id << ".", 1);
         PRINT_DEBUG("Loading line " << id << endl, 1);
+        if(id >= (int)refs_.size())
+            THROW_ERROR("No reference for forest " << id);
         const std::vector<Sentence> & ref = refs_[id];
         // Add the example
         if((int)tune.NumExamples() <= id) {
@@ -269,6 +273,8 @@ void BatchTuneRunner::CalculateSentenceStats(const ConfigBatchTune & config, con
         if(columns.size() != 4)
             THROW_ERROR("Expected 4 columns in n-best list:\n" << line);
         int id = atoi(columns[0].c_str());
+        if(id < 0 || id >= (int)refs_.size())
+            THROW_ERROR("No reference for sentence " << columns[0] << " of the n-best list");
         vector<Sentence> hyps = Dict::ParseWordVector(columns[1]);
         EvalStatsPtr stats = eval_->CalculateCachedStats(refs_[id], hyps, id);
         stat_out << stats->WriteStats() << endl;
-- 
2.43.0


From 5ab69669588ecd96e35a00f839d5a34a6b329997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:20 +0000
Subject: [PATCH 68/77] fix: batch-tune refuses statistics files that are
 longer than their n-best list

---
 src/lib/batch-tune-runner.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/batch-tune-runner.cc b/src/lib/batch-tune-runner.cc
index 9ba8258..b081666 100644
--- a/src/lib/batch-tune-runner.cc
+++ b/src/lib/batch-tune-runner.cc
@@ -72,6 +72,8 @@ void BatchTuneRunner::LoadNbests(istream & sys_in, Tune & tune, istream * stat_i
         }
         ((TuningExampleNbest&)tune.GetExample(id)).AddHypothesis(feat, stats);
     }
+    if(stat_in && getline(*stat_in, line))
+        THROW_ERROR("Lines in statistic file and system input don't match");
     PRINT_DEBUG(endl, 1);
 }
 
-- 
2.43.0


From f2bb595e3259ba2a49dc55d8d139dbb32ff05b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:38 +0000
Subject: [PATCH 69/77] fix: batch-tune prepares the evaluation measure with
 the references, which NIST needs

---
 src/lib/batch-tune-runner.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/batch-tune-runner.cc b/src/lib/batch-tune-runner.cc
index b081666..e771742 100644
--- a/src/lib/batch-tune-runner.cc
+++ b/src/lib/batch-tune-runner.cc
@@ -306,6 +306,7 @@ void BatchTuneRunner::Run(const ConfigBatchTune & config) {
 
     // Create the evaluation measure
     eval_.reset(EvalMeasureLoader::CreateMeasureFromString(config.GetString("eval")));
+    eval_->InitializeWithReferences(refs_);
     
     // Figure out whether we are tuning or calculating sentence statistics
     string stat_out_filename = config.GetString("stat_out");
-- 
2.43.0


From 2583be685bf3800a7c5e70482cc7d552809d8502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 70/77] fix: batch-tune reads weight ranges as real numbers and
 refuses others

---
 src/lib/batch-tune-runner.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/batch-tune-runner.cc b/src/lib/batch-tune-runner.cc
index e771742..f453246 100644
--- a/src/lib/batch-tune-runner.cc
+++ b/src/lib/batch-tune-runner.cc
@@ -20,6 +20,7 @@
 
 #include <boost/shared_ptr.hpp>
 #include <boost/foreach.hpp>
+#include <boost/lexical_cast.hpp>
 #include <boost/algorithm/string.hpp>
 
 #include <fstream>
@@ -160,8 +161,8 @@ void BatchTuneRunner::DoTuning(const ConfigBatchTune & config) {
             if(range_vals.size() != 2 && range_vals.size() != 3)
                 THROW_ERROR("Weight ranges must be in the format MIN|MAX[|NAME]");
             WordId id = (range_vals.size() == 3 ? Dict::WID(range_vals[2]) : -1);
-            Real min_score = (range_vals[0] == "" ? -REAL_MAX : atoi(range_vals[0].c_str()));
-            Real max_score = (range_vals[1] == "" ? REAL_MAX  : atoi(range_vals[1].c_str()));
+            Real min_score = (range_vals[0] == "" ? -REAL_MAX : lexical_cast<Real>(range_vals[0]));
+            Real max_score = (range_vals[1] == "" ? REAL_MAX  : lexical_cast<Real>(range_vals[1]));
             tune->SetRange(id, min_score, max_score);
         }
     }
-- 
2.43.0


From 170302a9bc68bbdaea799f20262ad0215821a9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 71/77] fix: tuning runs sharing forests and the BLEU cache do
 not overwrite each other's scores

---
 src/include/travatar/eval-measure-bleu.h     |  3 +++
 src/include/travatar/tuning-example-forest.h |  3 +++
 src/lib/eval-measure-bleu.cc                 |  1 +
 src/lib/tuning-example-forest.cc             | 14 +++++++++-----
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/include/travatar/eval-measure-bleu.h b/src/include/travatar/eval-measure-bleu.h
index dac2f4a..5084ef2 100644
--- a/src/include/travatar/eval-measure-bleu.h
+++ b/src/include/travatar/eval-measure-bleu.h
@@ -13,6 +13,7 @@
 
 #include <travatar/eval-measure.h>
 #include <travatar/real.h>
+#include <boost/thread/mutex.hpp>
 #include <boost/shared_ptr.hpp>
 #include <map>
 #include <vector>
@@ -118,6 +119,8 @@ protected:
     Real smooth_val_;
     // A cache to hold the stats
     StatsCache cache_;
+    // Guards the cache
+    boost::mutex cache_mutex_;
     // The scope
     BleuScope scope_;
     // The weight of precision in F-measure, from one to zero (default 1)
diff --git a/src/include/travatar/tuning-example-forest.h b/src/include/travatar/tuning-example-forest.h
index c394cdb..b516268 100644
--- a/src/include/travatar/tuning-example-forest.h
+++ b/src/include/travatar/tuning-example-forest.h
@@ -5,6 +5,7 @@
 #include <travatar/tuning-example.h>
 #include <travatar/sentence.h>
 #include <boost/shared_ptr.hpp>
+#include <boost/thread/mutex.hpp>
 #include <set>
 #include <cfloat>
 
@@ -75,6 +76,8 @@ protected:
 
     EvalMeasure * measure_;
     boost::shared_ptr<HyperGraph> forest_;
+    // Guards the scores in the forest
+    mutable boost::mutex forest_mutex_;
     std::vector<Sentence> refs_;
     // The score that the best hypothesis in the forest achieves
     Real oracle_score_;
diff --git a/src/lib/eval-measure-bleu.cc b/src/lib/eval-measure-bleu.cc
index ac18cd8..f377b93 100644
--- a/src/lib/eval-measure-bleu.cc
+++ b/src/lib/eval-measure-bleu.cc
@@ -27,6 +27,7 @@ EvalMeasureBleu::NgramStats * EvalMeasureBleu::ExtractNgrams(const Sentence & se
 
 boost::shared_ptr<EvalMeasureBleu::NgramStats> EvalMeasureBleu::GetCachedStats(const Sentence & sent, int cache_id) {
     if(cache_id == INT_MAX) return boost::shared_ptr<NgramStats>(ExtractNgrams(sent));
+    boost::mutex::scoped_lock lock(cache_mutex_);
     StatsCache::const_iterator it = cache_.find(cache_id);
     if(it == cache_.end()) {
         boost::shared_ptr<NgramStats> new_stats(ExtractNgrams(sent));
diff --git a/src/lib/tuning-example-forest.cc b/src/lib/tuning-example-forest.cc
index 8c4628c..9765dd4 100644
--- a/src/lib/tuning-example-forest.cc
+++ b/src/lib/tuning-example-forest.cc
@@ -132,11 +132,15 @@ ConvexHull TuningExampleForest::CalculateConvexHull(
             }
         }
     }
-    // Calculate the score of the current best hypothesis
-    forest_->ResetViterbiScores();
-    Weights wval(weights);
-    forest_->ScoreEdges(wval);
-    NbestList nbest_list = forest_->GetNbest(1);
+    // Calculate the score of the current best hypothesis (several tuning runs may share the forest)
+    NbestList nbest_list;
+    {
+        boost::mutex::scoped_lock lock(forest_mutex_);
+        forest_->ResetViterbiScores();
+        Weights wval(weights);
+        forest_->ScoreEdges(wval);
+        nbest_list = forest_->GetNbest(1);
+    }
     EvalStatsPtr curr_stats = measure_->CalculateCachedStats(refs_, nbest_list[0]->GetTrgData(), id_);
     curr_stats->TimesEquals(mult_);
     // If we are not active, return the simple convex hull
-- 
2.43.0


From 9344736859f5dee620a7ed1afcdbddf90938382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:56 +0000
Subject: [PATCH 72/77] fix: preprocess.pl -split-type interleave keeps all
 lines when cleaning leaves files of different length

---
 script/preprocess/preprocess.pl | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/script/preprocess/preprocess.pl b/script/preprocess/preprocess.pl
index 7557009..8a33884 100755
--- a/script/preprocess/preprocess.pl
+++ b/script/preprocess/preprocess.pl
@@ -503,14 +503,15 @@ sub cat_files {
             $fh
         } @in;
         open FILE0, ">:utf8", $out or die "Couldn't open $out";
-        my $done = @fh;
-        while($done == @fh) {
-            $done = 0;
+        # Cleaning can leave more lines in some files than in others
+        while(@fh) {
+            my @left;
             foreach my $fhin (@fh) {
-                last if not defined ($_ = <$fhin>);
+                next if not defined ($_ = <$fhin>);
                 print FILE0;
-                $done++;
+                push @left, $fhin;
             }
+            @fh = @left;
         }
         close FILE0;
     } else {
-- 
2.43.0


From c15e7e32a11365375b1e843ca8ab4c64ac3b1f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:56 +0000
Subject: [PATCH 73/77] fix: preprocess.pl -forest-src and -forest-trg allow
 parts without any sentence

---
 script/preprocess/preprocess.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/preprocess/preprocess.pl b/script/preprocess/preprocess.pl
index 8a33884..25f7ba7 100755
--- a/script/preprocess/preprocess.pl
+++ b/script/preprocess/preprocess.pl
@@ -303,7 +303,7 @@ sub run_forest_parsing {
     -e "$PREF/for" or mkdir "$PREF/for";
     foreach my $i ("", map{".$_"} @suffixes) {
         safesystem("$TRAVATAR_DIR/script/tree/replace-failed-parse.pl -format egret $PREF/treefor/$lang$i $PREF/egretfor/$lang$i $SPLIT_CMD > $PREF/for/$lang$i") if not -e "$PREF/for/$lang$i";
-        die "Combining forests failed on en$i" if( &$file_len_func("$PREF/for/$lang$i") == 0);
+        die "Combining forests failed on $lang$i" if(&$file_len_func("$PREF/for/$lang$i") == 0 and &$file_len_func("$PREF/treefor/$lang$i") != 0);
     }
 
     # Combine and lowercase the forest
-- 
2.43.0


From c236928e71f5928708458ca09dbca746c93031d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:20 +0000
Subject: [PATCH 74/77] fix: preprocess.pl -split-type interleave puts forests
 together forest by forest

---
 script/preprocess/preprocess.pl | 42 +++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/script/preprocess/preprocess.pl b/script/preprocess/preprocess.pl
index 25f7ba7..3bb3e83 100755
--- a/script/preprocess/preprocess.pl
+++ b/script/preprocess/preprocess.pl
@@ -246,8 +246,8 @@ if($CLEAN_LEN == 0) {
         safesystem("bash -c '$TRAVATAR_DIR/script/train/clean-corpus.pl -max_len $CLEAN_LEN $PREF/tok/$SRC.$i $PREF/tok/$TRG.$i $PREF/clean/$SRC.$i $PREF/clean/$TRG.$i; touch $PREF/clean/$SRC.$i.DONE' &")  if not -e "$PREF/clean/$SRC.$i";
     }
     wait_done(map { "$PREF/clean/$SRC.$_.DONE" } @suffixes);
-    cat_files("$PREF/clean/$SRC", map { "$PREF/clean/$SRC.$_" } @suffixes);
-    cat_files("$PREF/clean/$TRG", map { "$PREF/clean/$TRG.$_" } @suffixes);
+    cat_files(0, "$PREF/clean/$SRC", map { "$PREF/clean/$SRC.$_" } @suffixes);
+    cat_files(0, "$PREF/clean/$TRG", map { "$PREF/clean/$TRG.$_" } @suffixes);
 }
 
 ###### 1-best Parsing ######
@@ -286,17 +286,17 @@ sub run_forest_parsing {
     die "No Egret model specified for $lang" if not $EGRET_MODEL;
 
     # Convert Tree to Forest
-    run_parallel("$PREF/tree", "$PREF/treefor", $lang, "$TRAVATAR_DIR/src/bin/tree-converter -input_format penn -output_format egret < INFILE 2> OUTFILE.log > OUTFILE", 1);
+    run_parallel("$PREF/tree", "$PREF/treefor", $lang, "$TRAVATAR_DIR/src/bin/tree-converter -input_format penn -output_format egret < INFILE 2> OUTFILE.log > OUTFILE", 1, 1);
     
     if($lang eq "zh") {
         # ZH Parse with Egret
-        run_parallel("$PREF/clean", "$PREF/egretfor", $lang, "$EGRET_DIR/egret -lapcfg -i=INFILE -printForest $EGRET_FOREST_OPT -data=$EGRET_MODEL 2> OUTFILE.log | sed \"s/\\^g//g\" > OUTFILE", 1);
+        run_parallel("$PREF/clean", "$PREF/egretfor", $lang, "$EGRET_DIR/egret -lapcfg -i=INFILE -printForest $EGRET_FOREST_OPT -data=$EGRET_MODEL 2> OUTFILE.log | sed \"s/\\^g//g\" > OUTFILE", 1, 1);
     } elsif($lang eq "ja") {
         # JA Parse with Egret
-        run_parallel("$PREF/clean", "$PREF/egretfor", $lang, "cat INFILE | sed \"s/(/-LRB-/g; s/)/-RRB-/g\" | $EGRET_DIR/egret -lapcfg -i=/dev/stdin -printForest $EGRET_FOREST_OPT -data=$EGRET_MODEL 2> OUTFILE.log > OUTFILE", 1);
+        run_parallel("$PREF/clean", "$PREF/egretfor", $lang, "cat INFILE | sed \"s/(/-LRB-/g; s/)/-RRB-/g\" | $EGRET_DIR/egret -lapcfg -i=/dev/stdin -printForest $EGRET_FOREST_OPT -data=$EGRET_MODEL 2> OUTFILE.log > OUTFILE", 1, 1);
     } else {
         # Anything else
-        run_parallel("$PREF/clean", "$PREF/egretfor", $lang, "$EGRET_DIR/egret -lapcfg -i=INFILE -printForest $EGRET_FOREST_OPT -data=$EGRET_MODEL 2> OUTFILE.log | sed \"s/\\^g//g\" > OUTFILE", 1);
+        run_parallel("$PREF/clean", "$PREF/egretfor", $lang, "$EGRET_DIR/egret -lapcfg -i=INFILE -printForest $EGRET_FOREST_OPT -data=$EGRET_MODEL 2> OUTFILE.log | sed \"s/\\^g//g\" > OUTFILE", 1, 1);
     }
     
     # ZH Combine tree and Egret (for now this is not parallel)
@@ -307,7 +307,7 @@ sub run_forest_parsing {
     }
 
     # Combine and lowercase the forest
-    run_parallel("$PREF/for", "$PREF/forlow", $lang, "$TRAVATAR_DIR/script/tree/lowercase.pl < INFILE > OUTFILE");
+    run_parallel("$PREF/for", "$PREF/forlow", $lang, "$TRAVATAR_DIR/script/tree/lowercase.pl < INFILE > OUTFILE", 0, 1);
 }
 run_forest_parsing($SRC, $SPLIT_WORDS_SRC, 1) if $FOREST_SRC;
 run_forest_parsing($TRG, $SPLIT_WORDS_TRG, 0) if $FOREST_TRG;
@@ -331,7 +331,7 @@ sub run_truecase {
         run_parallel("$PREF/tree", "$PREF/treetrue", $lang, "$TRAVATAR_DIR/src/bin/tree-converter -input_format penn -output_format penn -case 'true:model=$model' < INFILE > OUTFILE");
     }
     if(-e "$PREF/for/$lang") {
-        run_parallel("$PREF/for", "$PREF/fortrue", $lang, "$TRAVATAR_DIR/src/bin/tree-converter -input_format egret -output_format egret -case 'true:model=$model' < INFILE > OUTFILE");
+        run_parallel("$PREF/for", "$PREF/fortrue", $lang, "$TRAVATAR_DIR/src/bin/tree-converter -input_format egret -output_format egret -case 'true:model=$model' < INFILE > OUTFILE", 0, 1);
     }
 }
 run_truecase($SRC, $TRUECASE_SRC_MODEL) if $TRUECASE_SRC;
@@ -403,7 +403,7 @@ if($ALIGN) {
             }
         }
         wait_done(map { "$PREF/nile/$NSRC$NTRG.$_.DONE" } @nilesuffixes);
-        cat_files("$PREF/nile/$NSRC$NTRG", map { "$PREF/nile/$NSRC$NTRG.$_" } @nilesuffixes) if not -e "$PREF/nile/$NSRC$NTRG";
+        cat_files(0, "$PREF/nile/$NSRC$NTRG", map { "$PREF/nile/$NSRC$NTRG.$_" } @nilesuffixes) if not -e "$PREF/nile/$NSRC$NTRG";
         safesystem("cat $PREF/nile/$NSRC$NTRG | sed \"s/\\([0-9][0-9]*\\)-\\([0-9][0-9]*\\)/\\2-\\1/g\" > $PREF/nile/$NTRG$NSRC") if not -e "$PREF/nile/$NTRG$NSRC";
     }
 
@@ -435,7 +435,7 @@ sub safesystem {
 # Run a command in parallel over several files
 sub run_parallel {
     die "Illegal command to run_parallel @_" if @_ < 4;
-    my ($in_dir, $out_dir, $prefix, $cmd, $nocheck) = @_;
+    my ($in_dir, $out_dir, $prefix, $cmd, $nocheck, $forest) = @_;
     return if -e "$out_dir/$prefix.DONE";
     my @files = map { "$prefix.$_" } @suffixes;
     -e $out_dir or mkdir $out_dir;
@@ -448,7 +448,7 @@ sub run_parallel {
         select(undef, undef, undef, 0.1);
     }
     wait_done(map { "$out_dir/$_.DONE" } @files);
-    cat_files("$out_dir/$prefix", map { "$out_dir/$_" } @files); 
+    cat_files($forest, "$out_dir/$prefix", map { "$out_dir/$_" } @files); 
     my $old_lines = &$file_len_func("$in_dir/$prefix");
     my $new_lines = &$file_len_func("$out_dir/$prefix");
     die "ERROR: while creating $out_dir/$prefix in parallel\nFile sizes don't match: $in_dir/$prefix=$old_lines, $out_dir/$prefix=$new_lines" if (not $nocheck) and ($old_lines != $new_lines);
@@ -490,13 +490,13 @@ sub split_file {
     }
 }
 
-# Concatenate files 
+# Concatenate files, of one line or one forest per sentence
 sub cat_files {
-    my ($out, @in) = @_;
+    my ($forest, $out, @in) = @_;
     if($SPLIT_TYPE eq "consecutive") {
         safesystem("cat @in > $out") or die;
     } elsif($SPLIT_TYPE eq "interleave") {
-        # Read from each file one line at a time
+        # Read from each file one sentence at a time
         my @fh = map { 
             my $fh = IO::File->new("< $_") or die "Couldn't input from $_";
             binmode $fh, ":utf8";
@@ -507,7 +507,7 @@ sub cat_files {
         while(@fh) {
             my @left;
             foreach my $fhin (@fh) {
-                next if not defined ($_ = <$fhin>);
+                next if not defined ($_ = ($forest ? read_forest($fhin) : <$fhin>));
                 print FILE0;
                 push @left, $fhin;
             }
@@ -519,6 +519,18 @@ sub cat_files {
     }
 }
 
+# Read one forest in Egret format (failed parses have an empty line in place of the forest)
+sub read_forest {
+    my $fh = shift;
+    my ($ret, $lines);
+    while(defined(my $line = <$fh>)) {
+        $ret .= $line;
+        $lines++;
+        last if ($line eq "\n") and ($lines > 3);
+    }
+    return $ret;
+}
+
 sub split_lens {
     my ($file, $suffs, $lens) = @_;
     open FILE0, "<:utf8", $file or die "Couldn't open $file\n";
-- 
2.43.0


From b4074e0a420152a04246e23d2965e5902c013662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:11 +0000
Subject: [PATCH 75/77] fix: BLEU of scaled statistics that exceed one by
 rounding is one, not an error

---
 src/lib/eval-measure-bleu.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/eval-measure-bleu.cc b/src/lib/eval-measure-bleu.cc
index f377b93..2354c52 100644
--- a/src/lib/eval-measure-bleu.cc
+++ b/src/lib/eval-measure-bleu.cc
@@ -149,9 +149,9 @@ BleuReport EvalStatsBleu::CalcBleuReport() const {
     } else {
         report.brevity = 1.0;
     }
-    // Sanity check
-    if(log_bleu > 0) THROW_ERROR("Found a "<< GetIdString() <<" larger than one: " << exp(log_bleu))
-    report.bleu = exp(log_bleu);
+    // Sanity check (statistics may have been scaled, so rounding can exceed one)
+    if(log_bleu > 1e-6) THROW_ERROR("Found a "<< GetIdString() <<" larger than one: " << exp(log_bleu))
+    report.bleu = exp(min(log_bleu, (Real)0));
     
     return report;
 }
-- 
2.43.0


From 90e0d9c01e77f56906715a9a019e20e3045a616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:29 +0000
Subject: [PATCH 76/77] fix: MERT improves on scores below zero and reports
 them

---
 src/lib/tune-mert.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/tune-mert.cc b/src/lib/tune-mert.cc
index 82ed828..ee3113c 100644
--- a/src/lib/tune-mert.cc
+++ b/src/lib/tune-mert.cc
@@ -105,6 +105,7 @@ void TuneMert::Init(const SparseMap & init_weights) {
 Real TuneMert::RunTuning(SparseMap & weights) {
     // Continue
     Real best_score = 0;
+    bool first_search = true;
     PRINT_DEBUG("Starting MERT Run: " << Dict::PrintSparseMap(weights) << endl, 2);
     while(true) {
         // 1) Initialize the best result
@@ -145,6 +146,11 @@ Real TuneMert::RunTuning(SparseMap & weights) {
             weights.erase(xeval_gradient_.GetScaleId());
             // weights.erase(weights.find(xeval_gradient_.GetScaleId()));
 
+        // Scores can be below zero, in which case the first one is what has to be improved
+        if(first_search && gradients.size())
+            best_score = min(best_score, TuneMert::LineSearch(weights, gradients[0], examps_).before->ConvertToScore());
+        first_search = false;
+
         // 3) Perform line search over one gradient at a time
         BOOST_FOREACH(const SparseMap & gradient, gradients) {
             LineSearchResult result = TuneMert::LineSearch(weights, gradient, examps_);
-- 
2.43.0


From 3e3b50ae95183ea69749192d39918ec9a81c293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:58 +0000
Subject: [PATCH 77/77] fix: n-best tuning does not choose between equal
 candidates by memory address

---
 src/lib/tuning-example-nbest.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/tuning-example-nbest.cc b/src/lib/tuning-example-nbest.cc
index 44b53ea..cf50540 100644
--- a/src/lib/tuning-example-nbest.cc
+++ b/src/lib/tuning-example-nbest.cc
@@ -48,6 +48,11 @@ inline Real FindIntersection(Real s1, Real v1, Real s2, Real v2) {
     return (s1==s2 ? REAL_MAX : (v1-v2)/(s2-s1));
 }
 
+// Compare two lines by slope, then by value
+inline bool LineLess(const ScoredSpan & x, const ScoredSpan & y) {
+    return x.first < y.first;
+}
+
 // Get the convex hull, which consists of scored spans in order of the span location
 ConvexHull TuningExampleNbest::CalculateConvexHull(
                         const SparseMap & weights,
@@ -61,8 +66,9 @@ ConvexHull TuningExampleNbest::CalculateConvexHull(
         Real val = weights * examp.first;
         lines.push_back(make_pair(make_pair(slope, val), examp.second));
     }
-    // Sort in order of ascending slope
-    sort(lines.begin(), lines.end());
+    // Sort in order of ascending slope, keeping equal lines in the order they
+    // appear in (and not the order of the addresses of their statistics)
+    stable_sort(lines.begin(), lines.end(), LineLess);
     // Start at position zero
     // While we are not finished
     ConvexHull hull;
-- 
2.43.0

