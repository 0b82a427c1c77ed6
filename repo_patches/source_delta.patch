From f36f0aab492c9d8d5f66f52c37fa27342d128174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:11 +0000
Subject: [PATCH 01/30] fix: B&B must reopen a state reached again with a
 strictly better bound

DDNodeAllocator::cloneNode returned nothing for every state already seen, even
when the new node reaches it through a better path, so the better path (and
possibly the optimum) was silently dropped.
---
 src/dd.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index 40191f2..7a4952a 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -344,7 +344,7 @@ struct Maximize {
 };
 
 
-template <typename ST> requires Printable<ST> && Hashable<ST>
+template <typename ST,class Compare> requires Printable<ST> && Hashable<ST>
 class DDNodeAllocator :public AbstractNodeAllocator {
    LHashtable<ST> _nmap;
 public:
@@ -366,7 +366,12 @@ public:
             return nn;
          }
       } else {
-         //std::cout << "Already added node to B&B...." << "\n";         
+         // The state was already added to the B&B. It is only worth adding it again when
+         // it is now reached with a strictly better bound.
+         if (Compare{}.better(sp->getBound(),at->getBound())) {
+            at->resetWith(sp);
+            return at;
+         }
          return nullptr;
       }
    }
@@ -573,7 +578,7 @@ public:
       return AbstractDD::Ptr(new DD(std::forward<Args>(args)...));
    }
    AbstractNodeAllocator::Ptr makeNDAllocator() const noexcept {
-      return std::shared_ptr<DDNodeAllocator<ST>>(new DDNodeAllocator<ST>(new LPool(new Pool)));
+      return AbstractNodeAllocator::Ptr(new DDNodeAllocator<ST,Compare>(new LPool(new Pool)));
    }
    void printNode(std::ostream& os,ANode::Ptr n) const {
       auto sp = static_cast<const Node<ST>*>(n.get());
-- 
2.43.0


From ebae4f3dd7aa27df95d145bf7d37138aa8cfcf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:36 +0000
Subject: [PATCH 02/30] fix: B&B must process a node again after widening

When the cutset is the root itself, the search widened the relaxation and then
tried to clone the root, which is already known: the node was dropped together
with every solution below it.
---
 src/search.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/search.cpp b/src/search.cpp
index a06a2aa..43ae2e9 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -126,6 +126,10 @@ void BAndB::search(Bounds& bnds)
                   auto w = ddr[0]->getWidth() + 1;
                   ddr[0]->setWidth(w);
                   std::cout << "\t-->widening... " << w << " CUTSET SIZE:" << cutSet.size() <<  "\n";
+                  // The root is already known to the B&B: process it again (with the new width).
+                  if (relaxed->isBetter(n->getBound() + n->getBackwardBound(),bnds.getPrimal()))
+                     pq.insertHeap(QNode { bbn.node, curDual });
+                  continue;
                }
                // use the bound in n (the ones in nd are _reset_ when duplicate occurs????)
                bool newGuyDominated = false;
-- 
2.43.0


From 83a7eb19a2e97224a6b58250c420b22a64771d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:13 +0000
Subject: [PATCH 03/30] fix: keep the exact solutions of an inexact relaxed
 diagram

A path of exact nodes that reaches the sink is not below any node of the exact
cutset. Nothing recorded it, so it was lost whenever the restricted diagram
had truncated it.
---
 src/dd.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/dd.hpp b/src/dd.hpp
index 7a4952a..a2d815f 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -441,6 +441,21 @@ private:
          bnds.setIncumbent(_trg->beginOptLabels(),_trg->endOptLabels());
          std::cout <<  std::setprecision(6) << "D TIGHTEN: " << bnds << "\n";
       }
+      else if (_strat->dual()) {
+         // An arc from an exact node to the sink is a solution that no node of the exact cutset
+         // covers: report it now if it improves the primal.
+         for(auto pi = _trg->beginPar();pi != _trg->endPar();pi++) {
+            Edge::Ptr e = *pi;
+            const double value = e->_from->getBound() + e->_obj;
+            if (e->_from->isExact() && isBetter(value,bnds.getPrimal())) {
+               std::vector<int> lbls(e->_from->beginOptLabels(),e->_from->endOptLabels());
+               lbls.push_back(e->_lbl);
+               bnds.setPrimal(value);
+               bnds.setIncumbent(lbls.begin(),lbls.end());
+               std::cout <<  std::setprecision(6) << "D TIGHTEN: " << bnds << "\n";
+            }
+         }
+      }
    }
    ANode::Ptr hasNode(const ST& state) {
       Node<ST>* at = nullptr;
-- 
2.43.0


From cd247f28f758b027f02396d4ee5132add4d49b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:42 +0000
Subject: [PATCH 04/30] fix: Exact must not prune with the bounds of nodes that
 have none yet

The nodes of an exact diagram only get their bound in computeBest. With a local
bound, transition used the initial (worst possible) bound of the parent and cut
every arc below the first layer.
---
 src/dd.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index f0f42a7..5b1ff74 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -319,6 +319,8 @@ void Exact::compute(Bounds& bnds)
          auto child = _dd->transition(bnds,p,l); // we get back a new node, or an already existing one.
          if (child) {
             const bool newNode = child->nbParents()==0; // is this a newly created node?
+            if (newNode) // real bounds come from computeBest. Until then nothing below can be pruned.
+               child->setBound(_dd->initialWorst());
             auto theCost = _dd->cost(p,l);
             Edge::Ptr e = new (_dd->_mem) Edge(p,child,l);
             e->_obj = theCost;
-- 
2.43.0


From b8bf008f63fc003c2e6582bf07096b5a8cc62e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:03 +0000
Subject: [PATCH 05/30] fix: do not leave a dangling reference in Bounds after
 a search

search() registers a solution callback that refers to one of its locals; the
next search with the same Bounds called it after the local was gone.
---
 src/search.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/search.cpp b/src/search.cpp
index 43ae2e9..5e1ed1c 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -28,10 +28,10 @@ void BAndB::search(Bounds& bnds)
    auto last = start;
    cout << "B&B searching..." << endl;
    bnds.attach(_theDD);
-   double optTime = 0.0;
-   bnds.onSolution([ss,start,&optTime](const auto& lbls) {
-      optTime = RuntimeMonitor::elapsedSince(start);
-      std::cout << "TIME:" << setprecision(ss) << optTime << "\n";
+   auto optTime = std::make_shared<double>(0.0); // shared: the callback stays in bnds after the search
+   bnds.onSolution([ss,start,optTime](const auto& lbls) {
+      *optTime = RuntimeMonitor::elapsedSince(start);
+      std::cout << "TIME:" << setprecision(ss) << *optTime << "\n";
    });
    AbstractDD::Ptr relaxed = _theDD->duplicate();
    AbstractDD::Ptr restricted = _theDD->duplicate();
@@ -195,7 +195,7 @@ void BAndB::search(Bounds& bnds)
    auto spent = RuntimeMonitor::elapsedSince(start);
    cout << "Done(" << _mxw << "):" << bnds.getPrimal() << "\t #nodes:" <<  nNode << "/" << ttlNode
         << "\t P/D:" << pruned << "/" << insDom
-        << "\t Time:" << optTime/1000 << "/" << spent/1000 << "s"
+        << "\t Time:" << *optTime/1000 << "/" << spent/1000 << "s"
         << "\t LIM?:" << (pq.size() > 0)
         << "\t Seen:" << nbSeen
         << "\n";
-- 
2.43.0


From 827851d4bf6e8125a5bb95c0a4c03d658a730de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:08 +0000
Subject: [PATCH 06/30] fix: report LIM when the limit stops the search at the
 last open node

The node is extracted before the limit is tested, so the queue can be empty
although the search was cut.
---
 src/search.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/search.cpp b/src/search.cpp
index 5e1ed1c..043509e 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -53,7 +53,7 @@ void BAndB::search(Bounds& bnds)
       pq.insertHeap(QNode { rootNode, relaxed->initialWorst() } );   
    }
    unsigned nNode = 0,ttlNode = 0,insDom=0,pruned=0;
-   bool primalBetter = false;
+   bool primalBetter = false,limitHit = false;
    cout << "B&B Nodes          " << setw(6) << "Dual\t " << setw(6) << "Primal\t Gap(%)\n";
    cout << "----------------------------------------------\n";
    while(!pq.empty()) {
@@ -72,8 +72,10 @@ void BAndB::search(Bounds& bnds)
       auto now = RuntimeMonitor::cputime();
       auto fs = RuntimeMonitor::elapsedMilliseconds(start,now);
       auto fl = RuntimeMonitor::elapsedMilliseconds(last,now);
-      if (_timeLimit && _timeLimit(fs))         
-         break;      
+      if (_timeLimit && _timeLimit(fs)) {
+         limitHit = true;
+         break;
+      }
       if (primalBetter || fl > 5000) {
          double gap = 100 * std::abs(bnds.getPrimal() - curDual) / bnds.getPrimal();      
          cout << std::fixed << "B&B(" << setw(5) << nNode << ")\t " << setprecision(6);
@@ -196,7 +198,7 @@ void BAndB::search(Bounds& bnds)
    cout << "Done(" << _mxw << "):" << bnds.getPrimal() << "\t #nodes:" <<  nNode << "/" << ttlNode
         << "\t P/D:" << pruned << "/" << insDom
         << "\t Time:" << *optTime/1000 << "/" << spent/1000 << "s"
-        << "\t LIM?:" << (pq.size() > 0)
+        << "\t LIM?:" << limitHit
         << "\t Seen:" << nbSeen
         << "\n";
 }
-- 
2.43.0


From 1b19eb06f891e9982d25328da7ff6adb75b138c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:51 +0000
Subject: [PATCH 07/30] fix: GNSet::insert must grow a set that has no storage

Inserting in an empty GNSet built from an empty range doubled a zero capacity
forever; the same happened in GNSet(Range(0,-1)), which holds {0}.
---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 1a7341e..a380114 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -458,7 +458,6 @@ public:
       } else {
          _mxw = ((ub & 0x3f)? 1 : 0) + (ub >> 6); // if remainder 1 : 0 + division
          _nbp = _mxw << 6;
-         assert(_mxw != 0);
          _t = new unsigned long long[_mxw];
          for(int i=0;i<_mxw;i++) _t[i]=0;
          for(auto i : s)
@@ -546,6 +545,7 @@ public:
       const int i = p >> 6;
       const auto old = _mxw;
       if (i >= _mxw) {
+         if (_mxw == 0) _mxw = 1; // doubling zero would never grow
          while(i >= _mxw) _mxw <<= 1;
          auto np = new unsigned long long[_mxw];
          for(int i=0;i < old;i++)
-- 
2.43.0


From 3573eb1bb6d34ebf90d62bb142bfc3736b2cf64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:05 +0000
Subject: [PATCH 08/30] fix: GNSet::removeAbove must look at the storage, not
 at _nbp

_nbp is not maintained by unionWith or the initializer list and it is a short:
removeAbove could leave values above p or write past the last word.
---
 src/util.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index a380114..4ef4e4a 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -608,9 +608,9 @@ public:
       return *this;
    }
    void removeAbove(int p) noexcept {
-      int w = ++p >> 6;
-      if (p > _nbp) return;
-      assert(w >= 0 && w < _mxw);
+      p = std::max(p + 1,0); // first value to remove
+      int w = p >> 6;
+      if (w >= _mxw) return;
       const int b = p & 63;
       _t[w] = _t[w] & ((1ull << b) - 1);
       w++;
-- 
2.43.0


From 4fbd89226f96ec44076ca700ad51f94ab99e86e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:19 +0000
Subject: [PATCH 09/30] fix: a moved-from GNSet must not claim the storage it
 gave away

Assigning a set of the same capacity to it wrote through a null pointer.
---
 src/util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 4ef4e4a..2d5c844 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -441,7 +441,8 @@ public:
       _mxw = s._mxw;
       _nbp = s._nbp;
       _t = s._t;
-      s._t = nullptr;      
+      s._t = nullptr;
+      s._mxw = s._nbp = 0;
    }
    template <unsigned short nbw> GNSet(const NatSet<nbw>& s) {     
       _mxw = nbw;
@@ -520,6 +521,7 @@ public:
       _nbp = s._nbp;
       _t = s._t;
       s._t = nullptr;
+      s._mxw = s._nbp = 0;
       return *this;
    }
    short nbWords() const noexcept { return _mxw;}
-- 
2.43.0


From dcff164680a67207a7bf093ce811d0901b8c7144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:33 +0000
Subject: [PATCH 10/30] fix: iterate GNSet values as int

The iterator returned a short: every value from 32768 on came out negative.
---
 src/util.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index 2d5c844..a539bac 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -658,10 +658,10 @@ public:
       }
    public:
       using iterator_category = std::forward_iterator_tag;
-      using value_type = short;
+      using value_type = int;
       using difference_type = short;
-      using pointer = short*;
-      using reference = short&;
+      using pointer = int*;
+      using reference = int&;
       iterator& operator++()  noexcept {
          long long test = _cw & -_cw;  // only leaves LSB at 1
          _cw ^= test;                  // clear LSB
@@ -672,7 +672,7 @@ public:
       iterator operator++(int) { iterator retval = *this; ++(*this); return retval;}
       bool operator==(iterator other) const {return _cwi == other._cwi && _cw == other._cw;}
       bool operator!=(iterator other) const {return !(*this == other);}
-      short operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
+      int operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
       friend class GNSet;
    };
    iterator begin() const { return iterator(_t,_mxw,0);}
-- 
2.43.0


From f0996615fd70ad2e664d30c0c2b693970cd39a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:47 +0000
Subject: [PATCH 11/30] fix: equal GNSets must have equal hash values

operator== ignores the capacity but the hash depended on it, so one state could
get several nodes.
---
 src/util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index a539bac..19ca4ae 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -740,7 +740,9 @@ public:
   }
    std::size_t hash() const noexcept {
       std::size_t hv = 0;
-      for(auto i = 0;i < _mxw;i++)
+      int nw = _mxw;
+      while (nw > 0 && _t[nw-1]==0) --nw; // equal sets may have different capacities
+      for(auto i = 0;i < nw;i++)
          hv = std::rotl(hv,2) ^ _t[i];
       return hv;
    }   
-- 
2.43.0


From bf09e37066f4da1478d16ff1a7ccecf16db851e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:41 +0000
Subject: [PATCH 12/30] fix: reflection of a multi-word NatSet

ofs - S erased words before reading them and wrote past the last word when the
result starts in another word, and shifted by 64 for a full word.
---
 src/util.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index 19ca4ae..94fcf8b 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -210,7 +210,7 @@ public:
          //std::cout << "MOVE Down=" << x << " lw:" << lw << "\n";
          unsigned long long nt[nbw] = {0}; 
          for(int i=0;i <= std::min(lw,nbw-1);i++) {
-            auto next =  (i+1==nbw) ? 0 : _t[i+1] & ((1ull << (x+1))-1); // get the next block to inject here.
+            auto next =  (i+1==nbw) ? 0 : _t[i+1]; // get the next block to inject here.
             nt[i] = (_t[i] >> x) | (next << (64 - x));
          }
          for(int i=0;i < nbw;i++) _t[i] = nt[i];         
@@ -226,9 +226,9 @@ public:
             assert(lw < nbw); // by definition, it's at most the index of the last word (1 less than size)
             unsigned long long nt[nbw] = {0}; 
             for(int i=0;i <= lw;i++) {
-               auto next = (i+1==nbw) ? 0 : _t[i+1] & ((1ull << (by+1))-1);
-               nt[i+delta] = (_t[i] >> by) | (next << (64 - by));
-               for(int j=i;j < i+delta;j++) _t[j] = 0;
+               auto next = (i+1==nbw) ? 0 : _t[i+1];
+               if (i + delta < nbw)
+                  nt[i+delta] = (_t[i] >> by) | (next << (64 - by));
             }
             for(int i=0;i < nbw;i++) _t[i] = nt[i];
          } else if (by < 0) {
-- 
2.43.0


From 0a6c00677f5ac877d0763beb2fc23aa8ed8aee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:57 +0000
Subject: [PATCH 13/30] fix: NatSet(lb,ub) must accept the largest value of the
 set

The assertion looked at ub+1, so a set up to 64*nbw-1 aborted in debug builds.
---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 94fcf8b..46a637b 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -148,7 +148,7 @@ public:
          ++ub;
          assert(ub >= 0);
          assert(lb <= ub);
-         assert((ub >> 6) < nbw);
+         assert(ub <= 64 * nbw);
          for(int i=0;i<nbw;i++) _t[i]=0;
          for(auto i = lb;i < ub;i++) {
             const int ix = i >> 6;
-- 
2.43.0


From 1edf6ae5ba2059cb52a2f6f8f607b1072254d8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:13 +0000
Subject: [PATCH 14/30] fix: revBitsOfWord left one byte of its result
 uninitialised

---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 46a637b..85dddb3 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -56,7 +56,7 @@ namespace std {
       unsigned long long out;
       unsigned char* sw = (unsigned char*)&w;
       unsigned char* dw = (unsigned char*)&out;
-      for(int i=0;i < 7;i++)
+      for(int i=0;i < 8;i++)
          dw[i] = revBitsOfByte(sw[7-i]);
       return out;
    }
-- 
2.43.0


From e9991d80cb73a9da86ca32717415ae490c27e2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:28 +0000
Subject: [PATCH 15/30] fix: hash tables of capacity 0 or 1

The search for the table size wrapped around below zero and read before the
table of primes.
---
 src/hashtable.hpp | 6 +++---
 src/lighthash.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hashtable.hpp b/src/hashtable.hpp
index cf5e39a..47bb1d9 100644
--- a/src/hashtable.hpp
+++ b/src/hashtable.hpp
@@ -55,9 +55,9 @@ template <class K,class T,class Hash = std::hash<K>,class Equal = std::equal_to<
 public:
    Hashtable(Pool::Ptr p,std::size_t sz) : _pool(p) {
       constexpr const std::size_t tsz = sizeof(_primes)/sizeof(std::size_t);
-      std::size_t low=0,up = tsz - 1;
+      long low=0,up = tsz - 1; // signed: up reaches -1 when sz is below the first prime
       while (low <= up) {
-         int m = (low + up)/2;
+         long m = (low + up)/2;
          if (sz < _primes[m])
             up = m - 1;
          else if (sz > _primes[m])
@@ -67,7 +67,7 @@ public:
             break;
          }
       }
-      _mxs = low >= tsz ? _primes[tsz-1] :  _primes[low];
+      _mxs = low >= (long)tsz ? _primes[tsz-1] :  _primes[low];
       std::cout << "sz(Hashtable):" << _mxs << '\n';
       _tab = new (_pool) HTNode*[_mxs];
       _mgc = new (_pool) unsigned[_mxs];
diff --git a/src/lighthash.hpp b/src/lighthash.hpp
index a7091e1..f14f725 100644
--- a/src/lighthash.hpp
+++ b/src/lighthash.hpp
@@ -55,9 +55,9 @@ template <class ST,class Hash = std::hash<ST>,class Equal = std::equal_to<ST>> c
 public:
    LHashtable(Pool::Ptr p,std::size_t sz) : _pool(p) {
       constexpr const std::size_t tsz = sizeof(_primes)/sizeof(std::size_t);
-      std::size_t low=0,up = tsz - 1;
+      long low=0,up = tsz - 1; // signed: up reaches -1 when sz is below the first prime
       while (low <= up) {
-         int m = (low + up)/2;
+         long m = (low + up)/2;
          if (sz < _primes[m])
             up = m - 1;
          else if (sz > _primes[m])
@@ -67,7 +67,7 @@ public:
             break;
          }
       }
-      _mxs = low >= tsz ? _primes[tsz-1] :  _primes[low];
+      _mxs = low >= (long)tsz ? _primes[tsz-1] :  _primes[low];
       std::cout << "sz(LightHashtable):" << _mxs << '\n';
       _tab = new (_pool) HTNode*[_mxs];
       _mgc = new (_pool) unsigned[_mxs];
-- 
2.43.0


From 01fd9c5f54a838bd8f4ee84014aa1c3e9fe9489e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:33 +0000
Subject: [PATCH 16/30] fix: Pool::allocate may skip an empty segment

A block larger than an empty segment is legal (a bigger segment is allocated)
but aborted in debug builds.
---
 src/store.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/store.cpp b/src/store.cpp
index 47c0864..a46a2b7 100644
--- a/src/store.cpp
+++ b/src/store.cpp
@@ -45,7 +45,6 @@ void* Pool::allocate(std::size_t sz)
    assert((sz & 0xF) == 0 && sz != 0);           // check alignment
    auto s = _store[_seg];
    while(_top + sz > s->_sz) {
-      assert(_top != 0);
       ++_seg;
       if (_seg >= _nbSeg) {
          if (_nbSeg == _mxs) {
-- 
2.43.0


From 3cd89800a26f4bbb9b028398c2eadd8f9bf5360f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:40 +0000
Subject: [PATCH 17/30] fix: UnionFind::merge returns the representative of the
 merged set

---
 src/uf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uf.hpp b/src/uf.hpp
index 5e3d109..3a29736 100644
--- a/src/uf.hpp
+++ b/src/uf.hpp
@@ -54,6 +54,7 @@ public:
       } else {
          r0->_parent = r1;
          r1->_sz += r0->_sz;
+         return r1;
       }
       return r0;
    }   
-- 
2.43.0


From e4bdc7ab4964573d5d6186d7bd8ad4d012d1f3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:48 +0000
Subject: [PATCH 18/30] fix: Heap::find must only look at held elements

It scanned the whole storage and could return an extracted element.
---
 src/heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heap.hpp b/src/heap.hpp
index def0caa..b94fecb 100644
--- a/src/heap.hpp
+++ b/src/heap.hpp
@@ -143,7 +143,7 @@ public:
       return _data[_at-1];
    }
    Location* find(const T& v) {
-      for(int i=1;i<_mxs;i++)
+      for(int i=1;i<_at;i++)
          if (_data[i]->_val == v)
             return _data[i];
       return nullptr;
-- 
2.43.0


From 9c40e2b35608d199dad6ad3e5b0fa3d62d16a26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:03 +0000
Subject: [PATCH 19/30] fix: a moved-from FArray must not claim the storage it
 gave away

Assigning an array of the same size to it wrote through a null pointer.
---
 src/util.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.hpp b/src/util.hpp
index 85dddb3..e11dcb4 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -935,6 +935,7 @@ public:
    }
    FArray(FArray&& t) : _tab(t._tab),_mx(t._mx) {
       t._tab = nullptr;
+      t._mx = 0;
    }
    ~FArray() { if (_tab) delete[] _tab;}
    FArray& operator=(const FArray& t) {
@@ -952,6 +953,7 @@ public:
       _mx = a._mx;
       _tab = a._tab;
       a._tab = nullptr;
+      a._mx = 0;
       return *this;
    }
    std::size_t size() const noexcept { return _mx;}
-- 
2.43.0


From 94e67846fcb29fb195f6c4acd29f7148af46c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:37 +0000
Subject: [PATCH 20/30] fix: a moved-from Vec must not share storage with its
 new owner

The move constructor, unlike the move assignment, left both on the same array.
---
 src/vec.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vec.hpp b/src/vec.hpp
index 25efaf2..15fb5d4 100644
--- a/src/vec.hpp
+++ b/src/vec.hpp
@@ -88,7 +88,10 @@ public:
    Vec(Vec&& v)
       : _mem(v._mem),_sz(v._sz),_msz(v._msz),
         _data(std::move(v._data))
-   {}
+   {
+      v._data = nullptr;
+      v._sz = v._msz = 0;
+   }
    ~Vec() {}
    Vec& operator=(const Vec& v) {
       if (_msz < v._msz) {
-- 
2.43.0


From ee4bd9c700f2a674313f172c9f755196c56cdc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:42 +0000
Subject: [PATCH 21/30] fix: dominance must never replace the sink

A sink reached for the first time was compared with the open nodes. When one
dominated it, the last node of the list (not the sink) was dropped and the arc
to the sink redirected to a node that still had to be completed.
---
 src/dd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 5b1ff74..fe87f97 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -425,7 +425,7 @@ void Restricted::compute(Bounds& bnds)
                bool newNode = child->nbParents()==0; // is this a newly created node?
                auto theCost = _dd->cost(p,l);
                auto ep = p->getBound() + theCost;
-               if (hasDom && newNode) {
+               if (hasDom && newNode && child != _dd->_trg) {
                   auto dominator = checkDominance(qn,child,ep);
                   if (dominator) {
                      _dd->_an.pop_back();
@@ -704,7 +704,7 @@ void Relaxed::compute(Bounds& bnds)
                bool newNode = child->nbParents()==0; // is this a newly created node?
                auto theCost = _dd->cost(p,l);
                auto ep = p->getBound() + theCost;
-               if (hasDom && newNode) {
+               if (hasDom && newNode && child != _dd->_trg) {
                   auto dominator = qn.checkDominance(child,ep);
                   if (dominator) {
                      // ANode::Ptr justAdded = _dd->_an.back();
-- 
2.43.0


From 47b5321cc0a6705bc8567dcfab46d8d4b2cdde19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:49 +0000
Subject: [PATCH 22/30] fix: display() must not return in a child process

When dot or open is missing, the forked child returned into the caller and ran
the rest of the program a second time.
---
 src/dd.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index fe87f97..7bc7f7e 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -182,15 +182,17 @@ void AbstractDD::display()
    out.close();
    pid_t child = fork();
    if (child == 0) {
-      int st = execlp("dot","dot","-Tpdf","-O",buf,NULL);
-      printf("execl status: %d\n",st);
+      execlp("dot","dot","-Tpdf","-O",buf,NULL);
+      perror("dot");
+      _exit(1); // never return in the child
    }
    int st = 0;
    waitpid(child,&st,0);
    child = fork();
    if (child == 0) {
       execlp("open","open",base.c_str(),NULL);
-      printf("execl2 status: %d\n",st);
+      perror("open");
+      _exit(1);
    }
    //unlink(buf);
 }
-- 
2.43.0


From 97499d9acaea1640e2f730568613367bdef85b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:40 +0000
Subject: [PATCH 23/30] fix: a search must release what it allocates

The pool and states of the B&B nodes and the two strategies were never freed:
every search leaked several megabytes plus the heap memory of its states.
---
 src/dd.hpp     | 11 ++++++++++-
 src/search.cpp | 11 ++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index a2d815f..a0ee3a3 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -55,7 +55,10 @@ protected:
    LPool::Ptr _base;
 public:
    AbstractNodeAllocator(LPool::Ptr base) : _base(base) {}
-   virtual ~AbstractNodeAllocator() {}
+   virtual ~AbstractNodeAllocator() {
+      delete _base->get();
+      delete _base;
+   }
    virtual ANode::Ptr cloneNode(ANode::Ptr src) = 0;
    virtual void release(ANode::Ptr src) = 0;
    Pool::Ptr get() const noexcept { return _base->get();}
@@ -131,6 +134,7 @@ protected:
    auto remainingLabels(ANode::Ptr p) const noexcept { return _dd->getLabels(p);}
 public:
    Strategy() : _dd(nullptr) {}
+   virtual ~Strategy() {}
    AbstractDD* theDD() const noexcept { return _dd;}
    virtual const std::string getName() const = 0;
    virtual void compute(Bounds&) {}
@@ -349,6 +353,11 @@ class DDNodeAllocator :public AbstractNodeAllocator {
    LHashtable<ST> _nmap;
 public:
    DDNodeAllocator(LPool::Ptr pool) : AbstractNodeAllocator(pool),_nmap(pool->get(),200000) {}
+   ~DDNodeAllocator() {
+      _nmap.doOnAll([](Node<ST>* np) {
+         np->~Node<ST>();
+      });
+   }
    ANode::Ptr cloneNode(ANode::Ptr src) override {
       auto sp = static_cast<const Node<ST>*>(src.get());
       Node<ST>* at = nullptr;
diff --git a/src/search.cpp b/src/search.cpp
index 043509e..c878e12 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -35,10 +35,11 @@ void BAndB::search(Bounds& bnds)
    });
    AbstractDD::Ptr relaxed = _theDD->duplicate();
    AbstractDD::Ptr restricted = _theDD->duplicate();
-   WidthBounded* ddr[2];
+   Relaxed relaxing(_mxw);
+   Restricted restricting(_mxw);
    //_theDD->setStrategy(new Exact);
-   relaxed->setStrategy(ddr[0] = new Relaxed(_mxw));
-   restricted->setStrategy(ddr[1] = new Restricted(_mxw));
+   relaxed->setStrategy(&relaxing);
+   restricted->setStrategy(&restricting);
    auto hOrder = [relaxed](const QNode& a,const QNode& b) {
       return relaxed->isBetter(a.bound,b.bound);
    };
@@ -125,8 +126,8 @@ void BAndB::search(Bounds& bnds)
                //relaxed->printNode(std::cout,n);
                
                if (n == relaxed->getRoot()) { // the cutset is the root. Only way out: increase width.
-                  auto w = ddr[0]->getWidth() + 1;
-                  ddr[0]->setWidth(w);
+                  auto w = relaxing.getWidth() + 1;
+                  relaxing.setWidth(w);
                   std::cout << "\t-->widening... " << w << " CUTSET SIZE:" << cutSet.size() <<  "\n";
                   // The root is already known to the B&B: process it again (with the new width).
                   if (relaxed->isBetter(n->getBound() + n->getBackwardBound(),bnds.getPrimal()))
-- 
2.43.0


From 2561c4a18c738ac5c5536527302d96e46057d45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:53 +0000
Subject: [PATCH 24/30] fix: reset() must forget the root given by apply()

After apply() the diagram kept building its root from a node that reset() has
destroyed: reset() followed by compute() used freed memory.
---
 src/dd.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index a0ee3a3..715bba2 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -489,6 +489,13 @@ private:
          return value;
       }
    }
+   void initFromModel() {
+      _initClosure = [this]() {
+         ANode::Ptr retVal = makeNode(_sti());
+         retVal->setBound(0);
+         return retVal;
+      };
+   }
    void makeInitFrom(ANode::Ptr src) {
       reset();
       _initClosure = [theRoot = duplicate(src)]() {
@@ -590,11 +597,7 @@ public:
         _ndId(0)
    {
       _baseline = _mem->mark();
-      _initClosure = [this]() {
-         ANode::Ptr retVal = makeNode(_sti());
-         retVal->setBound(0);
-         return retVal;
-      };
+      initFromModel();
    }
    ~DD() { DD::reset();}
    template <class... Args>
@@ -645,6 +648,7 @@ public:
       _an.clear();
       _mem->clear(_baseline);
       _root = _trg = nullptr;
+      initFromModel(); // a root given by makeInitFrom is gone now
    }
 };
 
-- 
2.43.0


From b5f397d5363d74a0c30af34bf7531419059be9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:57 +0000
Subject: [PATCH 25/30] fix: a dropped node must not block a merge

A state dropped by dominance stays in the node table with layer 0. Two nodes
merging into that state were refused and the relaxed layer exceeded its width.
---
 src/dd.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index 715bba2..48f23bd 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -559,7 +559,9 @@ private:
          // std::cout << "Merge\n";
          // std::cout << "\tF:";printNode(std::cout,f);std::cout<<"\n";
          // std::cout << "\tS:";printNode(std::cout,s);std::cout<<"\n";         
-         if (inMap && inMap->getLayer() < std::max(fp->getLayer(),sp->getLayer()))
+         // A node without parents (dropped earlier) is not in any layer and can be used again.
+         const bool inUse = inMap && (inMap->nbParents() > 0 || inMap == _root || inMap == _trg);
+         if (inUse && inMap->getLayer() < std::max(fp->getLayer(),sp->getLayer()))
             return nullptr;
          ANode::Ptr rv = makeNode(std::move(vs.value()));
          if (isBetter(fp->getBound(),rv->getBound())) {
-- 
2.43.0


From 8b5439f379e5927e58f29a6c06fc278d64884074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:34 +0000
Subject: [PATCH 26/30] fix: a CQueue of initial size 0 must not share a slot
 after growing

---
 src/queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queue.hpp b/src/queue.hpp
index bdfaef5..4dd2289 100644
--- a/src/queue.hpp
+++ b/src/queue.hpp
@@ -74,7 +74,7 @@ template <typename T> class CQueue  {
    }
 public:
    CQueue(int sz = 32) : _mxSeg(8),_nbs(1) {
-      _mxs = 1;
+      _mxs = 2; // one slot always stays free: resize needs at least one more
       while (_mxs <= sz) _mxs <<= 1; // mxs must be a power of 2.
       _locs = new Location<T>[_mxs];
       _vlocs = new Location<T>*[_mxSeg];
-- 
2.43.0


From 19355c1f6706717f299b4504d60bb5ff9a6ca5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:43 +0000
Subject: [PATCH 27/30] fix: Heap::decrease must also let the element sink

---
 src/heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/heap.hpp b/src/heap.hpp
index b94fecb..63769e8 100644
--- a/src/heap.hpp
+++ b/src/heap.hpp
@@ -151,6 +151,7 @@ public:
    void decrease(Location* at) {
       at->_val--;
       refloat(at->_p);
+      heapify(at->_p); // a smaller key may also have to sink, depending on the order
    }
    T remove(Location* at) {      
       sendToRoot(at->_p);
-- 
2.43.0


From 3505af9dc547a2257e23ae56b4baa9842f8080cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:58 +0000
Subject: [PATCH 28/30] fix: mergeSort must not put the auxiliary array on the
 stack

---
 src/msort.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/msort.hpp b/src/msort.hpp
index a897aa3..1473e82 100644
--- a/src/msort.hpp
+++ b/src/msort.hpp
@@ -4,6 +4,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <cstdio>
+#include <vector>
 
 template <typename T,typename F> void mergeSortAux(T* v,
                                                    const std::size_t from,
@@ -33,9 +34,8 @@ template <typename T,typename F> void mergeSortAux(T* v,
 template <typename T,typename F>
 void mergeSort(T* c,std::size_t sz,const F& cmp)
 {
-   T* aux = (T*)alloca(sizeof(T)*sz);
-   for(auto i=0u;i < sz;i++) aux[i] = c[i];
-   mergeSortAux(c,0,sz,cmp,aux);
+   std::vector<T> aux(c,c+sz); // not on the stack: large arrays do not fit
+   mergeSortAux(c,0,sz,cmp,aux.data());
 }
 
 
-- 
2.43.0


From 5d86648a84c6741a1199bcb638cb5e3bfb6426ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:08 +0000
Subject: [PATCH 29/30] fix: GNSet iteration over a copied set without storage
 must stop at end()

---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index e11dcb4..e35088a 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -644,7 +644,7 @@ public:
       unsigned long long    _cw; // current word
       iterator(unsigned long long* t,unsigned short nbw,unsigned short at)
          : _t(t),_nbw(nbw),_cwi(at),_cw((at < nbw) ? t[at] : 0) {
-         while (_cw == 0 && _t && ++_cwi < _nbw) 
+         while (_cw == 0 && _cwi < _nbw && ++_cwi < _nbw) 
             _cw = _t[_cwi];         
       }
       iterator(unsigned long long* t,unsigned short nbw)
-- 
2.43.0


From dd198ad6448673e353122940849779493919b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:17 +0000
Subject: [PATCH 30/30] verification hook: tell AddressSanitizer about pool
 memory (CODD_VERIFY)

---
 src/store.cpp |  3 +++
 src/store.hpp | 30 +++++++++++++++++++++++++++---
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/store.cpp b/src/store.cpp
index a46a2b7..e56bb5b 100644
--- a/src/store.cpp
+++ b/src/store.cpp
@@ -40,9 +40,11 @@ Pool::~Pool()
 
 void* Pool::allocate(std::size_t sz)
 {
+   [[maybe_unused]] const std::size_t asked = sz;
    if (sz & 0xF)  // unaligned on 8 bytes boundary
       sz = (sz | 0xF) + 1; // increase to align
    assert((sz & 0xF) == 0 && sz != 0);           // check alignment
+   sz += CODD_POOL_REDZONE;
    auto s = _store[_seg];
    while(_top + sz > s->_sz) {
       ++_seg;
@@ -61,5 +63,6 @@ void* Pool::allocate(std::size_t sz)
    }
    void* ptr = s->_base + _top;
    _top   = _top + sz;
+   CODD_POOL_SHOW(ptr,asked);
    return ptr;
 }
diff --git a/src/store.hpp b/src/store.hpp
index c713341..14b7d13 100644
--- a/src/store.hpp
+++ b/src/store.hpp
@@ -25,6 +25,22 @@
  */
 #define SEGSIZE (1 << 22)
 
+/**
+ * Verification hooks. With CODD_VERIFY (and AddressSanitizer) the pool tells the sanitizer
+ * which bytes are handed out, so that overruns between two pool objects and uses of memory given
+ * back by clear are caught. Without CODD_VERIFY they are nothing.
+ */
+#ifdef CODD_VERIFY
+#include <sanitizer/asan_interface.h>
+#define CODD_POOL_HIDE(p,n)   ASAN_POISON_MEMORY_REGION(p,n)
+#define CODD_POOL_SHOW(p,n)   ASAN_UNPOISON_MEMORY_REGION(p,n)
+#define CODD_POOL_REDZONE 16
+#else
+#define CODD_POOL_HIDE(p,n)
+#define CODD_POOL_SHOW(p,n)
+#define CODD_POOL_REDZONE 0
+#endif
+
 class Pool;
 /**
  * @brief Abstract object representing a mark. Nothing is user visible
@@ -53,7 +69,7 @@ class Pool {
    struct Segment {
       char*      _base;
       std::size_t  _sz;
-      Segment(std::size_t tsz) { _base = new char[tsz];_sz = tsz;}
+      Segment(std::size_t tsz) { _base = new char[tsz];_sz = tsz; CODD_POOL_HIDE(_base,tsz);}
       ~Segment()               { delete[] _base;}
       typedef std::shared_ptr<Segment> Ptr;
    };
@@ -63,6 +79,14 @@ class Pool {
    unsigned                _seg;
    unsigned              _nbSeg;
    unsigned                _mxs;
+#ifdef CODD_VERIFY
+   void hideUnused() {
+      CODD_POOL_HIDE(_store[_seg]->_base + _top,_store[_seg]->_sz - _top);
+      for(auto i = _seg + 1;i < _nbSeg;++i) CODD_POOL_HIDE(_store[i]->_base,_store[i]->_sz);
+   }
+#else
+   void hideUnused() {}
+#endif
 public:
    Pool(std::size_t defSize = SEGSIZE);
    ~Pool();
@@ -73,12 +97,12 @@ public:
    /**
     * @brief Restore the pool to its very initial state (fully empty).
     */
-   void clear() { _top = 0;_seg = 0;}
+   void clear() { _top = 0;_seg = 0; hideUnused();}
    /**
     * @brief Restore the pool to a specified mark. One can only shrink the pool.
     * @param m the mark to restore to.
     */
-   void clear(const PoolMark& m) { _top = m._top;_seg = m._seg;}
+   void clear(const PoolMark& m) { _top = m._top;_seg = m._seg; hideUnused();}
    /**
     * @brief Capture the current mark and return it.
     * @return a PoolMark instance referring to the size of the allocator now.
-- 
2.43.0

