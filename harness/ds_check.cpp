// Containers and sets against reference models: every operation of a random history is mirrored on a
// plain standard-library model and the complete observable content is compared.
#include "common.hpp"
#include "codd.hpp"
#include "hashtable.hpp"
#include "heap.hpp"
#include "queue.hpp"
#include "uf.hpp"
#include "msort.hpp"
#include <deque>
#include <numeric>
#include <list>
#include <optional>
using namespace vf;
// -DVF_ONLY=n compiles the monitors of property n alone (used when the rest does not build against the current tree)
#ifdef VF_ONLY
#define VF_HAS(n) (VF_ONLY == n)
#else
#define VF_HAS(n) 1
#endif

// ---- allocation counting (release build only: the sanitizer build keeps its own allocator)
static uint64_t g_newBytes = 0;
#if !defined(__SANITIZE_ADDRESS__) && !defined(VF_MEM)
void* operator new(std::size_t n) { g_newBytes += n; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p,std::size_t) noexcept { free(p); }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p,std::size_t) noexcept { free(p); }
#endif

template <class C> static std::string sh(const C& c) { std::ostringstream o; o << "{"; int k=0; for(auto x : c) { if (k++ > 40) { o << "..."; break; } o << x << " "; } o << "}"; return o.str(); }
static uint64_t sigOf(const std::string& s) { return std::hash<std::string>{}(s); }
static std::string pr(const std::set<int>& s) { std::ostringstream o; o << "{"; bool f=true; for(int v : s) { o << (f?"":",") << v; f=false; } o << "}"; return o.str(); }

// ------------------------------------------------------------------ C16
#if VF_HAS(16)
template <unsigned short W> static void natSetCase(Rng& r) {
   const int cap = 64*W; typedef NatSet<W> NS; typedef std::set<int> SI;
   const int K = 3; std::vector<NS> a(K); std::vector<SI> m(K); std::ostringstream h; h << "w" << W << ":";
   auto val = [&]() { return r.chance(30) ? std::vector<int>{0,63,64,127,128,cap-1,cap-64}[r.in(0,6)] % cap : r.in(0,cap-1); };
   auto all = [&](int i) { SI s; for(int v=0;v<cap;v++) if (!m[i].count(v)) s.insert(v); return s; };
   auto check = [&](int i) {
      const NS& s = a[i]; const SI& t = m[i]; const std::string w = VF_STR("NatSet<" << W << "> after " << h.str() << " expected " << sh(t) << ": ");
      REQUIRE(s.size() == (int)t.size(),w << "size " << s.size()); REQUIRE(s.empty() == t.empty(),w << "empty() wrong"); REQUIRE(s.largest() == (t.empty() ? -1 : *t.rbegin()),w << "largest " << s.largest());
      for(int v=0;v<cap;v++) REQUIRE(s.contains(v) == (t.count(v) > 0),w << "contains(" << v << ") = " << s.contains(v));
      std::vector<int> x,y,z(t.begin(),t.end()); int guard=0; for(auto v : s) { x.push_back(v); REQUIRE(++guard <= cap,w << "iteration does not end"); } REQUIRE(x == z,w << "iteration gives " << sh(x));
      guard=0; for(auto i2 = s.cbegin();i2 != s.cend();i2++) { y.push_back(*i2); REQUIRE(++guard <= cap,w << "const iteration does not end"); } REQUIRE(y == z,w << "const iteration gives " << sh(y));
      REQUIRE(VF_STR(s) == pr(t),w << "prints " << VF_STR(s)); REQUIRE(s.nbWords() == W && s.largestPossible() == cap,w << "capacity");
      st.add("states_compared"); };
   int n = r.in(1,18); bool nontriv=false;
   for(int k=0;k<n;k++) { int i = r.in(0,K-1),j = r.in(0,K-1); 
      switch(r.in(0,13)) {
         case 0: case 1: case 2: { int c = r.in(1,8); for(int q=0;q<c;q++) { int v = val(); a[i].insert(v); m[i].insert(v); h << " ins" << v; } break; }
         case 3: a[i].clear(); m[i].clear(); h << " clear"; break;
         case 4: { int lo = val(),hi = r.chance(85) ? val() : cap-1; NS t(lo,hi); a[i] = t; m[i].clear(); for(int v=lo;v<=hi;v++) m[i].insert(v); h << " [" << lo << ".." << hi << "]"; break; }
         case 5: { NS t(a[j]); a[i] = t; m[i] = SI(m[j]); h << " copy"; break; }
         case 6: { NS t(std::move(a[j])); if (i != j) { NS u; a[j] = u; m[i] = m[j]; m[j].clear(); a[i] = t; } else a[i] = t; h << " move"; break; }
         case 7: a[i].complement(); m[i] = all(i); h << " compl"; break;
         case 8: a[i].unionWith(a[j]); { SI c = m[j]; m[i].insert(c.begin(),c.end()); } h << " union"; break;
         case 9: a[i].interWith(a[j]); { SI c; for(int v : m[i]) if (m[j].count(v)) c.insert(v); m[i] = c; } h << " inter"; break;
         case 10: { SI c = m[i]; c.insert(m[j].begin(),m[j].end()); int t = r.in(0,K-1); a[t] = a[i] | a[j]; m[t] = c; h << " |"; i = t; break; }
         case 11: { SI c; for(int v : m[i]) if (m[j].count(v)) c.insert(v); int t = r.in(0,K-1); a[t] = a[i] & a[j]; m[t] = c; h << " &"; i = t; break; }
         case 12: { int v1=val(),v2=val(),v3=val(); a[i] = NS{v1,v2,v3}; m[i] = SI{v1,v2,v3}; h << " list"; break; }
         default: { if (m[i].empty()) { NS t = r.in(0,cap-1) - a[i]; a[i] = t; h << " refl-empty"; break; }
            int mx = *m[i].rbegin(); int ofs = r.chance(25) ? mx : r.chance(20) ? cap-1 : r.in(mx,cap-1); NS t = ofs - a[i]; SI c; for(int v : m[i]) c.insert(ofs-v); h << " refl(" << ofs << "-" << sh(m[i]) << ")"; a[i] = t; m[i] = c; st.add("reflections"); nontriv = true; }
      }
      check(i); if (i != j) check(j); 
      REQUIRE((a[i] == a[j]) == (m[i] == m[j]),"NatSet<" << W << "> equality wrong after " << h.str()); st.add("operations");
   }
   if (n > 2) st.sig(sigOf(h.str())); st.sample(h.str());
}
static void c16(Rng& r,long) { if (r.chance(4)) { if (r.chance(60)) natSetCase<16>(r); else natSetCase<33>(r); return; } switch(r.in(0,5)) { case 5: natSetCase<5>(r); break; case 0: natSetCase<1>(r); break; case 1: natSetCase<2>(r); break; case 2: natSetCase<3>(r); break; case 3: natSetCase<4>(r); break; default: natSetCase<7>(r); } }
#endif
// ------------------------------------------------------------------ C17
#if VF_HAS(17)
static void c17(Rng& r,long) {
   typedef std::set<int> SI; const int K = 4; std::vector<GNSet> a(K); std::vector<SI> m(K); std::ostringstream h; std::vector<char> gone(K,0);
   const int sp = r.in(0,9); const int top = sp < 7 ? 200 : sp < 9 ? 3000 : 999999;
   auto val = [&]() { return r.chance(25) ? std::vector<int>{0,63,64,127,128,191,192}[r.in(0,6)] : r.in(0,top); };
   auto check = [&](int i) { if (gone[i]) return;
      const GNSet& s = a[i]; const SI& t = m[i]; const std::string w = VF_STR("GNSet after" << h.str() << " expected " << sh(t) << ": ");
      REQUIRE(s.size() == (int)t.size(),w << "size " << s.size()); REQUIRE(s.empty() == t.empty(),w << "empty() wrong");
      const long cap = 64L*s.nbWords();
      for(int v=0;v<std::min(cap+70,600L);v++) REQUIRE(s.contains(v) == (t.count(v) > 0),w << "contains(" << v << ") = " << s.contains(v));
      for(int q=0;q<10;q++) { int v = r.in(0,1100000); REQUIRE(s.contains(v) == (t.count(v) > 0),w << "contains(" << v << ")"); }
      for(int v : t) { REQUIRE(s.contains(v),w << "contains(" << v << ") = 0"); if (v > 2000 && r.chance(90)) break; }
      std::vector<int> x,z(t.begin(),t.end()); size_t guard=0; for(auto v : s) { x.push_back(v); REQUIRE(++guard <= t.size()+2,w << "iteration gives too many values " << sh(x)); } REQUIRE(x == z,w << "iteration gives " << sh(x));
      if (t.size() < 50) REQUIRE(VF_STR(s) == pr(t),w << "prints " << VF_STR(s));
      REQUIRE(min(s) == (t.empty() ? std::numeric_limits<int>::max() : *t.begin()),w << "min " << min(s));
      REQUIRE(max(s) == (t.empty() ? std::numeric_limits<int>::min() : *t.rbegin()),w << "max " << max(s));
      st.add("states_compared"); st.mx("element",t.empty() ? 0 : *t.rbegin()); };
   int n = r.in(1,22);
   for(int k=0;k<n;k++) { int i = r.in(0,K-1),j = r.in(0,K-1); if (gone[j] && r.chance(80)) j = i;
      auto ok = [&](int q) { return !gone[q]; };
      int op = r.in(0,25);
      if (gone[i] && op < 14 ) op = 20;                                  // a moved-from set is only assigned to
      switch(op) {
         case 0: case 1: case 2: case 3: { int c = r.in(1,6); for(int q=0;q<c;q++) { int v = val(); a[i].insert(v); m[i].insert(v); h << " ins" << v; } break; }
         case 4: case 5: { int v = m[i].empty() || r.chance(30) ? val() : *m[i].begin(); a[i].remove(v); m[i].erase(v); h << " rem" << v; break; }
         case 6: { const long cap = 64L*a[i].nbWords(); if (cap > 20000) break; a[i].complement(); SI c; for(int v=0;v<cap;v++) if (!m[i].count(v)) c.insert(v); m[i] = c; h << " compl(" << cap << ")"; break; }
         case 7: if (!ok(j)) break; a[i].unionWith(a[j]); { SI c = m[j]; m[i].insert(c.begin(),c.end()); } h << " union" << j; break;
         case 8: if (!ok(j)) break; a[i].interWith(a[j]); { SI c; for(int v : m[i]) if (m[j].count(v)) c.insert(v); m[i] = c; } h << " inter" << j; break;
         case 9: if (!ok(j)) break; a[i].diffWith(a[j]); { SI c; for(int v : m[i]) if (!m[j].count(v)) c.insert(v); m[i] = c; } h << " diff" << j; break;
         case 10: { int p = r.chance(10) ? -1 : r.chance(20) ? r.in(0,2000) : val(); a[i].removeAbove(p); SI c; for(int v : m[i]) if (v <= p) c.insert(v); m[i] = c; h << " above" << p; break; }
         case 11: { int p = r.chance(10) ? -1 : r.chance(20) ? r.in(0,2000) : val(); a[i].removeBelow(p); SI c; for(int v : m[i]) if (v >= p) c.insert(v); m[i] = c; h << " below" << p; break; }
         case 12: a[i].clear(); m[i].clear(); h << " clear"; break;
         case 13: { int d = r.in(2,3); GNSet f = filter(a[i],[d](int v) { return v % d == 0; }); SI c; for(int v : m[i]) if (v % d == 0) c.insert(v); 
            long ref = 0; for(int v : m[i]) ref += v % 10; REQUIRE(sum(a[i],[](auto v) { return v % 10; }) == ref,"GNSet sum wrong after" << h.str());
            int mn = std::numeric_limits<int>::max(),mx = std::numeric_limits<int>::min(); for(int v : m[i]) if (v % d == 0) { mn = std::min(mn,v*3-7); mx = std::max(mx,v*3-7); }
            REQUIRE(min(a[i],[d](int v) { return v%d==0; },[](int v) { return v*3-7; }) == mn,"GNSet min(filter,term) wrong after" << h.str());
            REQUIRE(max(a[i],[d](int v) { return v%d==0; },[](int v) { return v*3-7; }) == mx,"GNSet max(filter,term) wrong after" << h.str());
            a[i] = std::move(f); m[i] = c; h << " filter"; break; }
         case 14: { GNSet t((unsigned short)r.in(0,260)); a[i] = r.chance(50) ? t : std::move(t); m[i].clear(); gone[i]=0; h << " cap"; break; }
         case 15: { int lo = val(),hi = r.chance(80) ? lo + r.in(-3,150) : lo; if (hi > 999999) hi = lo; a[i] = GNSet(lo,hi); m[i].clear(); for(int v=lo;v<=hi;v++) m[i].insert(v); gone[i]=0; h << " [" << lo << ".." << hi << "]"; break; }
         case 16: { int lo = r.in(0,200),hi = r.chance(15) ? lo : r.in(0,200); Range g = r.chance(50) ? Range::open(lo,hi) : Range::close(lo,hi); a[i] = GNSet(g); m[i].clear(); for(int v=g.from();v != g.to();v += g.from() <= g.to() ? 1 : -1) m[i].insert(v); gone[i]=0; h << " range" << g.from() << ">" << g.to(); break; }
         case 17: { NatSet<3> t; m[i].clear(); int c = r.in(0,6); for(int q=0;q<c;q++) { int v = r.in(0,191); t.insert(v); m[i].insert(v); } a[i] = GNSet(t); gone[i]=0; h << " fromNat"; break; }
         case 18: { int v1=val(),v2=val(),v3=val(); if (r.chance(20)) { a[i] = GNSet{}; m[i].clear(); } else { a[i] = GNSet{v1,v2,v3}; m[i] = SI{v1,v2,v3}; } gone[i]=0; h << " list"; break; }
         case 19: { int lo=r.in(0,150),hi=lo+r.in(0,100); a[i] = setFrom(std::views::iota(lo,hi)); m[i].clear(); for(int v=lo;v<hi;v++) m[i].insert(v); gone[i]=0; h << " iota"; break; }
         case 20: if (!ok(j)) { a[i] = GNSet{1}; m[i] = SI{1}; gone[i]=0; break; } a[i] = a[j]; m[i] = SI(m[j]); gone[i]=0; h << " copy" << j; break;
         case 21: if (!ok(j)) break; { GNSet t(a[j]); t.insert(5); SI c = m[j]; c.insert(5); a[i] = std::move(t); m[i] = c; gone[i]=0; h << " copymod" << j; break; }
         case 22: if (!ok(j) || i == j) break; a[i] = std::move(a[j]); m[i] = m[j]; m[j].clear(); gone[i]=0; gone[j]=1; h << " move" << j; break;
         case 23: if (!ok(i) || !ok(j)) break; { int t = r.in(0,K-1); SI c = m[i]; c.insert(m[j].begin(),m[j].end()); GNSet u = a[i] | a[j]; a[t] = std::move(u); m[t] = c; gone[t]=0; h << " |" << t; i = t; break; }
         case 24: if (!ok(i) || !ok(j)) break; { int t = r.in(0,K-1); SI c; for(int v : m[i]) if (m[j].count(v)) c.insert(v); a[t] = a[i] & a[j]; m[t] = c; gone[t]=0; h << " &" << t; i = t; break; }
         default: if (!ok(i) || !ok(j)) break; { int t = r.in(0,K-1); SI c; for(int v : m[i]) if (!m[j].count(v)) c.insert(v); a[t] = a[i] - a[j]; m[t] = c; gone[t]=0; h << " -" << t; i = t; break; }
      }
      check(i); if (i != j) check(j); st.add("operations");
      if (ok(i) && ok(j)) { const bool e = m[i] == m[j]; REQUIRE((a[i] == a[j]) == e && (a[j] == a[i]) == e,"GNSet equality wrong after" << h.str() << " " << sh(m[i]) << " vs " << sh(m[j]));
         REQUIRE((a[i] != a[j]) == !e && (a[j] != a[i]) == !e,"GNSet inequality wrong after" << h.str() << " " << sh(m[i]) << " vs " << sh(m[j])); }
   }
   for(int i=0;i<K;i++) check(i);
   if (n > 2) st.sig(sigOf(h.str())); st.sample(h.str());
}
#endif
// ------------------------------------------------------------------ C18 (values)
#if VF_HAS(18)
static void c18(Rng& r,long) {
   std::set<int> s; int n = r.in(0,8); int top = r.chance(80) ? 190 : 3000; for(int k=0;k<n;k++) s.insert(r.in(0,top));
   std::vector<int> order(s.begin(),s.end()); for(size_t k=order.size();k>1;k--) std::swap(order[k-1],order[r.in(0,(int)k-1)]);
   // growing sets built along different routes
   std::vector<GNSet> g; GNSet g0 {}; for(int v : s) g0.insert(v); g.push_back(g0);
   GNSet g1((unsigned short)r.in(0,4000)); for(int v : order) g1.insert(v); g.push_back(g1);
   GNSet g2 {}; g2.insert(r.in(1000,9000)); g2.clear(); for(int v : order) g2.insert(v); g.push_back(g2);
   GNSet g3 = g0 | GNSet(0,r.in(0,2000)); g3.interWith(g1); g.push_back(g3);
   GNSet g4(0,r.in(std::max(top,1),top+500)); g4 = g4 - (GNSet(0,top+500) - g0); g.push_back(g4);
   GNSet g5(g1); g.push_back(std::move(g5)); GNSet g6 {}; g6 = g2; g.push_back(g6);
   { GNSet g7(g0); int big = r.in(3001,60000); g7.insert(big); g7.remove(big); g.push_back(g7); GNSet g8(g0); g8.insert(big); g8.removeAbove(top); g.push_back(g8); }
   for(auto& x : g) for(auto& y : g) { REQUIRE(x == y,"GNSets with the same elements " << sh(s) << " compare unequal"); REQUIRE(std::hash<GNSet>{}(x) == std::hash<GNSet>{}(y),"equal GNSets " << sh(s) << " hash differently (capacities " << x.nbWords() << " and " << y.nbWords() << " words)"); }
   st.add("equal_pairs",g.size()*g.size());
   if (top <= 190) { NatSet<3> a,b; for(int v : s) a.insert(v); for(int v : order) b.insert(v); NatSet<3> c(a); c.complement().complement(); NatSet<3> d = 191 - (191 - b); NatSet<3> e(a | b);
      for(auto* x : {&a,&b,&c,&d,&e}) { REQUIRE(*x == a,"NatSets with the same elements " << sh(s) << " compare unequal"); REQUIRE(std::hash<NatSet<3>>{}(*x) == std::hash<NatSet<3>>{}(a),"equal NatSets hash differently " << sh(s)); } st.add("equal_pairs",5); }
   { std::vector<int> a(order),b; b.reserve(100); for(int v : order) { b.push_back(v+1); b.back()--; } REQUIRE(std::hash<std::vector<int>>{}(a) == std::hash<std::vector<int>>{}(b),"equal vectors hash differently");
     std::set<int> x(s),y; for(int v : order) y.insert(v); REQUIRE(std::hash<std::set<int>>{}(x) == std::hash<std::set<int>>{}(y),"equal std::sets hash differently");
     FArray<int> f(order.size()),h(order.size(),7); for(size_t i=0;i<order.size();i++) { f[i] = order[i]; h[order.size()-1-i] = order[order.size()-1-i]; } FArray<int> k(f); FArray<int> l(std::move(k)); FArray<int> mm; mm = h;
     for(auto* q : {&f,&h,&l,&mm}) { REQUIRE(*q == f,"equal FArrays compare unequal"); REQUIRE(std::hash<FArray<int>>{}(*q) == std::hash<FArray<int>>{}(f),"equal FArrays hash differently"); }
     std::vector<GNSet> vg {g[0],g[2]},vh {g[1],g[4]}; REQUIRE(std::hash<std::vector<GNSet>>{}(vg) == std::hash<std::vector<GNSet>>{}(vh),"equal vectors of GNSets hash differently");
     FArray<GNSet> fg(2),fh(2); fg[0]=g[0]; fg[1]=g[2]; fh[0]=g[1]; fh[1]=g[7]; REQUIRE(fg == fh && std::hash<FArray<GNSet>>{}(fg) == std::hash<FArray<GNSet>>{}(fh),"equal FArrays of GNSets hash differently");
     st.add("equal_pairs",8); }
   st.sig(sigOf(sh(s)+sh(order))); st.sample(VF_STR("elements " << sh(s) << " built along 9 routes"));
}
#endif
// ------------------------------------------------------------------ C19
#if VF_HAS(19)
struct HE { int key=0,id=0; HE& operator--(int) { key--; return *this; } bool operator==(const HE& o) const { return key == o.key && id == o.id; } friend std::ostream& operator<<(std::ostream& os,const HE& e) { return os << e.key; } };
static void c19(Rng& r,long) {
   const bool mn = r.chance(60); Pool pool(r.chance(50) ? (1<<22) : 4096); auto ord = [mn](const HE& a,const HE& b) { return mn ? a.key < b.key : a.key > b.key; };
   using H = Heap<HE,decltype(ord)>; int cap = r.chance(50) ? r.in(1,4) : r.in(1,200); H heap(&pool,cap,ord);
   std::map<int,std::pair<HE,typename H::LocType*>> ref; int nid=1; std::ostringstream h; h << (mn?"min":"max") << " cap" << cap; const int range = r.chance(40) ? 3 : r.chance(50) ? 20 : 100000;
   const int n = r.chance(90) ? r.in(1,80) : r.in(200,1500); const int grow = r.in(0,2); uint64_t sg = n*2+mn;
   auto content = [&]() { REQUIRE(heap.size() == ref.size(),"heap size " << heap.size() << " expected " << ref.size() << " after " << h.str().substr(0,800)); REQUIRE(heap.empty() == ref.empty(),"heap empty() wrong");
      std::set<int> ids; for(unsigned k=0;k<heap.size();k++) { HE e = heap[k]->value(); auto it = ref.find(e.id); REQUIRE(it != ref.end() && it->second.first.key == e.key && ids.insert(e.id).second,"heap holds an element that should not be there, after " << h.str().substr(0,800)); }
      for(auto& [id,p] : ref) { HE e = p.second->value(); REQUIRE(e.id == id && e.key == p.first.key,"handle of element " << id << " now denotes " << e.id << " after " << h.str().substr(0,800)); } st.add("states_compared"); };
   auto took = [&](const HE& e) { auto it = ref.find(e.id); REQUIRE(it != ref.end() && it->second.first.key == e.key,"extracted an element (key " << e.key << ") that is not held, after " << h.str().substr(0,800));
      ref.erase(it); };
   auto ins = [&](bool bulk) { HE e {r.in(-range,range),nid++}; typename H::LocType* l = bulk ? heap.insert(e) : const_cast<typename H::LocType*>(heap.insertHeap(e)); ref[e.id] = {e,l}; if (n < 100) h << " +" << e.key; };
   for(int k=0;k<n;k++) { int op = r.in(0,19); sg = mix(sg,op);
      if (op < (grow==0 ? 7 : 11)) ins(false);
      else if (op == 11 && r.chance(20)) { int c = r.in(1,30); for(int q=0;q<c;q++) ins(true); heap.buildHeap(); h << " build"; }
      else if (op == 12 && r.chance(10)) { heap.clear(); ref.clear(); h << " clear"; }
      else if (op < 14) { if (ref.empty()) continue; auto it = std::next(ref.begin(),r.in(0,(int)ref.size()-1)); int id = it->first; HE want = it->second.first; HE e = heap.remove(it->second.second); h << " rm" << want.key;
            REQUIRE(e.id == id,"removal through a handle of element " << id << " (key " << want.key << ") removed element " << e.id << " (key " << e.key << ") after " << h.str().substr(0,800)); took(e); }
      else if (op < 16) { if (ref.empty()) continue; auto it = std::next(ref.begin(),r.in(0,(int)ref.size()-1)); int c = r.chance(80) ? 1 : r.in(2,6); for(int q=0;q<c;q++) { heap.decrease(it->second.second); it->second.first.key--; } h << " dec"; }
      else if (op < 17) { HE q = ref.empty() || r.chance(40) ? HE{r.in(-range,range),nid+5} : std::next(ref.begin(),r.in(0,(int)ref.size()-1))->second.first; auto l = heap.find(q); auto it = ref.find(q.id);
            if (it == ref.end()) REQUIRE(l == nullptr,"find returned a handle for a value that is not held, after " << h.str().substr(0,800)); else REQUIRE(l && l->value() == q,"find did not find a held value, after " << h.str().substr(0,800)); }
      else { if (ref.empty()) continue; HE e = heap.extractMax(); h << " x" << e.key; for(auto& [id,p] : ref) REQUIRE(!ord(p.first,e),"extracted key " << e.key << " although " << p.first.key << " is held, after " << h.str().substr(0,800)); took(e); st.add("extractions"); }
      st.add("operations"); if (n < 100 || k % 50 == 0) content();
   }
   st.mx("size",ref.size()); content(); 
   HE last; bool first=true; while(!heap.empty()) { HE e = heap.extractMax(); if (!first) REQUIRE(!ord(e,last),"draining the heap gives " << e.key << " after " << last.key << "; history " << h.str().substr(0,800)); took(e); last = e; first=false; st.add("extractions"); }
   REQUIRE(ref.empty(),"heap lost " << ref.size() << " elements after " << h.str().substr(0,800));
   if (n > 3) st.sig(sg); st.sample(h.str().substr(0,300));
}
#endif
// ------------------------------------------------------------------ C20
#if VF_HAS(20)
static void c20(Rng& r,long kase) {
   int sz = r.chance(60) ? r.in(0,4) : r.in(0,70); CQueue<int> q(sz); std::deque<int> ref; std::map<Location<int>*,int> hnd; std::ostringstream h; h << "size" << sz; int nid=1; const bool dups = r.chance(30);
   const int n = kase % 4000 == 9 ? 60000 : r.chance(92) ? r.in(1,120) : r.in(500,3000); const int bias = r.in(7,12); uint64_t sg = sz; 
   auto cut = [&]() { auto s = h.str(); return s.size() > 700 ? s.substr(s.size()-700) : s; };
   auto seen = [&]() { std::vector<int> v; q.doOnAll([&](Location<int>* l) { v.push_back(l->value()); auto it = hnd.find(l); if (it == hnd.end() || it->second != l->value()) latch("queue traversal shows a stale handle after " + cut()); }); return v; };
   auto check = [&]() { REQUIRE(q.size() == (int)ref.size(),"queue size " << q.size() << " expected " << ref.size() << " after " << cut()); REQUIRE(q.empty() == ref.empty(),"queue empty() wrong after " << cut()); REQUIRE(q.peek() == (ref.empty() ? 0 : ref.front()),"peek gives " << q.peek() << " expected " << (ref.empty() ? 0 : ref.front()) << " after " << cut());
      auto v = seen(); checkLatched(); REQUIRE(std::equal(v.begin(),v.end(),ref.begin(),ref.end()),"queue holds " << sh(v) << " expected " << sh(ref) << " after " << cut()); st.add("states_compared"); };
   auto gone = [&](int val,const std::vector<int>& before) { // after a retraction the rest stays, in whatever order is now visible
      auto v = seen(); std::vector<int> a = v,b = before; std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); b.erase(std::find(b.begin(),b.end(),val));
      REQUIRE(a == b,"retracting " << val << " left " << sh(v) << " from " << sh(before) << " after " << cut()); ref.assign(v.begin(),v.end()); st.add("retractions"); };
   for(int k=0;k<n;k++) { int op = r.in(0,19); sg = mix(sg,op);
      if (op < bias) { int v = dups ? r.in(1,5) : nid++; auto* l = q.enQueue(v); hnd[l] = v; ref.push_back(v); h << " +" << v; REQUIRE(l->value() == v,"handle of an enqueued element denotes another value"); }
      else if (op < 17) { if (ref.empty()) { int v = q.deQueue(); REQUIRE(v == 0,"dequeue of an empty queue gives " << v); h << " -e"; } else { int v = q.deQueue(); h << " -"; REQUIRE(v == ref.front(),"dequeued " << v << " expected " << ref.front() << " after " << cut()); ref.pop_front(); for(auto it = hnd.begin();it != hnd.end();) if (it->second == v && !dups) it = hnd.erase(it); else ++it; } }
      else if (op == 17 && r.chance(15)) { q.clear(); ref.clear(); hnd.clear(); h << " clear"; }
      else if (op == 18) { if (ref.empty()) continue; std::vector<int> before(ref.begin(),ref.end()); int pos = r.in(0,(int)ref.size()-1); Location<int>* l = nullptr; int c=0; q.doOnAll([&](Location<int>* x) { if (c++ == pos) l = x; }); int val = l->value(); h << " rt@" << pos; q.retract(l); hnd.erase(l); gone(val,before); }
      else if (op == 19) { if (ref.empty()) continue; std::vector<int> before(ref.begin(),ref.end()); if (r.chance(70)) { int val = ref[r.in(0,(int)ref.size()-1)]; h << " rv" << val; REQUIRE(q.retract(val),"retract(value) did not find a held value after " << cut());
            std::map<Location<int>*,int> keep; q.doOnAll([&](Location<int>* x) { keep[x] = x->value(); }); hnd = keep; gone(val,before); }
         else { REQUIRE(!q.retract(1000000),"retract of an absent value claims success"); } }
      else { std::vector<int> v; int x = ref.empty() ? 3 : ref[r.in(0,(int)ref.size()-1)]; int got = q.foldl([&](int acc,int e) { return e == x ? e : acc; },0); REQUIRE(got == (ref.empty() ? 0 : x),"fold looking for " << x << " gives " << got << " after " << cut());
         q.foldl([&](int acc,int e) { v.push_back(e); return 0; },0); REQUIRE(std::equal(v.begin(),v.end(),ref.begin(),ref.end()),"fold visits " << sh(v) << " expected " << sh(ref)); }
      st.add("operations"); if (n <= 120 || k % (n > 10000 ? 4000 : 40) == 0) check();
   }
   st.mx("size",ref.size()); check(); while(!ref.empty()) { int v = q.deQueue(); REQUIRE(v == ref.front(),"draining gives " << v << " expected " << ref.front() << " after " << cut()); ref.pop_front(); } REQUIRE(q.empty() && q.size()==0,"drained queue not empty");
   if (n > 3) st.sig(sg); st.sample(h.str().substr(0,300));
}
#endif
// ------------------------------------------------------------------ C21
#if VF_HAS(21)
struct HK { int v=0; bool operator==(const HK& o) const { return v == o.v; } friend std::ostream& operator<<(std::ostream& os,const HK& k) { return os << k.v; } };
static int g_hm=0;
static std::size_t hfun(int v) { switch(g_hm) { case 1: return 42; case 2: return (std::size_t)(v%3); case 3: return ~(std::size_t)0 - (v & 7); case 4: return (std::size_t)v*547; default: return (std::size_t)v * 0x9E3779B97F4A7C15ull; } }
template <> struct std::hash<HK> { std::size_t operator()(const HK& k) const noexcept { return hfun(k.v); } };
static int htCapacity(Rng& r) { int k = r.in(0,9); return k==0 ? 0 : k==1 ? 1 : k==2 ? 2 : k==3 ? 547 : k==4 ? 209939 : k==5 ? r.in(209940,400000) : k==6 ? 3 : r.in(4,3000); }
// keys inserted in successive epochs (clear() between them) and looked up again, untouched, after every possible number of epochs
static void epochs(Rng& r,int N) {
   g_hm = r.chance(70) ? 0 : 4; const bool light = r.chance(60); const int cap = r.in(2*N+1,4*N+9); const int extra = r.in(0,1); Pool pool; 
   auto miss = [&](bool found,int k,int gap) { REQUIRE(!found,"key " << k << " inserted before " << gap << " clear() calls is still found in the table (capacity " << cap << ")"); st.add("lookups"); };
   auto total = [&](auto& t,auto fun,int want,const char* w) { int c = 0; t.doOnAll([&](auto&&...) { c++; }); REQUIRE(c == want && (int)t.size() == want,w << ": traversal visits " << c << ", size " << t.size() << ", expected " << want); (void)fun; };
   if (light) { LHashtable<HK> t(&pool,cap); unsigned id=0; auto put = [&](int k) { Node<HK>* p = nullptr; auto l = t.getLoc(HK{k},p); REQUIRE(!(bool)l,"key " << k << " found although never inserted"); auto* nn = new (&pool) Node<HK>(&pool,HK{k},id++,true); t.safeInsertAt(l,nn); };
      for(int k=0;k<N;k++) { put(k); t.clear(); } if (extra) t.clear();
      for(int k=N-1;k>=0;k--) { Node<HK>* p = nullptr; miss((bool)t.getLoc(HK{k},p) || p,k,2*(N-k)-1+extra); if (k % 1000 == 0) total(t,0,0,"emptied node table"); t.clear(); } put(N+5); total(t,0,1,"node table with one node"); }
   else { Hashtable<HK,int> t(&pool,cap); for(int k=0;k<N;k++) { if (k & 1) t.insert(HK{k},k); else t.safeInsert(HK{k},k); t.clear(); } if (extra) t.clear();
      for(int k=N-1;k>=0;k--) { int v=-7; miss(t.get(HK{k},v) || v != -7,k,2*(N-k)-1+extra); if (k % 1000 == 0) total(t,0,0,"emptied table"); t.clear(); } t.insert(HK{N+5},1); total(t,0,1,"table with one key"); }
   st.add("epochs",2*N); st.mx("clear_distance",2*N); st.sig(mix(N,cap));
}
static void c21(Rng& r,long kase) {
#ifndef __SANITIZE_ADDRESS__
   if (kase % 2500 == 11) { epochs(r,34000); return; }
#endif
   if (kase % 200 == 11) { epochs(r,r.in(200,900)); return; }
   g_hm = r.in(0,4); int cap = htCapacity(r); Pool pool; const int n = r.chance(90) ? r.in(1,150) : r.in(500,4000); const int range = r.chance(50) ? 12 : 3000; std::ostringstream h; h << "cap" << cap << " hash" << g_hm; uint64_t sg = mix(cap,g_hm);
   if (r.chance(55)) {
      Hashtable<HK,int> t(&pool,cap); std::map<int,int> ref;
      auto all = [&]() { REQUIRE(t.size() == ref.size(),"hash table size " << t.size() << " expected " << ref.size() << "; " << h.str().substr(0,600)); std::map<int,int> got; t.doOnAll([&](const HK& k,int v) { if (!got.insert({k.v,v}).second) latch("hash table traversal visits a key twice; " + h.str().substr(0,600)); }); checkLatched(); REQUIRE(got == ref,"hash table traversal differs from its content; " << h.str().substr(0,600)); st.add("traversals"); };
      for(int k=0;k<n;k++) { int op = r.in(0,9); int key = r.in(0,range); HK K{key}; sg = mix(sg,op); auto it = ref.find(key);
         if (op < 4) { int v = r.in(0,99999); t.insert(K,v); ref[key] = v; if (n<200) h << " +" << key; }
         else if (op < 6) { int v = -7; auto loc = t.getLoc(K,v); REQUIRE((bool)loc == (it != ref.end()),"getLoc(" << key << ") wrong; " << h.str().substr(0,600)); if (loc) REQUIRE(v == it->second,"getLoc(" << key << ") gives " << v << " expected " << it->second); else { t.safeInsertAt(loc,K,k); ref[key] = k; if (n<200) h << " @" << key; } }
         else if (op == 6) { if (it == ref.end()) { t.safeInsert(K,k); ref[key] = k; } }
         else if (op == 7 && r.chance(10)) { t.clear(); ref.clear(); h << " clear"; }
         else { int v = -7; bool f = t.get(K,v); REQUIRE(f == (it != ref.end()),"lookup of key " << key << " " << (f?"found":"missed") << " it; " << h.str().substr(0,600)); if (f) REQUIRE(v == it->second,"lookup of key " << key << " gives " << v << " expected " << it->second << "; " << h.str().substr(0,600)); st.add("lookups"); }
         if (r.chance(4)) all(); st.add("operations"); }
      all(); for(int key=0;key<=std::min(range,400);key++) { int v=-7; bool f = t.get(HK{key},v); auto it = ref.find(key); REQUIRE(f == (it != ref.end()) && (!f || v == it->second),"final lookup of key " << key << " wrong; " << h.str().substr(0,600)); }
   } else {
      LHashtable<HK> t(&pool,cap); std::map<int,Node<HK>*> ref; unsigned id=0;
      auto all = [&]() { REQUIRE(t.size() == ref.size(),"node table size " << t.size() << " expected " << ref.size()); std::set<Node<HK>*> got,want; t.doOnAll([&](Node<HK>* p) { if (!got.insert(p).second) latch("node table traversal visits a node twice"); }); checkLatched(); for(auto& [k,p] : ref) want.insert(p); REQUIRE(got == want,"node table traversal differs from its content; " << h.str().substr(0,600)); st.add("traversals"); };
      for(int k=0;k<n;k++) { int op = r.in(0,9); int key = r.in(0,range); HK K{key}; sg = mix(sg,op+100); auto it = ref.find(key); Node<HK>* p = nullptr; auto loc = t.getLoc(K,p); st.add("lookups");
         REQUIRE((bool)loc == (it != ref.end()),"node table: lookup of state " << key << " " << ((bool)loc?"found":"missed") << " it; " << h.str().substr(0,600)); if (loc) REQUIRE(p == it->second,"node table: lookup of state " << key << " gives another node; " << h.str().substr(0,600)); else REQUIRE(p == nullptr,"node table: failed lookup changed its result");
         if (!loc && op < 7) { auto* nn = new (&pool) Node<HK>(&pool,HK{key},id++,true); if (r.chance(50)) t.safeInsertAt(loc,nn); else t.rawInsertAt(loc,nn); ref[key] = nn; if (n<200) h << " +" << key; }
         else if (op == 9 && r.chance(10)) { t.clear(); ref.clear(); h << " clear"; }
         if (r.chance(4)) all(); st.add("operations"); }
      all();
   }
   if (n > 3) st.sig(sg); st.sample(h.str().substr(0,200));
}
#endif
// ------------------------------------------------------------------ C22
#if VF_HAS(22)
static void c22(Rng& r,long) {
   std::size_t seg = r.chance(15) ? SEGSIZE : r.chance(50) ? (std::size_t)r.in(1,64)*16 : (std::size_t)r.in(16,3000); Pool pool(seg); std::ostringstream h; h << "seg" << seg;
   struct B { unsigned char* p; std::size_t n; unsigned char pat; }; std::vector<B> live; struct M { PoolMark m; std::size_t nb; }; std::vector<M> marks; unsigned char pat=1; uint64_t sg = seg;
   auto size = [&]() -> std::size_t { int k = r.in(0,9); std::size_t s = k < 5 ? r.in(1,100) : k < 8 ? r.in(1,(int)std::min<std::size_t>(seg,5000)) : r.in(1,(int)std::min<std::size_t>(seg*3,200000)); return std::max<std::size_t>(1,s); };
   auto verify = [&](const char* when) { for(auto& b : live) for(std::size_t k=0;k<b.n;k += (b.n > 300 ? b.n/97+1 : 1)) REQUIRE(b.p[k] == b.pat,"pool block of " << b.n << " bytes changed " << when << "; " << h.str().substr(0,500)); };
   auto alloc = [&](std::size_t n) { auto* p = (unsigned char*)pool.allocate(n); REQUIRE(p,"null block"); REQUIRE(((uintptr_t)p & 15) == 0,"block of " << n << " bytes is not 16-byte aligned; " << h.str().substr(0,500));
      for(auto& b : live) REQUIRE(p + n <= b.p || b.p + b.n <= p,"block of " << n << " bytes overlaps a live block of " << b.n << " bytes; " << h.str().substr(0,500)); memset(p,pat,n); live.push_back({p,n,pat}); pat = pat == 255 ? 1 : pat+1; st.add("blocks"); };
   const int n = r.in(1,80);
   for(int k=0;k<n;k++) { int op = r.in(0,19); sg = mix(sg,op);
      if (op < 13) { auto s = size(); h << " " << s; alloc(s); }
      else if (op < 15) { marks.push_back({pool.mark(),live.size()}); h << " mark"; }
      else if (op < 17) { if (marks.empty()) continue; int d = r.in(1,(int)marks.size()); M m = marks[marks.size()-d]; marks.resize(marks.size()-d); pool.clear(m.m); live.resize(m.nb); h << " clear" << d; st.add("clears"); if (r.chance(50)) marks.push_back(m); }
      else if (op == 17 && r.chance(15)) { pool.clear(); live.clear(); marks.clear(); h << " clearall"; st.add("clears"); }
      else { verify("while other blocks were allocated"); continue; }
      st.add("operations"); 
      if (r.chance(20)) verify("while other blocks were allocated");
   }
   verify("while other blocks were allocated");
   // repeating one pattern after clearing to a mark must not grow the pool and must hand out the same memory
   auto mk = pool.mark(); auto nb = live.size(); std::vector<std::size_t> pats; int c = r.in(1,25); for(int k=0;k<c;k++) pats.push_back(size());
   std::vector<std::pair<uintptr_t,std::size_t>> owned; 
   for(int round=0;round<4;round++) { uint64_t b0 = g_newBytes; std::vector<unsigned char*> got; got.reserve(c); uint64_t b1 = g_newBytes; for(auto s : pats) { uint64_t x = g_newBytes; got.push_back((unsigned char*)pool.allocate(s)); if (round > 0) { REQUIRE(g_newBytes == x,"pool grew in round " << round << " of one repeated pattern; " << h.str().substr(0,500)); } memset(got.back(),7,s); }
      pool.clear(mk); (void)b0; (void)b1; verify("after clearing to a later mark"); st.add("pattern_rounds"); }
   live.resize(nb); if (n > 3) st.sig(sg); st.mx("live_blocks",nb); st.sample(h.str().substr(0,250));
}
#endif
// ------------------------------------------------------------------ C23
#if VF_HAS(23)
// element types: a plain int, a 24-byte record (so that strides and padding matter) and a double
struct VRec { int a=0; long b=0; char c=0; VRec() {} VRec(int x) : a(x),b(-7l*x),c((char)(x&63)) {} bool operator==(const VRec& o) const { return a == o.a && b == o.b && c == o.c; } friend std::ostream& operator<<(std::ostream& os,const VRec& v) { return os << v.a << (v.b == -7l*v.a ? "" : "!"); } };
static_assert(sizeof(VRec) == 24);
template <class SZT,class T> static void vecCase(Rng& r) {
   auto sh = [](const std::vector<T>& q) { std::ostringstream o; for(auto& e : q) o << e << ","; return o.str(); };
   Pool p1,p2(1024); typedef Vec<T,SZT> V; const int K=3; std::vector<V> v; std::vector<std::vector<T>> m(K); for(int i=0;i<K;i++) v.push_back(V(i==1 ? &p2 : &p1,(SZT)r.in(0,3))); std::ostringstream h; const int n = r.chance(95) ? r.in(1,60) : r.in(300,2000); uint64_t sg=n; int x=1;
   auto check = [&](int i) { const V& c = v[i]; REQUIRE((size_t)c.size() == m[i].size(),"vector size " << c.size() << " expected " << m[i].size() << " after" << h.str().substr(0,600));
      std::vector<T> a,b,d,e,f,g; for(size_t k=0;k<m[i].size();k++) { a.push_back(c.get((SZT)k)); REQUIRE(c[(SZT)k] == m[i][k],"element " << k << " is " << c[(SZT)k] << " expected " << m[i][k] << " after" << h.str().substr(0,600)); } for(auto q : v[i]) b.push_back(q); for(auto it = c.cbegin();it != c.cend();++it) d.push_back(*it);
      { auto it = v[i].cend(); std::vector<T> q; while(it != v[i].cbegin()) { --it; q.push_back(*it); } std::reverse(q.begin(),q.end()); REQUIRE(q == m[i],"vector read backwards through const iterators holds " << sh(q) << " expected " << sh(m[i]) << " after" << h.str().substr(0,600)); }
      { auto it = v[i].end(); while(it != v[i].begin()) { --it; e.push_back(*it); } std::reverse(e.begin(),e.end()); }
      for(auto it = v[i].rbegin();it != v[i].rend();++it) f.push_back(*it); std::reverse(f.begin(),f.end()); for(auto it = v[i].begin();it != v[i].end();it++) g.push_back(*it);
      REQUIRE(a == m[i] && b == m[i] && d == m[i] && e == m[i] && f == m[i] && g == m[i],"vector holds " << sh(b) << " expected " << sh(m[i]) << " after" << h.str().substr(0,600)); if (m[i].size() < 20) { std::ostringstream o; o << "["; for(size_t k=0;k<m[i].size();k++) o << (k?",":"") << m[i][k]; o << "]"; REQUIRE(VF_STR(c) == o.str(),"vector prints " << VF_STR(c)); } st.add("states_compared"); };
   for(int k=0;k<n;k++) { int i = r.in(0,K-1),j = r.in(0,K-1); int op = r.in(0,19); sg = mix(sg,op*9+i*3+j); auto& M = m[i];
      switch(op) {
         case 0: case 1: case 2: case 3: case 4: case 5: case 6: { int c = r.in(1,4); for(int q=0;q<c;q++) { size_t ix = v[i].push_back(x); REQUIRE(ix == M.size(),"push_back returned index " << ix << " expected " << M.size()); M.push_back(x++); } h << " push" << c; break; }
         case 7: case 8: if (!M.empty()) { T q = v[i].pop_back(); REQUIRE(q == M.back(),"pop_back gives " << q << " expected " << M.back() << " after" << h.str().substr(0,600)); M.pop_back(); h << " pop"; } break;
         case 9: case 10: if (!M.empty()) { int ix = r.in(0,(int)M.size()-1); v[i].at((SZT)ix,x); M[ix] = x++; h << " at" << ix; } break;
         case 11: { int ix = r.chance(60) ? (int)M.size() : r.in(std::max(0,(int)M.size()-1),(int)M.size()); const T lv(x); if (r.chance(50)) v[i][(SZT)ix] = T(x); else v[i][(SZT)ix] = lv; M.resize(ix+1); { T back = v[i][(SZT)ix]; REQUIRE(back == lv,"element " << ix << " reads back " << back << " after" << h.str().substr(0,600)); } M[ix] = x++; h << " []=" << ix; break; }
         case 12: case 13: case 14: if (!M.empty()) { int ix = r.in(0,(int)M.size()-1); int calls=0; T seen(-1); T last = M.back(); auto nz = v[i].remove((SZT)ix,[&](T q) { calls++; seen = q; }); REQUIRE(calls == 1 && seen == last,"removal reported " << seen << " (" << calls << " calls) instead of the moved element " << last << " after" << h.str().substr(0,600)); M[ix] = last; M.pop_back(); REQUIRE((size_t)nz == M.size(),"remove returned " << nz); h << " rm" << ix; break; }
            break;
         case 15: if (r.chance(40)) { v[i].clear(); M.clear(); h << " clear"; } break;
         case 16: if (r.chance(60)) { if (i == j) break; const int kind = r.in(0,2); V* p = &v[i]; p->~V(); if (kind < 2) { ::new ((void*)p) V(v[j]); m[i] = m[j]; h << " cctor" << j; } else { ::new ((void*)p) V(std::move(v[j])); m[i] = m[j]; m[j].clear(); h << " mctor" << j; }
               for(int q=r.in(0,2);q>0;q--) { int t = r.chance(50) ? i : j; v[t].push_back(x); m[t].push_back(x++); h << " push@" << t; } break; }
            else { V t(v[j]); m[i] = std::vector<T>(m[j]); v[i] = t; h << " copy" << j; if (t.size()) { t.at(0,-1); } break; }
         case 17: if (i != j) { v[i] = v[j]; m[i] = m[j]; h << " assign" << j; } break;
         case 18: { Pool* o = v[i].getPool(); V t(o == &p1 ? &p2 : &p1,v[j]); std::vector<T> c = m[j]; REQUIRE((size_t)t.size() == c.size(),"copy into another pool has size " << t.size()); for(size_t q=0;q<c.size();q++) REQUIRE(t.get((SZT)q) == c[q],"copy into another pool differs"); t.push_back(x); c.push_back(x++); v[i] = std::move(t); m[i] = c; h << " xpool" << j; break; }
         default: if (i != j) { v[i] = std::move(v[j]); m[i] = m[j]; m[j].clear(); h << " move" << j; if (r.chance(50)) { V t(std::move(v[i])); check(i == 0 ? 1 : 0); v[i] = std::move(t); } }
      }
      for(int q=0;q<K;q++) if (n < 100 || q == i) check(q); st.add("operations");
   }
   if (n > 3) st.sig(sg); st.sample(h.str().substr(0,250));
}
static void c23(Rng& r,long) { switch(r.in(0,7)) { case 0: vecCase<unsigned,VRec>(r); break; case 1: vecCase<std::size_t,VRec>(r); break; case 2: vecCase<std::size_t,double>(r); break; case 3: case 4: vecCase<unsigned,int>(r); break; default: vecCase<std::size_t,int>(r); } }
#endif
// ------------------------------------------------------------------ C24
#if VF_HAS(24)
template <class T,class G,class C> static void sortCase(Rng& r,int n,G gen,C cmp,const char* what) {
   std::vector<T> a; for(int k=0;k<n;k++) a.push_back(gen(k)); auto b = a; a.reserve(n+1); mergeSort(a.data(),(std::size_t)n,cmp);
   for(int k=0;k+1<n;k++) REQUIRE(!cmp(a[k+1],a[k]),"sorting " << n << " " << what << ": element " << k+1 << " should precede element " << k);
   auto c = a; std::sort(b.begin(),b.end()); std::sort(c.begin(),c.end()); REQUIRE(b == c,"sorting " << n << " " << what << " is no permutation of the input");
   st.add("elements_sorted",n); st.mx("length",n);
}
static void c24(Rng& r,long k) {
   int n = k < 70 ? (int)k : r.chance(90) ? r.in(0,300) : r.in(300,5000); if (r.in(1,4000) == 1) n = 1500000; int range = std::vector<int>{1,3,50,1000000}[r.in(0,3)]; int shape = r.in(0,4);
   auto g = [&](int i) { return shape == 0 ? i : shape == 1 ? -i : shape == 2 ? i/std::max(1,n/4) : r.in(-range,range); };
   switch(r.in(0,4)) { case 0: sortCase<int>(r,n,g,[](int a,int b) { return a < b; },"ints ascending"); break; case 1: sortCase<int>(r,n,g,[](int a,int b) { return a > b; },"ints descending"); break;
      case 2: sortCase<double>(r,n,[&](int i) { return g(i)/8.0; },[](double a,double b) { return a < b; },"doubles"); break;
      case 3: sortCase<std::pair<int,int>>(r,n,[&](int i) { return std::make_pair(g(i)%7,i); },[](const auto& a,const auto& b) { return a.first < b.first; },"pairs by key (ties)"); break;
      default: if (n > 2000) n = 2000; sortCase<std::string>(r,n,[&](int i) { return std::string(r.in(0,40),'x') + std::to_string(g(i)); },[](const std::string& a,const std::string& b) { return a.size() < b.size(); },"strings by length"); }
   if (n > 1) st.sig(mix(n,mix(range,shape*100+k))); st.sample(VF_STR("length " << n << " shape " << shape << " range " << range));
}
#endif
// ------------------------------------------------------------------ C25
#if VF_HAS(25)
static void c25(Rng& r,long) {
   UnionFind<int> uf; typedef UnionFind<int>::Node::Ptr P; std::vector<P> nd; std::vector<int> cls; int n = r.in(1,60),ops = r.in(1,150); uint64_t sg=n; std::ostringstream h;
   auto classes = [&]() { for(size_t i=0;i<nd.size();i++) for(size_t j=0;j<=i;j++) REQUIRE((uf.setFor(nd[i]) == uf.setFor(nd[j])) == (cls[i] == cls[j]),"elements " << i << " and " << j << (cls[i]==cls[j] ? " were connected but have different representatives" : " share a representative but were never connected") << "; " << h.str().substr(0,600)); st.add("pairs_compared",nd.size()*nd.size()/2); };
   for(int k=0;k<ops;k++) { if ((int)nd.size() < n && (nd.empty() || r.chance(40))) { nd.push_back(uf.makeSet((int)nd.size())); cls.push_back((int)nd.size()-1); h << " new"; REQUIRE(uf.setFor(nd.back()) == nd.back(),"a new set is not its own representative"); }
      else { int i = r.in(0,(int)nd.size()-1),j = r.in(0,(int)nd.size()-1); if (r.chance(30)) j = (int)nd.size()-1; auto m = uf.merge(nd[i],nd[j]); int a = cls[i],b = cls[j]; for(auto& c : cls) if (c == b) c = a; h << " m" << i << "," << j; sg = mix(sg,i*100+j);
         REQUIRE(m == uf.setFor(nd[i]) && m == uf.setFor(nd[j]),"merge(" << i << "," << j << ") did not return the representative of the merged set; " << h.str().substr(0,600)); st.add("merges"); }
      { int i = r.in(0,(int)nd.size()-1),j = r.in(0,(int)nd.size()-1); REQUIRE((uf.setFor(nd[i]) == uf.setFor(nd[j])) == (cls[i] == cls[j]),"connectivity of " << i << " and " << j << " wrong; " << h.str().substr(0,600)); auto p = uf.setFor(nd[i]); REQUIRE(uf.setFor(p) == p,"representative is not its own representative"); }
      if (r.chance(10)) classes(); st.add("operations"); }
   classes(); if (ops > 3) st.sig(sg); st.sample(h.str().substr(0,200));
}
#endif
// ------------------------------------------------------------------ C26
#if VF_HAS(26)
template <class T,class MK> static void farrayCase(Rng& r,MK mk) {   // mk: int -> T
     typedef std::vector<T> VI; const int K=3; std::vector<FArray<T>> a(K); std::vector<VI> m(K); std::ostringstream h; int n = r.in(1,20); auto chk = [&](int i) { REQUIRE(a[i].size() == m[i].size(),"FArray size " << a[i].size() << " expected " << m[i].size() << " after" << h.str()); const auto& c = a[i]; for(size_t k=0;k<m[i].size();k++) REQUIRE(c[k] == m[i][k] && a[i][k] == m[i][k],"FArray element " << k << " is " << c[k] << " expected " << m[i][k] << " after" << h.str()); VI v; for(auto x : a[i]) v.push_back(x); REQUIRE(v == m[i],"FArray iterates " << sh(v) << " expected " << sh(m[i]));
        std::ostringstream o; o << '(' << m[i].size() << ")["; for(size_t k=0;k<m[i].size();k++) o << k << ':' << m[i][k] << " "; o << ']'; REQUIRE(VF_STR(a[i]) == o.str(),"FArray prints " << VF_STR(a[i])); st.add("arrays_compared"); };
     for(int k=0;k<n;k++) { int i = r.in(0,K-1),j = r.in(0,K-1); switch(r.in(0,7)) { case 0: { int s = r.in(0,9); T v = mk(r.in(-9,9)); a[i] = FArray<T>(s,v); m[i] = VI(s,v); h << " new" << s; break; }
           case 1: { int s = r.in(0,6); FArray<T> t(s); VI u(s); for(int q=0;q<s;q++) { t[q] = mk(q*q); u[q] = mk(q*q); } a[i] = t; m[i] = u; h << " fill" << s; break; }
           case 2: case 3: if (!m[i].empty()) { int q = r.in(0,(int)m[i].size()-1); a[i][q] = mk(k+50); m[i][q] = mk(k+50); h << " w" << q; } break; case 4: { FArray<T> t(a[j]); if (t.size()) t[0] = mk(777); VI u = m[j]; if (!u.empty()) u[0] = mk(777); chk(j); a[i] = t; m[i] = u; h << " copy" << j; break; }
           case 5: { VI u = m[j]; a[i] = a[j]; m[i] = u; h << " assign" << j; break; } case 6: if (i != j) { a[i] = std::move(a[j]); m[i] = m[j]; m[j].clear(); h << " move" << j; } break; default: if (i != j) { FArray<T> t(std::move(a[j])); m[i] = m[j]; m[j].clear(); a[i] = std::move(t); h << " mctor" << j; } }
        for(int q=0;q<K;q++) chk(q); REQUIRE((a[i] == a[j]) == (m[i] == m[j]) && (a[j] == a[i]) == (m[i] == m[j]),"FArray equality wrong after" << h.str()); if (a[i].size() && r.chance(30)) { for(auto it = a[i].begin();it != a[i].end();it++) { *it = mk(k); break; } m[i][0] = mk(k); chk(i); h << " it="; } st.add("operations"); } st.sig(sigOf(h.str())); st.sample(h.str().substr(0,200)); }
static void c26(Rng& r,long) {
   { int f = r.in(-20,60),t = r.in(-20,60); auto ref = [&](int a,int b) { std::vector<int> v; for(int k=a;k != b;k += a <= b ? 1 : -1) v.push_back(k); return v; }; // [a,b)
     auto chk = [&](const Range& g,const std::vector<int>& want,const std::string& what) { std::vector<int> got,post; size_t guard=0; for(int v : g) { got.push_back(v); if (++guard > 300) break; } guard=0; for(auto i = g.begin();i != g.end();i++) { post.push_back(*i); if (++guard > 300) break; }
        REQUIRE(got == want && post == want,what << " iterates " << sh(got) << " expected " << sh(want)); REQUIRE(g.size() == (int)want.size(),what << " has size " << g.size() << " expected " << want.size()); st.add("ranges"); };
     std::string n = VF_STR("(" << f << "," << t << ")"); auto close = ref(f,t); close.push_back(t); chk(Range(f,t),ref(f,t),"Range"+n); chk(Range::open(f,t),ref(f,t),"Range::open"+n); chk(Range::close(f,t),close,"Range::close"+n);
     chk(Range::openInc(f,t),f <= t ? ref(f,t) : std::vector<int>{},"Range::openInc"+n); chk(Range::closeInc(f,t),f <= t ? close : std::vector<int>{},"Range::closeInc"+n);
     if (f <= t) { auto w = ref(f,t); std::reverse(w.begin(),w.end()); chk(Range(f,t).flip(),w,"Range"+n+".flip()"); } Range c(Range::open(f,t)); Range d(c); chk(d,ref(f,t),"copied Range"+n); REQUIRE(c.from() == f && c.to() == t,"Range bounds"); st.sig(mix(f+100,t+100)); }
   switch(r.in(0,3)) { case 0: farrayCase<std::string>(r,[](int v) { return std::string(v & 31,'y') + std::to_string(v); }); break; case 1: farrayCase<GNSet>(r,[](int v) { GNSet g {}; g.insert(std::abs(v)); g.insert(std::abs(v)*3+1); return g; }); break; default: farrayCase<int>(r,[](int v) { return v; }); }
   { std::map<int,int> mm; std::vector<double> vd; std::vector<std::string> vs; int n = r.in(0,9); long e=0; double ed=0; std::string cat; for(int k=0;k<n;k++) { mm[r.in(-20,20)] = r.in(-50,50); vd.push_back(r.in(-40,40)/4.0); ed += 2*vd.back()+1; vs.push_back(std::to_string(r.in(0,99))); cat += vs.back() + "|"; } for(auto& [k,v] : mm) e += k*100+v;
     REQUIRE((sum<long>(mm,[](const auto& k,const auto& v) { return (long)k*100+v; })) == e,"sum over a map of " << n << " entries gives another value than " << e);
     REQUIRE((std::abs(sum<double,double>(vd,[](const double& v) { return 2*v+1; }) - ed) < 1e-9),"sum over a vector of doubles is not " << ed); REQUIRE((sum<std::string,std::string>(vs,[](const std::string& v) { return v + "|"; })) == cat,"sum over strings"); REQUIRE(std::foldl(vs,[](std::string a,const std::string& v) { return a + v + "|"; },std::string()) == cat,"fold over a vector of strings");
     std::string w = r.chance(50) && n ? vs[r.in(0,n-1)] : "none"; REQUIRE(std::member(vs,[&](const std::string& v) { return v == w; }) == (w != "none"),"member of a vector"); std::ostringstream o; o << "(" << n << ")["; for(auto& v : vs) o << v << " "; o << "]"; REQUIRE(VF_STR(vs) == o.str(),"vector prints " << VF_STR(vs));
     int lo = r.in(0,200),hi = lo + r.in(0,90); GNSet g1 = setFrom(std::views::iota(lo,hi)),g2 = setFrom(std::views::iota((long)lo,(long)hi)),g3 = setFrom(std::views::iota((unsigned)lo,(unsigned)hi)); int c = 0; for(int v=lo;v<hi;v++) c += g1.contains(v) && g2.contains(v) && g3.contains(v); REQUIRE(c == hi-lo && g1.size() == c && g2.size() == c && g3.size() == c,"setFrom(" << lo << ".." << hi << ")"); 
     REQUIRE(std::foldl(g1,[](long a,int v) { return a*3 % 100003 + v; },7L) == std::foldl(std::vector<int>(std::views::iota(lo,hi).begin(),std::views::iota(lo,hi).end()),[](long a,int v) { return a*3 % 100003 + v; },7L),"fold over a set"); st.add("helpers",8); }
   { int R = r.in(1,7),C = r.in(1,7); Matrix<int,2> x(R,C); std::vector<std::vector<int>> m(R,std::vector<int>(C)); for(int i=0;i<R;i++) for(int j=0;j<C;j++) { x[i][j] = m[i][j] = r.in(-99,99); } for(int k=0;k<5;k++) { int i=r.in(0,R-1),j=r.in(0,C-1); x[i][j] = m[i][j] = k+1000; }
     Matrix<int,2> y(x),z; z = x; x[0][0] = -5; auto chk = [&](Matrix<int,2>& q,int first,const char* w) { for(int i=0;i<R;i++) for(int j=0;j<C;j++) { int e = (i||j) ? m[i][j] : first; REQUIRE(q[i][j] == e,w << " matrix " << R << "x" << C << " holds " << q[i][j] << " at " << i << "," << j << " expected " << e); } REQUIRE(q.getDim(0) == R && q.getDim(1) == C && q.getArity() == 2,"matrix dimensions"); };
     chk(x,-5,"written"); chk(y,m[0][0],"copied"); chk(z,m[0][0],"assigned"); std::ostringstream o; for(int i=0;i<R;i++) for(int j=0;j<C;j++) o << "m[" << i << "][" << j << "] = " << m[i][j] << "\n"; REQUIRE(VF_STR(y) == o.str(),"matrix prints\n" << VF_STR(y) << "expected\n" << o.str());
     int dm[3] = {r.in(1,4),r.in(1,4),r.in(1,4)}; FMatrix<FArray<int>,3> t(dm); for(int i=0;i<dm[0];i++) for(int j=0;j<dm[1];j++) for(int k=0;k<dm[2];k++) t[i][j][k] = i*100+j*10+k; auto u = t; for(int i=0;i<dm[0];i++) for(int j=0;j<dm[1];j++) for(int k=0;k<dm[2];k++) REQUIRE(u[i][j][k] == i*100+j*10+k,"3-d matrix holds " << u[i][j][k] << " at " << i << "," << j << "," << k); st.add("matrices",2); }
   { std::set<int> a,b; int n = r.in(0,8); for(int k=0;k<n;k++) a.insert(r.in(-9,9)); n = r.in(0,8); for(int k=0;k<n;k++) b.insert(r.in(-9,9)); std::set<int> u,i,f; u = a; u.insert(b.begin(),b.end()); for(int v : a) if (b.count(v)) i.insert(v); for(int v : a) if (v%2==0) f.insert(v); std::string w = "std::set helper on " + pr(a) + " and " + pr(b) + ": ";
     REQUIRE((a | b) == u,w << "union"); REQUIRE((a & b) == i,w << "intersection"); REQUIRE(std::filter(a,[](int v) { return v%2==0; }) == f,w << "filter"); REQUIRE(std::min(a) == (a.empty() ? std::numeric_limits<int>::max() : *a.begin()),w << "min"); REQUIRE(std::max(a) == (a.empty() ? std::numeric_limits<int>::min() : *a.rbegin()),w << "max");
     int x = r.in(-9,9); auto c = a; c.erase(x); REQUIRE((::remove<int>(a,x)) == c,w << "remove " << x); REQUIRE(std::member(a,[x](int v) { return v == x; }) == (a.count(x) > 0),w << "member"); long s=0; for(int v : a) s += v*3+1; REQUIRE(sum(a,[](const int& v) { return v*3+1; }) == s,w << "sum"); std::string fo; for(int v : a) fo += std::to_string(v) + ";"; REQUIRE(std::foldl(a,[](std::string acc,int v) { return acc + std::to_string(v) + ";"; },std::string()) == fo,w << "foldl");
     std::vector<int> vv(a.begin(),a.end()); REQUIRE((sum<int,int>(vv,[](const int& v) { return v*3+1; })) == s,w << "vector sum"); REQUIRE(VF_STR(a) == pr(a),w << "prints " << VF_STR(a)); st.add("set_helpers"); }
   for(int k=0;k<4;k++) { unsigned long long x = r.chance(30) ? (1ull << r.in(0,63)) : r.next(),y=0; for(int b=0;b<64;b++) if (x >> b & 1) y |= 1ull << (63-b); REQUIRE(std::revBitsOfWord(x) == y,"revBitsOfWord(" << x << ")"); REQUIRE(std::revBitsOfLong(x) == y,"revBitsOfLong(" << x << ")"); unsigned char c = (unsigned char)x,d=0; for(int b=0;b<8;b++) if (c >> b & 1) d |= 1 << (7-b); REQUIRE(std::revBitsOfByte(c) == d,"revBitsOfByte(" << (int)c << ")"); st.add("bit_reversals",3); }
}
#endif
// ------------------------------------------------------------------ C27
#if VF_HAS(27)
static void c27(Rng& r,long) {
   Pool pool; unsigned id=0; auto mk = [&]() { auto* n = new (&pool) ANode(&pool,id++,true); n->setBound(r.in(0,20)); return n; }; std::ostringstream h; uint64_t sg=0; auto cut = [&]() { auto s = h.str(); return s.size() > 600 ? s.substr(s.size()-600) : s; };
   if (r.chance(55)) { int isz = r.chance(50) ? r.in(1,4) : 128; NDArray a(isz); std::vector<ANode*> ref; const int n = r.chance(90) ? r.in(1,60) : r.in(200,700); bool pristine = true; int popped=0; h << "NDArray(" << isz << ")";
      auto chk = [&]() { REQUIRE(a.size() == ref.size(),"node array size " << a.size() << " expected " << ref.size() << " after " << cut()); std::vector<ANode*> v; for(auto x : a) { v.push_back(x.get()); REQUIRE(v.size() <= ref.size()+2,"node array iteration too long after " << cut()); } REQUIRE(v == ref,"node array iterates " << v.size() << " nodes in another order or with other content than expected after " << cut()); REQUIRE(a.size() == ref.size(),"node array size changed by iteration after " << cut()); st.add("states_compared"); };
      for(int k=0;k<n;k++) { int op = r.in(0,19); sg = mix(sg,op);
         if (op < 8) { int c = r.chance(10) ? r.in(5,40) : 1; for(int q=0;q<c;q++) { auto* x = mk(); a.push_back(x); ref.push_back(x); } h << " +" << c; }
         else if (op < 11) { if (ref.empty()) continue; int p = r.in(0,(int)ref.size()-1); auto it = a.begin(); for(int q=0;q<p;q++) ++it; REQUIRE((*it).get() == ref[p],"iterator shows another node after " << cut()); auto nx = r.chance(50) ? a.erase(it) : it.erase(); ref.erase(ref.begin()+p); pristine = false; h << " e" << p; if (p < (int)ref.size()) REQUIRE(nx != a.end() && (*nx).get() == ref[p],"erase does not return the next node after " << cut()); else REQUIRE(nx == a.end(),"erase of the last node does not return end() after " << cut()); }
         else if (op < 13) { if (ref.empty()) continue; REQUIRE(a.front().get() == ref.front(),"front() is another node after " << cut()); if (r.chance(60)) { auto* f = ref.front(); a.pop_front(); ref.erase(ref.begin()); pristine = false; popped++; h << " pf"; if (r.chance(40)) { a.push_front(f); ref.insert(ref.begin(),f); h << " +f"; } } }
         else if (op < 15) { if (!pristine) continue; a.sort([](const ANode::Ptr& x,const ANode::Ptr& y) { return x->getBound() < y->getBound(); }); h << " sort"; std::vector<ANode*> v; for(auto x : a) v.push_back(x.get()); auto s1 = v,s2 = ref; std::sort(s1.begin(),s1.end()); std::sort(s2.begin(),s2.end()); REQUIRE(s1 == s2,"sorting the node array changed its content after " << cut()); for(size_t q=0;q+1<v.size();q++) REQUIRE(v[q]->getBound() <= v[q+1]->getBound(),"node array not sorted after " << cut()); ref = v; }
         else if (op < 17) { if (!pristine || ref.empty()) continue; int p = r.in(0,(int)ref.size()); a.eraseSuffix(a.at(p)); ref.resize(p); h << " cut" << p; }
         else if (op == 17) { if (!pristine) continue; for(size_t q=0;q<ref.size();q++) REQUIRE(a[q].get() == ref[q],"node array index " << q << " after " << cut()); }
         else if (op == 18) { if (ref.size() < 2) continue; int p = r.in(1,(int)ref.size()-1); auto it = a.begin(); for(int q=0;q<p;q++) it++; --it; REQUIRE((*it).get() == ref[p-1],"stepping back shows another node after " << cut()); }
         else if (r.chance(25)) { a.clear(); ref.clear(); pristine = true; h << " clear"; }
         if (r.chance(60)) chk(); else REQUIRE(a.size() == ref.size(),"node array size " << a.size() << " expected " << ref.size() << " after " << cut()); st.add("operations"); }
      chk();
      st.mx("size",ref.size());
   } else { ANList l; std::list<ANode*> ref; std::vector<ANode*> out; const int n = r.in(1,90); h << "ANList";
      auto chk = [&]() { REQUIRE(l.size() == ref.size(),"node list size " << l.size() << " expected " << ref.size() << " after " << cut()); std::vector<ANode*> v,b; for(auto x : l) { v.push_back(x.get()); REQUIRE(v.size() <= ref.size()+2,"node list iteration too long after " << cut()); } REQUIRE(std::equal(v.begin(),v.end(),ref.begin(),ref.end()),"node list iterates other nodes than expected after " << cut());
         if (!ref.empty()) { REQUIRE(l.front().get() == ref.front() && l.back().get() == ref.back(),"front() or back() wrong after " << cut()); auto it = l.begin(); for(size_t q=0;q+1<ref.size();q++) ++it; for(size_t q=0;q<ref.size();q++) { b.push_back((*it).get()); if (q+1<ref.size()) --it; } REQUIRE(std::equal(b.begin(),b.end(),ref.rbegin(),ref.rend()),"backward iteration of the node list wrong after " << cut()); } else REQUIRE(!l.front() && !l.back() && l.begin() == l.end(),"empty list has ends after " << cut()); st.add("states_compared"); };
      for(int k=0;k<n;k++) { int op = r.in(0,19); sg = mix(sg,op+50);
         if (op < 8) { auto* x = mk(); l.push_back(x); ref.push_back(x); h << " +"; } else if (op < 11) { if (out.empty()) continue; auto* x = out.back(); out.pop_back(); l.push_back(x); ref.push_back(x); h << " re+"; }
         else if (op < 15) { if (ref.empty()) continue; int p = r.chance(30) ? 0 : r.chance(30) ? (int)ref.size()-1 : r.in(0,(int)ref.size()-1); auto it = std::next(ref.begin(),p); REQUIRE(l.confirmMembership(*it),"membership of a listed node denied"); l.remove(*it); out.push_back(*it); ref.erase(it); h << " -" << p; REQUIRE(!l.confirmMembership(out.back()),"removed node still a member after " << cut()); }
         else if (op < 18) { if (ref.empty()) continue; l.pop_back(); out.push_back(ref.back()); ref.pop_back(); h << " pop"; } else if (op == 18 && r.chance(20)) { for(auto* x : ref) out.push_back(x); l.clear(); for(auto* x : ref) x->reset(); ref.clear(); h << " clear"; }
         else { ANList c(l); std::vector<ANode*> v; for(auto x : c) v.push_back(x.get()); REQUIRE(std::equal(v.begin(),v.end(),ref.begin(),ref.end()),"copied list differs"); }
         chk(); st.add("operations"); } }
   st.sig(sg); st.sample(h.str().substr(0,200));
}
#endif
// ------------------------------------------------------------------ C32
#if VF_HAS(32)
struct HB { int id; static inline std::map<int,int> live; HB(int i) : id(i) { live[i]++; } virtual ~HB() { live[id]--; } virtual int kind() const { return 1; } };
struct HX { long pad = 42; virtual ~HX() {} };
struct HD : HX, HB { int extra; HD(int i,int e) : HB(i),extra(e) {} ~HD() override { extra = -1; } int kind() const override { return 2; } };
template <template <class> class P> static void handleCase(Rng& r,const char* nm) {
   typedef P<HB> PB; typedef P<HD> PD; HB::live.clear(); const int K = r.in(2,5),n = r.in(1,80); std::vector<PB> b(K); std::vector<PD> d(K); std::vector<HB*> mb(K,nullptr); std::vector<HD*> md(K,nullptr); std::vector<char> gb(K,0),gd(K,0); // moved-from handles are only assigned to
   std::set<HB*> alive; int next = 0; std::ostringstream h; h << nm;
   auto kill = [&](HB* x) { alive.erase(x); for(int q=0;q<K;q++) { if (mb[q] == x) { b[q] = PB(nullptr); mb[q] = nullptr; } if (md[q] && (HB*)md[q] == x) { d[q] = PD(nullptr); md[q] = nullptr; } } };
   auto chk = [&]() {
      for(int q=0;q<K;q++) { if (gb[q] == 0) { PB& x = b[q]; const PB& cx = x; HB* m = mb[q]; REQUIRE((bool)x == (m != nullptr),nm << " claims to be " << ((bool)x ? "set" : "null") << " after" << h.str()); REQUIRE(x.get() == m && cx.get() == m,nm << " gets another address after" << h.str());
            if (m) { REQUIRE(x->id == m->id && (*x).id == m->id && cx->id == m->id && &*x == m && x->kind() == m->kind(),nm << " reaches another object after" << h.str()); } }
         if (gd[q] == 0) { PD& x = d[q]; HD* m = md[q]; REQUIRE((bool)x == (m != nullptr) && x.get() == m,nm << " of a derived class changed after" << h.str()); if (m) REQUIRE(x->extra == m->extra && (*x).id == m->id,nm << " of a derived class reaches another object after" << h.str()); } }
      for(int i=0;i<K;i++) for(int j=0;j<K;j++) { if (!gb[i] && !gb[j]) { REQUIRE((b[i] == b[j]) == (mb[i] == mb[j]),nm << " equality of " << i << " and " << j << " wrong after" << h.str()); REQUIRE((b[i] != b[j]) == (mb[i] != mb[j]),nm << " inequality of " << i << " and " << j << " wrong after" << h.str()); }
         if (!gb[i] && !gd[j]) REQUIRE((b[i] == d[j]) == (mb[i] == (HB*)md[j]),nm << " equality with a derived handle wrong after" << h.str()); }
      for(auto [id,c] : HB::live) { bool a = false; for(auto x : alive) a = a || x->id == id; REQUIRE(c == (a ? 1 : 0),"object " << id << " exists " << c << " times after" << h.str()); } };
   for(int k=0;k<n;k++) { int i = r.in(0,K-1),j = r.in(0,K-1);
      switch(r.in(0,13)) {
         case 0: case 1: { HB* x = new HB(next++); alive.insert(x); if (r.chance(50)) b[i] = x; else { PB t(x); b[i] = t; } mb[i] = x; gb[i] = 0; h << " newB" << i; break; }
         case 2: case 3: { HD* x = new HD(next,next*3); next++; alive.insert(x); if (r.chance(50)) d[i] = x; else { PD t(x); PD u(t); d[i] = u; } md[i] = x; gd[i] = 0; h << " newD" << i; break; }
         case 4: if (gb[j]) break; b[i] = b[j]; mb[i] = mb[j]; gb[i] = 0; h << " copy" << j << i; break;
         case 5: if (gb[j] || i == j) break; b[i] = std::move(b[j]); mb[i] = mb[j]; mb[j] = nullptr; gb[i] = 0; gb[j] = 1; h << " move" << j << i; break;
         case 6: if (gd[j]) break; if constexpr (std::is_same_v<P<HB>,handle_ptr<HB>>) { if (r.chance(50)) { PB t(d[j]); b[i] = t; } else { PB t(std::move(PD(d[j]))); b[i] = std::move(t); } } else b[i] = (HB*)d[j].get(); mb[i] = md[j]; gb[i] = 0; h << " up" << j << i; break;
         case 7: if (gd[j]) break; { PD t(d[j]); d[i] = std::move(t); } md[i] = md[j]; gd[i] = 0; h << " copyD" << j << i; break;
         case 8: b[i] = PB(nullptr); mb[i] = nullptr; gb[i] = 0; h << " null" << i; break;
         case 9: { PD t; d[i] = t; md[i] = nullptr; gd[i] = 0; h << " nullD" << i; break; }
         case 10: if (gb[i] || !mb[i]) break; { HB* x = mb[i]; const int id = x->id; if (r.chance(50)) b[i].dealloc(); else b[i].free(); REQUIRE(!b[i] && b[i].get() == nullptr,nm << " is not null after its object was freed;" << h.str()); REQUIRE(HB::live[id] == 0,"object freed through a " << nm << " was destroyed " << 1-HB::live[id] << " times;" << h.str()); mb[i] = nullptr; kill(x); h << " free" << i; break; }
         case 11: if (gd[i] || !md[i]) break; { HD* x = md[i]; const int id = x->id; if (r.chance(50)) d[i].dealloc(); else d[i].free(); REQUIRE(!d[i],nm << " is not null after its object was freed;" << h.str()); REQUIRE(HB::live[id] == 0,"object freed through a derived " << nm << " was destroyed " << 1-HB::live[id] << " times;" << h.str()); md[i] = nullptr; kill(x); h << " freeD" << i; break; }
         case 12: if (gb[i] || !mb[i]) break; b[i]->id += 0; (*b[i]).id = mb[i]->id; h << " w" << i; break;
         default: if constexpr (std::is_same_v<P<HB>,handle_ptr<HB>>) { auto t = make_handle<HD>(next,next*3); REQUIRE(t && t->id == next && t->extra == next*3 && t->kind() == 2,"make_handle built another object;" << h.str()); next++; alive.insert(t.get()); d[i] = t; md[i] = t.get(); gd[i] = 0; h << " make" << i; } break; }
      chk(); st.add("operations"); }
   while(!alive.empty()) { HB* x = *alive.begin(); PB t(x); t.dealloc(); alive.erase(x); }
   for(auto [id,c] : HB::live) REQUIRE(c == 0,"object " << id << " survived or was destroyed twice after" << h.str());
   if (n > 3) st.sig(sigOf(h.str())); st.sample(h.str().substr(0,200));
}
static void c32(Rng& r,long) { if (r.chance(60)) handleCase<handle_ptr>(r,"handle_ptr"); else handleCase<strict_ptr>(r,"strict_ptr"); }
#endif
// ------------------------------------------------------------------ C33
#if VF_HAS(33)
template <class T,class CA,class MK,class OWN> static void arenaVectors(Rng& r,CA ca,MK mk,OWN own,bool bounded,const std::string& nm) {
   typedef stl::StackAdapter<T,CA> A; typedef std::vector<T,A> V; const int K=3; std::vector<V> a; std::vector<std::vector<T>> m(K); for(int q=0;q<K;q++) a.emplace_back(A(ca)); std::ostringstream h; h << nm; const int n = r.in(1,60); int full = 0;
   auto chk = [&]() { for(int q=0;q<K;q++) { REQUIRE(a[q].size() == m[q].size(),"vector " << q << " has " << a[q].size() << " elements, expected " << m[q].size() << " after" << h.str()); for(size_t p=0;p<m[q].size();p++) REQUIRE(a[q][p] == m[q][p],"element " << p << " of vector " << q << " changed after" << h.str());
         if (a[q].capacity()) { REQUIRE((uintptr_t)a[q].data() % alignof(T) == 0,"vector " << q << " is misaligned after" << h.str()); REQUIRE(own((char*)a[q].data(),a[q].capacity()*sizeof(T)),"vector " << q << " lies outside its arena after" << h.str()); }
         REQUIRE(a[q].get_allocator() == A(ca) && !(a[q].get_allocator() != A(ca)),"allocators of one arena differ"); } };
   for(int k=0;k<n;k++) { int i = r.in(0,K-1),j = r.in(0,K-1); try { switch(r.in(0,9)) {
         case 0: case 1: case 2: { int c = r.in(1,9); for(int q=0;q<c;q++) { T v = mk(r.in(-99,99)); if (r.chance(50)) a[i].push_back(v); else a[i].emplace_back(v); m[i].push_back(v); } h << " push" << c; break; }
         case 3: if (!m[i].empty()) { a[i].pop_back(); m[i].pop_back(); h << " pop"; } break;
         case 4: { size_t z = r.in(0,40); T v = mk(7); a[i].reserve(std::max(z,a[i].size())); a[i].resize(z,v); m[i].resize(z,v); h << " size" << z; break; }
         case 5: if (i != j) { V t(a[j]); std::vector<T> u(m[j]); a[i] = std::move(t); m[i] = std::move(u); h << " copy" << j << i; } break;
         case 6: if (i != j) { a[i] = std::move(a[j]); m[i] = m[j]; a[j].clear(); m[j].clear(); h << " move" << j << i; } break;
         case 7: { std::swap(a[i],a[j]); std::swap(m[i],m[j]); h << " swap" << j << i; break; }
         case 8: if (!m[i].empty()) { int p = r.in(0,(int)m[i].size()-1); a[i].erase(a[i].begin()+p); m[i].erase(m[i].begin()+p); h << " erase" << p; } break;
         default: { int p = r.in(0,(int)m[i].size()); T v = mk(r.in(0,9)); a[i].reserve(a[i].size()+1); a[i].insert(a[i].begin()+p,v); m[i].insert(m[i].begin()+p,v); h << " ins" << p; } }
      } catch(std::exception&) { REQUIRE(bounded,"an arena without limit refused memory after" << h.str()); full++; h << " full"; }
      chk(); st.add("operations"); }
   st.add("vector_histories"); if (full) st.add("histories_with_refusals"); if (n > 3) st.sig(sigOf(h.str())); st.sample(h.str().substr(0,200));
}
template <std::size_t N> static void coreCase(Rng& r) {
   typedef stl::CoreAlloc<N> CA; std::unique_ptr<CA> c(new CA); CA* ca = c.get(); REQUIRE(ca->capacity() == N,"an arena of " << N << " bytes claims " << ca->capacity()); char* base = (char*)ca->base();
   REQUIRE((stl::StackAdapter<long,CA*>(ca).max_size() == N/sizeof(long)),"max_size of an arena of " << N << " bytes");
   auto own = [&](char* p,size_t z) { return p >= base && p + z <= base + N; };
   if (r.chance(50)) { switch(r.in(0,2)) { case 0: arenaVectors<long>(r,ca,[](int v) { return (long)v*1000003; },own,true,VF_STR(" arena" << N)); break; case 1: arenaVectors<char>(r,ca,[](int v) { return (char)v; },own,true,VF_STR(" arena" << N)); break; default: arenaVectors<std::string>(r,ca,[](int v) { return std::string(std::abs(v)%40,'a'+std::abs(v)%26); },own,true,VF_STR(" arena" << N)); } return; }
   // raw blocks: consecutive, inside, exactly as much as there is, contents untouched by later ones
   size_t used = 0; struct B { unsigned char* p; size_t n; unsigned char f; }; std::vector<B> bl; std::ostringstream h; h << " arena" << N; const int n = r.in(1,30);
   for(int k=0;k<n;k++) { size_t z = r.chance(15) ? N-used : r.chance(15) ? N-used+r.in(1,9) : r.in(1,(int)std::max<size_t>(1,N/6)); if (z == 0) z = 1; h << " " << z; bool ok = true; void* p = nullptr; try { p = ca->allocate(z); } catch(std::bad_alloc&) { ok = false; }
      REQUIRE(ok == (z <= N-used),"a request for " << z << " of " << N-used << " free bytes was " << (ok ? "granted" : "refused") << ":" << h.str()); if (!ok) { st.add("refusals"); continue; } 
      REQUIRE(own((char*)p,z),"a block lies outside its arena:" << h.str()); used += z; unsigned char f = (unsigned char)r.in(0,255); memset(p,f,z); for(auto& b : bl) REQUIRE(b.p + b.n <= (unsigned char*)p || (unsigned char*)p + z <= b.p,"blocks overlap:" << h.str()); bl.push_back({(unsigned char*)p,z,f}); if (r.chance(10)) ca->free(p); st.add("operations"); }
   for(auto& b : bl) for(size_t q=0;q<b.n;q++) REQUIRE(b.p[q] == b.f,"a block lost its contents:" << h.str()); if (n > 3) st.sig(sigOf(h.str())); st.sample(h.str());
}
static void c33(Rng& r,long) {
   Capture cap;
   if (r.chance(50)) { switch(r.in(0,3)) { case 0: coreCase<64>(r); break; case 1: coreCase<1000>(r); break; case 2: coreCase<4096>(r); break; default: coreCase<1>(r); } return; }
   Pool pool(r.in(1<<15,1<<17)); auto own = [](char*,size_t) { return true; };
   REQUIRE((stl::StackAdapter<long,Pool*>(&pool).max_size() == pool.capacity()/sizeof(long)),"max_size of a pool adapter");
   switch(r.in(0,2)) { case 0: arenaVectors<long>(r,&pool,[](int v) { return (long)v*1000003; },own,false," pool"); break; case 1: arenaVectors<char>(r,&pool,[](int v) { return (char)v; },own,false," pool"); break; default: arenaVectors<std::string>(r,&pool,[](int v) { return std::string(std::abs(v)%40,'a'+std::abs(v)%26); },own,false," pool"); }
}
#endif
#ifdef VF_MEM
// every container history above, for the allocation balance of C12
void vfContainerHistory(int which,uint64_t seed) { Rng r(seed); static void (*const f[])(Rng&,long) = {c16,c17,c18,c19,c20,c21,c22,c23,c24,c25,c26,c27}; f[which](r,100 + (long)(seed % 50)); }
#else
int main(int argc,char** argv) {
   mallopt(M_MMAP_THRESHOLD,1<<28); mallopt(M_TRIM_THRESHOLD,1<<29);
   return vf::run(argc,argv,[](const Args& a) -> CaseFn {
      static std::map<std::string,CaseFn> t;
#if VF_HAS(16)
      t["C16"] = c16;
#endif
#if VF_HAS(17)
      t["C17"] = c17;
#endif
#if VF_HAS(18)
      t["C18"] = c18;
#endif
#if VF_HAS(19)
      t["C19"] = c19;
#endif
#if VF_HAS(20)
      t["C20"] = c20;
#endif
#if VF_HAS(21)
      t["C21"] = c21;
#endif
#if VF_HAS(22)
      t["C22"] = c22;
#endif
#if VF_HAS(23)
      t["C23"] = c23;
#endif
#if VF_HAS(24)
      t["C24"] = c24;
#endif
#if VF_HAS(25)
      t["C25"] = c25;
#endif
#if VF_HAS(26)
      t["C26"] = c26;
#endif
#if VF_HAS(27)
      t["C27"] = c27;
#endif
#if VF_HAS(32)
      t["C32"] = c32;
#endif
#if VF_HAS(33)
      t["C33"] = c33;
#endif

      auto i = t.find(a.prop); return i == t.end() ? CaseFn() : i->second; });
}
#endif
