// Random stage-structured dynamic programs over explicit tables, with power-set states so that merge (union)
// is a genuine relaxation, plus an independent oracle. All observation happens in the model's own callbacks.
#pragma once
#include "common.hpp"
#include "codd.hpp"
#include "hashtable.hpp"
#include "heap.hpp"
#include "queue.hpp"
#include "uf.hpp"
#include "RuntimeMonitor.hpp"
#include <memory>
#include <optional>

namespace vf {
constexpr double BIG = 1.5e9;       // "no completion", finite, worse than every objective used
constexpr double INFV = 2e9;         // anything beyond is the library's sentinel

struct PS {                         // state: stage + sorted set of base states; owns heap memory
   static inline long live = 0,built = 0,bad = 0;
   static inline int hashMode = 0;
   static constexpr unsigned ALIVE = 0xA11CE5ED,DEAD = 0xDEADDEAD;
   unsigned magic;
   int stage; std::vector<short> mem;
   void born() { magic = ALIVE; ++live; ++built; }
   PS() : stage(-1) { born(); }
   PS(int s,std::vector<short> m) : stage(s),mem(std::move(m)) { born(); }
   PS(const PS& o) : stage(o.stage),mem(o.mem) { if (o.magic != ALIVE) ++bad; born(); }
   PS(PS&& o) noexcept : stage(o.stage),mem(std::move(o.mem)) { if (o.magic != ALIVE) ++bad; born(); }
   PS& operator=(const PS& o) { if (magic != ALIVE || o.magic != ALIVE) ++bad; stage = o.stage; mem = o.mem; return *this; }
   PS& operator=(PS&& o) noexcept { if (magic != ALIVE || o.magic != ALIVE) ++bad; stage = o.stage; mem = std::move(o.mem); return *this; }
   ~PS() { if (magic != ALIVE) ++bad; magic = DEAD; --live; }
   bool operator==(const PS& o) const { return stage == o.stage && mem == o.mem; }
   bool operator<(const PS& o) const { return stage != o.stage ? stage < o.stage : mem < o.mem; }
   friend std::ostream& operator<<(std::ostream& os,const PS& s) {
      os << '<' << s.stage << '{'; for(auto v : s.mem) os << v << ' '; return os << "}>"; }
   uint64_t h() const { uint64_t x = 1469598103934665603ull ^ (uint64_t)stage; for(auto v : mem) x = (x ^ (uint64_t)v) * 1099511628211ull; return x ^ (x >> 29); }
};
}
template <> struct std::hash<vf::PS> {
   std::size_t operator()(const vf::PS& s) const noexcept {
      switch(vf::PS::hashMode) { case 1: return 7; case 2: return (std::size_t)s.stage; case 3: return s.h() % 3; case 4: return ~(std::size_t)0 - (s.h()&3); default: return s.h(); }
   }
};
namespace vf {
// ---------------------------------------------------------------------- event log filled by the callbacks
struct Events {
   uint64_t init=0,lgf=0,stf=0,scf=0,smf=0,merged=0,eqs=0,locBB=0,locDD=0,dom=0,domT=0;
   uint64_t total() const { return lgf+stf+scf+smf+locBB+locDD+dom; }
   std::map<int,uint64_t> lgfPerStage; std::map<int,std::set<PS>>* lgfStates = nullptr;
};

struct Opt { int local=0,dom=0,refuse=0,merge=0; bool superset=false; };

struct Model {
   bool maximize=false;
   int n=1,L=1; std::vector<int> m;
   std::vector<int> lblv;                                  // label index -> user-visible label
   std::vector<std::vector<std::vector<int>>> nxt;         // [stage][state][label] -> next base state, -1 none, -2 sink
   std::vector<std::vector<std::vector<double>>> cst;
   std::vector<std::vector<double>> hs;                    // best completion of each base state (oracle); +-BIG if none
   uint64_t salt=0;
   int rootN=1;                                            // > 1: the initial state is a set, so exact states are sets of all sizes
   mutable std::map<std::pair<int,std::vector<short>>,double> hm;
   Opt o;
   Events ev;
   std::function<void()> tick;                             // called on entry of init, label and transition callbacks (delay injection)
   bool contract = false;                                  // latch contract violations (C15)
   std::map<PS,long> produced;                                  // states handed out so far (contract mode)
   double worst() const { return maximize ? -BIG : BIG; }
   bool better(double a,double b) const { return maximize ? a > b : a < b; }
   bool betterEQ(double a,double b) const { return maximize ? a >= b : a <= b; }
   int lidx(int lbl) const { for(int i=0;i<L;i++) if (lblv[i]==lbl) return i; return -1; }
   PS sink() const { return PS(n,{}); }
   PS root() const { std::vector<short> v; for(int i=0;i<rootN;i++) v.push_back((short)i); return PS(0,std::move(v)); }
   bool isSink(const PS& s) const { return s.stage == n; }
   bool sane(const PS& s) const {
      if (s.magic != PS::ALIVE) return false;
      if (s.stage == n) return s.mem.empty();
      if (s.stage < 0 || s.stage > n || s.mem.empty()) return false;
      for(size_t i=0;i<s.mem.size();i++) { if (s.mem[i] < 0 || s.mem[i] >= m[s.stage]) return false; if (i && s.mem[i-1] >= s.mem[i]) return false; }
      return true;
   }
   // ---- pure semantics
   std::optional<PS> step(const PS& s,int li) const {
      if (s.stage < 0 || s.stage >= n || li < 0) return std::nullopt;
      std::vector<short> r; bool snk = false;
      for(auto b : s.mem) { int t = nxt[s.stage][b][li]; if (t == -2) snk = true; else if (t >= 0) r.push_back((short)t); }
      if (snk) return sink();
      if (r.empty()) return std::nullopt;
      std::sort(r.begin(),r.end()); r.erase(std::unique(r.begin(),r.end()),r.end());
      return PS(s.stage+1,std::move(r));
   }
   double stepCost(const PS& s,int li) const {
      double c = worst();
      if (s.stage < 0 || s.stage >= n || li < 0) return c;
      for(auto b : s.mem) if (nxt[s.stage][b][li] != -1 && better(cst[s.stage][b][li],c)) c = cst[s.stage][b][li];
      return c;
   }
   double h(const PS& s) const {
      if (s.stage == n) return 0;
      double c = worst();
      if (rootN > 1) { // the set program itself
         auto key = std::make_pair(s.stage,s.mem); auto it = hm.find(key); if (it != hm.end()) return it->second;
         for(int l=0;l<L;l++) { auto t = step(s,l); if (!t) continue; double q = h(*t); if (std::abs(q) >= BIG) continue; q += stepCost(s,l); if (better(q,c)) c = q; }
         return hm[key] = c; }
      for(auto b : s.mem) if (better(hs[s.stage][b],c)) c = hs[s.stage][b]; return c;
   }
   std::vector<int> labels(const PS& s) const {
      std::vector<int> r; if (s.stage < 0 || s.stage >= n) return r;
      for(int l=0;l<L;l++) { bool d = o.superset; for(auto b : s.mem) d = d || nxt[s.stage][b][l] != -1; if (d) r.push_back(lblv[l]); }
      return r;
   }
   double slack(const PS& s,int k) const { return (double)(mix(salt+17,s.h()) % (uint64_t)(k+1)) * (maximize ? 1 : -1); }
   double local(const PS& s,LocalContext lc) const {
      double v = h(s);
      int k = 0;
      switch(o.local) { case 1: k=0;break; case 2: k=2;break; case 3: k=20;break;
         case 4: k = lc==BBCtx ? 0 : 10; break; case 5: k = lc==BBCtx ? 10 : 0; break;
         case 6: return maximize ? 1.6e9 : -1.6e9; }
      return v + (k ? slack(s,k) : 0);
   }
   bool dominates(const PS& a,const PS& b) const {
      if (o.dom == 5 && b.stage == n && a.stage != n) return betterEQ(h(a),0);
      if (o.dom == 6) return a.stage != n && better(h(a),h(b));                        // relates states of different stages
      if (o.dom == 7) return a.stage != n && b.stage != n && betterEQ(h(a),h(b));
      if (a.stage != b.stage) return false;
      switch(o.dom) { case 1: case 5: return betterEQ(h(a),h(b));
         case 2: return betterEQ(h(a),h(b)) && (mix(salt,a.h()*3+b.h()) % 3)==0;
         case 3: return better(h(a),h(b));
         case 4: return std::includes(a.mem.begin(),a.mem.end(),b.mem.begin(),b.mem.end()); }
      return false;
   }
   std::optional<PS> merge(const PS& a,const PS& b) const {
      std::vector<short> r; std::set_union(a.mem.begin(),a.mem.end(),b.mem.begin(),b.mem.end(),std::back_inserter(r));
      const uint64_t ph = mix(salt+5,a.h()^b.h());
      switch(o.refuse) { case 1: if (ph%4==0) return std::nullopt; break; case 2: return std::nullopt;
         case 3: if (r.size()>3) return std::nullopt; break; case 4: if (ph%2==0) return std::nullopt; break; }
      if (o.merge == 1 || (o.merge == 2 && ph%5==1)) { r.clear(); for(int i=0;i<m[a.stage];i++) r.push_back((short)i); }     // everything becomes one state
      else if (o.merge == 3) { short x = (short)(ph % (uint64_t)m[a.stage]); auto at = std::lower_bound(r.begin(),r.end(),x); if (at == r.end() || *at != x) r.insert(at,x); } // looser than necessary
      return PS(a.stage,std::move(r));
   }
   bool totalMerge() const { return o.refuse == 0; }
   // ---- oracle
   void solve() {
      hs.assign(n,{});
      for(int k=n-1;k>=0;k--) { hs[k].assign(m[k],worst());
         for(int s=0;s<m[k];s++) for(int l=0;l<L;l++) { int t = nxt[k][s][l]; if (t==-1) continue;
            double c = t==-2 ? cst[k][s][l] : (std::abs(hs[k+1][t]) >= BIG ? worst() : cst[k][s][l] + hs[k+1][t]);
            if (better(c,hs[k][s])) hs[k][s] = c; } }
   }
   bool feasible() const { return std::abs(opt()) < BIG; }
   double opt() const { return rootN > 1 ? h(root()) : hs[0][0]; }
   // replay labels from the initial state: nullopt if not a complete feasible label sequence
   struct Replay { bool legal; PS end; double cost; };
   Replay replay(const std::vector<int>& lb) const {
      PS s = root(); double c = 0;
      for(int x : lb) { int li = lidx(x); if (li < 0 || s.stage >= n) return {false,s,c};
         auto t = step(s,li); if (!t) return {false,s,c}; c += stepCost(s,li); s = *t; }
      return {true,s,c};
   }
   // number of distinct (state, path value) pairs over non-sink states
   uint64_t pairs() const {
      if (rootN > 1) { uint64_t ttl = 0; std::map<PS,std::set<double>> cur; cur[root()].insert(0);
         for(int k=0;k<n;k++) { std::map<PS,std::set<double>> nx; for(auto& [s,vs] : cur) { ttl += vs.size(); for(int l=0;l<L;l++) { auto t = step(s,l); if (t && t->stage < n) { double c = stepCost(s,l); auto& d = nx[*t]; for(double v : vs) d.insert(v+c); } } } cur = std::move(nx); }
         return ttl; }
      uint64_t ttl = 0; std::vector<std::set<double>> cur(m[0]); cur[0].insert(0);
      for(int k=0;k<n;k++) { std::vector<std::set<double>> nx(k+1<n ? m[k+1] : 0);
         for(int s=0;s<m[k];s++) { ttl += cur[s].size();
            for(int l=0;l<L;l++) { int t = nxt[k][s][l]; if (t >= 0) for(double v : cur[s]) nx[t].insert(v + cst[k][s][l]); } }
         cur = std::move(nx); }
      return ttl;
   }
   uint64_t reachable() const {
      if (rootN > 1) { uint64_t ttl=0; std::set<PS> cur { root() }; for(int k=0;k<n;k++) { std::set<PS> nx; for(auto& s : cur) { ttl++; for(int l=0;l<L;l++) { auto t = step(s,l); if (t && t->stage < n) nx.insert(*t); } } cur = std::move(nx); } return ttl; }
      uint64_t ttl=0; std::vector<char> cur(m[0],0); cur[0]=1;
      for(int k=0;k<n;k++) { std::vector<char> nx(k+1<n?m[k+1]:0,0); for(int s=0;s<m[k];s++) if (cur[s]) { ++ttl; for(int l=0;l<L;l++) { int t=nxt[k][s][l]; if (t>=0) nx[t]=1; } } cur=std::move(nx);} 
      return ttl;
   }
   uint64_t sig() const { uint64_t x = salt ^ (maximize?99:0); x = mix(x,n*131+L); for(auto& a : nxt) for(auto& b : a) for(auto c : b) x = x*1099511628211ull ^ (uint64_t)(c+7);
      for(auto& a : cst) for(auto& b : a) for(auto c : b) x = x*1099511628211ull ^ (uint64_t)(long long)(c*4); return x; }
   std::string desc() const { return VF_STR((maximize?"max":"min") << " stages=" << n << " labels=" << L << " base0.." << (m.size()?*std::max_element(m.begin(),m.end()):0)
      << " local=" << o.local << " dom=" << o.dom << " refuse=" << o.refuse << " merge=" << o.merge << " rootset=" << rootN << " superset=" << o.superset << " opt=" << (feasible()?opt():NAN)); }
   std::string dump() const { std::ostringstream s; s << desc() << "\n"; for(int k=0;k<n;k++) for(int b=0;b<m[k];b++) { s << "  (" << k << "," << b << ") h=" << hs[k][b] << ":"; for(int l=0;l<L;l++) if (nxt[k][b][l]!=-1) s << " " << lblv[l] << "->" << nxt[k][b][l] << "/" << cst[k][b][l]; s << "\n"; } return s.str(); }
};
using MP = std::shared_ptr<Model>;

struct GenOpt { bool large=false,hard=false,huge=false,deep=false,bushy=false,sets=false; int maxN=7,maxM=6,maxL=4; };
inline MP genModel(Rng& r,GenOpt g = {}) {
   auto M = std::make_shared<Model>();
   M->maximize = r.chance(50); M->salt = r.next();
   M->n = r.in(1,g.maxN); M->L = r.in(1,g.maxL);
   if (r.chance(60)) { M->n = std::max(M->n,3); M->L = std::max(M->L,2); }
   int mm = r.in(1,g.maxM); if (r.chance(60)) mm = std::max(mm,3);
   if (g.hard) { M->n = r.in(5,9); M->L = r.in(2,3); mm = r.in(4,9); }
   if (g.huge) { M->n = r.in(5,8); M->L = r.in(3,5); mm = g.maxM; }
   if (g.large) { M->n = r.in(4,g.maxN); M->L = r.in(3,std::max(3,g.maxL)); mm = g.maxM; }
   if (g.deep) { M->n = r.in(20,140); M->L = r.in(1,3); mm = r.in(1,4); }                       // long label sequences
   if (g.bushy) { M->n = r.in(1,3); M->L = r.in(6,90); mm = r.in(2,30); }                       // more labels than one word of bits
   if (g.sets) { M->n = r.in(3,7); M->L = r.in(2,3); mm = r.in(3,7); M->rootN = r.in(2,4); }
   int dens = std::vector<int>{100,100,85,60,40}[r.in(0,g.hard || g.sets ? 2 : g.deep ? 1 : 4)];
   int sinkPct = r.chance(40) ? r.in(10,60) : 0;
   int cm = r.in(0,7); if (g.huge && (cm == 3 || cm == 4 || cm == 7)) cm = 0; if (g.deep) { cm = r.chance(50) ? 5 : 2; if (sinkPct) sinkPct = 4; }
   auto cost = [&]() -> double { switch(cm) { case 0: return r.in(0,9); case 1: return r.in(-9,9); case 2: return r.in(0,2); case 3: return r.in(-100,100)/4.0;
      case 4: return r.in(-1000000,1000000); case 5: return r.in(0,1); case 7: return r.in(-80000000,80000000) + r.in(0,3)/4.0; default: return r.in(1,60);} };
   M->m.resize(M->n); for(int k=0;k<M->n;k++) M->m[k] = k==0 ? M->rootN : std::max(1,r.in(std::max(1,mm-2),mm));
   int base = r.chance(70) ? 0 : r.in(0,130),stride = r.chance(70) ? 1 : r.in(1,40);
   for(int l=0;l<M->L;l++) M->lblv.push_back(base + l*stride);
   M->nxt.resize(M->n); M->cst.resize(M->n);
   const int sl = M->L - 1; // the label that leads to the sink early (if any)
   for(int k=0;k<M->n;k++) { M->nxt[k].resize(M->m[k]); M->cst[k].resize(M->m[k]);
      for(int s=0;s<M->m[k];s++) for(int l=0;l<M->L;l++) { int t = -1;
         if (k == M->n-1) { if (r.chance(dens)) t = -2; }
         else if (sinkPct && l == sl) { if (r.chance(sinkPct)) t = -2; }
         else if (r.chance(dens)) t = r.in(0,M->m[k+1]-1);
         M->nxt[k][s].push_back(t); M->cst[k][s].push_back(cost()); } }
   M->o.superset = r.chance(40);
   M->solve();
   return M;
}
inline void randOptions(Rng& r,Model& M) {
   M.o.local = r.chance(50) ? 0 : r.in(1,6);
   M.o.dom = r.chance(55) ? 0 : r.in(1,5);
   M.o.refuse = r.chance(65) ? 0 : r.in(1,4);
   M.o.merge = r.chance(70) ? 0 : r.in(1,3);
}

// ---------------------------------------------------------------------- the diagram over a model
template <class Cmp> using PDD = DD<PS,Cmp,std::function<PS()>,std::function<GNSet(const PS&)>,std::function<std::optional<PS>(const PS&,int)>,
   std::function<double(const PS&,int)>,std::function<std::optional<PS>(const PS&,const PS&)>,std::function<bool(const PS&)>,
   double(*)(const PS&,LocalContext),std::function<bool(const PS&,const PS&)>>;

template <class Cmp> AbstractDD::Ptr makeT(MP M) {
   Model* m = M.get();
   auto C = [m](bool ok,const char* what,const PS& s) { if (m->contract && !ok) latch(VF_STR("callback contract: " << what << " state=" << s)); };
   std::function<PS()> init = [M]() { if (M->tick) M->tick(); M->ev.init++; return M->root(); };
   std::function<PS()> trg  = [M]() { return M->sink(); };
   std::function<GNSet(const PS&)> lgf = [M,m,C](const PS& s) {
      if (m->tick) m->tick();
      m->ev.lgf++; m->ev.lgfPerStage[s.stage]++;
      if (m->ev.lgfStates) (*m->ev.lgfStates)[s.stage].insert(s);
      C(m->sane(s),"labels of an invalid state",s); C(!m->isSink(s),"labels of the sink",s);
      GNSet g {}; for(int x : m->labels(s)) g.insert(x); return g; };
   std::function<std::optional<PS>(const PS&,int)> stf = [M,m,C](const PS& s,int lbl) -> std::optional<PS> {
      if (m->tick) m->tick();
      m->ev.stf++;
      C(m->sane(s) && !m->isSink(s),"transition from the sink or an invalid state",s);
      if (m->contract) { auto ls = m->labels(s); C(std::find(ls.begin(),ls.end(),lbl) != ls.end(),"transition with a label that was not generated",s); }
      auto t = m->step(s,m->lidx(lbl)); if (m->contract && t) m->produced[*t]++; return t; };
   std::function<double(const PS&,int)> scf = [M,m,C](const PS& s,int lbl) {
      m->ev.scf++;
      C(m->sane(s) && !m->isSink(s) && m->step(s,m->lidx(lbl)).has_value(),"cost of a transition that does not exist",s);
      return m->stepCost(s,m->lidx(lbl)); };
   std::function<std::optional<PS>(const PS&,const PS&)> smf = [M,m,C](const PS& a,const PS& b) -> std::optional<PS> {
      m->ev.smf++;
      C(m->sane(a),"merge of an invalid state",a); C(m->sane(b),"merge of an invalid state",b);
      C(!m->isSink(a) && !m->isSink(b),"merge of the sink",a); C(a.stage == b.stage,"merge across stages",a); C(!(a == b),"merge of a state with itself",a);
      if (a.stage != b.stage || m->isSink(a)) return std::nullopt;
      auto r = m->merge(a,b); if (r) m->ev.merged++; return r; };
   std::function<bool(const PS&)> eqs = [M,m](const PS& s) { m->ev.eqs++; return m->isSink(s); };
   std::function<double(const PS&,LocalContext)> loc = nullptr;
   if (M->o.local) loc = [M,m,C](const PS& s,LocalContext lc) {
      (lc == BBCtx ? m->ev.locBB : m->ev.locDD)++;
      C(m->sane(s),"local bound of an invalid state",s);
      if (lc == BBCtx) C(m->isSink(s) == false && (s.mem.size() == 1 || m->rootN > 1),"search-context local bound of a state that is no open node",s);
      else if (m->contract) { auto it = m->produced.find(s); C(it != m->produced.end() && it->second-- > 0,"diagram-context local bound of a state although no (further) transition produced it",s); }
      return m->local(s,lc); };
   std::function<bool(const PS&,const PS&)> dom = nullptr;
   if (M->o.dom) dom = [M,m,C](const PS& a,const PS& b) {
      m->ev.dom++; C(m->sane(a),"dominance on an invalid state",a); C(m->sane(b),"dominance on an invalid state",b);
      bool d = m->dominates(a,b); m->ev.domT += d; return d; };
   GNSet labs {}; for(int x : M->lblv) labs.insert(x);
   return PDD<Cmp>::makeDD(init,trg,lgf,stf,scf,smf,eqs,labs,loc,dom);
}
inline AbstractDD::Ptr makeDDFor(MP M) { return M->maximize ? makeT<Maximize<double>>(M) : makeT<Minimize<double>>(M); }
inline const PS& stateOf(ANode::Ptr n) { return static_cast<const Node<PS>*>(n.get())->get(); }
inline std::vector<int> labelsOf(ANode::Ptr n) { std::vector<int> r; for(auto i = n->beginOptLabels();i != n->endOptLabels();++i) r.push_back(*i); return r; }
inline std::string show(const std::vector<int>& v) { std::ostringstream o; o << "["; for(auto x : v) o << x << " "; o << "]"; return o.str(); }
}
