// Classic problems written the way users of the library write them: real state types (GNSet, NatSet, FArray,
// std::set, std::vector), lambdas as template arguments, Range- and set-valued label functions.
// Each comes with a brute-force optimum and a checker of label sequences that never uses the library.
#pragma once
#include "common.hpp"
#include "codd.hpp"
#include <memory>
#include <optional>
#include <numeric>
namespace vf {
struct Fam { std::string name; bool maximize=false; bool feasible=true; double opt=0; uint64_t sig=0; bool local=false,dom=false;
   AbstractDD::Ptr dd; std::function<std::optional<double>(const std::vector<int>&)> eval; };

// ------------------------------------------------------------------ multi-dimensional knapsack, FArray state
struct KSt { int n; FArray<int> c; friend std::ostream& operator<<(std::ostream& os,const KSt& m) { return os << '<' << m.n << ',' << m.c << '>'; } 
   bool operator==(const KSt& o) const { return n == o.n && c == o.c; } };
// ------------------------------------------------------------------ independent set, GNSet state
struct MSt { GNSet s; int n; friend std::ostream& operator<<(std::ostream& os,const MSt& m) { return os << '<' << m.s << ',' << m.n << '>'; }
   bool operator==(const MSt& o) const { return n == o.n && s == o.s; } };
// ------------------------------------------------------------------ travelling salesman, GNSet state
struct TSt { GNSet s; int e,h; friend std::ostream& operator<<(std::ostream& os,const TSt& m) { return os << '<' << m.s << ',' << m.e << ',' << m.h << '>'; }
   bool operator==(const TSt& o) const { return e == o.e && h == o.h && s == o.s; } };
// ------------------------------------------------------------------ golomb ruler, NatSet state
struct GSt { NatSet<2> m,d; int k,e; friend std::ostream& operator<<(std::ostream& os,const GSt& g) { return os << '<' << g.m << ',' << g.d << ',' << g.k << ',' << g.e << '>'; }
   bool operator==(const GSt& o) const { return k == o.k && e == o.e && m == o.m && d == o.d; } };
// ------------------------------------------------------------------ assignment, std::set state
struct ASt { std::set<int> u; int k; friend std::ostream& operator<<(std::ostream& os,const ASt& m) { return os << '<' << m.u << ',' << m.k << '>'; }
   bool operator==(const ASt& o) const { return k == o.k && u == o.u; } };
// ------------------------------------------------------------------ lot sizing with stock per item, std::vector state
struct VSt { std::vector<int> v; int k; friend std::ostream& operator<<(std::ostream& os,const VSt& m) { return os << '<' << m.v << ',' << m.k << '>'; }
   bool operator==(const VSt& o) const { return k == o.k && v == o.v; } };
// ------------------------------------------------------------------ one very wide layer (value only)
struct WSt { int d,key,best; friend std::ostream& operator<<(std::ostream& os,const WSt& m) { return os << '<' << m.d << ',' << m.key << ',' << m.best << '>'; } bool operator==(const WSt& o) const = default; };
}
template <> struct std::hash<vf::WSt> { std::size_t operator()(const vf::WSt& s) const noexcept { return (std::size_t)s.key*2654435761u ^ ((std::size_t)s.best << 3) ^ (std::size_t)s.d; } };
template <> struct std::hash<vf::KSt> { std::size_t operator()(const vf::KSt& s) const noexcept { return std::rotl(std::hash<FArray<int>>{}(s.c),5) ^ (std::size_t)s.n; } };
template <> struct std::hash<vf::MSt> { std::size_t operator()(const vf::MSt& s) const noexcept { return std::rotl(std::hash<GNSet>{}(s.s),9) ^ (std::size_t)s.n; } };
template <> struct std::hash<vf::TSt> { std::size_t operator()(const vf::TSt& s) const noexcept { return std::rotl(std::hash<GNSet>{}(s.s),9) ^ (std::size_t)(s.e*64+s.h); } };
template <> struct std::hash<vf::GSt> { std::size_t operator()(const vf::GSt& s) const noexcept { return std::rotl(std::hash<NatSet<2>>{}(s.m),20) ^ std::rotl(std::hash<NatSet<2>>{}(s.d),7) ^ (std::size_t)(s.e*64+s.k); } };
template <> struct std::hash<vf::ASt> { std::size_t operator()(const vf::ASt& s) const noexcept { return std::hash<std::set<int>>{}(s.u) ^ (std::size_t)s.k; } };
template <> struct std::hash<vf::VSt> { std::size_t operator()(const vf::VSt& s) const noexcept { return std::hash<std::vector<int>>{}(s.v) ^ (std::size_t)(s.k<<20); } };
namespace vf {

inline Fam famKnapsack(Rng& r,bool useLocal,bool useDom,bool big = false) {
   struct D { int I,R; std::vector<int> p; std::vector<std::vector<int>> w; std::vector<int> cap; }; auto d = std::make_shared<D>();
   d->I = big ? r.in(20,48) : r.chance(70) ? r.in(1,9) : r.in(9,14); d->R = big ? 1 : r.in(1,2); d->w.resize(d->R);
   for(int i=0;i<d->I;i++) { d->p.push_back(r.in(0,30)); for(int k=0;k<d->R;k++) d->w[k].push_back(r.in(1,12)); }
   for(int k=0;k<d->R;k++) d->cap.push_back(r.in(0,(big ? 4 : 6)*d->I));
   Fam f; f.name = "knapsack"; f.maximize = true; f.local = useLocal; f.dom = useDom; f.opt = 0;
   if (big) { std::vector<int> v(d->cap[0]+1,0); for(int i=0;i<d->I;i++) for(int c=d->cap[0];c>=d->w[0][i];c--) v[c] = std::max(v[c],v[c-d->w[0][i]]+d->p[i]); f.opt = v[d->cap[0]]; f.name = "knapsack-big"; }
   else for(int m=0;m<(1<<d->I);m++) { int p=0; bool ok=true; for(int k=0;k<d->R;k++) { int w=0; for(int i=0;i<d->I;i++) if (m>>i&1) w += d->w[k][i]; ok = ok && w <= d->cap[k]; }
      for(int i=0;i<d->I;i++) if (m>>i&1) p += d->p[i]; if (ok) f.opt = std::max(f.opt,(double)p); }
   f.eval = [d](const std::vector<int>& l) -> std::optional<double> { if ((int)l.size() != d->I) return std::nullopt; int p=0;
      for(int k=0;k<d->R;k++) { int w=0; for(int i=0;i<d->I;i++) { if (l[i]<0||l[i]>1) return std::nullopt; w += l[i]*d->w[k][i]; } if (w > d->cap[k]) return std::nullopt; }
      for(int i=0;i<d->I;i++) p += l[i]*d->p[i]; return p; };
   auto init = [d]() { FArray<int> c(d->R); for(int k=0;k<d->R;k++) c[k] = d->cap[k]; return KSt{0,c}; };
   auto target = [d]() { return KSt{d->I,FArray<int>(d->R,0)}; };
   const bool down = r.chance(50);
   auto lgf = [d,down](const KSt& s) { int fit = 1; for(int k=0;k<d->R;k++) fit = fit && s.c[k] >= d->w[k][s.n]; return down ? Range::close(fit,0) : Range::close(0,fit); };
   auto stf = [d](const KSt& s,const int l) -> std::optional<KSt> { if (s.n == d->I-1) return KSt{d->I,FArray<int>(d->R,0)};
      KSt t { s.n+1,s.c }; if (l) for(int k=0;k<d->R;k++) t.c[k] = s.c[k] - d->w[k][s.n]; return t; };
   auto scf = [d](const KSt& s,int l) { return (double)(d->p[s.n]*l); };
   auto smf = [d](const KSt& a,const KSt& b) -> std::optional<KSt> { KSt t { a.n,a.c }; for(int k=0;k<d->R;k++) t.c[k] = std::max(a.c[k],b.c[k]); return t; };
   auto eqs = [d](const KSt& s) { return s.n == d->I; };
   std::function<double(const KSt&,LocalContext)> loc; if (useLocal) loc = [d](const KSt& s,LocalContext) { double t=0; for(int i=s.n;i<d->I;i++) if (d->w[0][i] <= s.c[0]) t += d->p[i]; return t; };
   std::function<bool(const KSt&,const KSt&)> dom; if (useDom) dom = [d](const KSt& a,const KSt& b) { if (a.n != b.n) return false; for(int k=0;k<d->R;k++) if (a.c[k] < b.c[k]) return false; return true; };
   f.dd = DD<KSt,Maximize<double>,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs),decltype(loc),decltype(dom)>::makeDD(init,target,lgf,stf,scf,smf,eqs,GNSet(0,1),loc,dom);
   f.sig = 1; for(auto x : d->p) f.sig = mix(f.sig,x); for(auto& v : d->w) for(auto x : v) f.sig = mix(f.sig,x); for(auto x : d->cap) f.sig = mix(f.sig,x);
   return f;
}
inline Fam famMisp(Rng& r,bool useLocal,bool useDom,bool big = false) {
   using Bits = unsigned __int128; const Bits one = 1;
   struct D { int n; std::vector<int> w; std::vector<GNSet> adj; std::vector<Bits> nb; int off; }; auto d = std::make_shared<D>();
   d->n = big ? r.in(30,100) : r.chance(70) ? r.in(1,11) : r.in(10,15); const int band = big ? r.in(2,5) : 1000; int dens = r.in(5,70); d->nb.assign(d->n,0); d->adj.assign(d->n,GNSet{});
   for(int i=0;i<d->n;i++) d->w.push_back(r.in(0,9)); 
   for(int i=0;i<d->n;i++) for(int j=i+1;j<d->n;j++) if (j-i <= band && r.chance(dens)) { d->nb[i] |= one<<j; d->nb[j] |= one<<i; d->adj[i].insert(j); d->adj[j].insert(i); }
   Fam f; f.name = "misp"; f.maximize = true; f.local = useLocal; f.dom = useDom; f.opt = 0;
   if (big) { f.name = "misp-big"; std::map<unsigned,int> cur {{0,0}};      // which of the last five vertices are chosen -> best weight
      for(int i=0;i<d->n;i++) { std::map<unsigned,int> nx; for(auto [m,v] : cur) for(int l=0;l<2;l++) { if (l) { bool ok = true; for(int b=0;b<5 && b<i;b++) if (m>>b&1) ok = ok && !(d->nb[i] >> (i-1-b) & 1); if (!ok) continue; } unsigned k = (m<<1|l) & 31; int q = v + l*d->w[i]; auto it = nx.find(k); if (it == nx.end() || it->second < q) nx[k] = q; } cur = nx; }
      for(auto [m,v] : cur) f.opt = std::max(f.opt,(double)v); }
   else for(unsigned m=0;m<(1u<<d->n);m++) { int p=0; bool ok=true; for(int i=0;i<d->n && ok;i++) if (m>>i&1) { ok = !(m & d->nb[i]); p += d->w[i]; } if (ok) f.opt = std::max(f.opt,(double)p); }
   f.eval = [d,one](const std::vector<int>& l) -> std::optional<double> { if ((int)l.size() > d->n) return std::nullopt; Bits m=0; int p=0;
      for(size_t i=0;i<l.size();i++) { if (l[i]<0||l[i]>1) return std::nullopt; if (l[i]) { if (m & d->nb[i]) return std::nullopt; m |= one<<i; p += d->w[i]; } }
      for(int i=(int)l.size();i<d->n;i++) if (!(m & d->nb[i])) return std::nullopt;        // stopped although vertices are still free
      return p; };
   auto init = [d]() { GNSet u {}; for(int i=0;i<d->n;i++) u.insert(i); return MSt{u,0}; };
   auto target = [d]() { return MSt{GNSet{},d->n}; };
   auto lgf = [](const MSt&) { return Range::close(0,1); };
   auto stf = [d](const MSt& s,const int l) -> std::optional<MSt> { if (l && !s.s.contains(s.n)) return std::nullopt;
      GNSet o = s.s; o.remove(s.n); if (l) o.diffWith(d->adj[s.n]); const bool e = o.empty(); return MSt{std::move(o),e ? d->n : s.n+1}; };
   auto scf = [d](const MSt& s,int l) { return (double)(l*d->w[s.n]); };
   auto smf = [](const MSt& a,const MSt& b) -> std::optional<MSt> { return MSt{a.s | b.s,std::min(a.n,b.n)}; };
   auto eqs = [](const MSt& s) { return s.s.empty(); };
   std::function<double(const MSt&,LocalContext)> loc; if (useLocal) loc = [d](const MSt& s,LocalContext) { return (double)sum(s.s,[d](auto v) { return d->w[v]; }); };
   std::function<bool(const MSt&,const MSt&)> dom; if (useDom) dom = [](const MSt& a,const MSt& b) { return a.n == b.n && (b.s - a.s).empty(); };
   f.dd = DD<MSt,Maximize<double>,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs),decltype(loc),decltype(dom)>::makeDD(init,target,lgf,stf,scf,smf,eqs,GNSet(0,1),loc,dom);
   f.sig = 2; for(auto x : d->w) f.sig = mix(f.sig,x); for(auto x : d->nb) f.sig = mix(mix(f.sig,(uint64_t)x),(uint64_t)(x>>64));
   return f;
}
inline Fam famTsp(Rng& r,bool useLocal,bool useDom,bool big = false) {
   struct D { int n,o; Matrix<double,2> c; GNSet all; }; auto d = std::make_shared<D>(); d->n = big ? r.in(8,10) : r.in(3,7); d->o = r.chance(60) ? 0 : r.in(50,70); const int o = d->o;  // city labels may cross a word
   d->c = Matrix<double,2>(d->n,d->n); for(int i=0;i<d->n;i++) for(int j=0;j<d->n;j++) d->c[i][j] = i==j ? 0 : r.in(1,40);
   for(int i=0;i<d->n;i++) d->all.insert(i+o);
   Fam f; f.name = "tsp"; f.local = useLocal; f.dom = useDom; f.opt = 1e9; f.sig = 3 + o;
   std::vector<int> p(d->n-1); std::iota(p.begin(),p.end(),1);
   if (big) { f.name = "tsp-big"; const int n = d->n; std::vector<std::vector<double>> h(1<<n,std::vector<double>(n,1e9)); h[1][0] = 0;      // Held-Karp
      for(int m=1;m<1<<n;m++) for(int e=0;e<n;e++) if (h[m][e] < 1e8) for(int x=1;x<n;x++) if (!(m>>x&1)) h[m|1<<x][x] = std::min(h[m|1<<x][x],h[m][e]+(double)d->c[e][x]);
      for(int e=1;e<n;e++) f.opt = std::min(f.opt,h[(1<<n)-1][e]+(double)d->c[e][0]); }
   else do { double c = 0; int e=0; for(int x : p) { c += d->c[e][x]; e = x; } c += d->c[e][0]; f.opt = std::min(f.opt,c); } while(std::next_permutation(p.begin(),p.end()));
   f.eval = [d,o](const std::vector<int>& l) -> std::optional<double> { if ((int)l.size() != d->n || l.back() != o) return std::nullopt; std::set<int> seen; double c=0; int e=0;
      for(int x0 : l) { int x = x0-o; if (x<0||x>=d->n||!seen.insert(x).second) return std::nullopt; c += d->c[e][x]; e = x; } return c; };
   auto init = [o]() { return TSt{GNSet{},o,0}; };
   auto target = [d,o]() { return TSt{d->all,o,d->n}; };
   auto lgf = [d,o](const TSt& s) { if (s.h >= d->n-1) return GNSet{o}; else return (d->all - s.s).remove(o).remove(s.e); };
   auto stf = [d,o](const TSt& s,const int l) -> std::optional<TSt> { if (l == o) return TSt{d->all,o,d->n}; else return TSt{s.s | GNSet{l},l,s.h+1}; };
   auto scf = [d,o](const TSt& s,int l) { return (double)d->c[s.e-o][l-o]; };
   const bool same = r.chance(60);
   auto smf = [same](const TSt& a,const TSt& b) -> std::optional<TSt> { if (a.e == b.e && a.h == b.h) return TSt{a.s & b.s,a.e,a.h}; return std::nullopt; };
   auto eqs = [d,o](const TSt& s) { return s.e == o && s.h == d->n; };
   std::function<double(const TSt&,LocalContext)> loc; if (useLocal) loc = [d](const TSt& s,LocalContext lc) { double mn = 1e9; for(int i=0;i<d->n;i++) for(int j=0;j<d->n;j++) if (i != j) mn = std::min(mn,(double)d->c[i][j]); return s.h >= d->n ? 0 : mn*(d->n - s.h - (lc == DDCtx ? 0 : 1)); };
   std::function<bool(const TSt&,const TSt&)> dom; if (useDom) dom = [](const TSt& a,const TSt& b) { return a.e == b.e && a.h == b.h && (a.s - b.s).empty(); };
   f.dd = DD<TSt,Minimize<double>,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs),decltype(loc),decltype(dom)>::makeDD(init,target,lgf,stf,scf,smf,eqs,d->all,loc,dom);
   for(int i=0;i<d->n;i++) for(int j=0;j<d->n;j++) f.sig = mix(f.sig,(uint64_t)(double)d->c[i][j]);
   return f;
}
inline Fam famGolomb(Rng& r,bool useLocal,bool) {
   const int n = r.in(3,5); static const int OPT[] = {0,0,1,3,6,11,17}; const int L = std::max(2,OPT[n] + r.in(-2,6)); const bool viaNat = r.chance(50);
   Fam f; f.name = "golomb"; f.local = useLocal; f.feasible = L >= OPT[n]; f.opt = OPT[n]; f.sig = mix(4,n*1000+L*2+viaNat);
   f.eval = [n,L](const std::vector<int>& l) -> std::optional<double> { if ((int)l.size() != n-1) return std::nullopt; std::set<int> ds; int e=0; std::vector<int> m {0};
      for(int x : l) { if (x <= e || x > L) return std::nullopt; for(int y : m) if (!ds.insert(x-y).second) return std::nullopt; m.push_back(x); e = x; } return e; };
   auto init = []() { return GSt{NatSet<2>{0},NatSet<2>{},1,0}; };
   auto target = [n]() { return GSt{NatSet<2>{},NatSet<2>{},n,0}; };
   auto lgf = [L](const GSt& s) { NatSet<2> v; for(int x = s.e+1;x <= L;x++) { NatSet<2> g(s.d); if (g.interWith(x - s.m).empty()) v.insert(x); } return v; };
   auto stf = [n](const GSt& s,const int l) -> std::optional<GSt> { if (s.k == n-1) return GSt{NatSet<2>{},NatSet<2>{},n,0};
      NatSet<2> dn = (l - s.m) | s.d; return GSt{s.m | NatSet<2>{l},dn,s.k+1,l}; };
   auto scf = [](const GSt& s,int l) { return (double)(l - s.e); };
   auto smf = [](const GSt& a,const GSt& b) -> std::optional<GSt> { if (a.k == b.k && a.e == b.e) return GSt{a.m & b.m,a.d & b.d,a.k,a.e}; return std::nullopt; };
   auto eqs = [n](const GSt& s) { return s.k == n; };
   std::function<double(const GSt&,LocalContext)> loc; if (useLocal) loc = [n](const GSt& s,LocalContext) { return s.k >= n ? 0.0 : (double)OPT[n-s.k+1]; };
   f.dd = DD<GSt,Minimize<double>,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs),decltype(loc)>::makeDD(init,target,lgf,stf,scf,smf,eqs,setFrom(std::views::iota(1,L+1)),loc);
   return f;
}
inline Fam famAssign(Rng& r,bool useLocal,bool useDom) {
   struct D { int n,m; std::vector<std::vector<int>> c; }; auto d = std::make_shared<D>(); d->n = r.chance(75) ? r.in(1,6) : r.in(6,7); d->m = d->n + r.in(0,d->n > 6 ? 0 : 2); const bool mx = r.chance(50); const bool wide = r.chance(40);
   const int st = wide ? 37 : 1; d->c.resize(d->n); for(auto& v : d->c) for(int j=0;j<d->m;j++) v.push_back(r.in(-9,9));
   Fam f; f.name = mx ? "assign-max" : "assign-min"; f.maximize = mx; f.local = useLocal; f.dom = useDom; f.opt = mx ? -1e9 : 1e9; f.sig = mix(5,mx*2+wide); for(auto& v : d->c) for(int x : v) f.sig = mix(f.sig,x+100);
   std::function<void(int,unsigned,double)> go = [&](int k,unsigned u,double c) { if (k == d->n) { f.opt = mx ? std::max(f.opt,c) : std::min(f.opt,c); return; } for(int j=0;j<d->m;j++) if (!(u>>j&1)) go(k+1,u|1u<<j,c+d->c[k][j]); }; go(0,0,0);
   f.eval = [d,st](const std::vector<int>& l) -> std::optional<double> { if ((int)l.size() != d->n) return std::nullopt; std::set<int> s; double c=0; for(size_t i=0;i<l.size();i++) { int x = l[i]/st; if (l[i]%st || x<0 || x>=d->m || !s.insert(x).second) return std::nullopt; c += d->c[i][x]; } return c; };
   auto init = []() { return ASt{{},0}; }; auto target = [d]() { return ASt{{},d->n}; };
   auto lgf = [d,st](const ASt& s) { GNSet g {}; for(int j=0;j<d->m;j++) if (!s.u.contains(j)) g.insert(j*st); return g; };
   auto stf = [d,st](const ASt& s,const int l) -> std::optional<ASt> { if (s.k == d->n-1) return ASt{{},d->n}; auto u = s.u; u.insert(l/st); return ASt{u,s.k+1}; };
   auto scf = [d,st](const ASt& s,int l) { return (double)d->c[s.k][l/st]; };
   auto smf = [](const ASt& a,const ASt& b) -> std::optional<ASt> { return ASt{a.u & b.u,a.k}; };
   auto eqs = [d](const ASt& s) { return s.k == d->n; };
   std::function<double(const ASt&,LocalContext)> loc; if (useLocal) loc = [d,mx](const ASt& s,LocalContext) { double t=0; for(int k=s.k;k<d->n;k++) { double b = mx ? -1e9 : 1e9; for(int j=0;j<d->m;j++) if (!s.u.contains(j)) b = mx ? std::max(b,(double)d->c[k][j]) : std::min(b,(double)d->c[k][j]); t += b; } return t; };
   std::function<bool(const ASt&,const ASt&)> dom; if (useDom) dom = [](const ASt& a,const ASt& b) { return a.k == b.k && std::includes(b.u.begin(),b.u.end(),a.u.begin(),a.u.end()); };
   auto mk = [&]<class C>(C) { return DD<ASt,C,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs),decltype(loc),decltype(dom)>::makeDD(init,target,lgf,stf,scf,smf,eqs,GNSet(0,(d->m-1)*st),loc,dom); };
   f.dd = mx ? mk(Maximize<double>{}) : mk(Minimize<double>{});
   return f;
}
inline Fam famStock(Rng& r,bool useLocal,bool useDom) {          // produce one item per period to meet due demand; state: stock per item (vector)
   struct D { int T,I; std::vector<std::vector<int>> due; std::vector<std::vector<int>> c; }; auto d = std::make_shared<D>(); d->T = r.in(1,7); d->I = r.in(1,3);
   d->due.assign(d->T,std::vector<int>(d->I,0)); d->c.assign(d->T,{}); for(auto& v : d->c) for(int i=0;i<=d->I;i++) v.push_back(r.in(0,12));
   int left = r.in(0,d->T); for(int k=0;k<left;k++) { int i = r.in(0,d->I-1),t = r.in(0,d->T-1); d->due[t][i]++; }
   Fam f; f.name = "stock"; f.local = useLocal; f.dom = useDom; f.opt = 1e9; f.sig = 6; for(auto& v : d->due) for(int x : v) f.sig = mix(f.sig,x); for(auto& v : d->c) for(int x : v) f.sig = mix(f.sig,x);
   auto adv = [d](std::vector<int> v,int k,int l) -> std::optional<std::vector<int>> { if (l) v[l-1]++; for(int i=0;i<d->I;i++) { v[i] -= d->due[k][i]; if (v[i] < 0) return std::nullopt; } return v; };
   std::function<void(int,std::vector<int>,double)> go = [&](int k,std::vector<int> v,double c) { if (k == d->T) { f.opt = std::min(f.opt,c); return; } for(int l=0;l<=d->I;l++) { auto t = adv(v,k,l); if (t) go(k+1,*t,c+d->c[k][l]); } };
   go(0,std::vector<int>(d->I,0),0); f.feasible = f.opt < 1e8;
   f.eval = [d,adv](const std::vector<int>& l) -> std::optional<double> { if ((int)l.size() != d->T) return std::nullopt; std::vector<int> v(d->I,0); double c=0; for(int k=0;k<d->T;k++) { if (l[k]<0||l[k]>d->I) return std::nullopt; auto t = adv(v,k,l[k]); if (!t) return std::nullopt; v = *t; c += d->c[k][l[k]]; } return c; };
   auto init = [d]() { return VSt{std::vector<int>(d->I,0),0}; }; auto target = [d]() { return VSt{{},d->T}; };
   auto lgf = [d](const VSt&) { return Range::close(0,d->I); };
   auto stf = [d,adv](const VSt& s,const int l) -> std::optional<VSt> { auto t = adv(s.v,s.k,l); if (!t) return std::nullopt; if (s.k == d->T-1) return VSt{{},d->T}; return VSt{*t,s.k+1}; };
   auto scf = [d](const VSt& s,int l) { return (double)d->c[s.k][l]; };
   auto smf = [](const VSt& a,const VSt& b) -> std::optional<VSt> { VSt t = a; for(size_t i=0;i<t.v.size();i++) t.v[i] = std::max(t.v[i],b.v[i]); return t; };
   auto eqs = [d](const VSt& s) { return s.k == d->T; };
   std::function<double(const VSt&,LocalContext)> loc; if (useLocal) loc = [d](const VSt& s,LocalContext) { double t=0; for(int k=s.k;k<d->T;k++) t += *std::min_element(d->c[k].begin(),d->c[k].end()); return t; };
   std::function<bool(const VSt&,const VSt&)> dom; if (useDom) dom = [](const VSt& a,const VSt& b) { if (a.k != b.k || a.v.size() != b.v.size()) return false; for(size_t i=0;i<a.v.size();i++) if (a.v[i] < b.v[i]) return false; return true; };
   f.dd = DD<VSt,Minimize<double>,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs),decltype(loc),decltype(dom)>::makeDD(init,target,lgf,stf,scf,smf,eqs,GNSet(0,d->I),loc,dom);
   return f;
}
// L times one of N, then one of two, then a price that only the merged node overestimates: about half of all nodes of a layer become open.
inline Fam famWide(Rng& r,int N,int L,bool useLocal) {
   struct D { int N,L; uint64_t h; int M,sp,top; int c(int k,int x) const { return mix(h+k,x) % (k < L ? 11 : 1001); } int f(int x) const { return x == sp ? top : mix(h,x) % 1001; } }; auto d = std::make_shared<D>(); d->N = N; d->L = L; d->h = r.next() >> 8; d->M = 1; for(int k=0;k<L;k++) d->M *= N;
   const bool mx = r.chance(50); const int sg = mx ? 1 : -1; d->top = 5000; d->sp = r.in(0,2*d->M-1);
   auto val = [d](int x) { double v = d->f(x); x /= 2; for(int k=d->L;k>=1;k--) { v += d->c(k,x); x /= d->N; } return v; };
   Fam f; f.name = "wide"; f.maximize = mx; f.local = useLocal; double o = 0; for(int x=0;x<2*d->M;x++) o = std::max(o,val(x)); f.opt = sg*o; f.sig = mix(mix(7,N*4+L*2+mx),d->h);
   f.eval = [d,sg,val](const std::vector<int>& l) -> std::optional<double> { if ((int)l.size() != d->L+2 || l.back() != 0) return std::nullopt; int x = 0; for(int k=0;k<=d->L;k++) { const int b = k < d->L ? d->N : 2; if (l[k] < 0 || l[k] >= b) return std::nullopt; x = x*b+l[k]; } return sg*val(x); };
   auto init = []() { return WSt{0,0,0}; }; auto target = [d]() { return WSt{d->L+2,0,0}; };
   auto lgf = [d](const WSt& s) { return Range::close(0,s.d < d->L ? d->N-1 : s.d == d->L ? 1 : 0); };
   auto stf = [d](const WSt& s,const int l) -> std::optional<WSt> { if (s.key < 0) return s.d < d->L ? WSt{s.d+1,-1,0} : s.d == d->L ? WSt{s.d+1,-1,d->top} : WSt{d->L+2,0,0}; if (s.d < d->L) return WSt{s.d+1,s.key*d->N+l,0}; if (s.d == d->L) return WSt{s.d+1,2*s.key+l,d->f(2*s.key+l)}; return WSt{d->L+2,0,0}; };
   auto scf = [d,sg](const WSt& s,int l) { return (double)sg*(s.d < d->L ? (s.key < 0 ? 1000 : d->c(s.d+1,s.key*d->N+l)) : s.d == d->L ? 0 : s.best); };
   // below the last choice prices are merged; above it nodes become "some choice": a state without key (-1) whose price is the dearest possible
   auto smf = [d](const WSt& a,const WSt& b) -> std::optional<WSt> { if (a.d <= d->L) return WSt{a.d,-1,0}; return WSt{a.d,std::min(a.key,b.key),d->top}; };
   auto eqs = [d](const WSt& s) { return s.d == d->L+2; };
   std::function<double(const WSt&,LocalContext)> loc; if (useLocal) loc = [d,sg](const WSt& s,LocalContext) { return (double)sg*(s.d <= d->L ? 1000*(d->L-s.d)+d->top : s.d == d->L+1 ? s.best : 0); };
   auto mk = [&]<class C>(C) { return DD<WSt,C,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs),decltype(loc)>::makeDD(init,target,lgf,stf,scf,smf,eqs,GNSet(0,1),loc); };
   f.dd = mx ? mk(Maximize<double>{}) : mk(Minimize<double>{});
   return f;
}
// hundreds to thousands of layers over few keys; merged states are sets of keys
inline Fam famDeep(Rng& r,int N,bool useLocal) {
   struct D { int N,K,L; uint64_t h; std::vector<std::vector<double>> best; int c(int d,int k,int l) const { return mix(h+(uint64_t)d*64,k*8+l) % 101; } int to(int d,int k,int l) const { return (k+l+(int)(mix(h,(uint64_t)d) % 3)) % K; } };
   auto d = std::make_shared<D>(); d->N = N; d->K = r.in(2,6); d->L = r.in(2,3); d->h = r.next() >> 8; const bool mx = r.chance(50); const int sg = mx ? 1 : -1;
   d->best.assign(N+1,std::vector<double>(d->K,0)); for(int e=N-1;e>=0;e--) for(int k=0;k<d->K;k++) { double v = -1; for(int l=0;l<d->L;l++) v = std::max(v,d->c(e,k,l)+d->best[e+1][d->to(e,k,l)]); d->best[e][k] = v; }
   Fam f; f.name = "deep"; f.maximize = mx; f.local = useLocal; f.opt = sg*d->best[0][0]; f.sig = mix(mix(9,N*4+d->K*2+mx),d->h);
   f.eval = [d,sg](const std::vector<int>& l) -> std::optional<double> { if ((int)l.size() != d->N) return std::nullopt; int k = 0; double v = 0; for(int e=0;e<d->N;e++) { if (l[e] < 0 || l[e] >= d->L) return std::nullopt; v += d->c(e,k,l[e]); k = d->to(e,k,l[e]); } return sg*v; };
   auto init = []() { return WSt{0,1,0}; }; auto target = [d]() { return WSt{d->N,0,0}; };
   auto lgf = [d](const WSt&) { return Range::close(0,d->L-1); };
   auto stf = [d](const WSt& s,const int l) -> std::optional<WSt> { if (s.d+1 == d->N) return WSt{d->N,0,0}; int m = 0; for(int k=0;k<d->K;k++) if (s.key >> k & 1) m |= 1 << d->to(s.d,k,l); return WSt{s.d+1,m,0}; };
   auto scf = [d,sg](const WSt& s,int l) { int v = 0; for(int k=0;k<d->K;k++) if (s.key >> k & 1) v = std::max(v,d->c(s.d,k,l)); return (double)sg*v; };
   auto smf = [](const WSt& a,const WSt& b) -> std::optional<WSt> { if (a.d != b.d) return std::nullopt; return WSt{a.d,a.key | b.key,0}; };
   auto eqs = [d](const WSt& s) { return s.d == d->N; };
   std::function<double(const WSt&,LocalContext)> loc; if (useLocal) loc = [d,sg](const WSt& s,LocalContext) { double v = 0; if (s.d < d->N) for(int k=0;k<d->K;k++) if (s.key >> k & 1) v = std::max(v,d->best[s.d][k]+(double)(mix(d->h,k) % 7)); return sg*v; };
   auto mk = [&]<class C>(C) { return DD<WSt,C,decltype(target),decltype(lgf),decltype(stf),decltype(scf),decltype(smf),decltype(eqs),decltype(loc)>::makeDD(init,target,lgf,stf,scf,smf,eqs,GNSet(0,d->L-1),loc); };
   f.dd = mx ? mk(Maximize<double>{}) : mk(Minimize<double>{});
   return f;
}
Fam makeFam(Rng& r);
Fam makeDeep(Rng& r,int N);
Fam makeWide(Rng& r,int N,int L);
Fam makeBig(Rng& r);                            // large instances with optima by dynamic programming
}
