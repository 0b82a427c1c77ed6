#include "solver.hpp"
#include "families.hpp"
using namespace vf;

static GenOpt sizeFor(Rng& r) {
   GenOpt g; if (r.in(1,400) == 1) { g.huge = true; g.maxM = r.in(200,500); } // thousands of nodes: growth of heaps, pools and queues
   else if (r.chance(5)) { g.large = true; g.maxN = 6; g.maxM = r.in(12,60); g.maxL = 5; }
   else if (r.chance(3)) g.deep = true; else if (r.chance(3)) g.bushy = true; else if (r.chance(12)) g.sets = true;
   else if (r.chance(60)) g.hard = true;                  // long, dense, small costs: many open nodes
   return g;
}
static unsigned widthFor(Rng& r) { int x = r.in(1,20); return x <= 14 ? r.in(1,5) : x <= 18 ? r.in(6,20) : x == 19 ? r.in(21,200) : r.in(200,1500); }
static void hashFor(Rng& r) { PS::hashMode = r.chance(80) ? 0 : r.in(1,4); if (PS::hashMode==1||PS::hashMode==2||PS::hashMode==3) {} }

static MP model(Rng& r) { auto g = sizeFor(r); auto M = genModel(r,g); randOptions(r,*M); if (g.hard && r.chance(60)) { if (M->o.local) M->o.local = r.chance(50) ? 3 : 6; if (M->o.dom) M->o.dom = r.in(2,4); } hashFor(r); return M; }
static unsigned searchWidth(Rng& r) { return r.chance(65) ? r.in(1,2) : widthFor(r); }


// ---- concrete problem families (knapsack, independent set, TSP, Golomb, assignment, stocking) over the library's own state types
static SearchRes famRun(Rng& r,Fam& f,SearchCfg& c) {
   c.width = searchWidth(r); c.cap = 200000;
   auto R = runSearch(f.dd,nullptr,c); st.add("searches"); st.add("family_" + f.name); st.add("extractions",R.calls); st.add("solutions_reported",R.sols.size());
   if (R.calls > 1) { st.add("multi_node_searches"); st.sig(mix(f.sig,c.width)); }
   st.sample(VF_STR("family " << f.name << " width=" << c.width << " local=" << f.local << " dom=" << f.dom << " opt=" << f.opt << " -> " << R.primal << " extractions=" << R.calls));
   REQUIRE(!R.capped,"search on " << f.name << " at width " << c.width << " did not terminate within " << c.cap << " extractions");
   return R;
}
static void famOptimum(const Fam& f,const SearchRes& R,unsigned w) {
   if (f.feasible) REQUIRE(std::abs(R.primal - f.opt) < 1e-6,"search on a " << f.name << " instance at width " << w << " (local=" << f.local << ",dom=" << f.dom << ") returned " << R.primal << " but the optimum is " << f.opt);
   else REQUIRE(R.sols.empty() && R.primal == R.initial,"infeasible " << f.name << " instance but search returned " << R.primal);
}
static void famSols(const Fam& f,const SearchRes& R) {
   for(auto& s : R.sols) { auto v = f.eval(s.labels); REQUIRE(v,f.name << ": reported labels " << show(s.labels) << " are no feasible solution");
      REQUIRE(std::abs(*v - s.primal) < 1e-6,f.name << ": reported labels " << show(s.labels) << " are worth " << *v << " but " << s.primal << " was announced"); st.add("solutions_replayed"); }
}
static void bigRun(Rng& r) {                    // long searches: thousands of open nodes, deep paths, sets of several words
   Fam f = makeBig(r); SearchCfg c; static const unsigned ws[] = {1,2,4,8,16,32,64}; c.width = ws[r.in(0,6)]; c.cap = 3000;
   auto R = runSearch(f.dd,nullptr,c); st.add("searches"); st.add("family_" + f.name); st.add("extractions",R.calls); st.add("solutions_reported",R.sols.size()); st.add(R.calls > 500 ? "searches_over_500_nodes" : "big_searches_under_500_nodes");
   famSols(f,R); REQUIRE(R.sols.empty() || R.sols.back().primal == R.primal,f.name << ": final primal is not that of the last solution");
   if (!R.capped) { st.sig(mix(f.sig,c.width)); famOptimum(f,R,c.width); } else st.add("big_searches_cut_off");
}
// one layer of tens of thousands of nodes: more open nodes than the queue is prepared for, tables and pools that grow
static void wideRun(Rng& r,int N,int L) {
   Fam f = makeWide(r,N,L); SearchCfg c; c.width = N; c.cap = 400000; auto R = runSearch(f.dd,nullptr,c); st.add("searches"); st.add("family_wide"); st.add("extractions",R.calls); st.mx("wide_max_extractions",R.calls); st.add("solutions_reported",R.sols.size());
   famSols(f,R); REQUIRE(R.sols.empty() || R.sols.back().primal == R.primal,f.name << ": final primal is not that of the last solution"); REQUIRE(!R.capped,"search did not terminate on a wide model with " << N << "^" << L << " choices"); famOptimum(f,R,c.width); st.sig(mix(f.sig,N));
}
// hundreds to thousands of layers
static void deepRun(Rng& r,int N) {
   Fam f = makeDeep(r,N); SearchCfg c; c.width = r.chance(70) || N > 5000 ? r.in(6,70) : r.in(1,5); c.cap = 12; auto R = runSearch(f.dd,nullptr,c); st.add("searches"); st.add("family_deep"); st.mx("layers",N); st.add("solutions_reported",R.sols.size());
   famSols(f,R); REQUIRE(R.sols.empty() || R.sols.back().primal == R.primal,f.name << ": final primal is not that of the last solution"); if (!R.capped) { st.sig(mix(f.sig,c.width)); famOptimum(f,R,c.width); } else st.add("deep_searches_cut_off");
}
static void c01(Rng& r,long id) {
   if (id % 8192 == 17) { deepRun(r,r.in(2100,3500)); return; } if (id % 256 == 18) { deepRun(r,r.in(150,2000)); return; }
   if (id % 8192 == 11) { wideRun(r,r.in(365,380),2); return; } if (id % 512 == 12) { int L = r.in(1,3); wideRun(r,L == 1 ? r.in(200,2000) : L == 2 ? r.in(10,80) : r.in(3,12),L); return; }
   if (id % 16 == 7) { bigRun(r); return; }
   if (r.chance(25)) { Fam f = makeFam(r); SearchCfg c; auto R = famRun(r,f,c); famOptimum(f,R,c.width); return; }
   auto M = model(r); auto dd = makeDDFor(M);
   SearchCfg c; c.width = searchWidth(r); c.cap = stepCap(*M)*4+100;
   auto R = runSearch(dd,M.get(),c); noteSearch(*M,R,c); checkOptimum(*M,R,c);
}
static void c02(Rng& r,long id) {
   if (id % 40 == 7) { bigRun(r); return; }
   if (r.chance(25)) { Fam f = makeFam(r); SearchCfg c; auto R = famRun(r,f,c); famSols(f,R); if (!R.sols.empty()) REQUIRE(R.sols.back().primal == R.primal,f.name << ": final primal " << R.primal << " is not that of the last solution"); return; }
   auto M = model(r); auto dd = makeDDFor(M);
   SearchCfg c; c.width = searchWidth(r); c.cap = stepCap(*M)*4+100; if (r.chance(20)) c.stopAt = r.in(0,4);
   auto R = runSearch(dd,M.get(),c); noteSearch(*M,R,c);
   for(auto& s : R.sols) checkSolution(*M,s.labels,s.primal,"search solution");
   if (!R.sols.empty()) REQUIRE(R.sols.back().primal == R.primal,"final primal " << R.primal << " is not that of the last solution " << R.sols.back().primal << "; " << M->dump());
   else REQUIRE(R.primal == R.initial,"primal " << R.primal << " announced without any solution; " << M->dump());
   // single diagrams from the initial state and from cutset nodes
   auto A = makeDDFor(M),B = makeDDFor(M),X = makeDDFor(M);
   unsigned w = widthFor(r); Relaxed ra(w); Restricted rb(w); Exact rx;
   double p0 = r.chance(50) ? 1e12 : (M->feasible() ? M->opt() : 0) + r.in(-3,6)*(M->maximize?-1:1);
   Root root = rootOf(*M);
   auto one = [&](const Root& ro,bool ap) {
      auto Rb = compileRun(B,*M,&rb,ro,p0,ap); checkIncumbent(*M,Rb,"restricted incumbent"); checkSols(*M,Rb,"restricted solution");
      auto Rx = compileRun(X,*M,&rx,ro,p0,ap); checkIncumbent(*M,Rx,"exact incumbent"); checkSols(*M,Rx,"exact solution"); };
   one(root,false);
   auto Ra = compileRun(A,*M,&ra,root,p0,false);
   if (Ra.exact) checkIncumbent(*M,Ra,"exact relaxed incumbent"); checkSols(*M,Ra,"relaxed solution");
   auto A2 = makeDDFor(M); Relaxed ra2(w);
   auto cs = A->computeCutSet(); AbstractDD::Ptr cur = A,oth = A2; Relaxed *sc=&ra,*so=&ra2;
   for(int d=0;d<3 && !cs.empty();d++) {
      Root ro = rootOf(cs[r.in(0,(int)cs.size()-1)]); one(ro,true);
      auto Rr = compileRun(oth,*M,so,ro,p0,true); if (Rr.exact) checkIncumbent(*M,Rr,"exact relaxed incumbent"); checkSols(*M,Rr,"relaxed solution");
      cs = oth->computeCutSet(); std::swap(cur,oth); std::swap(sc,so);
   }
}
static void c03(Rng& r,long) {
   if (r.chance(20)) { Fam f = makeFam(r); SearchCfg c; const double dir = f.maximize ? -1 : 1; int k = r.in(0,3); double seeded = Bounds(f.dd).getPrimal();
      if (f.feasible && k) { c.primal = f.opt + dir*(k==1 ? 0 : k==2 ? r.in(1,20) : -r.in(1,20)); seeded = *c.primal; st.add("warm_starts"); }
      auto R = famRun(r,f,c); double prev = seeded; auto better = [&](double a,double b) { return f.maximize ? a > b : a < b; };
      for(auto& s : R.sols) { REQUIRE(better(s.primal,prev),f.name << ": solution of value " << s.primal << " reported although the primal bound was already " << prev); prev = s.primal; st.add("improvements_checked"); }
      if (f.feasible && better(f.opt,seeded)) REQUIRE(std::abs(R.primal-f.opt) < 1e-6,f.name << ": warm start " << seeded << ": search returned " << R.primal << " but the optimum is " << f.opt);
      else { REQUIRE(R.primal == seeded && R.sols.empty(),f.name << ": warm start " << seeded << " cannot be improved but the search returned " << R.primal); st.add("unimprovable_starts"); }
      return; }
   auto M = model(r); auto dd = makeDDFor(M);
   SearchCfg c; c.width = searchWidth(r); c.cap = stepCap(*M)*4+100;
   const double dir = M->maximize ? -1 : 1;
   int k = r.in(0,4); double base = M->feasible() ? M->opt() : r.in(-20,20);
   if (k==1) c.primal = base; else if (k==2) c.primal = base + dir*(r.in(1,40)/4.0); else if (k==3) c.primal = base - dir*(r.in(1,40)/4.0);
   else if (k==4) c.primal = base + dir*r.in(1,1000);
   const double seeded = c.primal ? *c.primal : Bounds(dd).getPrimal();
   double prev = seeded;
   auto R = runSearch(dd,M.get(),c); noteSearch(*M,R,c);
   for(auto& s : R.sols) { auto rp = M->replay(s.labels);
      REQUIRE(M->better(s.primal,prev),"solution of value " << s.primal << " reported although the primal bound was already " << prev << "; " << M->dump());
      REQUIRE(!rp.legal || M->better(rp.cost,prev),"solution costing " << rp.cost << " reported although the primal bound was already " << prev << "; " << M->dump());
      prev = s.primal; st.add("improvements_checked"); }
   const bool imp = M->feasible() && M->better(M->opt(),seeded);
   if (imp) REQUIRE(std::abs(R.primal - M->opt()) < 1e-6,"warm start " << seeded << ": search returned " << R.primal << " but the optimum is " << M->opt() << "; " << M->dump());
   else { REQUIRE(R.primal == seeded,"warm start " << seeded << " cannot be improved but the primal became " << R.primal << "; " << M->dump());
      REQUIRE(R.sols.empty(),"warm start " << seeded << " cannot be improved but a solution was reported; " << M->dump()); st.add("unimprovable_starts"); }
   if (c.primal) st.add("warm_starts");
}

// ---- general acyclic models for the exact strategy
struct DagM { int n,labels=8; bool mx; std::vector<std::vector<std::tuple<int,double,int>>> e; };   // edges (to,cost,label)
template <class Cmp> static AbstractDD::Ptr dagDD(std::shared_ptr<DagM> D) {
   using F1 = std::function<int()>; 
   using TDD = DD<int,Cmp,F1,std::function<GNSet(const int&)>,std::function<std::optional<int>(const int&,int)>,std::function<double(const int&,int)>,
      std::function<std::optional<int>(const int&,const int&)>,std::function<bool(const int&)>>;
   return TDD::makeDD(F1([]{return 0;}),F1([D]{return D->n-1;}),std::function<GNSet(const int&)>([D](const int& s){ GNSet g {}; for(auto& [t,c,l] : D->e[s]) g.insert(l); return g; }),
      std::function<std::optional<int>(const int&,int)>([D](const int& s,int lb)->std::optional<int>{ if (lb >= 0 && lb < (int)D->e[s].size()) return std::get<0>(D->e[s][lb]); return std::nullopt; }),
      std::function<double(const int&,int)>([D](const int& s,int lb){ return lb >= 0 && lb < (int)D->e[s].size() ? std::get<1>(D->e[s][lb]) : 0.0; }),
      std::function<std::optional<int>(const int&,const int&)>([](const int&,const int&)->std::optional<int>{ return std::nullopt; }),
      std::function<bool(const int&)>([D](const int& s){ return s == D->n-1; }),setFrom(std::views::iota(0,D->labels)));
}
static void dagCase(Rng& r) {
   auto D = std::make_shared<DagM>(); D->mx = r.chance(50); D->n = r.chance(85) ? r.in(2,25) : r.in(400,1500); int deg = r.in(1,4);
   int span = r.chance(50) ? 6 : 1000;
   D->e.resize(D->n);
   for(int i=0;i<D->n-1;i++) { int d = r.in(r.chance(20)?0:1,deg); for(int l=0;l<d;l++) D->e[i].push_back({r.in(i+1,std::min(D->n-1,i+span)),(double)r.in(-9,9),l}); }
   auto dd = D->mx ? dagDD<Maximize<double>>(D) : dagDD<Minimize<double>>(D);
   double worst = D->mx ? -BIG : BIG; std::vector<double> h(D->n,worst); h[D->n-1] = 0;
   for(int i=D->n-2;i>=0;i--) for(auto& [t,c,l] : D->e[i]) if (feas(h[t])) h[i] = D->mx ? std::max(h[i],c+h[t]) : std::min(h[i],c+h[t]);
   Exact ex; Capture cap; dd->setStrategy(&ex); Bounds b(dd); dd->compute(b);
   double v = dd->currentOpt();
   auto dump = [&] { std::ostringstream o; o << (D->mx?"max":"min"); for(int i=0;i<std::min(D->n,30);i++) for(auto& [t,c,l] : D->e[i]) o << " " << i << "-" << l << ">" << t << "/" << c; return o.str(); };
   REQUIRE(dd->isExact(),"exact diagram not flagged exact");
   if (feas(h[0])) REQUIRE(std::abs(v - h[0]) < 1e-6,"exact diagram of an acyclic model has optimum " << v << " expected " << h[0] << " " << dump());
   else REQUIRE(std::abs(v) >= INFV,"infeasible acyclic model has value " << v << " " << dump());
   if (feas(h[0])) { int s = 0; double c = 0; for(int lb : dd->incumbent()) { bool f=false; for(auto& [t,cc,l] : D->e[s]) if (l==lb && !f) { s=t; c+=cc; f=true; break; } REQUIRE(f,"incumbent not replayable " << dump()); }
      REQUIRE(s == D->n-1 && std::abs(c - h[0]) < 1e-6,"incumbent of the exact diagram costs " << c << " ends in " << s << " " << dump()); st.add("solutions_replayed"); }
   st.add("dag_models"); st.mx("dag_nodes",D->n); if (D->n > 3 && feas(h[0])) st.sig(mix(D->n,std::hash<std::string>{}(dump())));
}
// single diagrams over the library's own state types: kind 0 exact, 1 restricted, 2 relaxed, 3 relaxed and its cutset
static void famDiagrams(Rng& r,int kind,long id) {
   const int pick = r.in(0,9); Fam f = id/40 % 100 == 3 ? (id/40 == 3 && kind < 3 ? makeDeep(r,r.in(2100,3500)) : makeDeep(r,r.in(150,600))) : pick < 7 ? makeFam(r) : pick < 9 ? makeBig(r) : makeWide(r,r.in(3,40),r.in(1,2)); const double dir = f.maximize ? -1 : 1; auto better = [&](double a,double b) { return f.maximize ? a > b + 1e-6 : a < b - 1e-6; };
   auto same = [](double a,double b) { return std::abs(a-b) < 1e-6; };
   const unsigned w = r.chance(50) ? r.in(1,4) : r.in(1,60); Exact ex; Restricted rs(w); Relaxed rl(w); Strategy* s = kind == 0 ? (Strategy*)&ex : kind == 1 ? (Strategy*)&rs : (Strategy*)&rl;
   Capture cap; auto dd = f.dd->duplicate(); dd->setStrategy(s); std::optional<double> p0; if (f.feasible && r.chance(40)) p0 = f.opt + dir*r.in(1,15);
   struct Sol { std::vector<int> l; double p; }; std::vector<Sol> sols; auto mk = [&](Bounds& b) { if (p0) b.setPrimal(*p0); b.onSolution([&](const std::vector<int>& l) { sols.push_back({l,b.getPrimal()}); }); };
   const std::string ctx = VF_STR(s->getName() << " diagram (width " << w << ") of a " << f.name << " instance (local=" << f.local << ",dom=" << f.dom << ",optimum " << (f.feasible ? VF_STR(f.opt) : std::string("none")) << ",primal " << (p0 ? VF_STR(*p0) : std::string("none")) << ")");
   const int times = r.chance(70) ? 1 : 2; auto d0 = f.dd->duplicate(); Restricted r0(1); ANode::Ptr at = nullptr; if (kind == 3) { d0->setStrategy(&r0); Bounds b(d0); d0->compute(b); at = d0->getRoot(); }   // the search publishes what it sees: apply, not compute
   for(int t=0;t<times;t++) {      // compiled again in the same object: same answer
      sols.clear(); Bounds b(dd); mk(b); if (kind == 3) dd->apply(at,b); else { dd->reset(); dd->compute(b); } const double v = dd->currentOpt(); const bool none = std::abs(v) >= 2147483000.0, exact = dd->isExact(); st.add(std::string("family_diagrams_") + s->getName()); st.add("family_" + f.name); if (!exact) { st.add("family_diagrams_inexact"); st.sig(mix(f.sig,w*4+kind)); }
      if (kind == 0) REQUIRE(exact,ctx << " is not flagged exact");
      if (!f.feasible) { if (kind <= 1 || exact) REQUIRE(none,ctx << " reports " << v); }
      else if (kind == 0 || exact) REQUIRE(same(v,f.opt),ctx << " is exact but reports " << v);
      else if (kind == 1) REQUIRE(none || !better(v,f.opt),ctx << " reports " << v << ", better than the optimum");
      else REQUIRE(!better(f.opt,v),ctx << " reports the bound " << v << " which cuts off the optimum");
      if (!none && (kind <= 1 || exact)) { auto l = dd->incumbent(); auto e = f.eval(l); REQUIRE(e,ctx << ": incumbent " << show(l) << " is no feasible solution"); REQUIRE(same(*e,v),ctx << ": incumbent " << show(l) << " is worth " << *e << " but the diagram reports " << v); st.add("family_incumbents"); }
      if (kind == 3 && f.feasible) {
         auto cs = dd->computeCutSet(); if (exact) continue; auto d2 = f.dd->duplicate(); d2->setStrategy(&ex); double best = 0; bool have = false; for(auto& q : sols) { best = q.p; have = true; }
         if (cs.size() > 400) continue;
         for(auto n : cs) { REQUIRE(n->isExact(),ctx << ": inexact node in the cutset"); Bounds b2(d2); if (p0) b2.setPrimal(*p0); d2->apply(n,b2); const double x = d2->currentOpt(); st.add("family_cutset_nodes"); if (std::abs(x) >= 2147483000.0) continue;
            REQUIRE(!better(x,f.opt),ctx << ": the sub-problem of a cutset node is worth " << x << ", more than the whole problem"); if (n != dd->getRoot() && (!p0 || better(x,*p0))) REQUIRE(!better(x,n->getBound()+n->getBackwardBound()),ctx << ": a cutset node promises at most " << n->getBound()+n->getBackwardBound() << " but its sub-problem is worth " << x);
            auto l = d2->incumbent(); auto e = f.eval(l); REQUIRE(e && same(*e,x),ctx << ": the best completion " << show(l) << " of a cutset node is not a solution worth " << x);
            if (!have || better(x,best)) { best = x; have = true; } }
         REQUIRE(have && same(best,f.opt),ctx << ": the best solution below its cutset of " << cs.size() << " nodes (or found on the way) is " << (have ? VF_STR(best) : std::string("none"))); st.add("family_cutsets_covered");
      }
      for(auto& q : sols) { auto e = f.eval(q.l); REQUIRE(e && same(*e,q.p),ctx << ": published labels " << show(q.l) << " are not a solution worth " << q.p); st.add("solutions_replayed"); }
   }
   st.sample(ctx);
}
static void c04(Rng& r,long id) {
   if (id % 10 == 9) { famDiagrams(r,0,id); return; }
   if (r.chance(40)) { dagCase(r); return; }
   auto M = model(r); auto dd = makeDDFor(M); Exact ex;
   double p0 = r.chance(50) ? 1e12 : (M->feasible() ? M->opt() : 0) + r.in(-3,9)*(M->maximize?-1:1);
   Root root = rootOf(*M);
   auto R = compileRun(dd,*M,&ex,root,p0,false); checkExactRun(*M,root,R);
   if (M->reachable() > 3) st.sig(mix(M->sig(),M->o.local)); st.sample(VF_STR("exact " << M->desc() << " value=" << R.value << " primal=" << p0 << " incumbent=" << show(R.inc)));
   auto A = makeDDFor(M); Relaxed rel(r.in(1,4)); compileRun(A,*M,&rel,root,p0,false);
   auto cs = A->computeCutSet(); for(int k=0;k<3 && !cs.empty();k++) { Root ro = rootOf(cs[r.in(0,(int)cs.size()-1)]); auto Q = compileRun(dd,*M,&ex,ro,p0,true); checkExactRun(*M,ro,Q);
      const double so = subOpt(*M,ro); if (feas(so) && M->better(so,Q.p0)) { REQUIRE(Q.ret && std::abs(Q.p1-so)<1e-6,"exact diagram did not publish its optimum " << so); checkSols(*M,Q,"exact solution"); st.add("published"); } }
}
// chains of diagrams rooted at cutset nodes, as the search would visit them
static void chain(Rng& r,MP M,const std::function<void(const Root&,double,bool)>& visit,int depth) {
   double p0 = r.chance(55) ? 1e12 : (M->feasible() ? M->opt() : 0) + r.in(-2,12)*(M->maximize?-1:1);
   unsigned w = r.in(1,4);
   auto A = makeDDFor(M),B = makeDDFor(M); Relaxed ra(w),rb(w);
   Root root = rootOf(*M); visit(root,p0,false);
   compileRun(A,*M,&ra,root,p0,false); auto cs = A->computeCutSet();
   AbstractDD::Ptr cur=A,oth=B; Relaxed *c=&ra,*o=&rb;
   for(int d=0;d<depth && !cs.empty();d++) {
      Root ro = rootOf(cs[r.in(0,(int)cs.size()-1)]); visit(ro,p0,true); st.add("subproblem_roots");
      compileRun(oth,*M,o,ro,p0,true); cs = oth->computeCutSet(); std::swap(cur,oth); std::swap(c,o); }
}
static void c05(Rng& r,long id) {
   if (id % 8 == 7) { famDiagrams(r,1,id); return; }
   auto M = model(r); auto dd = makeDDFor(M); Restricted rs(1);
   chain(r,M,[&](const Root& ro,double p0,bool ap) { for(int k=0;k<2;k++) { unsigned w = widthFor(r); rs.setWidth(w);
      auto R = compileRun(dd,*M,&rs,ro,p0,ap); checkRestrictedRun(*M,ro,w,R); checkSols(*M,R,"restricted solution"); if (!R.exact) st.sig(mix(M->sig(),w*7+ro.lb.size()));
      st.sample(VF_STR("restricted w=" << w << " root=" << ro.s << " primal=" << p0 << " value=" << R.value << " exact=" << R.exact << " " << M->desc())); } },4);
}
static void c06(Rng& r,long id) {
   if (id % 8 == 7) { famDiagrams(r,2,id); return; }
   auto M = model(r); auto dd = makeDDFor(M); Relaxed rs(1);
   chain(r,M,[&](const Root& ro,double p0,bool ap) { for(int k=0;k<2;k++) { unsigned w = widthFor(r); rs.setWidth(w);
      auto R = compileRun(dd,*M,&rs,ro,p0,ap); checkRelaxedRun(*M,ro,w,R); if (!R.exact) st.sig(mix(M->sig(),w*7+ro.lb.size()));
      st.sample(VF_STR("relaxed w=" << w << " root=" << ro.s << " primal=" << p0 << " bound=" << R.value << " exact=" << R.exact << " merges=" << R.merged << " " << M->desc())); } },4);
}
static void c07(Rng& r,long id) {
   if (id % 8 == 7) { famDiagrams(r,3,id); return; }
   auto M = model(r);
   auto A = makeDDFor(M),B = makeDDFor(M); unsigned w = r.in(1,6); Relaxed ra(w),rb(w);
   double p0 = r.chance(55) ? 1e12 : (M->feasible() ? M->opt() : 0) + r.in(-2,12)*(M->maximize?-1:1);
   // a node to root the first diagram at: obtained from a compiled diagram of the same model
   auto S = makeDDFor(M); Exact ex; { Capture c; S->setStrategy(&ex); Bounds b(S); S->compute(b); }
   Root ro = rootOf(S->getRoot());
   for(int d=0;d<6;d++) {
      auto dd = d%2 ? B : A; Relaxed* s = d%2 ? &rb : &ra; s->setWidth(r.in(1,6));
      auto R = compileRun(dd,*M,s,ro,p0,true); auto cs = dd->computeCutSet();
      checkCutset(*M,ro,s->getWidth(),R,cs);
      if (!R.exact) { st.sig(mix(M->sig(),mix(ro.s.h(),s->getWidth()))); st.sample(VF_STR("cutset w=" << s->getWidth() << " root=" << ro.s << " nodes=" << cs.size() << " dual=" << R.value << " " << M->desc())); }
      if (R.exact || cs.empty()) break;
      ro = rootOf(cs[r.in(0,(int)cs.size()-1)]);
   }
}
// One diagram with a very long life: many sub-problems, each compiled twice with every possible distance between the two
// compilations (so that anything recycled after 2^8, 2^10, ... compilations comes round while its first user is still in place).
static void longLife(Rng& r,int N) {
   auto D = std::make_shared<DagM>(); D->mx = r.chance(50); const int kids = r.in(1,3); D->n = 2 + N + N*kids; D->labels = N; D->e.resize(D->n); std::vector<double> best(N+1);
   for(int i=0;i<N;i++) { D->e[0].push_back({1+i,(double)r.in(-9,9),i}); for(int k=0;k<kids;k++) { int b = 1+N+i*kids+k; double c1 = r.in(-99,99),c2 = r.in(-99,99); D->e[1+i].push_back({b,c1,k}); D->e[b].push_back({D->n-1,c2,0}); if (!k || (D->mx ? c1+c2 > best[i] : c1+c2 < best[i])) best[i] = c1+c2; } }
   auto mk = [&] { return D->mx ? dagDD<Maximize<double>>(D) : dagDD<Minimize<double>>(D); };
   auto S = mk(); Exact sx; std::vector<ANode::Ptr> roots(N,nullptr); { Capture cap; S->setStrategy(&sx); Bounds b(S); S->compute(b); }
   for(auto e = S->getRoot()->beginKids();e != S->getRoot()->endKids();++e) roots[(*e)->_lbl] = (*e)->_to;
   auto dd = mk(); Exact ex; Restricted rt(r.in(1,3)+kids); Relaxed rl(r.in(1,3)+kids); Strategy* ss[3] = {&ex,&rt,&rl}; dd->setStrategy(ss[r.in(0,2)]); 
   auto visit = [&](int i,const char* when) { Capture cap; Bounds b(dd); bool ret = dd->apply(roots[i],b); const double want = roots[i]->getBound() + best[i], v = dd->currentOpt();
      REQUIRE(dd->isExact() && std::abs(v - want) < 1e-6 && ret && std::abs(b.getPrimal() - want) < 1e-6,"sub-problem " << i << " of " << N << " compiled " << when << " in one long-lived diagram (" << kids << " children each) gives " << v << " (exact " << dd->isExact() << ", published " << b.getPrimal() << ") instead of " << want);
      REQUIRE(dd->incumbent().size() == 3,"sub-problem " << i << " of " << N << " compiled " << when << " in one long-lived diagram has an incumbent of " << dd->incumbent().size() << " labels"); };
   for(int i=0;i<N;i++) visit(i,"the first time"); if (r.chance(50)) { Capture cap; Bounds b(dd); dd->apply(roots[N-1],b); } for(int i=N-1;i>=0;i--) visit(i,"again");
   st.add("long_lives"); st.mx("compilations_in_one_life",2*N+1); st.sig(mix(N,r.next()));
}
static void c08(Rng& r,long kase) {
#ifdef __SANITIZE_ADDRESS__
   if (kase % 40 == 7) { longLife(r,r.in(100,160)); return; }
#else
   if (kase % 6000 == 3) { longLife(r,36000); return; }
   if (kase % 80 == 7) { longLife(r,r.in(100,700)); return; }
#endif
   auto M = model(r);
   auto shared = makeDDFor(M);
   const int K = r.in(3,7); unsigned bw = searchWidth(r); BAndB eng(shared,bw);
   Bounds* carried = nullptr; std::unique_ptr<Bounds> carriedHolder; 
   Relaxed rl(2); Restricted rt(2); Exact ex;
   auto S = makeDDFor(M); Relaxed srel(r.in(1,3)); { compileRun(S,*M,&srel,rootOf(*M),1e12,false); }
   std::vector<Root> roots; { auto S2 = makeDDFor(M); (void)S2; auto cs = S->computeCutSet(); for(auto c : cs) roots.push_back(rootOf(c)); }
   uint64_t sg = M->sig(); std::ostringstream hist;
   auto dup = r.chance(30) ? shared->duplicate() : shared;
   for(int k=0;k<K;k++) {
      int op = r.in(0,4);
      if (op == 0 || op == 1) {       // search, possibly re-using engine or bounds listener list
         SearchCfg c; c.width = bw; c.cap = stepCap(*M)*4+100;
         SearchRes R;
         if (op == 1 && !carried) { carriedHolder = std::make_unique<Bounds>(); carried = carriedHolder.get(); R = runSearch(shared,M.get(),c,carried,&eng); checkOptimum(*M,R,c); hist << " search(carried,w" << bw << ")"; }
         else if (op == 1) { // same bounds object, primal re-opened to the initial value: must find the optimum again
            c.primal = Bounds(shared).getPrimal(); R = runSearch(shared,M.get(),c,carried,&eng); checkOptimum(*M,R,c); hist << " search(again,w" << bw << ")"; st.add("bounds_reused"); }
         else { c.width = widthFor(r); R = runSearch(dup,M.get(),c); checkOptimum(*M,R,c); hist << " search(w" << c.width << ")"; }
         for(auto& s : R.sols) checkSolution(*M,s.labels,s.primal,"search solution after reuse");
         st.add("searches");
      } else {                         // compile in the shared diagram, compare with a fresh one
         Kind kd = (Kind)r.in(0,2); unsigned w = r.in(1,5); Strategy* sg2 = kd==KExact ? (Strategy*)&ex : kd==KRestricted ? (Strategy*)&rt : (Strategy*)&rl;
         rl.setWidth(w); rt.setWidth(w);
         double p0 = r.chance(60) ? 1e12 : (M->feasible() ? M->opt() : 0) + r.in(-2,9)*(M->maximize?-1:1);
         bool ap = !roots.empty() && r.chance(60);
         Root ro = ap ? roots[r.in(0,(int)roots.size()-1)] : rootOf(*M);
         auto R = compileRun(shared,*M,sg2,ro,p0,ap);
         auto fresh = makeDDFor(M); Relaxed frl(w); Restricted frt(w); Exact fex; Strategy* fs = kd==KExact ? (Strategy*)&fex : kd==KRestricted ? (Strategy*)&frt : (Strategy*)&frl;
         auto Q = compileRun(fresh,*M,fs,ro,p0,ap);
         REQUIRE(R.value == Q.value && R.exact == Q.exact && R.ret == Q.ret && R.p1 == Q.p1,"after" << hist.str() << " a " << kname(kd) << " diagram (width " << w << ") from " << ro.s << " gives " << R.value << "/" << R.exact << " but a fresh one gives " << Q.value << "/" << Q.exact << "; " << M->dump());
         REQUIRE(R.expanded == Q.expanded,"after" << hist.str() << " a " << kname(kd) << " diagram (width " << w << ") expands other states than a fresh one; " << M->dump());
         if (kd == KRelaxed) { auto f = [](AbstractDD::Ptr d) { std::set<std::tuple<PS,double,double>> s; for(auto c : d->computeCutSet()) s.insert({stateOf(c),c->getBound(),c->getBackwardBound()}); return s; };
            REQUIRE(f(shared) == f(fresh),"after" << hist.str() << " the cutset of a relaxed diagram (width " << w << ") differs from that of a fresh one; " << M->dump()); }
         if (kd == KExact) checkExactRun(*M,ro,R); else if (kd == KRestricted) checkRestrictedRun(*M,ro,w,R); else checkRelaxedRun(*M,ro,w,R);
         hist << " compile(" << kname(kd) << ",w" << w << (ap?",sub":",init") << ")"; st.add("comparisons_with_fresh");
      }
      sg = mix(sg,op*31+k);
   }
   if (M->reachable() > 3) st.sig(sg); st.sample(VF_STR("history:" << hist.str() << " on " << M->desc()));
}
static void c09(Rng& r,long) {
   auto M = model(r); auto dd = makeDDFor(M);
   SearchCfg c; c.width = r.in(1,4); c.cap = stepCap(*M)*4+100;
   auto F = runSearch(dd,M.get(),c);                                   // reference: how many extractions a full run has
   REQUIRE(!F.capped,"search did not terminate within " << c.cap << " extractions; " << M->dump());
   auto report = [&](const SearchRes& R,bool lim) {
      auto p = R.out.rfind("Done("); REQUIRE(p != std::string::npos,"no final report line");
      std::string line = R.out.substr(p,R.out.find('\n',p)-p); unsigned w=0; int consumed=0; 
      REQUIRE(sscanf(line.c_str(),"Done(%u):%n",&w,&consumed)==1 && consumed>0,"unparseable report: " << line);
      REQUIRE(w == c.width,"report names width " << w << " instead of " << c.width << ": " << line);
      double v = strtod(line.c_str()+consumed,nullptr);
      REQUIRE(std::abs(v - R.primal) <= 1e-5*std::max(1.0,std::abs(R.primal)),"report says " << v << " but the primal bound is " << R.primal << ": " << line);
      auto q = line.find("LIM?:"); REQUIRE(q != std::string::npos,"report without limit flag: " << line);
      int flag = atoi(line.c_str()+q+5); REQUIRE((flag != 0) == lim,"limit " << (lim?"was":"was not") << " hit but the report says " << line << "; " << M->dump());
      st.add("reports_checked");
   };
   report(F,false);
   std::vector<uint64_t> at; if (F.calls <= 6) for(uint64_t k=0;k<F.calls;k++) at.push_back(k); else for(int k=0;k<6;k++) at.push_back(r.next()%F.calls);
   at.push_back(F.calls-1);
   for(auto k : at) {
      c.stopAt = (long)k; auto R = runSearch(dd,M.get(),c);
      REQUIRE(R.stopped,"limit predicate never returned true at call " << k << " although the full search makes " << F.calls << " calls; " << M->dump());
      REQUIRE(R.calls == k+1,"limit predicate returned true at call " << k+1 << " but was called " << R.calls << " times");
      REQUIRE(R.after == 0,"search made " << R.after << " model callbacks after the limit predicate returned true; " << M->dump());
      for(auto& s : R.sols) checkSolution(*M,s.labels,s.primal,"solution of a limited search");
      if (R.sols.empty()) REQUIRE(R.primal == R.initial,"limited search without solutions has primal " << R.primal << "; " << M->dump());
      else REQUIRE(R.primal == R.sols.back().primal,"limited search: primal " << R.primal << " is not the last solution's " << R.sols.back().primal);
      report(R,true); st.add("limit_points"); if (F.calls > 1) st.sig(mix(M->sig(),k*8+c.width));
   }
   st.sample(VF_STR("limit points " << at.size() << " of " << F.calls << " extractions, width=" << c.width << " " << M->desc()));
}
static void c10(Rng& r,long) {
   auto M = model(r); if (r.chance(40)) M->o.refuse = 0;
   auto dd = makeDDFor(M); SearchCfg c; c.width = r.chance(60) ? r.in(1,2) : widthFor(r); c.cap = stepCap(*M);
   auto R = runSearch(dd,M.get(),c); noteSearch(*M,R,c);
   REQUIRE(!R.capped,"search at width " << c.width << " extracted more than " << c.cap << " nodes although the model has only " << M->pairs() << " (state,value) pairs and branching " << M->L << "; " << M->dump());
   long wid = 0; for(size_t q=R.out.find("-->widening");q != std::string::npos;q=R.out.find("-->widening",q+1)) wid++;
   REQUIRE(wid <= std::max(0L,(long)M->L - (long)c.width),"search at width " << c.width << " widened " << wid << " times although no state has more than " << M->L << " labels; " << M->dump()); st.add("widenings",wid);
   st.add("bound_total",c.cap);
}
static void c13(Rng& r,long) {
   auto M = model(r); auto D0 = makeDDFor(M),D1 = makeDDFor(M),D2 = makeDDFor(M); Exact ex; Restricted rt(1); Relaxed rl(1);
   chain(r,M,[&](const Root& ro,double p0,bool ap) { unsigned w = widthFor(r); rt.setWidth(w); rl.setWidth(r.chance(70)?r.in(1,5):w);
      auto R0 = compileRun(D0,*M,&ex,ro,p0,ap); checkGraph(*M,D0,KExact,ro,R0);
      auto R1 = compileRun(D1,*M,&rt,ro,p0,ap); checkGraph(*M,D1,KRestricted,ro,R1);
      auto R2 = compileRun(D2,*M,&rl,ro,p0,ap); checkGraph(*M,D2,KRelaxed,ro,R2);
      if (R2.merged) st.sig(mix(M->sig(),rl.getWidth()*9+ro.lb.size()));
      st.sample(VF_STR("graphs from " << ro.s << " widths " << w << "/" << rl.getWidth() << " merges=" << R2.merged << " " << M->desc())); },3);
}
static void c14(Rng& r,long id) {
   if (id % 40 == 7) { bigRun(r); return; }
   auto M = genModel(r,sizeFor(r)); hashFor(r); M->o.refuse = r.chance(70) ? 0 : r.in(1,4);
   unsigned w = searchWidth(r); SearchCfg c; c.width = w; c.cap = stepCap(*M)*4+100; double ref = 0; bool have=false; std::string refo;
   std::vector<std::pair<int,int>> opts = {{0,0}}; for(int k=0;k<5;k++) opts.push_back({r.in(0,6),r.in(0,7)}); opts.push_back({0,r.in(6,7)}); opts.push_back({0,r.in(1,5)}); opts.push_back({r.in(1,6),0});
   for(auto [lo,dm] : opts) { M->o.local = lo; M->o.dom = dm; auto dd = makeDDFor(M); uint64_t d0 = M->ev.domT;
      auto R = runSearch(dd,M.get(),c); noteSearch(*M,R,c); st.add("dominance_hits",M->ev.domT-d0); st.add("option_sets");
      std::string os = VF_STR("local=" << lo << ",dom=" << dm);
      REQUIRE(!R.capped,"search with " << os << " did not terminate; " << M->dump());
      if (!have) { ref = R.primal; refo = os; have = true; }
      REQUIRE(std::abs(ref-R.primal) < 1e-6,"search at width " << w << " returns " << ref << " with " << refo << " but " << R.primal << " with " << os << " (optimum " << M->opt() << "); " << M->dump());
      checkOptimum(*M,R,c);
   }
}
static void c15(Rng& r,long) {
   auto M = model(r); M->contract = true; auto dd = makeDDFor(M); SearchCfg c; c.width = searchWidth(r); c.cap = stepCap(*M)*4+100;
   runSearch(dd,M.get(),c); checkLatched();
   auto A = makeDDFor(M); Exact ex; Restricted rt(widthFor(r)); Relaxed rl(widthFor(r));
   Strategy* ss[3] = {&ex,&rt,&rl};
   for(auto* s : ss) { auto D = makeDDFor(M); double p0 = r.chance(50) ? 1e12 : (M->feasible()?M->opt():0) + r.in(-2,9)*(M->maximize?-1:1); const auto bb = M->ev.locBB; compileRun(D,*M,s,rootOf(*M),p0,false); checkLatched(); REQUIRE(M->ev.locBB == bb,"callback contract: search-context local bound called while compiling a " << s->getName() << " diagram; " << M->dump()); }
   st.add("callbacks_monitored",M->ev.total()); st.add("merge_calls",M->ev.smf); st.add("local_search_ctx",M->ev.locBB); st.add("local_diagram_ctx",M->ev.locDD); st.add("dominance_calls",M->ev.dom);
   if (M->ev.smf) st.sig(mix(M->sig(),c.width)); st.sample(VF_STR("width=" << c.width << " events=" << M->ev.total() << " merges=" << M->ev.smf << " " << M->desc()));
}
// C18 (diagram part): the result must not depend on the hash
static void c18(Rng& r,long) {
   if (r.chance(30)) { Fam f = makeFam(r); for(int k=0;k<2;k++) { SearchCfg c; auto R = famRun(r,f,c); famOptimum(f,R,c.width); } return; }
   auto M = genModel(r); randOptions(r,*M); unsigned w = searchWidth(r); SearchCfg c; c.width = w; c.cap = stepCap(*M)*4+100;
   for(int hm=0;hm<=4;hm++) { PS::hashMode = hm; auto dd = makeDDFor(M); auto R = runSearch(dd,M.get(),c); checkOptimum(*M,R,c);
      auto X = makeDDFor(M); Exact ex; Root ro = rootOf(*M); auto Q = compileRun(X,*M,&ex,ro,1e12,false); checkExactRun(*M,ro,Q); checkGraph(*M,X,KExact,ro,Q);
      auto Y = makeDDFor(M); Relaxed rl(r.in(1,5)); auto Z = compileRun(Y,*M,&rl,ro,1e12,false); checkGraph(*M,Y,KRelaxed,ro,Z); st.add("hash_functions_tried"); }
   if (M->reachable() > 3) st.sig(M->sig()); PS::hashMode = 0; st.sample(VF_STR("5 hash functions, width " << w << " " << M->desc()));
}
// C29: the time handed to the limit predicate and printed in the report, bracketed by our own clock
static void c29(Rng& r,long) {
   using clk = std::chrono::steady_clock; auto ms = [](clk::duration d) { return std::chrono::duration<double,std::milli>(d).count(); };
   const double TOL = 3.0;                                                // whole-millisecond truncation plus clock granularity
   if (r.chance(15)) {                                                    // conversions on synthetic instants
      for(int k=0;k<40;k++) { RuntimeMonitor::HRClock a = RuntimeMonitor::now(); long us = r.chance(30) ? r.in(0,3000) : r.in(0,2000000000); auto b = a + std::chrono::microseconds(us);
         REQUIRE(RuntimeMonitor::milli(a,b) == us/1000 && RuntimeMonitor::elapsedMilliseconds(a,b) == (double)(us/1000),"milliseconds between instants " << us << " us apart: " << RuntimeMonitor::milli(a,b) << "/" << RuntimeMonitor::elapsedMilliseconds(a,b));
         REQUIRE(std::abs(RuntimeMonitor::elapsedSeconds(a,b) - us/1e6) <= 0.001001,"seconds between instants " << us << " us apart: " << RuntimeMonitor::elapsedSeconds(a,b));
         auto past = RuntimeMonitor::now() - std::chrono::microseconds(us); double e = RuntimeMonitor::elapsedSince(past),es = RuntimeMonitor::elapsedSeconds(past); unsigned long eu = RuntimeMonitor::elapsedSinceMicro(past);
         auto hi = std::chrono::duration<double,std::micro>(RuntimeMonitor::now() - past).count();
         REQUIRE(e >= us/1000 - TOL && e <= hi/1000 + TOL,"elapsedSince an instant " << us << " us ago: " << e << " ms"); REQUIRE(es >= us/1e6 - 0.003 && es <= hi/1e6 + 0.003,"elapsedSeconds since an instant " << us << " us ago: " << es);
         REQUIRE((double)eu >= us - 1000.0 && (double)eu <= hi + 1000,"elapsedSinceMicro an instant " << us << " us ago: " << eu); st.add("conversions"); }
      return; }
   GenOpt g; if (r.chance(70)) g.hard = true; auto M = genModel(r,g); randOptions(r,*M); PS::hashMode = 0; auto dd = makeDDFor(M);
   const int runs = r.in(1,2); int left = 0; Rng q(r.next()); std::optional<clk::time_point> B; clk::time_point C; 
   M->tick = [&]() { if (left > 0 && q.chance(8)) { left--; usleep(q.in(200,9000)); } C = clk::now(); if (!B) B = C; };
   Bounds shared; std::unique_ptr<BAndB> eng; unsigned w = r.in(1,3); eng = std::make_unique<BAndB>(dd,w);
   for(int k=0;k<runs;k++) {
      Capture cap; Bounds b; B.reset(); left = r.in(0,5); uint64_t calls = 0; double prev = 0,worst = 0; clk::time_point A,solLo,solHi,lastCall; bool anySol = false,openSol = false; std::string bad;
      b.onSolution([&](const std::vector<int>&) { solLo = lastCall; anySol = openSol = true; });
      eng->setTimeLimit([&](double e) { auto D = clk::now(); calls++; if (!B) B = D; lastCall = D; if (openSol) { openSol = false; solHi = D; } double lo = ms(C-*B),hi = ms(D-A); if (calls == 1 && C < A) lo = 0;
         if (bad.empty() && !(e >= lo - TOL && e <= hi + TOL)) bad = VF_STR("call " << calls << " of the limit predicate in run " << k << " got " << e << " ms but the search has been running for between " << lo << " and " << hi << " ms");
         if (bad.empty() && (e < prev || e < 0)) bad = VF_STR("call " << calls << " of the limit predicate got " << e << " after " << prev); prev = e; worst = std::max(worst,e); return calls > 3000; });
      A = clk::now(); eng->search(b); auto E = clk::now(); if (openSol) solHi = E; eng->setTimeLimit(nullptr);
      REQUIRE(bad.empty(),bad << "; width " << w << " " << M->desc()); REQUIRE(calls > 0,"limit predicate never called");
      auto out = cap.str(); auto p = out.rfind("Time:"); double o=-1,s=-1; REQUIRE(p != std::string::npos && sscanf(out.c_str()+p,"Time:%lf/%lfs",&o,&s) == 2,"no times in the report " << out.substr(out.rfind("Done(")));
      REQUIRE(s*1000 >= ms(C-*B) - TOL && s*1000 <= ms(E-A) + TOL,"report says the search took " << s << " s but it took between " << ms(C-*B) << " and " << ms(E-A) << " ms");
      REQUIRE(o >= 0 && o <= s + 0.002,"report says the last solution came after " << o << " s of " << s << " s");
      if (anySol) REQUIRE(o*1000 >= ms(solLo-*B) - TOL && o*1000 <= ms(solHi-A) + TOL,"report says the last solution came after " << o*1000 << " ms but it came between " << ms(solLo-*B) << " and " << ms(solHi-A) << " ms");
      else REQUIRE(o == 0,"report says a solution came after " << o << " s but there was none");
      st.add("predicate_calls",calls); st.add("reports"); st.mx("elapsed_ms",(uint64_t)worst); if (worst >= 4) st.sig(mix(M->sig(),k)); }
   st.sample(VF_STR("timed search width=" << w << " runs=" << runs << " " << M->desc()));
}
// C30: the progress log, judged as a trace. Markers written into the stream by the limit predicate and by a solution listener
// tie every line the engine prints to what had happened by then.
static void c30(Rng& r,long kase) {
   auto M = model(r); if (kase % 3 == 0) { GenOpt g; g.hard = true; M = genModel(r,g); M->o.dom = 0; } const bool slow = kase % 300 == 5; auto dd = makeDDFor(M); PS::hashMode = 0;
   const unsigned w = searchWidth(r); long stopAt = r.chance(15) ? r.in(0,6) : -1; uint64_t calls = 0; const uint64_t cap = stepCap(*M)*4+100; bool stopped = false; std::ostringstream log; std::string out;
   int delays = slow ? 1 : 0; Rng q(r.next()); bool slept = false; M->tick = [&] { if (delays && calls >= 1 && q.chance(20)) { delays--; slept = true; usleep(5150000); } };
   std::optional<double> warm; if (r.chance(25) && M->feasible()) warm = M->opt() + (M->maximize?-1:1)*r.in(-1,5);
   { Capture c; Bounds b; if (warm) b.setPrimal(*warm); BAndB e(dd,w); std::streamsize pr0;
      b.onSolution([&](const std::vector<int>& l) { auto f = std::cout.flags(); pr0 = std::cout.precision(); std::cout << std::defaultfloat << std::setprecision(17) << "@SOL " << b.getPrimal(); for(int x : l) std::cout << " " << x; std::cout << "\n"; std::cout.flags(f); std::cout.precision(pr0); });
      e.setTimeLimit([&](double) { calls++; bool s = calls > cap || (stopAt >= 0 && calls > (uint64_t)stopAt); auto f = std::cout.flags(); auto p = std::cout.precision(); std::cout << std::defaultfloat << std::setprecision(17) << "@CALL " << calls << " " << M->ev.total() << " " << b.getPrimal() << " " << (slept ? 1 : 0) << "\n"; slept = false; std::cout.flags(f); std::cout.precision(p); stopped |= s; return s; });
      e.search(b); e.setTimeLimit(nullptr); std::cout << std::defaultfloat << std::setprecision(17) << "\n@END " << b.getPrimal() << " " << M->ev.total() << "\n"; out = c.str(); }
   M->tick = nullptr; REQUIRE(calls <= cap,"search did not terminate; " << M->dump());
   const double opt = M->feasible() ? M->opt() : M->worst(); auto near = [](double a,double b) { return a == b || std::abs(a-b) <= 2e-5*std::max(1.0,std::max(std::abs(a),std::abs(b))); };
   uint64_t nproc = 0,evPrev = 0,call = 0,lines = 0,tight = 0,lastN = 0; double primal = 0; bool due = false; std::string line,sol; double solv = 0; bool pend = false,done = false; std::istringstream is(out);
   auto ctx = [&](const std::string& l) { return VF_STR("'" << l << "' (search at width " << w << ", extraction " << call << ", primal " << primal << ", optimum " << opt << "; " << M->dump() << ")"); };
   bool rootSeen = false;
   while(std::getline(is,line)) {
      if (line.rfind("@CALL ",0) == 0) { std::istringstream t(line.substr(6)); uint64_t c,e; int sl; t >> c >> e >> primal >> sl; REQUIRE(!due,"no progress line within 5 s of work before " << ctx(line)); if (call && e > evPrev) nproc++; call = c; evPrev = e; due = sl && !(stopAt >= 0 && c > (uint64_t)stopAt) && c <= cap; REQUIRE(!pend,"a solution was delivered without a log line before " << ctx(line)); continue; }
      if (line.rfind("@SOL ",0) == 0) { REQUIRE(!pend,"a solution was delivered without a log line before " << ctx(line)); std::istringstream t(line.substr(5)); t >> solv; int x; std::ostringstream o; while(t >> x) o << x << " "; sol = o.str(); pend = true; primal = solv; continue; }
      if (line.rfind("dual@root:",0) == 0) { double v = strtod(line.c_str()+10,nullptr); REQUIRE(!rootSeen,"two root bounds in the log"); rootSeen = true; REQUIRE(M->o.local,"root bound printed although the model has no local bound: " << line); REQUIRE(near(v,M->local(M->root(),BBCtx)),"the log gives the root a bound of " << v << " but the model's local bound is " << M->local(M->root(),BBCtx) << "; " << M->desc()); st.add("root_bounds"); continue; }
      if (line.find("TIGHTEN: <P:") != std::string::npos) { auto p = line.find("<P:"); double v = strtod(line.c_str()+p+3,nullptr); auto i = line.find("INC:("); REQUIRE(pend && i != std::string::npos,"a tightening is logged without a delivered solution: " << ctx(line)); REQUIRE(near(v,solv),"the log announces value " << v << " for a solution of value " << solv << ": " << ctx(line)); auto o = line.find('[',i),c = line.find(']',o); REQUIRE(o != std::string::npos && c != std::string::npos && line.substr(o+1,c-o-1) == sol,"the log shows other labels than the delivered solution [" << sol << "]: " << ctx(line)); pend = false; tight++; continue; }
      if (line.rfind("B&B(",0) == 0) { unsigned long n = strtoul(line.c_str()+4,nullptr,10); REQUIRE(n == nproc,"progress line counts " << n << " explored nodes but " << nproc << " were: " << ctx(line)); REQUIRE(n >= lastN,"explored nodes decrease"); lastN = n; due = false;
         auto p = line.find(")\t"); REQUIRE(p != std::string::npos,"unparseable progress line " << line); std::istringstream t(line.substr(p+1)); std::string d,pr,g; t >> d >> pr >> g; double pv = strtod(pr.c_str(),nullptr); REQUIRE(near(pv,primal),"progress line shows primal " << pr << " instead of " << primal << ": " << ctx(line));
         if (d != "-") { double dv = strtod(d.c_str(),nullptr); const bool within = !M->better(opt,primal) || !M->better(opt,dv) || near(opt,dv); REQUIRE(within,"the dual value " << d << " of the progress line is no bound on the optimum " << opt << ": " << ctx(line)); st.add("dual_values_checked");
            if (g != "-" && primal > 0 && std::isfinite(primal)) { double want = 100*std::abs(pv-dv)/pv; REQUIRE(std::abs(strtod(g.c_str(),nullptr) - want) <= 1e-3*std::max(1.0,want),"progress line shows a gap of " << g << " between " << d << " and " << pr << " (" << want << "): " << ctx(line)); st.add("gaps_checked"); } }
         lines++; continue; }
      if (line.rfind("Done(",0) == 0) { REQUIRE(!pend,"a solution was delivered without a log line before " << ctx(line)); done = true; auto p = line.find("#nodes:"); unsigned long a=0,b=0; REQUIRE(p != std::string::npos && sscanf(line.c_str()+p,"#nodes:%lu/%lu",&a,&b) == 2,"final line without node counts: " << line); uint64_t evEnd = M->ev.total(); if (call && evEnd > evPrev) nproc++; 
         REQUIRE(b == calls - (stopped ? 1 : 0),"final line counts " << b << " extracted nodes but " << calls - (stopped?1:0) << " were: " << ctx(line)); REQUIRE(a == nproc,"final line counts " << a << " explored nodes but " << nproc << " were: " << ctx(line));
         unsigned long pp=9,pd=9; p = line.find("P/D:"); REQUIRE(p != std::string::npos && sscanf(line.c_str()+p,"P/D:%lu/%lu",&pp,&pd) == 2,"final line without dominance counts: " << line); if (!M->o.dom) REQUIRE(pp == 0 && pd == 0,"final line reports dominated nodes but the model has no dominance: " << ctx(line)); else { REQUIRE(pp + pd <= M->ev.domT,"final line reports " << pp << "+" << pd << " dominated nodes but the dominance test succeeded only " << M->ev.domT << " times: " << ctx(line)); st.add("dominated_nodes",pp+pd); } continue; }
   }
   REQUIRE(done,"no final line in the log"); REQUIRE(!M->o.local || rootSeen,"no root bound in the log although the model has a local bound"); if (slow) st.add("slow_runs");
   st.add("progress_lines",lines); st.add("tighten_lines",tight); st.add("log_traces"); if (lines && calls > 1) st.sig(mix(M->sig(),w*100+tight)); st.sample(VF_STR("log of width " << w << ": " << calls << " extractions, " << lines << " progress lines, " << tight << " solutions; " << M->desc()));
}
// C31: every registered listener hears every solution exactly once, in order, with the bound already updated
static void c31(Rng& r,long) {
   auto M = model(r); auto dd = makeDDFor(M); const int K = r.in(1,5); struct Ev { int who; std::vector<int> l; double p; }; std::vector<Ev> tr; Bounds* pb = nullptr; 
   auto mk = [&](int k) { return [&tr,&pb,k](const std::vector<int>& l) { tr.push_back({k,l,pb->getPrimal()}); }; };
   const int ctor = r.in(0,2); std::unique_ptr<Bounds> B(ctor == 0 ? new Bounds() : ctor == 1 ? new Bounds(mk(0)) : new Bounds(dd)); pb = B.get(); int n = ctor == 1 ? 1 : 0; 
   for(;n<K;n++) B->onSolution(mk(n)); if (ctor == 1 && K < 1) n = 1;
   if (ctor != 2) REQUIRE(!B->hasPrimal(),"fresh bounds claim a primal value"); else REQUIRE(B->hasPrimal() && B->getPrimal() == Bounds(dd).getPrimal(),"bounds made for a model differ or claim to have no primal value");
   Capture cap; const int runs = r.in(1,3); uint64_t groups = 0;
   auto judge = [&](const std::string& what) {
      REQUIRE(tr.size() % n == 0,n << " listeners heard " << tr.size() << " solutions altogether in " << what << "; " << M->dump());
      for(size_t i=0;i<tr.size();i++) { const auto& e = tr[i]; const auto& f = tr[i - i % n]; REQUIRE(e.who == (int)(i % n),"listeners were called out of order or skipped (listener " << e.who << " as call " << i << ") in " << what << "; " << M->dump()); REQUIRE(e.l == f.l && e.p == f.p,"listeners heard different solutions in " << what << "; " << M->dump());
         if (i % n == 0) { checkSolution(*M,e.l,e.p,"solution heard by the listeners"); groups++; } }
      for(size_t i=n;i<tr.size();i+=n) REQUIRE(M->better(tr[i].p,tr[i-n].p),"a solution of value " << tr[i].p << " was delivered after one of value " << tr[i-n].p << " in " << what << "; " << M->dump());
      tr.clear(); };
   for(int k=0;k<runs;k++) {
      if (k || r.chance(20)) { if (r.chance(50)) B->setPrimal(Bounds(dd).getPrimal()); }
      const double p0 = B->hasPrimal() ? B->getPrimal() : Bounds(dd).getPrimal();
      if (r.chance(70)) { unsigned w = searchWidth(r); BAndB e(dd,w); uint64_t c = 0; const uint64_t capc = stepCap(*M)*4+100; bool capped=false; e.setTimeLimit([&](double) { return capped = ++c > capc; }); e.search(*B); e.setTimeLimit(nullptr); REQUIRE(!capped,"search did not terminate; " << M->dump()); REQUIRE(B->hasPrimal(),"after a search the bounds claim to have no primal value; " << M->dump());
         const bool imp = M->feasible() && M->better(M->opt(),p0); REQUIRE(imp == !tr.empty(),(imp ? "no" : "a") << " solution was delivered although the optimum is " << (M->feasible()?M->opt():M->worst()) << " and the bound was " << p0 << "; " << M->dump());
         if (imp) REQUIRE(std::abs(tr.back().p - M->opt()) < 1e-6,"the last solution delivered is worth " << tr.back().p << " but the optimum is " << M->opt() << "; " << M->dump()); judge(VF_STR("run " << k << ": search at width " << w)); st.add("searches"); if (c > 1) st.sig(mix(M->sig(),w*10+K)); }
      else { Exact ex; Restricted rt(r.in(1,5)); Relaxed rl(r.in(1,5)); Strategy* ss[3] = {&ex,&rt,&rl}; Strategy* s = ss[r.in(0,2)]; auto d2 = makeDDFor(M); d2->setStrategy(&ex); { Bounds b0(d2); d2->compute(b0); } auto d3 = makeDDFor(M); d3->setStrategy(s); if (!B->hasPrimal()) B->attach(dd); const double before = B->getPrimal(); bool ret = d3->apply(d2->getRoot(),*B); (void)ret; 
         REQUIRE(tr.empty() == (B->getPrimal() == before),"the bound went from " << before << " to " << B->getPrimal() << " with " << tr.size() << " notifications by a " << s->getName() << " diagram; " << M->dump()); if (!tr.empty()) REQUIRE(tr.back().p == B->getPrimal(),"listeners saw bound " << tr.back().p << " but it is " << B->getPrimal()); judge(VF_STR("run " << k << ": " << s->getName() << " diagram")); st.add("diagrams"); } 
      if (r.chance(30)) { B->onSolution(mk(n)); n++; st.add("late_listeners"); } }
   st.add("solutions_heard",groups); st.mx("listeners",n); st.sample(VF_STR(n << " listeners, " << runs << " runs, " << groups << " solutions; " << M->desc()));
}
int main(int argc,char** argv) {
   mallopt(M_MMAP_THRESHOLD,1<<28); mallopt(M_TRIM_THRESHOLD,1<<29);
   return vf::run(argc,argv,[](const Args& a) -> CaseFn {
      static std::map<std::string,CaseFn> t = {{"C01",c01},{"C02",c02},{"C03",c03},{"C04",c04},{"C05",c05},{"C06",c06},{"C07",c07},{"C08",c08},{"C09",c09},{"C10",c10},{"C13",c13},{"C14",c14},{"C15",c15},{"C18",c18},{"C29",c29},{"C30",c30},{"C31",c31}};
      auto i = t.find(a.prop); return i == t.end() ? CaseFn() : i->second; });
}
