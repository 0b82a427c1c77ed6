// Monitored runs of the search and of single diagrams over table models, and the oracles that judge them.
#pragma once
#include "model.hpp"
namespace vf {
struct Sol { std::vector<int> labels; double primal; };
struct SearchRes { double primal=0,initial=0; std::vector<Sol> sols; uint64_t calls=0; bool stopped=false; uint64_t after=0; std::string out; uint64_t ev=0; bool capped=false; };
struct SearchCfg { unsigned width=2; std::optional<double> primal; long stopAt=-1; uint64_t cap=~0ull; };

inline SearchRes runSearch(AbstractDD::Ptr dd,Model* M,const SearchCfg& c,Bounds* given=nullptr,BAndB* eng=nullptr) {
   SearchRes R; Capture cap;
   Bounds own; Bounds& b = given ? *given : own;
   R.initial = Bounds(dd).getPrimal();
   if (c.primal) b.setPrimal(*c.primal);
   struct Tap { SearchRes* r; Bounds* b; }; auto tap = std::make_shared<Tap>(Tap{&R,&b}); // outlives this call inside a caller's Bounds
   b.onSolution([tap](const std::vector<int>& l) { if (tap->r) tap->r->sols.push_back({l,tap->b->getPrimal()}); });
   BAndB mine(dd,c.width); BAndB& e = eng ? *eng : mine;
   uint64_t evStop = 0,ev0 = M ? M->ev.total() : 0;
   e.setTimeLimit([&](double) { R.calls++; bool s = c.stopAt >= 0 && R.calls > (uint64_t)c.stopAt;
      if (R.calls > c.cap) { R.capped = true; s = true; }
      if (s) { R.stopped = true; if (M) evStop = M->ev.total(); } return s; });
   e.search(b);
   e.setTimeLimit(nullptr);
   tap->r = nullptr;
   R.primal = b.getPrimal();
   if (M) { R.ev = M->ev.total() - ev0; if (R.stopped) R.after = M->ev.total() - evStop; }
   R.out = cap.str();
   return R;
}
inline void noteSearch(const Model& M,const SearchRes& R,const SearchCfg& c) {
   st.add("searches"); st.add("extractions",R.calls); st.add("solutions_reported",R.sols.size()); st.add("callback_events",R.ev);
   st.mx("extractions",R.calls);
   if (R.calls > 1) { st.add("multi_node_searches"); st.sig(mix(M.sig(),c.width*1000+M.o.local*100+M.o.dom*10+M.o.refuse)); }
   if (!M.feasible()) st.add("infeasible_models");
   if (R.out.find("widening") != std::string::npos) st.add("searches_with_widening");
   st.sample(VF_STR("search width=" << c.width << " " << M.desc() << " -> primal=" << R.primal << " extractions=" << R.calls << " solutions=" << R.sols.size()));
}
inline uint64_t stepCap(const Model& M) { return M.pairs() + (uint64_t)M.L + 4; }

inline void checkSolution(const Model& M,const std::vector<int>& l,double v,const char* where) {
   auto rp = M.replay(l);
   REQUIRE(rp.legal,where << ": reported labels " << show(l) << " are not a legal label sequence; " << M.dump());
   REQUIRE(M.isSink(rp.end),where << ": reported labels " << show(l) << " do not reach the sink; " << M.dump());
   REQUIRE(std::abs(rp.cost - v) < 1e-6,where << ": reported labels " << show(l) << " cost " << rp.cost << " but value announced is " << v << "; " << M.dump());
   st.add("solutions_replayed");
}
inline void checkOptimum(const Model& M,const SearchRes& R,const SearchCfg& c) {
   REQUIRE(!R.capped,"search exceeded its bound of " << c.cap << " extractions at width " << c.width << "; " << M.dump());
   if (M.feasible()) REQUIRE(std::abs(R.primal - M.opt()) < 1e-6,"search at width " << c.width << " returned " << R.primal << " but the optimum is " << M.opt() << "; " << M.dump());
   else { REQUIRE(R.primal == R.initial,"infeasible model but search at width " << c.width << " returned " << R.primal << "; " << M.dump());
      REQUIRE(R.sols.empty(),"infeasible model but a solution was reported; " << M.dump()); }
}

// ---------------------------------------------------------------- one compiled diagram
enum Kind { KExact,KRestricted,KRelaxed };
inline const char* kname(Kind k) { return k==KExact ? "exact" : k==KRestricted ? "restricted" : "relaxed"; }
struct Root { bool init=true; ANode::Ptr node=nullptr; PS s; double bound=0; std::vector<int> lb; };
inline Root rootOf(const Model& M) { Root r; r.s = M.root(); return r; }
inline Root rootOf(ANode::Ptr n) { Root r; r.init=false; r.node = n; r.s = stateOf(n); r.bound = n->getBound(); r.lb = labelsOf(n); return r; }

struct Run {                      // what one compilation showed
   double value; bool exact; std::vector<int> inc; bool ret=false; double p0,p1; std::vector<Sol> sols;
   std::map<int,std::set<PS>> expanded; uint64_t merged=0;
   bool sentinel() const { return std::abs(value) >= INFV; }
};
inline Run compileRun(AbstractDD::Ptr dd,Model& M,Strategy* s,const Root& r,double p0,bool useApply) {
   Run R; Capture cap;
   dd->setStrategy(s);
   Bounds b(dd); if (std::abs(p0) < INFV) b.setPrimal(p0);
   R.p0 = b.getPrimal();
   bool on=true;
   b.onSolution([&](const std::vector<int>& l) { if (on) R.sols.push_back({l,b.getPrimal()}); });
   M.ev.lgfStates = &R.expanded; uint64_t m0 = M.ev.merged;
   if (r.init && !useApply) { dd->reset(); dd->compute(b); }
   else if (useApply && !r.init) R.ret = dd->apply(r.node,b);
   else { dd->reset(); dd->compute(b); }
   M.ev.lgfStates = nullptr; R.merged = M.ev.merged - m0;
   R.value = dd->currentOpt(); R.exact = dd->isExact(); R.inc = dd->incumbent(); R.p1 = b.getPrimal();
   on=false;
   st.add(std::string("compiled_") + s->getName()); st.add("merges",R.merged);
   return R;
}
inline double subOpt(const Model& M,const Root& r) { double h = M.h(r.s); return std::abs(h) >= BIG ? M.worst() : r.bound + h; }
inline bool feas(double v) { return std::abs(v) < BIG; }

inline void checkIncumbent(const Model& M,const Run& R,const char* where) { if (!R.sentinel()) checkSolution(M,R.inc,R.value,where); }
inline void checkSols(const Model& M,const Run& R,const char* where) { for(auto& s : R.sols) checkSolution(M,s.labels,s.primal,where); }

inline void checkExactRun(const Model& M,const Root& r,const Run& R) {
   const double so = subOpt(M,r); const bool imp = feas(so) && M.better(so,R.p0);
   REQUIRE(R.exact,"exact diagram not flagged exact; " << M.dump());
   if (imp || (!M.o.local && feas(so))) REQUIRE(std::abs(R.value - so) < 1e-6,"exact diagram from " << r.s << " (value " << r.bound << ", primal " << R.p0 << ") has optimum " << R.value << " expected " << so << "; " << M.dump());
   else if (feas(so)) REQUIRE(R.sentinel() || !M.better(R.value,so),"exact diagram reports " << R.value << " better than optimum " << so << "; " << M.dump());
   else REQUIRE(R.sentinel(),"exact diagram of an infeasible sub-problem reports " << R.value << "; " << M.dump());
   checkIncumbent(M,R,"exact diagram incumbent");
}
inline void checkRestrictedRun(const Model& M,const Root& r,unsigned w,const Run& R) {
   const double so = subOpt(M,r); const bool imp = feas(so) && M.better(so,R.p0);
   if (!feas(so)) REQUIRE(R.sentinel(),"restricted diagram (width " << w << ") of an infeasible sub-problem reports " << R.value << "; " << M.dump());
   else REQUIRE(R.sentinel() || !M.better(R.value,so),"restricted diagram (width " << w << ") from " << r.s << " reports " << R.value << " better than the optimum " << so << "; " << M.dump());
   checkIncumbent(M,R,"restricted diagram incumbent");
   for(auto& [k,v] : R.expanded) REQUIRE(v.size() <= w,"restricted diagram of width " << w << " expanded " << v.size() << " states in stage " << k << "; " << M.dump());
   if (R.exact) { st.add("exact_restricted");
      if (imp || (!M.o.local && feas(so))) REQUIRE(std::abs(R.value - so) < 1e-6,"restricted diagram (width " << w << ") flagged exact has " << R.value << " but the optimum is " << so << "; " << M.dump()); }
   else st.add("inexact_restricted");
   if (R.ret) st.add("restricted_improvements");
}
inline void checkRelaxedRun(const Model& M,const Root& r,unsigned w,const Run& R) {
   const double so = subOpt(M,r); const bool imp = feas(so) && M.better(so,R.p0);
   if (imp || (!M.o.local && feas(so)))
      REQUIRE(!R.sentinel() && M.betterEQ(R.value,so + (M.maximize ? -1e-6 : 1e-6)),"relaxed diagram (width " << w << ") from " << r.s << " (value " << r.bound << ", primal " << R.p0 << ") has bound " << R.value << " worse than the optimum " << so << "; " << M.dump());
   if (R.exact) { st.add("exact_relaxed");
      if (imp || (!M.o.local && feas(so))) REQUIRE(std::abs(R.value - so) < 1e-6,"relaxed diagram (width " << w << ") flagged exact has " << R.value << " but the optimum is " << so << "; " << M.dump());
      else if (!feas(so)) REQUIRE(R.sentinel(),"relaxed diagram flagged exact of an infeasible sub-problem has value " << R.value << "; " << M.dump());
      else REQUIRE(R.sentinel() || !M.better(R.value,so),"relaxed diagram flagged exact reports " << R.value << " better than the optimum " << so << "; " << M.dump());
   } else st.add("inexact_relaxed");
   if (M.totalMerge()) for(auto& [k,v] : R.expanded) REQUIRE(v.size() <= w,"relaxed diagram of width " << w << " expanded " << v.size() << " states in stage " << k << " although merging never refuses; " << M.dump());
}
inline void checkCutset(const Model& M,const Root& r,unsigned w,const Run& R,const std::vector<ANode::Ptr>& cs) {
   const double so = subOpt(M,r); const bool imp = feas(so) && M.better(so,R.p0);
   if (imp) REQUIRE(R.ret,"relaxed diagram (width " << w << ") from " << r.s << " reported no improvement although " << so << " beats " << R.p0 << "; " << M.dump());
   if (R.exact) { if (imp) REQUIRE(std::abs(R.p1 - so) < 1e-6,"exact relaxed diagram did not publish the optimum " << so << " (primal " << R.p1 << "); " << M.dump()); return; }
   st.add("cutsets"); st.add("cutset_nodes",cs.size()); st.mx("cutset",cs.size());
   bool covered = !imp || std::abs(R.p1 - so) < 1e-6;
   if (covered && imp) st.add("published_optima");
   std::set<PS> seen;
   for(auto c : cs) {
      const PS& s = stateOf(c);
      REQUIRE(c->isExact(),"cutset node not flagged exact");
      REQUIRE(!M.isSink(s),"sink in the cutset; " << M.dump());
      REQUIRE(seen.insert(s).second,"state " << s << " twice in the cutset; " << M.dump());
      bool open = false; int nk = 0; for(auto e = c->beginKids();e != c->endKids();++e) { nk++; open |= !(*e)->_to->isExact(); }
      REQUIRE(open,"cutset node " << s << " of a relaxed diagram (width " << w << ") has " << nk << " children, none of them inexact; " << M.dump());
      auto rp = M.replay(labelsOf(c));
      REQUIRE(rp.legal && rp.end == s,"cutset node " << s << " has labels " << show(labelsOf(c)) << " leading to " << rp.end << "; " << M.dump());
      REQUIRE(std::abs(rp.cost - c->getBound()) < 1e-6,"cutset node " << s << " has cost " << c->getBound() << " but its labels cost " << rp.cost << "; " << M.dump());
      double h = M.h(s);
      if (feas(h) && M.better(c->getBound()+h,R.p0))
         REQUIRE(M.betterEQ(c->getBackwardBound(),h + (M.maximize ? -1e-6 : 1e-6)),"cutset node " << s << " has completion bound " << c->getBackwardBound() << " worse than its real completion " << h << "; " << M.dump());
      if (feas(h) && std::abs(c->getBound()+h-so) < 1e-6) covered = true;
   }
   REQUIRE(covered,"inexact relaxed diagram (width " << w << ") from " << r.s << " (value " << r.bound << ", primal " << R.p0 << "): improving optimum " << so << " is neither published nor reachable through the " << cs.size() << " cutset nodes; " << M.dump());
   checkSols(M,R,"solution published by a relaxed diagram");
}

// ---------------------------------------------------------------- structure of a compiled diagram
inline void checkGraph(const Model& M,AbstractDD::Ptr dd,Kind k,const Root& r,const Run& R) {
   ANode::Ptr root = dd->getRoot();
   REQUIRE(root,"no root");
   REQUIRE(stateOf(root) == r.s,"root holds " << stateOf(root) << " instead of " << r.s);
   std::vector<ANode*> order; std::map<ANode*,int> mark; std::map<PS,ANode*> byState; std::set<unsigned> ids;
   // iterative DFS for reachability and acyclicity
   struct Fr { ANode* n; std::vector<ANode*> ch; size_t i; };
   auto kids = [](ANode* n) { std::vector<ANode*> v; for(auto e = n->beginKids();e != n->endKids();++e) v.push_back((*e)->_to.get()); return v; };
   std::vector<Fr> stk; stk.push_back({root.get(),kids(root.get()),0}); mark[root.get()] = 1;
   while(!stk.empty()) { auto& f = stk.back();
      if (f.i == f.ch.size()) { mark[f.n] = 2; order.push_back(f.n); stk.pop_back(); continue; }
      ANode* c = f.ch[f.i++];
      REQUIRE(c,"null arc target");
      int& mk = mark[c]; REQUIRE(mk != 1,"cycle in the diagram through " << stateOf(c) << "; " << M.dump());
      if (mk == 0) { mk = 1; stk.push_back({c,kids(c),0}); } }
   // order: children before parents
   double sinkBound = NAN; bool sinkSeen = false;
   for(auto* n : order) { const PS& s = stateOf(n);
      auto [it,fresh] = byState.insert({s,n}); REQUIRE(fresh,"two nodes hold the same state " << s << "; " << M.dump());
      REQUIRE(ids.insert(n->getId()).second,"two nodes share identity " << n->getId());
      if (M.isSink(s)) { sinkSeen = true; sinkBound = n->getBound(); REQUIRE(n->nbChildren()==0,"sink has outgoing arcs"); } }
   uint64_t arcs = 0;
   for(auto* n : order) { const PS& s = stateOf(n);
      std::set<Edge*> out; std::map<int,int> perLabel;
      double bb = M.isSink(s) ? 0 : (M.maximize ? -2147483647.0 : 2147483647.0);
      for(auto ei = n->beginKids();ei != n->endKids();++ei) { Edge::Ptr e = *ei; arcs++;
         REQUIRE(out.insert(e.get()).second,"arc listed twice at its source " << s);
         REQUIRE(e->_from.get() == n,"outgoing arc of " << s << " claims another source; " << M.dump());
         int c=0; for(auto pi = e->_to->beginPar();pi != e->_to->endPar();++pi) c += (*pi).get() == e.get();
         REQUIRE(c == 1,"arc " << s << " -> " << stateOf(e->_to) << " appears " << c << " times among the target's incoming arcs; " << M.dump());
         int li = M.lidx(e->_lbl); auto t = li < 0 ? std::optional<PS>() : M.step(s,li);
         REQUIRE(t,"arc from " << s << " carries label " << e->_lbl << " for which the model has no transition; " << M.dump());
         REQUIRE(std::abs(e->_obj - M.stepCost(s,li)) < 1e-9,"arc from " << s << " label " << e->_lbl << " costs " << e->_obj << " model says " << M.stepCost(s,li) << "; " << M.dump());
         perLabel[e->_lbl]++;
         const PS& d = stateOf(e->_to);
         if (!M.o.dom) {
            bool ok = d == *t;
            if (!ok && k == KRelaxed && d.stage == t->stage && d.stage != M.n) ok = std::includes(d.mem.begin(),d.mem.end(),t->mem.begin(),t->mem.end());
            REQUIRE(ok,kname(k) << " diagram: arc from " << s << " label " << e->_lbl << " leads to " << d << " but the model's transition gives " << *t << "; " << M.dump());
         }
         double v = e->_to->getBackwardBound() + e->_obj; if (M.better(v,bb)) bb = v; }
      for(auto& [l,c] : perLabel) REQUIRE(c == 1,"state " << s << " has " << c << " arcs with label " << l << "; " << M.dump());
      if (k == KRelaxed) REQUIRE(std::abs(bb - n->getBackwardBound()) < 1e-6 || (std::abs(bb) >= INFV && std::abs(n->getBackwardBound()) >= INFV),
         "relaxed diagram: completion bound of " << s << " is " << n->getBackwardBound() << " but the best over its arcs is " << bb << "; " << M.dump());
      if (!M.o.local && !M.isSink(s) && (k == KExact || k == KRelaxed)) for(int lb : M.labels(s)) if (M.step(s,M.lidx(lb)))
         REQUIRE(perLabel.count(lb),kname(k) << " diagram: state " << s << " lacks the arc for label " << lb << "; " << M.dump());
      double fb = n == root.get() ? r.bound : (M.maximize ? -2147483647.0 : 2147483647.0);
      std::set<Edge*> in;
      for(auto ei = n->beginPar();ei != n->endPar();++ei) { Edge::Ptr e = *ei;
         REQUIRE(in.insert(e.get()).second,"incoming arc listed twice at " << s);
         REQUIRE(e->_to.get() == n,"incoming arc of " << s << " claims another target; " << M.dump());
         REQUIRE(mark.count(e->_from.get()),"incoming arc of " << s << " starts outside the diagram; " << M.dump());
         int c=0; for(auto pi = e->_from->beginKids();pi != e->_from->endKids();++pi) c += (*pi).get() == e.get();
         REQUIRE(c == 1,"incoming arc of " << s << " appears " << c << " times at its source; " << M.dump());
         double v = e->_from->getBound() + e->_obj; if (M.better(v,fb)) fb = v; }
      REQUIRE(std::abs(fb - n->getBound()) < 1e-6,kname(k) << " diagram: value of " << s << " is " << n->getBound() << " but the best over its incoming arcs is " << fb << "; " << M.dump());
   }
   if (sinkSeen) REQUIRE(R.value == sinkBound,"diagram value " << R.value << " differs from the sink's " << sinkBound);
   else REQUIRE(R.sentinel(),"sink not reached but the diagram value is " << R.value);
   st.add("graphs_checked"); st.add("nodes_checked",order.size()); st.add("arcs_checked",arcs); st.mx("nodes",order.size());
}
}
