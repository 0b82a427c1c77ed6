// C12: every model state is destroyed exactly once and all heap memory is released.
// Monitors: live/dead tags and counters inside the state type, live-heap accounting by an interposed allocator.
#include "solver.hpp"
#include "families.hpp"
#include "memcount.hpp"
using namespace vf;

// malloc rounds a block up by a few dozen bytes depending on what it finds free; counts of blocks are exact.
static constexpr long SLACK = 32768;
struct Snap { long live,blocks,bytes; };
static Snap snap() { return {PS::live,heapLiveBlocks(),heapLiveBytes()}; }

static MP model(Rng& r) {
   GenOpt g; if (r.in(1,150) == 1) { g.huge = true; g.maxM = r.in(100,300); } else if (r.chance(5)) { g.large = true; g.maxN = 6; g.maxM = r.in(12,40); g.maxL = 5; } else if (r.chance(60)) g.hard = true;
   auto M = genModel(r,g); randOptions(r,*M); PS::hashMode = r.chance(80) ? 0 : r.in(1,4); return M;
}
// a random history over several diagrams; everything it creates is gone when it returns
static void history(Rng& r,MP M,std::string* hist) {
   std::vector<AbstractDD::Ptr> dds = {makeDDFor(M),makeDDFor(M)};
   auto S = makeDDFor(M); Relaxed srel(r.in(1,3)); compileRun(S,*M,&srel,rootOf(*M),1e12,false);
   std::vector<Root> roots; for(auto c : S->computeCutSet()) roots.push_back(rootOf(c));
   Exact ex; Restricted rt(1); Relaxed rl(1); Strategy* ss[3] = {&ex,&rt,&rl};
   std::vector<std::unique_ptr<Bounds>> bnds; std::ostringstream o;
   const int K = r.in(1,6);
   for(int k=0;k<K;k++) {
      int w = r.chance(70) ? r.in(1,4) : r.in(5,60),d = r.in(0,(int)dds.size()-1);
      switch(r.in(0,5)) {
       case 0: { SearchCfg c; c.width = w; c.cap = stepCap(*M)*4+100; if (r.chance(35)) c.stopAt = r.in(0,5); if (r.chance(20) && M->feasible()) c.primal = M->opt() + (M->maximize?-1:1)*r.in(-1,3);
          Bounds* b = nullptr; if (r.chance(30)) { bnds.push_back(std::make_unique<Bounds>()); b = bnds.back().get(); }
          auto R = runSearch(dds[d],M.get(),c,b); if (R.calls > 1) st.add("multi_node_searches"); st.add("searches"); o << " search(dd" << d << ",w" << w << ",limit=" << c.stopAt << ")"; break; }
       case 1: case 2: case 3: { int s = r.in(0,2); rt.setWidth(w); rl.setWidth(w); bool ap = !roots.empty() && r.chance(50); Root ro = ap ? roots[r.in(0,(int)roots.size()-1)] : rootOf(*M);
          double p0 = r.chance(60) ? 1e12 : (M->feasible()?M->opt():0) + r.in(-2,9)*(M->maximize?-1:1);
          compileRun(dds[d],*M,ss[s],ro,p0,ap); if (s == 2) dds[d]->computeCutSet(); o << " " << ss[s]->getName() << "(dd" << d << ",w" << w << (ap?",sub":",init") << ")"; break; }
       case 4: dds.push_back(dds[d]->duplicate()); o << " dup"; break;
       default: if (dds.size() > 1) { dds.erase(dds.begin()+d); o << " destroy(dd" << d << ")"; } }
   }
   if (hist) *hist = o.str();
}
static void balance(const Snap& a,const Snap& b,const std::string& what) {
   REQUIRE(PS::bad == 0,"a state was used or destroyed after its destruction, or destroyed without being constructed (" << PS::bad << " times) in " << what);
   REQUIRE(b.live == a.live,(b.live-a.live) << " states constructed by the library were never destroyed after " << what);
   REQUIRE(b.blocks == a.blocks && b.bytes <= a.bytes + SLACK,(b.blocks-a.blocks) << " heap blocks (" << (b.bytes-a.bytes) << " bytes) were not released after " << what);
}
void vfContainerHistory(int which,uint64_t seed);
static void containers(Rng& r) {   // sets, hashes, heap, queue, tables, pool, vectors, sort, union-find, arrays, node lists
   const int which = r.in(0,11); const uint64_t sd = r.next(); Stats keep = std::move(st); 
   auto body = [&] { st = Stats(); try { vfContainerHistory(which,sd); } catch(const Violation&) { st = Stats(); return false; } st = Stats(); return true; };   // wrong content is judged elsewhere
   bool ok = body(); auto a = snap(); ok = body() && ok; auto b = snap(); st = std::move(keep); latched.clear(); if (!ok) { st.add("histories_stopped_by_content_monitor"); return; }
   REQUIRE(b.blocks == a.blocks && b.bytes <= a.bytes + SLACK,(b.blocks-a.blocks) << " heap blocks (" << (b.bytes-a.bytes) << " bytes) were not released by container history C" << 16+which << " seed " << sd);
   st.add("container_histories"); st.sig(mix(sd,which));
}
static void c12(Rng& r,long) {
   PS::bad = 0; if (r.chance(40)) { containers(r); return; }
   const uint64_t sd = r.next(); int kind = r.in(1,10); PS::hashMode = 0;
   if (kind <= 2) {               // library state types (bit sets, arrays, sets, vectors)
      auto body = [&](std::string* n) { Rng q(sd); Fam f = makeFam(q); SearchCfg c; c.width = q.in(1,3); c.cap = 200000; if (q.chance(25)) c.stopAt = q.in(0,6); auto R = runSearch(f.dd,nullptr,c); if (n) { *n = VF_STR("search of a " << f.name << " instance, width " << c.width << ", limit " << c.stopAt); st.add("family_"+f.name); } };
      std::string n; body(&n); auto a = snap(); body(nullptr); auto b = snap(); balance(a,b,n); st.add("family_balances"); return; }
   if (kind <= 7) {               // histories: balanced when everything is gone
      Rng q0(sd); auto M = model(q0); std::string h; { Rng q(sd+1); history(q,M,&h); }
      long built = PS::built; M->ev = Events(); auto a = snap(); { Rng q(sd+1); history(q,M,nullptr); M->ev = Events(); } auto b = snap();
      balance(a,b,h + " on " + M->desc()); st.add("balances"); st.add("states_tracked",PS::built-built); if (PS::built-built > 20) st.sig(mix(M->sig(),sd)); st.sample(VF_STR("balanced" << h << " states=" << (PS::built-built) << " " << M->desc())); return; }
   // repeated compilation in one diagram does not accumulate states or memory
   Rng q0(sd); auto M = model(q0); auto dd = makeDDFor(M); Exact ex; Restricted rt(1); Relaxed rl(1); Strategy* ss[3] = {&ex,&rt,&rl};
   auto S = makeDDFor(M); Relaxed srel(r.in(1,3)); compileRun(S,*M,&srel,rootOf(*M),1e12,false); std::vector<Root> roots; for(auto c : S->computeCutSet()) roots.push_back(rootOf(c));
   struct Op { int s; unsigned w; int root; double p0; }; std::vector<Op> ops; int n = r.in(1,4);
   for(int k=0;k<n;k++) ops.push_back({r.in(0,2),(unsigned)r.in(1,8),roots.empty()?-1:r.in(-1,(int)roots.size()-1),r.chance(60) ? 1e12 : (M->feasible()?M->opt():0) + r.in(-2,9)*(M->maximize?-1:1)});
   auto round = [&]() { for(auto& o : ops) { rt.setWidth(o.w); rl.setWidth(o.w); Root ro = o.root < 0 ? rootOf(*M) : roots[o.root]; compileRun(dd,*M,ss[o.s],ro,o.p0,o.root >= 0); if (o.s == 2) dd->computeCutSet(); } M->ev = Events(); };
   round(); round(); auto a = snap(); const int rounds = 10; for(int k=0;k<rounds;k++) round(); auto b = snap();
   std::ostringstream h; for(auto& o : ops) h << " " << ss[o.s]->getName() << "(w" << o.w << (o.root<0?",init":",sub") << ")"; h << " on " << M->desc();
   REQUIRE(PS::bad == 0,"a state was used or destroyed after its destruction (" << PS::bad << " times) when repeating" << h.str());
   REQUIRE(b.live <= a.live,"live states grow from " << a.live << " to " << b.live << " when" << h.str() << " is repeated " << rounds << " times");
   REQUIRE(b.blocks <= a.blocks && b.bytes <= a.bytes + SLACK,"live heap grows from " << a.blocks << " blocks/" << a.bytes << " bytes to " << b.blocks << "/" << b.bytes << " when" << h.str() << " is repeated " << rounds << " times");
   st.add("repetition_checks"); st.add("recompilations",rounds*ops.size()); st.sig(mix(M->sig(),sd)); st.sample(VF_STR("repeated" << h.str() << " live states " << a.live << " -> " << b.live));
}
int main(int argc,char** argv) {
   mallopt(M_MMAP_THRESHOLD,1<<28); mallopt(M_TRIM_THRESHOLD,1<<29);
   return vf::run(argc,argv,[](const Args& a) -> CaseFn { return a.prop == "C12" ? CaseFn(c12) : CaseFn(); });
}
