// C28: the exported graph is the compiled diagram; displaying alters nothing and returns exactly once.
// The layout and viewer programs are stand-ins in a scratch directory; the DOT text they are given is parsed.
#include "solver.hpp"
#include "families.hpp"
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/file.h>
#include <filesystem>
using namespace vf;
namespace fs = std::filesystem;
static std::string scratch; static pid_t self; static int lockFd=-1;

struct DNodeStmt { std::string name; std::map<std::string,std::string> at; };
struct DEdgeStmt { std::string a,b,label; };
struct Dot { std::vector<DNodeStmt> nodes; std::vector<DEdgeStmt> edges; bool closed=false; };
static Dot parseDot(const std::string& t) {
   Dot d; size_t i = 0; const size_t N = t.size();
   auto ws = [&]() { while(i < N && (isspace((unsigned char)t[i]) || t[i]==';' || t[i]==',')) i++; };
   auto id = [&]() -> std::string { ws(); std::string o; REQUIRE(i < N,"DOT text ends unexpectedly");
      if (t[i]=='"') { i++; while(i < N && t[i] != '"') { if (t[i]=='\\' && i+1 < N) i++; o += t[i++]; } REQUIRE(i < N,"unterminated string in DOT text"); i++; }
      else { while(i < N && (isalnum((unsigned char)t[i]) || strchr("_.-+#",t[i])) && !(t[i]=='-' && i+1<N && t[i+1]=='>')) o += t[i++]; REQUIRE(!o.empty(),"unexpected character '" << t[i] << "' in DOT text"); }
      return o; };
   auto attrs = [&]() { std::map<std::string,std::string> a; ws(); if (i < N && t[i]=='[') { i++; while(true) { ws(); REQUIRE(i < N,"unterminated attribute list"); if (t[i]==']') { i++; break; } auto k = id(); ws(); std::string v; if (i < N && t[i]=='=') { i++; v = id(); } a[k]=v; } } return a; };
   std::string kw = id(); if (kw == "strict") kw = id(); REQUIRE(kw == "digraph","DOT text does not start with digraph but '" << kw << "'"); ws(); if (t[i] != '{') id(); ws(); REQUIRE(i < N && t[i]=='{',"no graph body"); i++;
   while(true) { ws(); REQUIRE(i < N,"DOT graph is not closed: the text is incomplete after " << d.nodes.size() << " nodes and " << d.edges.size() << " arcs"); if (t[i]=='}') { i++; d.closed = true; break; }
      bool q = t[i]=='"'; auto a = id(); ws();
      if (!q && i < N && t[i]=='=') { i++; id(); continue; }
      if (!q && (a=="node"||a=="edge"||a=="graph")) { attrs(); continue; }
      if (i+1 < N && t[i]=='-' && t[i+1]=='>') { i += 2; auto b = id(); auto at = attrs(); d.edges.push_back({a,b,at["label"]}); }
      else d.nodes.push_back({a,attrs()}); }
   ws(); REQUIRE(i >= N,"text after the end of the DOT graph");
   return d;
}
struct GNode { unsigned id; std::string name; bool exact; double b,bb; std::vector<int> labs; std::vector<std::tuple<unsigned,double,int>> out; unsigned layer; bool operator==(const GNode&) const = default; };
struct Graph { std::map<unsigned,GNode> n; double opt; std::vector<int> inc; bool exact; unsigned root; bool operator==(const Graph&) const = default; };
static Graph snapGraph(AbstractDD::Ptr dd) {
   Graph g; g.opt = dd->currentOpt(); g.inc = dd->incumbent(); g.exact = dd->isExact(); g.root = dd->getRoot()->getId();
   std::vector<ANode::Ptr> q = {dd->getRoot()}; std::set<unsigned> seen = {dd->getRoot()->getId()};
   while(!q.empty()) { auto n = q.back(); q.pop_back(); GNode x; x.id = n->getId(); std::ostringstream o; dd->printNode(o,n); x.name = o.str(); x.exact = n->isExact(); x.b = n->getBound(); x.bb = n->getBackwardBound(); x.labs = labelsOf(n); x.layer = n->getLayer();
      for(auto e = n->beginKids();e != n->endKids();++e) { auto t = (*e)->_to; x.out.push_back({t->getId(),(*e)->_obj,(*e)->_lbl}); if (seen.insert(t->getId()).second) q.push_back(t); }
      g.n[x.id] = x; }
   return g;
}
static std::set<std::string> tmpFiles() { std::set<std::string> s; std::error_code ec; for(auto& e : fs::directory_iterator("/tmp",ec)) { auto n = e.path().filename().string(); if (n.rfind("dotfile",0)==0) s.insert(n); } return s; }
static void script(const std::string& p,const std::string& body) { { std::ofstream o(p); o << "#!/bin/sh\n" << body; } chmod(p.c_str(),0755); }

// what happened when display() was called
struct Shown { std::string dot,text; bool captured=false; int returns=0; int unreaped=0; };
static Shown show(AbstractDD::Ptr dd,int mode,bool viaPrint) {   // mode: bit0 layout program present, bit1 viewer present, bit2 layout program fails
   Shown S; const std::string d = scratch; 
   unlink((d+"/cap.dot").c_str()); unlink((d+"/bin/dot").c_str()); unlink((d+"/bin/open").c_str()); unlink((d+"/returned").c_str());
   if (mode & 1) script(d+"/bin/dot","for a in \"$@\"; do last=\"$a\"; done\n/bin/cat \"$last\" > " + d + "/cap.dot\n" + ((mode & 4) ? "exit 3\n" : "exit 0\n"));
   if (mode & 2) script(d+"/bin/open","exit 0\n");
   if (lockFd >= 0) flock(lockFd,LOCK_EX);               // shards share /tmp: one display at a time
   auto before = tmpFiles(); std::ostringstream text;
   std::string oldPath = getenv("PATH") ? getenv("PATH") : ""; setenv("PATH",(d+"/bin").c_str(),1);
   int e2 = dup(2),nul = open("/dev/null",O_WRONLY); dup2(nul,2);
   { Capture c; if (viaPrint) dd->print(text,"print"); else dd->display(); }
   { int f = open((d+"/returned").c_str(),O_CREAT|O_WRONLY|O_APPEND,0644); if (write(f,"x",1) < 0) {} close(f); }
   if (getpid() != self) _exit(0);                       // a forked child came back from display()
   dup2(e2,2); close(e2); close(nul); setenv("PATH",oldPath.c_str(),1);
   while(true) { int s; pid_t p = waitpid(-1,&s,0); if (p < 0) break; S.unreaped++; }
   struct stat sb; S.returns = stat((d+"/returned").c_str(),&sb) == 0 ? (int)sb.st_size : 0;
   auto after = tmpFiles(); std::string file;
   for(auto& f : after) if (!before.count(f)) { if (f.find(".pdf") == std::string::npos) file = "/tmp/"+f; }
   std::string src = (mode & 1) && stat((d+"/cap.dot").c_str(),&sb)==0 ? d+"/cap.dot" : file;
   if (!src.empty()) { std::ifstream in(src); std::ostringstream o; o << in.rdbuf(); S.dot = o.str(); S.captured = true; }
   for(auto& f : after) if (!before.count(f)) unlink(("/tmp/"+f).c_str());
   if (lockFd >= 0) flock(lockFd,LOCK_UN);
   S.text = text.str();
   return S;
}
static void checkShown(const std::string& what,AbstractDD::Ptr dd,const Graph& g,const Shown& S,int mode,unsigned sinkId,const std::string& sinkName) {
   REQUIRE(S.returns == 1,"display() of " << what << " (layout program " << ((mode&1)?"present":"missing") << ", viewer " << ((mode&2)?"present":"missing") << ") returned " << S.returns << " times to the calling program");
   REQUIRE(S.captured,"display() of " << what << " left no DOT graph");
   Dot d = parseDot(S.dot);
   std::map<std::string,const GNode*> want; for(auto& [i,n] : g.n) want[n.name] = &n;
   std::map<std::string,int> cnt; 
   for(auto& n : d.nodes) { cnt[n.name]++; REQUIRE(cnt[n.name] == 1,"node " << n.name << " appears twice in the DOT graph of " << what);
      auto w = want.find(n.name); REQUIRE(w != want.end() || n.name == sinkName,"the DOT graph of " << what << " shows a node that is not in the diagram: " << n.name);
      if (w != want.end()) { auto c = n.at.find("fillcolor"); REQUIRE(c != n.at.end(),"node " << n.name << " has no colour"); REQUIRE(c->second == (w->second->exact ? "green" : "red"),"node " << n.name << " is " << (w->second->exact ? "exact" : "not exact") << " but coloured " << c->second); }
      bool box = n.at.count("shape") && n.at["shape"] == "box"; REQUIRE(box == (n.name == sinkName),"node " << n.name << (box ? " has the sink shape but is not the sink" : " is the sink but lacks the sink shape")); }
   for(auto& [nm,p] : want) REQUIRE(cnt.count(nm),"node " << nm << " of " << what << " (" << g.n.size() << " nodes) is missing from the DOT graph");
   std::map<std::pair<std::string,std::string>,std::vector<std::pair<double,int>>> E; size_t arcs=0;
   for(auto& [i,n] : g.n) for(auto& [t,o,l] : n.out) { E[{n.name,g.n.at(t).name}].push_back({o,l}); arcs++; }
   for(auto& e : d.edges) { auto it = E.find({e.a,e.b}); REQUIRE(it != E.end(),"the DOT graph shows an arc that is not in the diagram (or one too often): " << e.a << " -> " << e.b << " " << e.label);
      char* end; double o = strtod(e.label.c_str(),&end); int l = 0; REQUIRE(*end=='(' && sscanf(end+1,"%d",&l)==1,"arc label '" << e.label << "' is not cost(label)");
      auto& v = it->second; size_t k=0; for(;k<v.size();k++) if (v[k].second == l && std::abs(v[k].first-o) <= 1e-5*std::max(1.0,std::abs(v[k].first))) break;
      REQUIRE(k < v.size(),"arc " << e.a << " -> " << e.b << " is shown as '" << e.label << "' but the diagram has no such arc left"); v.erase(v.begin()+k); if (v.empty()) E.erase(it); }
   REQUIRE(E.empty(),"arc " << E.begin()->first.first << " -> " << E.begin()->first.second << " of " << what << " is missing from the DOT graph");
   st.add("dot_nodes",d.nodes.size()); st.add("dot_arcs",arcs); st.mx("dot_nodes",d.nodes.size()); st.add("displays"); st.add(VF_STR("viewer_mode_" << mode));
}
static void one(Rng& r,AbstractDD::Ptr dd,const std::string& what,uint64_t sig) {
   Graph g = snapGraph(dd); ANode::Ptr trg; { // the sink: re-requesting the target returns the existing node of that state
      Capture c; trg = dd->target(); }
   std::ostringstream o; dd->printNode(o,trg); const std::string sinkName = o.str();
   bool wasExact = dd->isExact(); (void)wasExact;
   g = snapGraph(dd);
   int mode = std::vector<int>{3,3,3,1,2,0,7,5}[r.in(0,7)]; bool vp = r.chance(25); auto S = show(dd,mode,vp);
   Graph h = snapGraph(dd); REQUIRE(g == h,"displaying " << what << " altered the diagram");
   checkShown(what,dd,g,S,mode,trg->getId(),sinkName);
   if (vp) {                                             // the textual listing names every arc exactly once, sources before targets
      std::multiset<std::tuple<unsigned,int,unsigned>> E,T; for(auto& [i,n] : g.n) for(auto& [t,ob,l] : n.out) E.insert({i,l,t});
      std::istringstream in(S.text); std::string ln; while(std::getline(in,ln)) { unsigned a,b; double ob; int l; if (sscanf(ln.c_str(),"EDGE:E<%u --- %lf(%d) ---> %u",&a,&ob,&l,&b) == 4) T.insert({a,l,b}); }
      REQUIRE(E == T,"print() of " << what << " lists " << T.size() << " arcs, the diagram has " << E.size() << (E.size()==T.size() ? " (others)" : "")); st.add("printed_listings"); }
   if (g.n.size() > 3) st.sig(mix(sig,g.n.size()*8+mode));
   st.sample(VF_STR("display of " << what << ": nodes=" << g.n.size() << " viewer mode " << mode << " DOT bytes=" << S.dot.size()));
}
static void c28(Rng& r,long) {
   PS::hashMode = 0; Exact ex; Restricted rt(1); Relaxed rl(1); Strategy* ss[3] = {&ex,&rt,&rl};
   if (r.chance(20)) { Fam f = makeFam(r); int s = r.in(0,2); unsigned w = r.in(1,20); rt.setWidth(w); rl.setWidth(w); { Capture c; f.dd->setStrategy(ss[s]); Bounds b(f.dd); f.dd->compute(b); }
      if (snapGraph(f.dd).n.size() > 3000) { st.add("skipped_large"); return; }
      one(r,f.dd,VF_STR("a " << ss[s]->getName() << " diagram (width " << w << ") of a " << f.name << " instance"),f.sig); st.add("family_"+f.name); return; }
   GenOpt g; int z = r.in(1,40); if (z == 1) { g.huge = true; g.maxM = r.in(150,500); } else if (z <= 4) { g.large = true; g.maxN = 6; g.maxM = r.in(12,60); g.maxL = 5; } else if (r.chance(50)) g.hard = true;
   auto M = genModel(r,g); randOptions(r,*M); auto dd = makeDDFor(M);
   auto A = makeDDFor(M); Relaxed ra(r.in(1,4)); compileRun(A,*M,&ra,rootOf(*M),1e12,false); auto cs = A->computeCutSet();
   for(int k=0;k<2;k++) { int s = z == 1 ? (k ? 2 : 0) : r.in(0,2); unsigned w = z == 1 ? r.in(50,600) : r.in(1,12); rt.setWidth(w); rl.setWidth(w); bool ap = !cs.empty() && r.chance(40); Root ro = ap ? rootOf(cs[r.in(0,(int)cs.size()-1)]) : rootOf(*M);
      double p0 = r.chance(60) ? 1e12 : (M->feasible()?M->opt():0) + r.in(-2,9)*(M->maximize?-1:1);
      compileRun(dd,*M,ss[s],ro,p0,ap);
      one(r,dd,VF_STR("a " << ss[s]->getName() << " diagram (width " << w << ") from " << ro.s << " of " << M->desc()),M->sig());
      if (r.chance(50)) { // the diagram goes on working
         auto F = makeDDFor(M); Exact e2; auto R = compileRun(dd,*M,&ex,ro,p0,ap),Q = compileRun(F,*M,&e2,ro,p0,ap); REQUIRE(R.value == Q.value && R.exact == Q.exact,"after displaying, an exact compilation gives " << R.value << " instead of " << Q.value << "; " << M->dump()); st.add("used_after_display"); } }
}
int main(int argc,char** argv) {
   self = getpid(); char t[] = "/tmp/vf-display-XXXXXX"; if (!mkdtemp(t)) return 3; scratch = t; mkdir((scratch+"/bin").c_str(),0755);
   for(int i=1;i+1<argc;i+=2) if (std::string(argv[i]) == "--out") { auto p = fs::path(argv[i+1]).parent_path() / "display.lock"; lockFd = open(p.c_str(),O_CREAT|O_RDWR,0644); }
   int rc = vf::run(argc,argv,[](const Args& a) -> CaseFn { return a.prop == "C28" ? CaseFn(c28) : CaseFn(); });
   if (getpid() == self) { std::error_code ec; fs::remove_all(scratch,ec); }
   return rc;
}
