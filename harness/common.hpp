// Shared driver of all harnesses: seeded RNG, case loop, violation reporting, observation statistics.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <fstream>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <malloc.h>
#include <sys/resource.h>

namespace vf {
struct Rng {
   uint64_t s;
   explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for(int i=0;i<4;i++) next(); }
   uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull);
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);}
   int in(int lo,int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); } // inclusive
   bool chance(int pct) { return in(1,100) <= pct; }
   template <class C> auto& pick(C& c) { return c[next() % c.size()]; }
};
inline uint64_t mix(uint64_t a,uint64_t b) { Rng r(a * 31 + b * 0x2545F4914F6CDD1Dull); return r.next(); }

struct Violation { std::string msg; };
[[noreturn]] inline void fail(const std::string& m) { throw Violation{m}; }
#define VF_STR(x) ([&]{ std::ostringstream _o; _o << x; return _o.str(); }())
#define REQUIRE(cond,msg) do { if (!(cond)) vf::fail(VF_STR(msg)); } while(0)

// A violation seen inside a callback invoked from noexcept library code cannot be thrown: it is latched here.
inline std::string latched;
inline void latch(const std::string& m) { if (latched.empty()) latched = m; }
inline void checkLatched() { if (!latched.empty()) { auto m = latched; latched.clear(); fail(m);} }

struct Stats {
   std::map<std::string,uint64_t> cnt;
   std::unordered_set<uint64_t> sigs;
   std::vector<std::string> samples;
   uint64_t evals = 0;
   void add(const std::string& k,uint64_t n=1) { cnt[k] += n; }
   void mx(const std::string& k,uint64_t n) { auto& v = cnt["max_"+k]; if (n > v) v = n; }
   uint64_t caseSig = 0;              // one signature per case, combined from everything non-trivial seen in it
   void sig(uint64_t s) { caseSig = mix(caseSig,s) | 1; }
   void endCase() { if (caseSig) sigs.insert(caseSig); caseSig = 0; }
   void sample(const std::string& s) { if (samples.size() < 4) samples.push_back(s.substr(0,400)); }
};
inline Stats st;
inline std::string esc(const std::string& s) {
   std::string o; for(char c : s) { if (c=='"'||c=='\\') { o += '\\'; o += c;} else if ((unsigned char)c < 32) o += ' '; else o += c; } return o;
}

// Captures what the library writes to std::cout.
struct Capture {
   std::ostringstream buf; std::streambuf* old; std::ios_base::fmtflags f; std::streamsize p;
   Capture() : old(std::cout.rdbuf(buf.rdbuf())),f(std::cout.flags()),p(std::cout.precision()) {}
   ~Capture() { std::cout.rdbuf(old); std::cout.flags(f); std::cout.precision(p); }
   std::string str() const { return buf.str(); }
};
struct Args { std::string prop,out,mode; uint64_t seed=1; long from=0,to=1; bool verbose=false; };
using CaseFn = std::function<void(Rng&,long)>;

inline int run(int argc,char** argv,const std::function<CaseFn(const Args&)>& select) {
   Args a;
   for(int i=1;i+1<argc;i+=2) {
      std::string k = argv[i],v = argv[i+1];
      if (k=="--prop") a.prop=v; else if (k=="--out") a.out=v; else if (k=="--mode") a.mode=v;
      else if (k=="--seed") a.seed=strtoull(v.c_str(),0,10); else if (k=="--from") a.from=atol(v.c_str());
      else if (k=="--to") a.to=atol(v.c_str()); else if (k=="--verbose") a.verbose = v=="1";
   }
   static std::ofstream nul("/dev/null"); std::cout.rdbuf(nul.rdbuf());   // the library chatters
   CaseFn fn = select(a);
   if (!fn) { fprintf(stderr,"unknown property %s\n",a.prop.c_str()); return 3; }
   int pfd = a.out.empty() ? -1 : open((a.out+".progress").c_str(),O_CREAT|O_WRONLY|O_TRUNC,0644);
   int rc = 0; std::string vmsg; long vcase = -1;
   for(long k=a.from;k<a.to;k++) {
      if (pfd>=0) { char b[32]; int n = snprintf(b,sizeof b,"%20ld\n",k); if (pwrite(pfd,b,n,0)<0) {} }
      Rng r(mix(a.seed,(uint64_t)k));
      latched.clear(); st.caseSig = 0;
      try { fn(r,k); checkLatched(); st.evals++; st.endCase(); }
      catch(const Violation& v) { if (a.mode == "keepgoing") { st.add("functional_violations"); continue; } vmsg = v.msg; vcase = k; rc = 1; break; }
   }
   if (!a.out.empty()) {
      std::ofstream o(a.out);
      o << "{\"evaluations\":" << st.evals << ",\"violation\":" << (rc? "true":"false")
        << ",\"case\":" << vcase << ",\"message\":\"" << esc(vmsg) << "\",\"counters\":{";
      bool first=true; for(auto& [k,v] : st.cnt) { o << (first?"":",") << "\"" << esc(k) << "\":" << v; first=false; }
      o << "},\"samples\":["; first=true;
      for(auto& s : st.samples) { o << (first?"":",") << "\"" << esc(s) << "\""; first=false; }
      o << "],\"sigs\":["; first=true;
      for(auto s : st.sigs) { o << (first?"":",") << "\"" << std::hex << s << std::dec << "\""; first=false; }
      o << "]}\n";
   }
   if (rc) fprintf(stderr,"VIOLATED case=%ld %s\n",vcase,vmsg.c_str());
   fflush(stderr);
   return rc;
}
}
