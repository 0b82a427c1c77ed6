#include "families.hpp"
namespace vf {
Fam makeFam(Rng& r) { Capture c; bool l = r.chance(50),d = r.chance(40);
   switch(r.in(0,5)) { case 0: return famKnapsack(r,l,d); case 1: return famMisp(r,l,d); case 2: return famTsp(r,l,d); case 3: return famGolomb(r,l,d); case 4: return famAssign(r,l,d); default: return famStock(r,l,d); } }
Fam makeBig(Rng& r) { Capture c; bool l = r.chance(60),d = r.chance(50); switch(r.in(0,2)) { case 0: return famKnapsack(r,l,d,true); case 1: return famMisp(r,l,d,true); default: return famTsp(r,true,d,true); } }
Fam makeDeep(Rng& r,int N) { Capture c; return famDeep(r,N,r.chance(60)); }
Fam makeWide(Rng& r,int N,int L) { Capture c; return famWide(r,N,L,N < 350 && r.chance(40)); }
}
