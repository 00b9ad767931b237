// Conformance harness for calls which run at the same time (specification: Threads / ThreadTrace)
#include "work.h"
#include <algorithm>
template<class T> struct Task : Job { Worker<T> w; const std::vector<int>& ops; Task(const Pool<T>& p,uint64_t seed,const std::vector<int>& o):w(p,seed),ops(o) {} void call(int k,Sink& s) override { Numbers n(s); w.call(ops[(size_t)k],n); } };
template<class T> void pool(Rng& g,int threads,int calls,const std::vector<int>* order) {
    Pool<T> P(g); Ops ops=choose(g,threads,calls,OPS); uint64_t seed=g.next()>>8;
    Maker make=[&](int t){ return std::unique_ptr<Job>(new Task<T>(P,seed+(uint64_t)t,ops[(size_t)t])); }; Digest dig=[&]{ return P.digest(); };
    if( order ) steps(g,*order,ops,make,dig); else freely(ops,make,dig);
}
template<class F> void byType(long long k,F f) { switch(k%5) { case 0: f((U8*)nullptr); break; case 1: f((F32*)nullptr); break; case 2: f((S16*)nullptr); break; case 3: f((S32*)nullptr); break; default: f((U16*)nullptr); } }
int main(int argc,char** argv) {
    init(argc,argv); Shard sh; uint64_t seed=(uint64_t)opt().i("seed",1); std::string mode=opt().s("mode");
    if( mode=="probe" ) { std::thread a([]{}); a.join(); return 0; }
    if( mode=="free" ) for( long long k=0,N=opt().i("n",10);k<N;k++ ) { if(!sh.take()) continue; Rng g(seed*7919+k); byType(k,[&](auto* p) { typedef typename std::remove_pointer<decltype(p)>::type T; int n=g.range(2,4),c=g.range(4,12); pool<T>(g,n,c,nullptr); }); }
    else if( mode=="steps" ) { auto sc=script(); for( size_t k=0;k<sc.size();k++ ) { if(!sh.take()) continue; Rng g(seed*104729+k); std::vector<int> o; for( auto& x : sc[k].a ) o.push_back((int)x.n);
        byType((long long)k,[&](auto* p) { typedef typename std::remove_pointer<decltype(p)>::type T; pool<T>(g,*std::max_element(o.begin(),o.end()),g.range(1,3),&o); }); } }
    else fatal("mode");
    return 0;
}
