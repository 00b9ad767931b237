// Calls in several threads: forced or free orders (specification: Threads)
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include "tr.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <algorithm>
namespace tr {
// ---- pausing inside a call, where the library calls back
struct Sched {
    std::mutex m; std::condition_variable cv; int turn=0; std::vector<char> paused,finished;
    void wait(int id) { std::unique_lock<std::mutex> l(m); paused[id]=1; if(turn==id) turn=0; cv.notify_all(); cv.wait(l,[&]{ return turn==id; }); paused[id]=0; }
    void finish(int id) { std::unique_lock<std::mutex> l(m); finished[id]=1; if(turn==id) turn=0; cv.notify_all(); }
    // lets one thread run up to its next stop; false: it was finished before
    bool grant(int id) { std::unique_lock<std::mutex> l(m); cv.wait(l,[&]{ return paused[id]||finished[id]; }); if( finished[id] ) return false; turn=id; cv.notify_all(); cv.wait(l,[&]{ return turn==0; }); return true; }
};
struct Ctl { int id=0; long count=0; std::vector<long> stops; Sched* sched=nullptr; bool yields=false; };
inline Ctl*& ctl() { static thread_local Ctl* c=nullptr; return c; }
inline void tick() { Ctl* c=ctl(); if(!c) return; long n=++c->count;
    if( c->sched && std::binary_search(c->stops.begin(),c->stops.end(),n) ) c->sched->wait(c->id);
    if( c->yields && n%7==0 ) std::this_thread::yield(); }


// ---- results as numbers
struct Sink { uint64_t h=1469598103934665603ull; long n=0;
    void raw(uint64_t v) { for(int k=0;k<8;k++) { h^=(v>>(8*k))&255; h*=1099511628211ull; } n++; }
    template<class T> void put(T v) { double d=(double)v; uint64_t u; memcpy(&u,&d,8); raw(u); }
    std::vector<long long> out() const { return { n,(long long)(h&0x3fffffff),(long long)((h>>30)&0x3fffffff) }; } };
// what one thread does: call number k
struct Job { virtual ~Job() {} virtual void call(int k,Sink& s)=0; };
typedef std::function<std::unique_ptr<Job>(int)> Maker;
typedef std::function<std::vector<long long>()> Digest;
typedef std::vector<std::vector<int>> Ops;
struct Rec { long at; int t,k; bool end; std::vector<long long> r; };
inline void emit(const Rec& q) { if(q.end) Ev("end").i("t",q.t).i("k",q.k).a("r",q.r); else Ev("begin").i("t",q.t).i("k",q.k); }
// the same operation in all threads, or different ones
inline Ops choose(Rng& g,int threads,int calls,int ops) { Ops o((size_t)threads); for( int k=0;k<calls;k++ ) { int same=g.chance(60)?g.range(0,ops-1):-1; for( auto& v : o ) v.push_back(same>=0?same:g.range(0,ops-1)); } return o; }
// every thread alone, one after the other; ticks: callbacks of every thread
inline void solo(const Ops& ops,Maker make,std::vector<long>& ticks) {
    for( size_t t=0;t<ops.size();t++ ) { Ctl c; { auto w=make((int)t); ctl()=&c; for( size_t k=0;k<ops[t].size();k++ ) { Sink s; w->call((int)k,s); Ev("solo").i("t",(int)t+1).i("k",(int)k+1).i("op",ops[t][k]).a("r",s.out()); } ticks.push_back(c.count); ctl()=nullptr; } } }
inline void freely(const Ops& ops,Maker make,Digest digest) {
    int threads=(int)ops.size(), calls=(int)ops[0].size(); std::vector<long> ticks;
    Ev("init").i("n",threads); Ev("share").a("d",digest()); solo(ops,make,ticks);
    static std::atomic<long> clock; static std::atomic<int> ready; ready=0; clock=0; std::vector<std::vector<Rec>> log((size_t)threads); std::vector<std::thread> th;
    for( int t=0;t<threads;t++ ) th.emplace_back([&,t]{ Ctl c; c.yields=t%2==0; auto w=make(t); ctl()=&c;
        for( int k=0;k<calls;k++ ) { ready.fetch_add(1,std::memory_order_relaxed); while( ready.load(std::memory_order_relaxed)<threads*(k+1) ) std::this_thread::yield();   // together
            log[t].push_back({clock.fetch_add(1,std::memory_order_relaxed),t+1,k+1,false,{}}); Sink s; w->call(k,s); log[t].push_back({clock.fetch_add(1,std::memory_order_relaxed),t+1,k+1,true,s.out()}); }
        ctl()=nullptr; });
    for( auto& t : th ) t.join();
    std::vector<Rec> all; for( auto& l : log ) for( auto& q : l ) all.push_back(q);
    std::sort(all.begin(),all.end(),[](const Rec& a,const Rec& b) { return a.at<b.at; }); for( auto& q : all ) emit(q);
    Ev("shared").a("d",digest());
}
// the order of the steps is given: a thread runs up to the next stop inside of its calls
inline void steps(Rng& g,const std::vector<int>& order,const Ops& ops,Maker make,Digest digest) {
    int threads=(int)ops.size(), calls=(int)ops[0].size(); std::vector<long> ticks;
    Ev("init").i("n",threads); Ev("share").a("d",digest()); solo(ops,make,ticks);
    Sched S; S.paused.assign((size_t)threads+1,0); S.finished.assign((size_t)threads+1,0); std::vector<std::thread> th; std::vector<Rec> log;
    for( int t=0;t<threads;t++ ) {
        int n=(int)std::count(order.begin(),order.end(),t+1)-1; std::vector<long> st; for( int k=0;k<n && ticks[t]>0;k++ ) st.push_back(1+(long)(g.next()%(uint64_t)ticks[t])); std::sort(st.begin(),st.end());
        th.emplace_back([&,t,st]{ Ctl c; c.id=t+1; c.stops=st; c.sched=&S; auto w=make(t); S.wait(t+1); ctl()=&c;
            for( int k=0;k<calls;k++ ) { log.push_back({0,t+1,k+1,false,{}}); Sink s; w->call(k,s); log.push_back({0,t+1,k+1,true,s.out()}); }
            ctl()=nullptr; S.finish(t+1); });
    }
    for( int t : order ) { size_t k=log.size(); if( S.grant(t) && log.size()==k ) log.push_back({-1,t,0,false,{}}); }
    for( int t=1;t<=threads;t++ ) while( S.grant(t) ) {}
    for( auto& t : th ) t.join();
    for( auto& q : log ) if( q.at<0 ) Ev("step").i("t",q.t); else emit(q);
    Ev("shared").a("d",digest());
}
}
#endif
