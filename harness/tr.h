// Common support for the conformance harnesses: trace (ndjson) writer, script reader, random numbers, watchdog.
#ifndef VERIF_TR_H
#define VERIF_TR_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <stdexcept>
#include <iostream>
#include <fstream>
#include <sstream>
#include <functional>
#include <unistd.h>
#include <signal.h>

namespace tr {

// ---------------------------------------------------------------- random
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed*0x9E3779B97F4A7C15ull+0x1234567ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n == 0 ? 0 : (uint32_t)((next()>>16) % n); }
    int range(int a, int b) { return a + (int)below((uint32_t)(b-a+1)); } // inclusive
    bool chance(int percent) { return (int)below(100) < percent; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below((uint32_t)v.size())]; }
};

// long and narrow: more rows or columns than fit into eight bits, sums of a line which need more than sixteen
inline void longShape(Rng& g,int& w,int& h,int longest=700,int narrow=3) { w=g.chance(50)?g.range(258,longest):g.range(255,300); h=g.range(1,narrow); if( g.chance(50) ) std::swap(w,h); }

// rows or columns of more pixels than fit into sixteen bits
inline void hugeShape(Rng& g,int& w,int& h,int narrow=1) { w=66000; h=narrow; if( g.chance(50) ) std::swap(w,h); }

// ---------------------------------------------------------------- trace writer
// where the lines of this thread go instead of the file
inline std::string*& captured() { static thread_local std::string* s=nullptr; return s; }
struct Out {
    FILE* f = nullptr;
    long lines = 0;
    void open(const std::string& p) { f = fopen(p.c_str(),"w"); if(!f) { fprintf(stderr,"cannot open %s\n",p.c_str()); exit(3);} }
    void line(const std::string& s) { if( captured() ) { *captured()+=s; *captured()+='\n'; return; } fwrite(s.data(),1,s.size(),f); fputc('\n',f); fflush(f); lines++; }
};
inline Out& out() { static Out o; return o; }

inline void num(std::string& b, long long v) { char t[32]; snprintf(t,sizeof t,"%lld",v); b += t; }

struct Ev {
    std::string b;
    bool done = false;
    explicit Ev(const std::string& name) { b = "{\"e\":\""+name+"\""; }
    ~Ev() { if(!done) emit(); }
    Ev(const Ev&) = delete;
    void key(const char* k) { b += ",\""; b += k; b += "\":"; }
    Ev& i(const char* k, long long v) { key(k); num(b,v); return *this; }
    Ev& t(const char* k, bool v) { key(k); b += v ? "true":"false"; return *this; }
    Ev& s(const char* k, const std::string& v) { key(k); b += '"'; b += v; b += '"'; return *this; }
    template<class V> Ev& a(const char* k, const V& v) {
        key(k); b += '[';
        bool first = true;
        for( auto& x : v ) { if(!first) b += ','; first = false; num(b,(long long)x); }
        b += ']';
        return *this;
    }
    template<class V> Ev& aa(const char* k, const V& v) { // list of lists
        key(k); b += '[';
        bool f1 = true;
        for( auto& r : v ) {
            if(!f1) b += ','; f1 = false;
            b += '[';
            bool f2 = true;
            for( auto& x : r ) { if(!f2) b += ','; f2 = false; num(b,(long long)x); }
            b += ']';
        }
        b += ']';
        return *this;
    }
    Ev& raw(const char* k, const std::string& v) { key(k); b += v; return *this; }
    void emit() { if(done) return; done = true; b += '}'; out().line(b); }
};

// ---------------------------------------------------------------- minimal JSON reader (scripts)
struct Val {
    enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL;
    bool bo = false; long long n = 0; std::string s; std::vector<Val> a; std::map<std::string,Val> o;
    const Val& operator[](const std::string& key) const { static Val none; auto it = o.find(key); return it==o.end()?none:it->second; }
    const Val& operator[](size_t i) const { return a.at(i); }
    bool has(const std::string& key) const { return o.count(key)>0; }
    long long num() const { return k==BOOL ? bo : n; }
    size_t size() const { return a.size(); }
};
struct Parser {
    const char* p; const char* e;
    void ws() { while(p<e && (*p==' '||*p=='\t'||*p=='\n'||*p=='\r')) p++; }
    Val parse() {
        ws(); Val v;
        if( p>=e ) return v;
        if( *p=='{' ) { v.k=Val::OBJ; p++; ws(); while(p<e && *p!='}') { Val key=parse(); ws(); p++; v.o[key.s]=parse(); ws(); if(*p==',') p++; ws(); } p++; }
        else if( *p=='[' ) { v.k=Val::ARR; p++; ws(); while(p<e && *p!=']') { v.a.push_back(parse()); ws(); if(*p==',') p++; ws(); } p++; }
        else if( *p=='"' ) { v.k=Val::STR; p++; while(p<e && *p!='"') v.s += *p++; p++; }
        else if( *p=='t' ) { v.k=Val::BOOL; v.bo=true; p+=4; }
        else if( *p=='f' ) { v.k=Val::BOOL; p+=5; }
        else if( *p=='n' ) { p+=4; }
        else { v.k=Val::NUM; v.n=strtoll(p,(char**)&p,10); }
        return v;
    }
};
inline Val parse(const std::string& s) { Parser q{s.data(),s.data()+s.size()}; return q.parse(); }

// ---------------------------------------------------------------- options
struct Opt {
    std::map<std::string,std::string> m;
    std::string s(const std::string& k, const std::string& d="") const { auto i=m.find(k); return i==m.end()?d:i->second; }
    long long i(const std::string& k, long long d) const { auto x=m.find(k); return x==m.end()?d:atoll(x->second.c_str()); }
};
inline Opt& opt() { static Opt o; return o; }
inline void fatal(const std::string& m) { fprintf(stderr,"HARNESS-ERROR %s\n",m.c_str()); _exit(3); }
inline int& case_limit() { static int c = 60; return c; }
inline void on_alarm(int) { const char m[] = "HARNESS-TIMEOUT one case did not finish\n"; ssize_t r = write(2,m,sizeof m-1); (void)r; _exit(4); }
// called at the start of every case/episode
inline void watchdog() { alarm(case_limit()); }

// iterates over cases: case index c belongs to this shard when c % shards == shard; --only restricts to one
struct Shard {
    long long shard, shards, only, c = -1;
    Shard() { shard = opt().i("shard",0); shards = opt().i("shards",1); only = opt().i("only",-1); }
    bool take() { c++; if( only >= 0 ) return c == only; bool r = c % shards == shard; if(r) watchdog(); return r; }
};

inline void init(int argc, char** argv) {
    for(int k=1;k+1<argc;k+=2) { std::string a=argv[k]; if(a.substr(0,2)=="--") opt().m[a.substr(2)]=argv[k+1]; else fatal("bad option "+a); }
    signal(SIGALRM,on_alarm);
    case_limit() = (int)opt().i("case_limit",60);
    out().open(opt().s("out","/dev/stdout"));
    watchdog();
}
inline std::vector<Val> script() {
    std::vector<Val> r; std::ifstream f(opt().s("script"));
    if(!f) fatal("no script");
    std::string l; while(std::getline(f,l)) if(!l.empty()) r.push_back(parse(l));
    return r;
}
} // namespace tr
#endif
