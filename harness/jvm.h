// A small stand-in for the Java side of the bridge: objects with fields and methods, primitive arrays which are either
// handed out as copies or pinned, and a record of every acquire, release and other call (specification: Bridge).
#ifndef VERIF_JVM_H
#define VERIF_JVM_H
#include "interleave.h"
#include <jni.h>
#include <array>
#include <cstdarg>
#include <set>
namespace jvm {
struct Obj;
typedef std::function<jvalue(Obj*,const std::vector<jvalue>&)> Fn;
struct Cls {
    std::string name; std::map<std::string,std::string> fields, statics; std::map<std::string,Fn> methods; // name+signature
    std::map<std::string,jvalue> staticValues; Obj* self=nullptr;
};
struct Field { Cls* cls; std::string name, sig; };
struct Obj : _jobject {
    Cls* cls=nullptr; bool isClass=false; std::map<std::string,jvalue> f;
    // primitive array
    char type=0; size_t len=0, esz=0; uint8_t* mem=nullptr; int id=0;
    std::function<void()> dtor; void* peer=nullptr;
    jvalue& operator[](const std::string& n) { return f[n]; }
};
struct Held { Obj* arr; void* p; int tok; bool critical; };
inline void called() { tr::tick(); }   // a thread can be stopped here
struct World {
    JNIEnv_ env; JNINativeInterface_ tab; bool pin=false; bool pending=false, inside=false;
    std::vector<std::unique_ptr<Obj>> objs; std::map<std::string,std::shared_ptr<Cls>> classes;
    std::vector<std::shared_ptr<Field>> fields; std::vector<Held> held; int tok=0, ids=0;
    std::vector<std::array<long long,4>> log; std::string unknown;
    JNIEnv* e() { return (JNIEnv*)&env; }
    ~World() { reset(); }
    Cls* cls(const std::string& n) { auto& c=classes[n]; if(!c) { c.reset(new Cls); c->name=n; c->self=mk(nullptr); c->self->isClass=true; c->self->peer=c.get(); } return c.get(); }
    Obj* mk(Cls* c) { objs.emplace_back(new Obj); Obj* o=objs.back().get(); o->cls=c; return o; }
    Obj* array(char type,size_t len) {
        Obj* o=mk(nullptr); o->type=type; o->len=len; o->esz=type=='B'||type=='Z'?1:type=='S'||type=='C'?2:type=='I'||type=='F'?4:8; o->mem=(uint8_t*)malloc(len*o->esz+(len==0)); memset(o->mem,0,len*o->esz); o->id=++ids; return o;
    }
    void begin(bool pinned) { inside=true; pin=pinned; log.clear(); tok=0; pending=false; held.clear(); }
    // what was not given back is dropped like a virtual machine which never hears of it
    void end() { for( auto& h : held ) if( h.p!=h.arr->mem ) free(h.p); held.clear(); pending=false; inside=false; }
    void reset() { for( auto& o : objs ) if( o->mem ) free(o->mem); objs.clear(); classes.clear(); fields.clear(); ids=0; held.clear(); log.clear(); }
    // classes, and identifiers of their members, are the same in all threads; what happens in one is its own
    void join(const World& w) { tab=w.tab; env.functions=&tab; classes=w.classes; fields=w.fields; }
    void other() { called(); if( log.empty() || log.back()[0]!=5 ) log.push_back({5,0,0,0}); }
    void* get(Obj* a,bool critical) { called();
        if( !critical ) log.push_back({3,a?a->id:0,++tok,0}); else log.push_back({1,a?a->id:0,++tok,0});
        if( !a || !a->esz ) { fprintf(stderr,"acquired something which is not an array\n"); abort(); }
        void* p=a->mem; if( !pin ) { p=malloc(a->len*a->esz+(a->len==0)); memcpy(p,a->mem,a->len*a->esz); }
        held.push_back({a,p,tok,critical}); return p;
    }
    void release(Obj* a,void* p,int mode,bool critical) { called();
        int t=0; size_t at=0;
        for( size_t k=0;k<held.size();k++ ) if( held[k].arr==a && held[k].p==p && held[k].critical==critical ) { t=held[k].tok; at=k; }
        log.push_back({critical?2:4,a?a->id:0,t,mode});
        if( !t ) return;
        if( !pin && mode!=JNI_ABORT ) memcpy(a->mem,p,a->len*a->esz);
        if( mode!=JNI_COMMIT ) { if( !pin ) free(p); held.erase(held.begin()+at); }
    }
};
inline World*& current() { static thread_local World* w=nullptr; return w; }
inline World& W() { static World w; return current()?*current():w; }
inline Obj* O(const void* p) { return (Obj*)p; }
inline Cls* C(jobject o) { return O(o)->isClass ? (Cls*)O(o)->peer : nullptr; }
inline size_t argc(const std::string& sig,std::vector<char>& t) {
    size_t k=1; while( k<sig.size() && sig[k]!=')' ) { char c=sig[k]; if( c=='[' ) { while( sig[k]=='[' ) k++; c='L'; if( sig[k]=='L' ) while( sig[k]!=';' ) k++; } else if( c=='L' ) while( sig[k]!=';' ) k++; t.push_back(c); k++; }
    return t.size();
}
inline jvalue invoke(jobject o,jmethodID m,const std::vector<jvalue>& a) {
    jvalue r; r.j=0; Field* f=(Field*)m; if( !o || !f ) { fprintf(stderr,"call through null\n"); abort(); }
    auto it=O(o)->cls->methods.find(f->name+f->sig); if( it==O(o)->cls->methods.end() ) { fprintf(stderr,"method of another class\n"); abort(); }
    return it->second(O(o),a);
}
inline jvalue invokeV(jobject o,jmethodID m,va_list ap) {
    W().other(); std::vector<char> t; if(m) argc(((Field*)m)->sig,t); std::vector<jvalue> a;
    for( char c : t ) { jvalue v; v.j=0; switch(c) { case 'Z': v.z=(jboolean)va_arg(ap,int); break; case 'B': v.b=(jbyte)va_arg(ap,int); break; case 'S': v.s=(jshort)va_arg(ap,int); break; case 'C': v.c=(jchar)va_arg(ap,int); break;
        case 'I': v.i=va_arg(ap,jint); break; case 'J': v.j=va_arg(ap,jlong); break; case 'F': v.f=(jfloat)va_arg(ap,double); break; case 'D': v.d=va_arg(ap,double); break; default: v.l=va_arg(ap,jobject); } a.push_back(v); }
    return invoke(o,m,a);
}
inline jvalue invokeA(jobject o,jmethodID m,const jvalue* p) { W().other(); std::vector<char> t; if(m) argc(((Field*)m)->sig,t); return invoke(o,m,std::vector<jvalue>(p,p+t.size())); }
inline Field* intern(Cls* c,const char* n,const char* s) { for( auto& f : W().fields ) if( f->cls==c && f->name==n && f->sig==s ) return f.get(); W().fields.emplace_back(new Field{c,n,s}); return W().fields.back().get(); }
inline Field* lookup(jclass k,const char* n,const char* s,int what) {
    W().other(); Cls* c=C(k); bool ok=false;
    if( c ) { if( what==0 ) { auto i=c->fields.find(n); ok=i!=c->fields.end()&&i->second==s; } else if( what==1 ) { auto i=c->statics.find(n); ok=i!=c->statics.end()&&i->second==s; } else ok=c->methods.count(std::string(n)+s)>0; }
    if( !ok ) { W().pending=true; return nullptr; }
    return intern(c,n,s);
}
// every identifier is there before the first thread asks for it
inline void internAll() { for( auto& q : W().classes ) { Cls* c=q.second.get(); for( auto& f : c->fields ) intern(c,f.first.c_str(),f.second.c_str()); for( auto& f : c->statics ) intern(c,f.first.c_str(),f.second.c_str());
    for( auto& m : c->methods ) { size_t p=m.first.find('('); intern(c,m.first.substr(0,p).c_str(),m.first.substr(p).c_str()); } } }
[[noreturn]] inline void trap() { fprintf(stderr,"HARNESS-ERROR JNI function without a stand-in\n"); _exit(3); }
// every thread has an environment of its own
inline void mine(JNIEnv* e) { if( e!=W().e() ) { fprintf(stderr,"environment of another thread\n"); abort(); } }
inline void checkField(jobject o,jfieldID f) { W().other(); if( !o || !f || O(o)->cls!=((Field*)f)->cls ) { fprintf(stderr,"field of another class\n"); abort(); } }
inline void setup() {
    World& w=W(); void** p=(void**)&w.tab; for( size_t k=0;k<sizeof(w.tab)/sizeof(void*);k++ ) p[k]=(void*)&trap;
    JNINativeInterface_& t=w.tab; w.env.functions=&w.tab;
    t.GetVersion=[](JNIEnv*)->jint{ W().other(); return JNI_VERSION_1_8; };
    t.FindClass=[](JNIEnv*,const char* n)->jclass{ W().other(); auto i=W().classes.find(n); if( i==W().classes.end() ) { W().pending=true; return nullptr; } return (jclass)i->second->self; };
    t.GetObjectClass=[](JNIEnv* e,jobject o)->jclass{ mine(e); W().other(); if( !o || !O(o)->cls ) { fprintf(stderr,"class of something without one\n"); abort(); } return (jclass)O(o)->cls->self; };
    t.IsInstanceOf=[](JNIEnv*,jobject o,jclass c)->jboolean{ W().other(); return !o || O(o)->cls==C(c); };
    t.IsSameObject=[](JNIEnv*,jobject a,jobject b)->jboolean{ W().other(); return a==b; };
    t.GetFieldID=[](JNIEnv*,jclass c,const char* n,const char* s)->jfieldID{ return (jfieldID)lookup(c,n,s,0); };
    t.GetStaticFieldID=[](JNIEnv*,jclass c,const char* n,const char* s)->jfieldID{ return (jfieldID)lookup(c,n,s,1); };
    t.GetMethodID=[](JNIEnv*,jclass c,const char* n,const char* s)->jmethodID{ return (jmethodID)lookup(c,n,s,2); };
    t.GetStaticObjectField=[](JNIEnv*,jclass c,jfieldID f)->jobject{ W().other(); return C(c)->staticValues[((Field*)f)->name].l; };
    t.GetStaticIntField=[](JNIEnv*,jclass c,jfieldID f)->jint{ W().other(); return C(c)->staticValues[((Field*)f)->name].i; };
    t.ExceptionCheck=[](JNIEnv*)->jboolean{ W().other(); return W().pending; };
    t.ExceptionOccurred=[](JNIEnv*)->jthrowable{ W().other(); return W().pending?(jthrowable)W().mk(nullptr):nullptr; };
    t.ExceptionDescribe=[](JNIEnv*){ W().other(); };
    t.ExceptionClear=[](JNIEnv*){ W().other(); W().pending=false; };
    t.ThrowNew=[](JNIEnv*,jclass,const char*)->jint{ W().other(); W().pending=true; return 0; };
    t.Throw=[](JNIEnv*,jthrowable)->jint{ W().other(); W().pending=true; return 0; };
    t.FatalError=[](JNIEnv*,const char* m){ fprintf(stderr,"fatal %s\n",m); abort(); };
    t.NewGlobalRef=[](JNIEnv*,jobject o)->jobject{ W().other(); return o; }; t.NewLocalRef=[](JNIEnv*,jobject o)->jobject{ W().other(); return o; };
    t.DeleteGlobalRef=[](JNIEnv*,jobject){ W().other(); }; t.DeleteLocalRef=[](JNIEnv*,jobject){ W().other(); };
    t.PushLocalFrame=[](JNIEnv*,jint)->jint{ W().other(); return 0; }; t.PopLocalFrame=[](JNIEnv*,jobject o)->jobject{ W().other(); return o; }; t.EnsureLocalCapacity=[](JNIEnv*,jint)->jint{ W().other(); return 0; };
    t.GetArrayLength=[](JNIEnv*,jarray a)->jsize{ W().other(); if( !a || !O(a)->esz ) { fprintf(stderr,"length of something which is not an array\n"); abort(); } return (jsize)O(a)->len; };
    t.GetPrimitiveArrayCritical=[](JNIEnv* e,jarray a,jboolean* c)->void*{ mine(e); if(c) *c=!W().pin; return W().get(O(a),true); };
    t.ReleasePrimitiveArrayCritical=[](JNIEnv* e,jarray a,void* p,jint m){ mine(e); W().release(O(a),p,m,true); };
#define VJ_FIELD(N,T,M) \
    t.Get##N##Field=[](JNIEnv* e,jobject o,jfieldID f)->T{ mine(e); checkField(o,f); return (T)O(o)->f[((Field*)f)->name].M; }; \
    t.Set##N##Field=[](JNIEnv* e,jobject o,jfieldID f,T v){ mine(e); checkField(o,f); O(o)->f[((Field*)f)->name].M=v; }; \
    t.Call##N##MethodV=[](JNIEnv*,jobject o,jmethodID m,va_list a)->T{ return (T)invokeV(o,m,a).M; }; \
    t.Call##N##MethodA=[](JNIEnv*,jobject o,jmethodID m,const jvalue* a)->T{ return (T)invokeA(o,m,a).M; };
    VJ_FIELD(Boolean,jboolean,z) VJ_FIELD(Byte,jbyte,b) VJ_FIELD(Short,jshort,s) VJ_FIELD(Int,jint,i) VJ_FIELD(Long,jlong,j) VJ_FIELD(Float,jfloat,f) VJ_FIELD(Double,jdouble,d) VJ_FIELD(Object,jobject,l)
    t.CallVoidMethodV=[](JNIEnv*,jobject o,jmethodID m,va_list a){ invokeV(o,m,a); };
    t.CallVoidMethodA=[](JNIEnv*,jobject o,jmethodID m,const jvalue* a){ invokeA(o,m,a); };
#define VJ_ARR(N,T,CH) \
    t.Get##N##ArrayElements=[](JNIEnv* e,T##Array a,jboolean* c)->T*{ mine(e); if(c) *c=!W().pin; return (T*)W().get(O(a),false); }; \
    t.Release##N##ArrayElements=[](JNIEnv* e,T##Array a,T* p,jint m){ mine(e); W().release(O(a),p,m,false); }; \
    t.New##N##Array=[](JNIEnv*,jsize n)->T##Array{ W().other(); return (T##Array)W().array(CH,(size_t)n); }; \
    t.Get##N##ArrayRegion=[](JNIEnv*,T##Array a,jsize s,jsize n,T* d){ W().other(); if( s<0||n<0||(size_t)s+n>O(a)->len ) W().pending=true; else memcpy(d,O(a)->mem+s*sizeof(T),n*sizeof(T)); }; \
    t.Set##N##ArrayRegion=[](JNIEnv*,T##Array a,jsize s,jsize n,const T* d){ W().other(); if( s<0||n<0||(size_t)s+n>O(a)->len ) W().pending=true; else memcpy(O(a)->mem+s*sizeof(T),d,n*sizeof(T)); };
    VJ_ARR(Boolean,jboolean,'Z') VJ_ARR(Byte,jbyte,'B') VJ_ARR(Short,jshort,'S') VJ_ARR(Int,jint,'I') VJ_ARR(Long,jlong,'J') VJ_ARR(Float,jfloat,'F') VJ_ARR(Double,jdouble,'D')
}
inline jvalue J(jint v) { jvalue r; r.j=0; r.i=v; return r; }
inline jvalue JB(bool v) { jvalue r; r.j=0; r.z=v; return r; }
inline jvalue JD(double v) { jvalue r; r.d=v; return r; }
inline jvalue JL(jlong v) { jvalue r; r.j=v; return r; }
inline jvalue JO(void* o) { jvalue r; r.j=0; r.l=(jobject)o; return r; }
// what is done around every native; not part of it is what the harness does meanwhile
inline int& outside() { static thread_local int n=1; return n; }
struct Outside { Outside() { outside()++; } ~Outside() { outside()--; } };
struct Around { virtual ~Around() {} virtual void enter()=0; virtual void leave()=0; };
inline Around*& around() { static Around* a=nullptr; return a; }
// runs a native: true when it was rejected (C++ or Java exception)
template<class F> bool native(F f) {
    bool rej=false; Around* a=W().inside?around():nullptr; if(a) a->enter();
    try { f(); } catch( ... ) { rej=true; }
    if(a) a->leave();
    if( W().pending ) rej=true;
    return rej;
}
inline std::string logJson() {
    std::string s="["; bool f=true; for( auto& a : W().log ) { if(!f) s+=','; f=false; s+='['; for( int k=0;k<4;k++ ) { if(k) s+=','; tr::num(s,a[k]); } s+=']'; } return s+"]";
}
inline long long element(char t,const uint8_t* p,size_t k) {
    switch(t) { case 'B': return p[k]; case 'S': return ((int16_t*)p)[k]; case 'C': return ((uint16_t*)p)[k]; case 'I': case 'F': return ((int32_t*)p)[k]; default: return ((int64_t*)p)[k]; }
}
inline std::string memJson(char t,const uint8_t* p,size_t n) { std::string s="["; for( size_t k=0;k<n;k++ ) { if(k) s+=','; tr::num(s,element(t,p,k)); } return s+"]"; }
// frees seen while natives run
struct Frees { std::set<const volatile void*> watch; std::map<const volatile void*,int> n; };
inline Frees& frees() { static Frees f; return f; }
}
#endif
