// Natives which run out of memory: the calls of bridge.cpp, one request for memory of the native refused (specifications: Bridge / BridgeTrace)
#define main bridge_main
#include "bridge.cpp"
#undef main
#include <new>
// ---- requests of natives, told apart from those of the stand-in for Java and of this harness
static long COUNT=0,FAIL=0; static void** OWN=nullptr; static size_t OWNED=0,ROOM=0;
static void* request(size_t n) {
    if( !jvm::outside() ) { COUNT++; if( COUNT==FAIL ) { STRUCK=true; throw std::bad_alloc(); } }
    void* p=malloc(n?n:1); if(!p) throw std::bad_alloc();
    if( !jvm::outside() ) { if( OWNED==ROOM ) OWN=(void**)realloc(OWN,(ROOM=ROOM*2+64)*sizeof(void*)); OWN[OWNED++]=p; }
    return p;
}
static void giveBack(void* p) { if(!p) return; for( size_t k=OWNED;k>0;k-- ) if( OWN[k-1]==p ) { OWN[k-1]=OWN[--OWNED]; break; } free(p); }
void* operator new(size_t n) { return request(n); }
void* operator new[](size_t n) { return request(n); }
void operator delete(void* p) noexcept { giveBack(p); }
void operator delete[](void* p) noexcept { giveBack(p); }
void operator delete(void* p,size_t) noexcept { giveBack(p); }
void operator delete[](void* p,size_t) noexcept { giveBack(p); }
struct Watch : jvm::Around { void enter() override { jvm::outside()=0; } void leave() override { jvm::outside()=1; } };
// ---- what Java does is not counted
static JNINativeInterface_ INNER;
template<class M,M m> struct Guard;
template<class R,class... A,R (*JNINativeInterface_::*m)(A...)> struct Guard<R (*JNINativeInterface_::*)(A...),m> { static R call(A... a) { jvm::Outside o; return (INNER.*m)(a...); } };
#define G1(N) w.tab.N=&Guard<decltype(&JNINativeInterface_::N),&JNINativeInterface_::N>::call;
#define GF(T) G1(Get##T##Field) G1(Set##T##Field) G1(Call##T##MethodV) G1(Call##T##MethodA)
#define GA(T) G1(Get##T##ArrayElements) G1(Release##T##ArrayElements) G1(New##T##Array) G1(Get##T##ArrayRegion) G1(Set##T##ArrayRegion)
static void guard() {
    jvm::World& w=W(); INNER=w.tab;
    G1(GetVersion) G1(FindClass) G1(GetObjectClass) G1(IsInstanceOf) G1(IsSameObject) G1(GetFieldID) G1(GetStaticFieldID) G1(GetMethodID) G1(GetStaticObjectField) G1(GetStaticIntField)
    G1(ExceptionCheck) G1(ExceptionOccurred) G1(ExceptionDescribe) G1(ExceptionClear) G1(ThrowNew) G1(Throw) G1(FatalError) G1(NewGlobalRef) G1(NewLocalRef) G1(DeleteGlobalRef) G1(DeleteLocalRef)
    G1(PushLocalFrame) G1(PopLocalFrame) G1(EnsureLocalCapacity) G1(GetArrayLength) G1(GetPrimitiveArrayCritical) G1(ReleasePrimitiveArrayCritical) G1(CallVoidMethodV) G1(CallVoidMethodA)
    GF(Boolean) GF(Byte) GF(Short) GF(Int) GF(Long) GF(Float) GF(Double) GF(Object)
    GA(Boolean) GA(Byte) GA(Short) GA(Int) GA(Long) GA(Float) GA(Double)
}
static long attempt(uint64_t seed,int op,bool real,long fail) {
    Rng g(seed); classes(); COUNT=0; FAIL=fail; STRUCK=false; OWNED=0; any(g,op,real); long left=(long)OWNED; OWNED=0;
    Ev("left").i("n",left).i("asked",COUNT).i("refused",fail); W().reset(); return COUNT;
}
int main(int argc,char** argv) {
    init(argc,argv); Shard sh; uint64_t seed=(uint64_t)opt().i("seed",1); long most=(long)opt().i("most",12);
    if( !freopen("/dev/null","w",stdout) ) return 3;
    jvm::setup(); guard(); Watch watch; jvm::around()=&watch;
    for( long long k=0,N=opt().i("n",100);k<N;k++ ) {
        if( !sh.take() ) continue;
        uint64_t s=seed*7919+(uint64_t)k; int op=(int)(k%14); bool real=(k/14)%2; BIG=k%67==9?1:0;
        long n=attempt(s,op,real,0); Rng c(s+1); for( long j=1;j<=n&&j<=most;j++ ) attempt(s,op,real,n<=most?j:(long)c.range(1,(int)n));
    }
    return 0;
}
