// Conformance harness for the Java bridge (specifications: Bridge / BridgeTrace / HandleTrace)
#include "jvm.h"
#include "image_types.h"
#include "binary_ops.h"
#include "threshold_block_filters.h"
#include "image_blur.h"
#include "convolve.h"
#include "contour.h"
using namespace boofcv;
using namespace tr;
using jvm::Obj; using jvm::W; using jvm::J; using jvm::JB; using jvm::JD; using jvm::JL; using jvm::JO; using jvm::native;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*,size_t),void (*)(const volatile void*));
extern "C" {
#define T_DECL(N,...) void Java_org_boofcpp_threshold_##N##_nativeinit(JNIEnv*,jobject,__VA_ARGS__); void Java_org_boofcpp_threshold_##N##_nativedestroy(JNIEnv*,jobject); void Java_org_boofcpp_threshold_##N##_nativeprocess(JNIEnv*,jobject,jobject,jobject);
T_DECL(NativeGlobalFixed,jdouble,jboolean) T_DECL(NativeGlobalOtsu,jdouble,jdouble,jboolean) T_DECL(NativeLocalMean,jobject,jdouble,jboolean)
T_DECL(NativeBlockMean,jobject,jdouble,jboolean,jboolean) T_DECL(NativeBlockMinMax,jobject,jdouble,jboolean,jdouble,jboolean) T_DECL(NativeBlockOtsu,jboolean,jobject,jdouble,jdouble,jboolean,jboolean)
void Java_org_boofcpp_convolve_NativeConvolveImage_nativeHorizontal(JNIEnv*,jobject,jobject,jobject,jobject,jint);
void Java_org_boofcpp_convolve_NativeConvolveImage_nativeVertical(JNIEnv*,jobject,jobject,jobject,jobject,jint);
void Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvolve(JNIEnv*,jobject,jobject,jobject,jobject,jint);
void Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativehorizontal(JNIEnv*,jobject,jobject,jobject,jobject);
void Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativevertical(JNIEnv*,jobject,jobject,jobject,jobject);
void Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(JNIEnv*,jobject,jobject,jobject,jint,jobject);
void Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussian(JNIEnv*,jobject,jobject,jobject,jdouble,jint,jobject);
void Java_org_boofcpp_contour_NativeChang2004_native_1init(JNIEnv*,jobject);
void Java_org_boofcpp_contour_NativeChang2004_native_1destroy(JNIEnv*,jobject);
void Java_org_boofcpp_contour_NativeChang2004_native_1process(JNIEnv*,jobject,jobject,jobject);
void Java_org_boofcpp_contour_NativeChang2004_setSaveInnerContour(JNIEnv*,jobject,jboolean);
jboolean Java_org_boofcpp_contour_NativeChang2004_isSaveInternalContours(JNIEnv*,jobject);
void Java_org_boofcpp_contour_NativeChang2004_setMinContour(JNIEnv*,jobject,jint);
jint Java_org_boofcpp_contour_NativeChang2004_getMinContour(JNIEnv*,jobject);
void Java_org_boofcpp_contour_NativeChang2004_setMaxContour(JNIEnv*,jobject,jint);
jint Java_org_boofcpp_contour_NativeChang2004_getMaxContour(JNIEnv*,jobject);
void Java_org_boofcpp_contour_NativeChang2004_setConnectRule(JNIEnv*,jobject,jobject);
jobject Java_org_boofcpp_contour_NativeChang2004_getConnectRule(JNIEnv*,jobject);
}
// a request for memory of the native was refused
static bool STRUCK=false;
static bool retry(bool& first) { bool r=STRUCK&&first; first=false; return r; }
// ------------------------------------------------------------------------------------------------ frees of handles
static thread_local const volatile void* WATCH=nullptr; static thread_local int FREED=0;
static void onMalloc(const volatile void*,size_t) {}
static void onFree(const volatile void* p) { if( p && p==WATCH ) FREED++; }
// ------------------------------------------------------------------------------------------------ Java classes
struct Chang { std::vector<std::vector<long long>> blobs; };
static void classes() {
    auto img=[&](const char* n,const char* t) { auto* c=W().cls(n); c->fields={{"data",t},{"width","I"},{"height","I"},{"stride","I"},{"startIndex","I"}}; };
    img("GrayU8","[B"); img("GrayS16","[S"); img("GrayS32","[I"); img("GrayF32","[F");
    W().cls("Length")->fields={{"length","D"},{"fraction","D"}};
    W().cls("Threshold")->fields={{"isInteger","Z"},{"nativePtr","J"}};
    W().cls("Base")->fields={{"isInteger","Z"},{"inputBits","I"},{"outputBits","I"}};
    W().cls("KernelI")->fields={{"width","I"},{"offset","I"},{"data","[I"}}; W().cls("KernelF")->fields={{"width","I"},{"offset","I"},{"data","[F"}};
    auto* q=W().cls("org/ddogleg/struct/GrowQueue_I32"); q->fields={{"data","[I"},{"size","I"}};
    q->methods["resize(I)V"]=[](Obj* o,const std::vector<jvalue>& a){ int n=a[0].i; Obj* d=jvm::O((*o)["data"].l);
        if( n<0 ) { W().pending=true; return JL(0); }
        if( (size_t)n>d->len ) { Obj* m=W().array('I',(size_t)n); for( size_t k=0;k<m->len;k++ ) ((int*)m->mem)[k]=-99; (*o)["data"]=JO(m); } (*o)["size"]=J(n); return JL(0); };
    auto* f=W().cls("org/ddogleg/struct/FastQueue"); f->fields={{"size","I"}};
    struct Q { std::vector<Obj*> v; };
    f->methods["resize(I)V"]=[](Obj* o,const std::vector<jvalue>& a){ auto* v=(std::vector<Obj*>*)o->peer; int n=a[0].i; if( n<0 ) { W().pending=true; return JL(0); }
        while( v->size()<(size_t)n ) { if( (*o)["isBlocks"].z ) { Obj* m=W().array('I',4000); for( size_t k=0;k<m->len;k++ ) ((int*)m->mem)[k]=-99; v->push_back(m); } else v->push_back(W().mk(W().cls("boofcv/struct/BlockIndexLength"))); }
        (*o)["size"]=J(n); return JL(0); };
    f->methods["get(I)Ljava/lang/Object;"]=[](Obj* o,const std::vector<jvalue>& a){ auto* v=(std::vector<Obj*>*)o->peer; if( a[0].i<0 || a[0].i>=(*o)["size"].i ) { W().pending=true; return JO(nullptr); } return JO((*v)[a[0].i]); };
    auto* b=W().cls("boofcv/struct/BlockIndexLength"); b->fields={{"start","I"},{"length","I"},{"block","I"}};
    b->methods["set(III)V"]=[](Obj* o,const std::vector<jvalue>& a){ (*o)["start"]=a[0]; (*o)["length"]=a[1]; (*o)["block"]=a[2]; return JL(0); };
    auto* p=W().cls("boofcv/struct/PackedSetsPoint2D_I32"); p->fields={{"blockLength","I"},{"blocks","Lorg/ddogleg/struct/FastQueue;"},{"sets","Lorg/ddogleg/struct/FastQueue;"}};
    auto* r=W().cls("boofcv/struct/ConnectRule"); r->fields={{"ord","I"}}; r->statics={{"FOUR","Lboofcv/struct/ConnectRule;"},{"EIGHT","Lboofcv/struct/ConnectRule;"}};
    r->methods["ordinal()I"]=[](Obj* o,const std::vector<jvalue>&){ return (*o)["ord"]; };
    for( int k=0;k<2;k++ ) { Obj* o=W().mk(r); (*o)["ord"]=J(k); r->staticValues[k==0?"FOUR":"EIGHT"]=JO(o); }
    auto* c=W().cls("org/boofcpp/contour/NativeChang2004"); c->fields={{"nativePtr","J"},{"storagePoints","Lorg/ddogleg/struct/GrowQueue_I32;"},{"packedPoints","Lboofcv/struct/PackedSetsPoint2D_I32;"},{"storageContours","Lorg/ddogleg/struct/FastQueue;"}};
    c->methods["addContour(II)V"]=[](Obj* o,const std::vector<jvalue>& a){ Obj* s=jvm::O((*o)["storagePoints"].l); Obj* d=jvm::O((*s)["data"].l);
        std::vector<long long> v{a[0].i,a[1].i}; for( int k=0;k<(*s)["size"].i;k++ ) v.push_back((size_t)k<d->len?((int*)d->mem)[k]:-98); ((Chang*)o->peer)->blobs.push_back(v); return JL(0); };
}
// ------------------------------------------------------------------------------------------------ images
enum Role { IN, OUT, STORE };
struct Jim { Obj* obj; Obj* arr; Role role; int off,stride,w,h; };
static const char* klass(char t) { return t=='B'?"GrayU8":t=='S'?"GrayS16":t=='I'?"GrayS32":"GrayF32"; }
static Jim put(Obj* arr,Role r,int off,int stride,int w,int h) {
    Obj* o=W().mk(W().cls(klass(arr->type))); (*o)["data"]=JO(arr); (*o)["width"]=J(w); (*o)["height"]=J(h); (*o)["stride"]=J(stride); (*o)["startIndex"]=J(off);
    return Jim{o,arr,r,off,stride,w,h};
}
struct Space { int lead,left,right,top,bottom,tail; };
// 1: more than eight bits of columns, rows or leading elements; 2: more than sixteen bits of them
static int BIG=0;
static Space space(Rng& g) { Space s{0,0,0,0,0,0};
    if( BIG==1 && g.chance(40) ) return Space{g.range(0,600),g.range(0,300),g.range(0,3),g.range(0,2),g.range(0,2),g.range(0,300)};
    if( BIG==2 ) return g.chance(50)?Space{g.range(65536,66000),g.range(0,1),g.range(0,1),g.range(0,1),g.range(0,1),g.range(0,3)}:g.chance(50)?Space{3,1,0,1,0,2}:s; if( g.chance(12) ) return Space{0,0,g.range(1,4),0,g.range(0,2),g.range(0,3)}; if( g.chance(60) ) s=Space{g.range(0,3),g.range(0,3),g.range(0,3),g.range(0,2),g.range(0,2),g.range(0,3)}; else if( g.chance(30) ) s.tail=g.range(1,9); return s; }
template<class F> static void fill(Rng& g,Obj* a,F val) { for( size_t k=0;k<a->len;k++ ) { double v=val(); switch(a->type) { case 'B': a->mem[k]=(uint8_t)(int)v; break; case 'S': ((int16_t*)a->mem)[k]=(int16_t)v; break; case 'I': ((int32_t*)a->mem)[k]=(int32_t)v; break; case 'F': ((float*)a->mem)[k]=(float)v; break; } } }
static Jim image(Rng& g,char type,Role r,int w,int h) {
    Space s=space(g); int stride=s.left+w+s.right; int len=s.lead+stride*(s.top+h+s.bottom)+s.tail;
    Obj* a=W().array(type,(size_t)len); fill(g,a,[&]{ return type=='F'?g.range(0,1020)/4.0:(double)g.range(0,255); });
    return put(a,r,s.lead+s.top*stride+s.left,stride,w,h);
}
// a second image in the array of another one, next to it
static bool beside(Rng& g,Jim& a,Role r,int w,int h,Jim& b) {
    int stride=a.w+w+g.range(0,2), rows=std::max(a.h,h); Obj* m=W().array(a.arr->type,(size_t)stride*rows+g.range(0,3));
    fill(g,m,[&]{ return (double)g.range(0,255); });
    bool first=g.chance(50); a=put(m,a.role,first?0:w,stride,a.w,a.h); b=put(m,r,first?a.w:0,stride,w,h); return true;
}
struct Shadow { std::vector<Obj*> arrs; std::vector<std::vector<uint8_t>> before; std::vector<uint8_t*> ref; std::vector<Jim> imgs; std::vector<long long> none;
    int index(Obj* a) { for( size_t k=0;k<arrs.size();k++ ) if( arrs[k]==a ) return (int)k; arrs.push_back(a); before.emplace_back(a->mem,a->mem+a->len*a->esz); uint8_t* c=(uint8_t*)malloc(a->len*a->esz+(a->len==0)); memcpy(c,a->mem,a->len*a->esz); ref.push_back(c); return (int)arrs.size()-1; }
    void add(const Jim& m) { index(m.arr); imgs.push_back(m); }
    ~Shadow() { for( auto* p : ref ) free(p); }
    template<class T> Gray<T> view(const Jim& m) { int k=index(m.arr); return Gray<T>((T*)ref[k],(uint32_t)m.arr->len,(uint32_t)m.w,(uint32_t)m.h,(uint32_t)m.off,(uint32_t)m.stride); }
    void put(Ev& e) {
        std::vector<std::vector<long long>> v; for( auto& m : imgs ) v.push_back({index(m.arr)+1,(long long)m.role,m.off,m.stride,m.w,m.h}); e.aa("imgs",v);
        std::string s="["; for( size_t k=0;k<arrs.size();k++ ) { if(k) s+=','; Obj* a=arrs[k]; s+="{\"b\":"+jvm::memJson(a->type,before[k].data(),a->len)+",\"a\":"+jvm::memJson(a->type,a->mem,a->len)+",\"x\":"+jvm::memJson(a->type,ref[k],a->len)+"}"; } e.raw("arrs",s+"]");
    }
};
// a view is made while the reference runs: assignment of images is not part of this property
#define REF(T,NAME,M) Gray<T> NAME((T*)sh.ref[sh.index((M).arr)],(uint32_t)(M).arr->len,(uint32_t)(M).w,(uint32_t)(M).h,(uint32_t)(M).off,(uint32_t)(M).stride)
static int dim(Rng& g,int mx) { int v=g.range(1,mx); if(g.chance(10)) v=1; return v; }
static void shape(Rng& g,int mx,int& w,int& h) { w=dim(g,mx); h=dim(g,mx); if( BIG==1 ) longShape(g,w,h,400,g.chance(30)?6:3); if( BIG==2 && g.chance(70) ) hugeShape(g,w,h); }
static void finish(const char* name,const std::string& op,bool real,bool rej,bool refRej,const std::vector<long long>& java,const std::vector<long long>& cpp,Shadow& sh) {
    Ev e(STRUCK?"short":"native"); e.s("op",op).t("real",real).t("pin",W().pin).t("rej",rej).t("refRej",refRej).a("java",java).a("cpp",cpp).raw("log",jvm::logJson()); sh.put(e);
}
static Obj* base(bool integer,int ib,int ob) { Obj* o=W().mk(W().cls("Base")); (*o)["isInteger"]=JB(integer); (*o)["inputBits"]=J(ib); (*o)["outputBits"]=J(ob); return o; }
static void badShape(Rng& g,int& w,int& h,int p) { if( g.chance(p) ) { if( g.chance(50) ) w=std::max(0,w+g.range(-1,1)); else h=std::max(0,h+g.range(-1,1)); } }
// ------------------------------------------------------------------------------------------------ blur
template<class T> static void blurRef(Shadow& sh,const std::string& op,const std::vector<Jim>& m,const std::vector<long long>& cpp) {
    REF(T,in,m[0]); REF(T,out,m[1]); REF(T,st,m[2]);
    if( op=="mean" ) BlurImageOps::mean(in,out,(uint32_t)cpp[0],st); else BlurImageOps::gaussian(in,out,cpp[0]/64.0,(int32_t)cpp[1],st);
}
static void blur(Rng& g,const std::string& op,bool real) {
    int w,h; shape(g,9,w,h); int ow=w,oh=h,sw=w,shh=h; badShape(g,ow,oh,12); badShape(g,sw,shh,12); char t=real?'F':'B';
    Jim in=image(g,t,IN,w,h),out; if( g.chance(20) ) beside(g,in,OUT,ow,oh,out); else out=image(g,t,OUT,ow,oh); Jim st=image(g,t,STORE,sw,shh);
    Shadow sh; sh.add(in); sh.add(out); sh.add(st);
    int radius=g.range(1,BIG==1?20:4); std::vector<long long> java,cpp; int sigma=g.range(8,200);
    if( op=="mean" ) { if(g.chance(5)) radius=0; java={radius}; cpp={radius}; }
    else { if( g.chance(30) ) radius=g.range(-3,0); else if( g.chance(30) ) sigma=-sigma; if( radius<=0 && sigma>100 ) sigma=100; java={sigma,radius}; cpp={sigma,radius>0?2*radius+1:-1}; }
    bool refRej=native([&]{ if(real) blurRef<F32>(sh,op,sh.imgs,cpp); else blurRef<U8>(sh,op,sh.imgs,cpp); });
    Obj* o=base(!real,real?32:8,real?32:8); W().begin(g.chance(30));
    bool rej=native([&]{ if( op=="mean" ) Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(W().e(),o,in.obj,out.obj,(jint)radius,st.obj);
        else Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussian(W().e(),o,in.obj,out.obj,sigma/64.0,(jint)radius,st.obj); });
    finish("native",op,real,rej,refRej,java,cpp,sh); W().end();
}
// ------------------------------------------------------------------------------------------------ convolution
static Obj* kernel(Rng& g,bool real,int width,int offset,int dims,bool positive) {
    Obj* k=W().mk(W().cls(real?"KernelF":"KernelI")); Obj* a=W().array(real?'F':'I',(size_t)(dims==1?width:width*width));
    fill(g,a,[&]{ return real?(positive?g.range(1,40):g.range(-40,40))/8.0:(double)(positive?g.range(1,9):g.range(-9,9)); });
    (*k)["width"]=J(width); (*k)["offset"]=J(offset); (*k)["data"]=JO(a); return k;
}
template<class E,class K> static void setKernel(K& k,Obj* jk) { Obj* a=jvm::O((*jk)["data"].l); for( size_t j=0;j<a->len;j++ ) k.data[j]=((E*)a->mem)[j]; }
template<class T,class E,class O> static void convRef(Shadow& sh,const std::string& op,Obj* jk,int width,int offset,BorderType b) {
    std::shared_ptr<ImageBorder<T>> border=FactoryImageBorder::create_SB<T>(b); REF(T,in,sh.imgs[0]); REF(O,out,sh.imgs[1]); border->setImage(in);
    if( op=="convolve" ) { Kernel2D<E> k((uint32_t)width,(uint32_t)offset); setKernel<E>(k,jk); ConvolveImage::convolve(k,*border,out); }
    else { Kernel1D<E> k((uint32_t)width,(uint32_t)offset); setKernel<E>(k,jk); if( op=="horizontal" ) ConvolveImage::horizontal(k,*border,out); else ConvolveImage::vertical(k,*border,out); }
}
static void conv(Rng& g,const std::string& op,bool real) {
    int w,h; shape(g,9,w,h); int ow=w,oh=h; badShape(g,ow,oh,10);
    int ib=real?32:8, ob=real?32:(g.chance(50)?16:32); bool unsupported=g.chance(5);
    int jb=g.pick(std::vector<int>{1,3,4,5}); if( g.chance(5) ) jb=g.pick(std::vector<int>{0,2,6,-1});
    int width=g.range(1,5),offset=g.range(0,width-1); if( g.chance(50) ) { width|=1; offset=width/2; } if( g.chance(6) ) offset=width+g.range(0,2);
    Jim in=image(g,real?'F':'B',IN,w,h),out; if( real && g.chance(20) ) beside(g,in,OUT,ow,oh,out); else out=image(g,real?'F':ob==16?'S':'I',OUT,ow,oh);
    Obj* k=kernel(g,real,width,offset,op=="convolve"?2:1,false);
    Shadow sh; sh.add(in); sh.add(out); sh.index(jvm::O((*k)["data"].l));
    static const std::map<int,std::pair<int,BorderType>> MAP={{1,{0,BorderType::EXTENDED}},{3,{1,BorderType::REFLECT}},{4,{2,BorderType::WRAP}},{5,{3,BorderType::ZERO}}};
    int jib=ib,job=ob; if( unsupported ) { if( g.chance(50) ) jib=real?64:16; else job=8; }
    std::vector<long long> java{jb,jib,job},cpp{-1,-1,-1}; bool refRej=true;
    if( MAP.count(jb) && !unsupported ) {
        auto& m=MAP.at(jb); cpp={m.first,ib,ob};
        refRej=native([&]{ if(real) convRef<F32,F32,F32>(sh,op,k,width,offset,m.second); else if( ob==16 ) convRef<U8,S32,S16>(sh,op,k,width,offset,m.second); else convRef<U8,S32,S32>(sh,op,k,width,offset,m.second); });
    }
    Obj* o=base(!real,jib,job); W().begin(g.chance(30));
    bool rej=native([&]{ auto f=op=="horizontal"?&Java_org_boofcpp_convolve_NativeConvolveImage_nativeHorizontal:op=="vertical"?&Java_org_boofcpp_convolve_NativeConvolveImage_nativeVertical:&Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvolve;
        f(W().e(),o,k,in.obj,out.obj,(jint)jb); });
    finish("native",op,real,rej,refRej,java,cpp,sh); W().end();
}
template<class T,class E> static void normRef(Shadow& sh,bool horizontal,Obj* jk,int width,int offset) {
    REF(T,in,sh.imgs[0]); REF(T,out,sh.imgs[1]); Kernel1D<E> k((uint32_t)width,(uint32_t)offset); setKernel<E>(k,jk);
    if( horizontal ) ConvolveNormalized::horizontal(k,in,out); else ConvolveNormalized::vertical(k,in,out);
}
static void norm(Rng& g,const std::string& op,bool real) {
    int w,h; shape(g,9,w,h); int ow=w,oh=h; badShape(g,ow,oh,10); char t=real?'F':'B';
    int width=g.range(1,5),offset=g.range(0,width-1); if( g.chance(50) ) { width|=1; offset=width/2; } if( g.chance(6) ) offset=width+g.range(0,2);
    if( BIG && g.chance(60) ) { if( BIG==2 ) { ow-=w; oh-=h; w=dim(g,4); h=dim(g,4); ow+=w; oh+=h; } width=BIG==1?g.range(250,600):g.range(65536,66100); offset=g.chance(50)?width/2:g.range(0,width-1); }
    Jim in=image(g,t,IN,w,h),out; if( g.chance(20) ) beside(g,in,OUT,ow,oh,out); else out=image(g,t,OUT,ow,oh);
    Obj* k=kernel(g,real,width,offset,1,true); bool hor=op=="nhorizontal";
    Shadow sh; sh.add(in); sh.add(out); sh.index(jvm::O((*k)["data"].l));
    bool refRej=native([&]{ if(real) normRef<F32,F32>(sh,hor,k,width,offset); else normRef<U8,S32>(sh,hor,k,width,offset); });
    Obj* o=base(!real,real?32:8,real?32:8); W().begin(g.chance(30));
    bool rej=native([&]{ if( hor ) Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativehorizontal(W().e(),o,k,in.obj,out.obj); else Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativevertical(W().e(),o,k,in.obj,out.obj); });
    finish("native",op,real,rej,refRej,{},{},sh); W().end();
}
// ------------------------------------------------------------------------------------------------ thresholds
// java: parameters in units of 1/64 (flags 0/1) in the order of the native
struct Filter { int kind; bool real; std::vector<long long> java,cpp; Obj* obj; void* ptr; };
static const char* KIND[]={"fixed","otsu","local","bmean","minmax","botsu"};
static Filter choose(Rng& g,int kind,bool real) {
    Filter f; f.kind=kind; f.real=real; f.obj=nullptr; f.ptr=nullptr; auto& j=f.java; auto& c=f.cpp; long long down=g.chance(50), local=g.chance(50), otsu2=g.chance(50);
    long long scale=g.pick(std::vector<int>{64,61,32,80,70}), len=64*g.range(1,7), frac=g.chance(50)?-64:g.range(4,60); if( g.chance(6) ) { len=0; frac=-64; }
    if( kind==0 ) { long long t=g.chance(70)?64*g.range(0,255):g.range(0,255*64); j={t,down}; c={real?t:t/64*64,down}; }
    else if( kind==1 ) { long long a=g.range(0,20)*64,b=255*64; if( g.chance(30) ) b=g.range(240,255)*64; if( !real && g.chance(30) ) { a+=g.range(0,63); if(b<255*64) b+=g.range(0,63); } j={a,b,down}; c={real?a:a/64*64,real?b:b/64*64,down}; }
    else if( kind==2 ) { j={len,frac,scale,down}; c=j; }
    else if( kind==3 ) { j={len,frac,scale,down,local}; c={len,frac,local,scale,down}; }
    else if( kind==4 ) { long long spread=g.range(0,60)*64/2; j={len,frac,scale,down,spread,local}; c={spread,len,frac,local,scale,down}; }
    else { long long tuning=g.range(0,40)*8; j={otsu2,len,frac,tuning,scale,down,local}; c={otsu2,len,frac,tuning,scale,down,local}; }
    return f;
}
static double u(long long v) { return v/64.0; }
static void tinit(Filter& f) {
    Obj* o; auto& j=f.java; JNIEnv* e=W().e(); { jvm::Outside q; o=f.obj=W().mk(W().cls("Threshold")); (*o)["isInteger"]=JB(!f.real); (*o)["nativePtr"]=JL(0); }
    auto len=[&](int k){ jvm::Outside q; Obj* l=W().mk(W().cls("Length")); (*l)["length"]=JD(u(j[k])); (*l)["fraction"]=JD(u(j[k+1])); return l; };
    switch( f.kind ) {
        case 0: Java_org_boofcpp_threshold_NativeGlobalFixed_nativeinit(e,o,u(j[0]),(jboolean)j[1]); break;
        case 1: Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeinit(e,o,u(j[0]),u(j[1]),(jboolean)j[2]); break;
        case 2: Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(e,o,len(0),u(j[2]),(jboolean)j[3]); break;
        case 3: Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(e,o,len(0),u(j[2]),(jboolean)j[3],(jboolean)j[4]); break;
        case 4: Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(e,o,len(0),u(j[2]),(jboolean)j[3],u(j[4]),(jboolean)j[5]); break;
        default: Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(e,o,(jboolean)j[0],len(1),u(j[3]),u(j[4]),(jboolean)j[5],(jboolean)j[6]);
    }
    f.ptr=(void*)(*o)["nativePtr"].j;
}
static void tprocess(Filter& f,Jim& in,Jim& out) {
    JNIEnv* e=W().e();
    switch( f.kind ) { case 0: Java_org_boofcpp_threshold_NativeGlobalFixed_nativeprocess(e,f.obj,in.obj,out.obj); break; case 1: Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess(e,f.obj,in.obj,out.obj); break;
        case 2: Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess(e,f.obj,in.obj,out.obj); break; case 3: Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess(e,f.obj,in.obj,out.obj); break;
        case 4: Java_org_boofcpp_threshold_NativeBlockMinMax_nativeprocess(e,f.obj,in.obj,out.obj); break; default: Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess(e,f.obj,in.obj,out.obj); }
}
static void tdestroy(Filter& f) {
    JNIEnv* e=W().e();
    switch( f.kind ) { case 0: Java_org_boofcpp_threshold_NativeGlobalFixed_nativedestroy(e,f.obj); break; case 1: Java_org_boofcpp_threshold_NativeGlobalOtsu_nativedestroy(e,f.obj); break;
        case 2: Java_org_boofcpp_threshold_NativeLocalMean_nativedestroy(e,f.obj); break; case 3: Java_org_boofcpp_threshold_NativeBlockMean_nativedestroy(e,f.obj); break;
        case 4: Java_org_boofcpp_threshold_NativeBlockMinMax_nativedestroy(e,f.obj); break; default: Java_org_boofcpp_threshold_NativeBlockOtsu_nativedestroy(e,f.obj); }
}
template<class T> static void threshRef(Shadow& sh,const Filter& f) {
    REF(T,in,sh.imgs[0]); REF(U8,out,sh.imgs[1]); auto& c=f.cpp;
    switch( f.kind ) {
        case 0: { GlobalFixedBinaryFilter<T> x((T)u(c[0]),c[1]!=0); x.process(in,out); break; }
        case 1: { GlobalOtsuBinaryFilter<T> x((T)u(c[0]),(T)u(c[1]),c[2]!=0); x.process(in,out); break; }
        case 2: { LocalMeanBinaryFilter<T> x(ConfigLength(u(c[0]),u(c[1])),u(c[2]),c[3]!=0); x.process(in,out); break; }
        case 3: { ThresholdBlockMean<T> x(ConfigLength(u(c[0]),u(c[1])),c[2]!=0,u(c[3]),c[4]!=0); x.process(in,out); break; }
        case 4: { ThresholdBlockMinMax<T> x((float)u(c[0]),ConfigLength(u(c[1]),u(c[2])),c[3]!=0,(float)u(c[4]),c[5]!=0); x.process(in,out); break; }
        default: { ThresholdBlockOtsu<T> x(c[0]!=0,ConfigLength(u(c[1]),u(c[2])),u(c[3]),u(c[4]),c[5]!=0,c[6]!=0); x.process(in,out); }
    }
}
static void timages(Rng& g,Filter& f,Jim& in,Jim& out,int mx) {
    int w,h,ow,oh; shape(g,mx,w,h); if( f.kind>=3 && BIG==0 && g.chance(85) ) { w=g.range(6,mx+3); h=g.range(6,mx+3); } ow=w; oh=h; badShape(g,ow,oh,12);
    in=image(g,f.real?'F':'B',IN,w,h); if( !f.real && g.chance(20) ) beside(g,in,OUT,ow,oh,out); else out=image(g,'B',OUT,ow,oh);
    // values the filter is made for, some of them equal to its parameter
    int lo=0,hi=255; if( f.kind==1 ) { lo=(int)((f.java[0]+63)/64); hi=(int)(f.java[1]/64); }
    int a=g.range(lo,hi),b=g.range(a,hi); if( g.chance(50) ) { a=lo; b=hi; } bool whole=f.kind==1||f.kind==5||g.chance(30);
    for( int y=0;y<h;y++ ) for( int x=0;x<w;x++ ) { size_t k=(size_t)in.off+(size_t)y*in.stride+x; double v=g.range(a,b); if( f.kind==0 && g.chance(40) ) v=std::min(255.0,std::floor(u(f.cpp[0]))+g.range(0,1));
        if( f.real ) ((float*)in.arr->mem)[k]=(float)(whole?v:std::min(255.0,v+g.range(0,3)/4.0)); else in.arr->mem[k]=(uint8_t)v; }
}
// no memory for the native object
static bool none(const char* name,bool rej,jlong ptr) { if( STRUCK ) Ev("none").s("op",name).t("rej",rej).t("set",ptr!=0).raw("log",jvm::logJson()); W().end(); return STRUCK; }
static void thresh(Rng& g,int kind,bool real) {
    Filter f=choose(g,kind,real); Jim in,out; timages(g,f,in,out,14); W().begin(false); bool bad=native([&]{ tinit(f); }); if( none(KIND[kind],bad,(*f.obj)["nativePtr"].j) ) return;
    bool first=true;
    do {
        if( STRUCK ) STRUCK=false; Shadow sh; sh.add(in); sh.add(out);
        bool refRej=native([&]{ if(real) threshRef<F32>(sh,f); else threshRef<U8>(sh,f); });
        W().begin(g.chance(30)); bool rej=native([&]{ tprocess(f,in,out); });
        finish("native",KIND[kind],real,rej,refRej,f.java,f.cpp,sh); W().end();
    } while( retry(first) );
    W().begin(false); native([&]{ tdestroy(f); }); W().end();
}
// ------------------------------------------------------------------------------------------------ contours
struct Finder { Obj* obj; Chang ch; std::vector<Obj*> blocks,sets; Obj *queue,*packed,*jb,*js; };
static Finder* finder(Rng& g) {
    Finder* f=new Finder; f->obj=W().mk(W().cls("org/boofcpp/contour/NativeChang2004")); f->obj->peer=&f->ch;
    f->queue=W().mk(W().cls("org/ddogleg/struct/GrowQueue_I32")); (*f->queue)["data"]=JO(W().array('I',(size_t)g.range(0,3))); (*f->queue)["size"]=J(0);
    auto fq=[&](std::vector<Obj*>* v,bool b){ Obj* o=W().mk(W().cls("org/ddogleg/struct/FastQueue")); o->peer=v; (*o)["size"]=J(0); (*o)["isBlocks"]=JB(b); return o; };
    f->jb=fq(&f->blocks,true); f->js=fq(&f->sets,false); f->packed=W().mk(W().cls("boofcv/struct/PackedSetsPoint2D_I32"));
    (*f->packed)["blockLength"]=J(4000); (*f->packed)["blocks"]=JO(f->jb); (*f->packed)["sets"]=JO(f->js);
    (*f->obj)["nativePtr"]=JL(0); (*f->obj)["storagePoints"]=JO(f->queue); (*f->obj)["packedPoints"]=JO(f->packed); return f;
}
static void jreset(Finder& f) { f.ch.blobs.clear(); (*f.jb)["size"]=J(0); (*f.js)["size"]=J(0); }
static void binary(Rng& g,Jim& in,int kind) {
    int d=g.range(10,90);
    for( int y=0;y<in.h;y++ ) for( int x=0;x<in.w;x++ ) { int v; switch(kind) { case 0: v=g.chance(d); break; case 1: { int q=std::min(std::min(x,in.w-1-x),std::min(y,in.h-1-y)); v=(q+1)%2; break; } case 2: v=((x+y)&1)^g.chance(8); break; case 3: v=!g.chance(15); break; default: v=x%2==0||y==0; }
        in.arr->mem[(size_t)in.off+(size_t)y*in.stride+x]=(uint8_t)v; }
}
struct Result { std::vector<std::vector<long long>> blobs,sets; };
static void refContours(LinearContourLabelChang2004& r,Result& res) {
    for( auto& c : r.contours ) { std::vector<long long> b{(long long)c.id,(long long)c.externalIndex}; for( auto k : c.internalIndexes ) b.push_back(k); res.blobs.push_back(b); }
    for( uint32_t k=0;k<r.packedPoints.number_of_sets();k++ ) { std::vector<Point2D<S32>> pts; r.packedPoints.load_set(k,pts); std::vector<long long> v; for( auto& q : pts ) { v.push_back(q.x); v.push_back(q.y); } res.sets.push_back(v); }
}
static void cimages(Rng& g,Jim& in,Jim& lab,int w,int h,int ow,int oh,int kind) { in=image(g,'B',IN,w,h); lab=image(g,'I',OUT,ow,oh); binary(g,in,kind); }
static void contour(Rng& g) {
    int w,h; shape(g,12,w,h); int ow=w,oh=h; badShape(g,ow,oh,15); Jim in,lab; cimages(g,in,lab,w,h,ow,oh,g.range(0,4));
    std::unique_ptr<Finder> f(finder(g)); bool badBlock=g.chance(8); if( badBlock ) (*f->packed)["blockLength"]=J(2000);
    W().begin(false); bool eight=g.chance(50), bad=native([&]{ Java_org_boofcpp_contour_NativeChang2004_native_1init(W().e(),f->obj); }); if( none("contour",bad,(*f->obj)["nativePtr"].j) ) return;
    jobject rule=W().cls("boofcv/struct/ConnectRule")->staticValues["EIGHT"].l; W().begin(false); if( eight ) bad=native([&]{ Java_org_boofcpp_contour_NativeChang2004_setConnectRule(W().e(),f->obj,rule); });
    if( STRUCK ) { Ev("short").s("op","setrule").t("rej",bad).t("refRej",false).t("pin",false).t("real",false).a("java",std::vector<int>{}).a("cpp",std::vector<int>{}).raw("log",jvm::logJson()).raw("imgs","[]").raw("arrs","[]"); STRUCK=false; if( bad ) Java_org_boofcpp_contour_NativeChang2004_setConnectRule(W().e(),f->obj,rule); } W().end();
    bool first=true;
    do {
        if( STRUCK ) STRUCK=false; Shadow sh; sh.add(in); sh.add(lab); LinearContourLabelChang2004 r(eight?ConnectRule::EIGHT:ConnectRule::FOUR);
        bool refRej=native([&]{ REF(U8,a,in); REF(S32,b,lab); r.process(a,b); }); jreset(*f);
        W().begin(g.chance(30)); bool rej=native([&]{ Java_org_boofcpp_contour_NativeChang2004_native_1process(W().e(),f->obj,in.obj,lab.obj); });
        finish("native","contour",false,rej,refRej||badBlock,{eight},{eight},sh); W().end();
    } while( retry(first) );
    W().begin(false); native([&]{ Java_org_boofcpp_contour_NativeChang2004_native_1destroy(W().e(),f->obj); }); W().end();
}
// ------------------------------------------------------------------------------------------------ histories of handles
struct Peer { int id; bool chang; std::unique_ptr<Finder> f; Filter t; int rule=4; long long mn=0,mx=0x7fffffff; bool save=true; };
struct Hist {
    Rng& g; std::vector<std::unique_ptr<Peer>> live; int ids=0; explicit Hist(Rng& g) : g(g) { Ev("init").i("x",0); }
    JNIEnv* e() { return W().e(); }
    std::vector<std::unique_ptr<Peer>> dead;
    Peer* create(int kind,bool real) {    // kind 6: contour finder
        live.emplace_back(new Peer); Peer* p=live.back().get(); p->id=++ids; p->chang=kind==6; W().begin(false); bool rej,fresh=true; void* ptr;
        if( p->chang ) { p->f.reset(finder(g)); rej=native([&]{ Java_org_boofcpp_contour_NativeChang2004_native_1init(e(),p->f->obj); }); ptr=(void*)(*p->f->obj)["nativePtr"].j; }
        else { p->t=choose(g,kind,real); rej=native([&]{ tinit(p->t); }); ptr=p->t.ptr; }
        for( auto& q : live ) if( q.get()!=p && ptr==(q->chang?(void*)(*q->f->obj)["nativePtr"].j:q->t.ptr) ) fresh=false;
        Ev v("new"); v.i("h",p->id).s("kind",p->chang?"contour":KIND[kind]).t("real",real).a("java",p->chang?std::vector<long long>{}:p->t.java).t("rej",rej).t("set",ptr!=nullptr).t("fresh",fresh).raw("log",jvm::logJson()); W().end(); return p;
    }
    void setting(Peer* p,int what,long long v) {
        Obj* o=p->f->obj; W().begin(false); bool rej=native([&]{ switch(what) {
            case 0: Java_org_boofcpp_contour_NativeChang2004_setMinContour(e(),o,(jint)v); p->mn=v; break; case 1: Java_org_boofcpp_contour_NativeChang2004_setMaxContour(e(),o,(jint)v); p->mx=v; break;
            case 2: Java_org_boofcpp_contour_NativeChang2004_setSaveInnerContour(e(),o,(jboolean)v); p->save=v!=0; break;
            default: { Obj* r; if( v==0||v==1 ) r=jvm::O(W().cls("boofcv/struct/ConnectRule")->staticValues[v==0?"FOUR":"EIGHT"].l); else { r=W().mk(W().cls("boofcv/struct/ConnectRule")); (*r)["ord"]=J((int)v); }
                Java_org_boofcpp_contour_NativeChang2004_setConnectRule(e(),o,r); p->rule=v==1?8:4; } } });
        static const char* S[]={"min","max","save","rule"}; Ev("set").i("h",p->id).s("what",S[what]).i("v",what==3?(v==0?4:v==1?8:-1):v).t("rej",rej).raw("log",jvm::logJson()); W().end();
    }
    void read(Peer* p,int what) {
        Obj* o=p->f->obj; W().begin(false); long long v=-5; bool rej=native([&]{ switch(what) {
            case 0: v=Java_org_boofcpp_contour_NativeChang2004_getMinContour(e(),o); break; case 1: v=Java_org_boofcpp_contour_NativeChang2004_getMaxContour(e(),o); break;
            case 2: v=Java_org_boofcpp_contour_NativeChang2004_isSaveInternalContours(e(),o); break;
            default: { jobject r=Java_org_boofcpp_contour_NativeChang2004_getConnectRule(e(),o); auto& s=W().cls("boofcv/struct/ConnectRule")->staticValues; v=r==s["FOUR"].l?4:r==s["EIGHT"].l?8:-6; } } });
        static const char* S[]={"min","max","save","rule"}; Ev("get").i("h",p->id).s("what",S[what]).i("v",v).t("rej",rej).raw("log",jvm::logJson()); W().end();
    }
    void process(Peer* p,int size) {
        if( !p->chang ) {
            Jim in,out; timages(g,p->t,in,out,size); Shadow sh; sh.add(in); sh.add(out);
            bool refRej=native([&]{ if(p->t.real) threshRef<F32>(sh,p->t); else threshRef<U8>(sh,p->t); });
            W().begin(g.chance(30)); bool rej=native([&]{ tprocess(p->t,in,out); });
            Ev v("apply"); v.i("h",p->id).t("pin",W().pin).t("rej",rej).t("refRej",refRej).a("cpp",p->t.cpp).raw("log",jvm::logJson()); sh.put(v); W().end(); return;
        }
        bool big=size>60; int w,h; shape(g,size,w,h); if( big ) { w=g.range(70,100); h=g.range(70,100); } int ow=w,oh=h; if(!big) badShape(g,ow,oh,8);
        Jim in,lab; cimages(g,in,lab,w,h,ow,oh,big?(g.chance(50)?4:3):g.range(0,4)); Shadow sh; sh.add(in); sh.add(lab);
        LinearContourLabelChang2004 r(p->rule==4?ConnectRule::FOUR:ConnectRule::EIGHT); r.minContourSize=(uint32_t)p->mn; r.maxContourSize=(uint32_t)p->mx; r.saveInternalContours=p->save; Result ref;
        bool refRej=native([&]{ REF(U8,a,in); REF(S32,b,lab); r.process(a,b); }); if( !refRej ) refContours(r,ref);
        Finder& f=*p->f; jreset(f); W().begin(g.chance(30));
        bool rej=native([&]{ Java_org_boofcpp_contour_NativeChang2004_native_1process(e(),f.obj,in.obj,lab.obj); });
        // what Java now has: the blocks one after the other up to the last number in use, and the sets
        std::vector<std::vector<long long>> sets; long long end=0; int nb=(*f.jb)["size"].i,ns=(*f.js)["size"].i;
        for( int k=0;k<ns&&k<(int)f.sets.size();k++ ) { Obj& s=*f.sets[k]; sets.push_back({s["block"].i,s["start"].i,s["length"].i}); long long x=4000LL*s["block"].i+s["start"].i+2LL*s["length"].i; if( x>=0 && x<=4000LL*nb ) end=std::max(end,x); }
        std::vector<long long> flat; for( long long k=0;k<end;k++ ) flat.push_back(((int*)f.blocks[k/4000]->mem)[k%4000]);
        Ev v("process"); v.i("h",p->id).t("pin",W().pin).t("rej",rej).t("refRej",refRej).a("cpp",std::vector<long long>{p->rule,p->mn,p->mx,p->save}).raw("log",jvm::logJson()).aa("blobs",f.ch.blobs).aa("rblobs",ref.blobs).aa("rsets",ref.sets).i("nblocks",nb).i("nsets",ns).aa("sets",sets).a("flat",flat);
        if( big ) { bool same=true,in0=true; for( size_t k=0;k<lab.arr->len;k++ ) if( ((int*)lab.arr->mem)[k]!=((int*)sh.ref[1])[k] ) same=false; for( size_t k=0;k<in.arr->len;k++ ) if( in.arr->mem[k]!=sh.before[0][k] ) in0=false;
            v.raw("imgs",same&&in0?"[]":"[[1,0,0,1,1,1]]").raw("arrs",same&&in0?"[]":"[{\"b\":[0],\"a\":[1],\"x\":[0]}]"); }
        else sh.put(v);
        W().end();
    }
    void destroy(size_t k) {
        Peer* p=live[k].get(); void* ptr=p->chang?(void*)(*p->f->obj)["nativePtr"].j:p->t.ptr;
        W().begin(false); WATCH=ptr; FREED=0; bool rej=native([&]{ if(p->chang) Java_org_boofcpp_contour_NativeChang2004_native_1destroy(e(),p->f->obj); else tdestroy(p->t); }); WATCH=nullptr;
        Ev("destroy").i("h",p->id).i("freed",FREED).t("cleared",!p->chang||(*p->f->obj)["nativePtr"].j==0).t("rej",rej).raw("log",jvm::logJson()); W().end();
        dead.push_back(std::move(live[k])); live.erase(live.begin()+k);
    }
    void again() { // a contour finder which was destroyed before
        for( auto& p : dead ) if( p->chang ) { W().begin(false); bool rej=native([&]{ Java_org_boofcpp_contour_NativeChang2004_native_1destroy(e(),p->f->obj); });
            Ev("destroy").i("h",p->id).i("freed",0).t("cleared",(*p->f->obj)["nativePtr"].j==0).t("rej",rej).raw("log",jvm::logJson()); W().end(); return; }
    }
    ~Hist() { while( !live.empty() ) destroy(live.size()-1); }
};
static long long limit(Rng& g) { return g.chance(70)?g.range(0,14):g.chance(30)?0x7fffffff:g.chance(30)?-g.range(1,5):g.range(15,90); }
static void history(Rng& g) {
    Hist h(g); h.create(g.chance(80)?6:g.range(0,5),g.chance(50));
    for( int n=g.range(4,24);n>0;n-- ) {
        int k=g.range(0,99); Peer* p=h.live.empty()?nullptr:h.live[g.below((uint32_t)h.live.size())].get();
        if( !p || k<10 ) { if( h.live.size()<5 ) h.create(g.chance(50)?6:g.range(0,5),g.chance(50)); }
        else if( k<16 ) h.destroy(g.below((uint32_t)h.live.size()));
        else if( k<18 ) h.again();
        else if( p->chang && k<45 ) { int w=g.range(0,3); h.setting(p,w,w<2?limit(g):w==2?g.chance(50):g.chance(94)?g.chance(50):g.range(2,3)); }
        else if( p->chang && k<65 ) h.read(p,g.range(0,3));
        else h.process(p,12);
    }
}
static void bigHistory(Rng& g) {
    Hist h(g); Peer* p=h.create(6,false); for( int k=g.range(1,3);k>0;k-- ) { if( g.chance(40) ) h.setting(p,3,g.chance(50)); if( g.chance(30) ) h.setting(p,0,limit(g)); h.process(p,g.chance(80)?99:9); } h.process(p,6);
}
static void script(Rng& g,const Val& v) {
    Hist h(g); std::map<int,Peer*> at;
    for( size_t k=0;k<v.size();k++ ) { const Val& s=v[k]; std::string op=s[(size_t)0].s; int who=(int)s[1].num();
        if( op=="new" ) at[who]=h.create(6,false);
        else if( op=="destroy" ) { for( size_t q=0;q<h.live.size();q++ ) if( h.live[q].get()==at[who] ) { h.destroy(q); break; } }
        else if( op=="min" ) h.setting(at[who],0,s[2].num()); else if( op=="max" ) h.setting(at[who],1,s[2].num()); else if( op=="save" ) h.setting(at[who],2,s[2].num()); else if( op=="rule" ) h.setting(at[who],3,s[2].num()==8);
        else if( op=="process" ) { h.process(at[who],7); } else if( op=="get" ) for( int q=0;q<4;q++ ) h.read(at[who],q); else fatal("script "+op); }
    for( auto& p : h.live ) for( int q=0;q<4;q++ ) h.read(p.get(),q);
}
static void any(Rng& g,int op,bool real) { switch(op) { case 0: blur(g,"mean",real); break; case 1: blur(g,"gaussian",real); break; case 2: conv(g,"horizontal",real); break; case 3: conv(g,"vertical",real); break; case 4: conv(g,"convolve",real); break;
    case 5: norm(g,"nhorizontal",real); break; case 6: norm(g,"nvertical",real); break; case 13: contour(g); break; default: thresh(g,op-7,real); } }
// ------------------------------------------------------------------------------------------------ natives called in several Java threads
struct JavaThread : Job { jvm::World world; Rng g; const std::vector<int>& ops; jvm::World* last;
    JavaThread(const jvm::World& w,uint64_t seed,const std::vector<int>& o) : g(seed),ops(o),last(jvm::current()) { world.join(w); }
    ~JavaThread() { world.classes.clear(); }
    void call(int k,Sink& s) override { jvm::current()=&world; std::string text; captured()=&text; int op=ops[(size_t)k]; if( op<14 ) any(g,op,g.chance(50)); else history(g); captured()=nullptr; jvm::current()=last; for( char c : text ) { s.h^=(uint8_t)c; s.h*=1099511628211ull; } s.n+=(long)text.size(); } };
static void together(Rng& g,int threads,int calls,const std::vector<int>* order) {
    classes(); jvm::internAll(); Ops ops=choose(g,threads,calls,15); uint64_t seed=g.next()>>8; const jvm::World& w=W();
    Maker make=[&](int t){ return std::unique_ptr<Job>(new JavaThread(w,seed+(uint64_t)t,ops[(size_t)t])); }; Digest none=[]{ return std::vector<long long>{0}; };
    if( order ) steps(g,*order,ops,make,none); else freely(ops,make,none);
}
int main(int argc,char** argv) {
    init(argc,argv); Shard sh; uint64_t seed=(uint64_t)opt().i("seed",1); std::string mode=opt().s("mode");
    if( !freopen("/dev/null","w",stdout) ) return 3;      // what the natives print is of no interest
    __sanitizer_install_malloc_and_free_hooks(onMalloc,onFree); jvm::setup();
    if( mode=="script" ) { auto sc=tr::script(); for( size_t k=0;k<sc.size();k++ ) { if( !sh.take() ) continue; Rng g(seed*104729+k); classes(); script(g,sc[k]); W().reset(); } return 0; }
    if( mode=="probe" ) { std::thread a([]{}); a.join(); return 0; }
    if( mode=="free" ) { for( long long k=0,N=opt().i("n",10);k<N;k++ ) { if( !sh.take() ) continue; Rng g(seed*7919+k); int n=g.range(2,4),c=g.range(2,8); together(g,n,c,nullptr); W().reset(); } return 0; }
    if( mode=="steps" ) { auto sc=tr::script(); for( size_t k=0;k<sc.size();k++ ) { if( !sh.take() ) continue; Rng g(seed*104729+k); std::vector<int> o; for( auto& x : sc[k].a ) o.push_back((int)x.n); together(g,*std::max_element(o.begin(),o.end()),g.range(1,2),&o); W().reset(); } return 0; }
    for( long long k=0,N=opt().i("n",100);k<N;k++ ) {
        if( !sh.take() ) continue;
        Rng g(seed*7919+k); classes(); BIG=mode=="huge"?2:mode=="call"?k%61==7:mode=="history"?k%37==5:0;
        if( mode=="call" || mode=="huge" ) any(g,(int)(k%14),(k/14)%2);
        else if( mode=="history" ) history(g);
        else if( mode=="big" ) bigHistory(g);
        else fatal("mode");
        W().reset();
    }
    return 0;
}
