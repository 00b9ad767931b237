// Images placed in memory with other content around them. Everything is recorded before and after an operation.
#ifndef VERIF_CANVAS_H
#define VERIF_CANVAS_H
#include "tr.h"
#include "typed.h"
#include "image_types.h"
#include <sys/mman.h>
#include <memory>
namespace tr {
// the size of memory which can be indexed. Nothing of it can be touched but what's made usable: code which loses its way is stopped before it has used up all memory
inline bool usable(void* base, size_t bytes, long long first, long long last) {
    const long long page=4096; long long a=std::max<long long>(0,first/page*page-page), b=std::min<long long>((long long)((bytes+page-1)/page*page),last/page*page+2*page);
    return mprotect(static_cast<char*>(base)+a,(size_t)(b-a),PROT_READ|PROT_WRITE)==0;
}
inline std::shared_ptr<void> mapping(size_t bytes) {
    void* p = mmap(nullptr,bytes,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    if( p == MAP_FAILED ) return nullptr;
#ifdef MADV_NOHUGEPAGE
    madvise(p,bytes,MADV_NOHUGEPAGE);
#endif
    return std::shared_ptr<void>(p,[bytes](void* q){ munmap(q,bytes); });
}
enum Place { EXACT, LARGER, VIEW };   // owned image, owned image with more storage than pixels, view of other memory
static int VAST=4;   // how often a view is far away from the start of its memory
inline Place place(Rng& g) { return (Place)g.range(0,2); }
template<class T> std::string jarr(const std::vector<T>& v, long long (*rd)(T)) {
    std::string s = "["; bool f = true;
    for( T x : v ) { if(!f) s += ','; f = false; num(s,rd(x)); }
    return s+"]";
}
template<class T> long long rawOf(T v) { return (long long)v; }
// T: pixel type, band: number of samples per pixel (1 for gray). Fill gives the content around the image.
template<class T> struct Canvas {
    std::vector<T> buf;               // caller memory (VIEW)
    std::unique_ptr<boofcv::Gray<T>> img;
    Place how; std::vector<T> before; long long (*rd)(T); int off=0,stride=0;
    Canvas() : how(EXACT), rd(&Enc<T>::rd) {}
    // A view far away from the start of its memory, or with rows far apart. Only what's near its rows is written down, as if nothing was in between:
    // 'lead' cells, rows of 'stride' cells, 'tail' cells
    std::shared_ptr<void> vast; long long roff=0,rstride=0; int lead=0,left=0,tail=0,rows=0;
    T* at(size_t k) {
        long long j=(long long)k-lead, y=stride>0&&j>=0?std::min<long long>(j/stride,std::max(0,rows-1)):0;
        return static_cast<T*>(vast.get())+(roff-left+y*rstride+(j-y*stride)); }
    T& cell(size_t k) { return vast?*at(k):how==VIEW?buf[k]:img->data[k]; }
    size_t len() { return vast ? (size_t)lead+(size_t)stride*rows+(size_t)tail : how==VIEW ? buf.size() : img->data_length; }
    long long koff() { return vast ? off+((long long)img->offset-roff) : (long long)img->offset; }
    long long kstr() { return vast&&(long long)img->stride==rstride ? stride : (long long)img->stride; }
    template<class F> bool makeVast(Rng& g, int w, int h, F around) {
        const long long TOP=0xFFFFFFFFLL; int l=g.range(0,3),r=g.range(0,3),ld=g.range(0,2),tl=g.range(0,2); long long S,R,most=(TOP-(1<<20))/(h+1), last;
        int kind=g.range(0,3);
        if( kind==1 ) { long long lo=std::min<long long>(1<<22,most/2); S=lo+(long long)(g.next()%(uint64_t)(std::min<long long>(most,0x7FFFFF00LL)-lo)); S|=1; R=g.range(10,99); }
        else { S=l+w+r+2*g.range(0,2500)+1; if( g.chance(30) ) S=std::min<long long>(S*200,most); last=S*(h-1)+w+r+tl;
            R = kind==0 ? (1<<24)+2*g.range(0,3000)+1 : kind==2 ? (1LL<<31)-S*(h/2)-g.range(0,w) : TOP-last-g.range(0,3); if( R<100 ) R=100; }
        last=R+S*(h-1)+w+r+tl; if( last>TOP ) return false;
        vast=mapping(((size_t)last+1)*sizeof(T)); if( !vast ) return false;
        for( int y=0;y<h;y++ ) if( !usable(vast.get(),((size_t)last+1)*sizeof(T),(R-l-ld+y*S)*(long long)sizeof(T),(R+y*S+w+r+tl+1)*(long long)sizeof(T)) ) { vast.reset(); return false; }
        roff=R; rstride=S; lead=ld; left=l; tail=tl; rows=h; stride=l+w+r; off=lead+left;
        for( size_t k=0;k<len();k++ ) cell(k)=around();
        img.reset(new boofcv::Gray<T>(static_cast<T*>(vast.get()),(uint32_t)last,(uint32_t)w,(uint32_t)h,(uint32_t)R,(uint32_t)S));
        return true;
    }
    template<class F> void make(Rng& g, int w, int h, Place p, F around) {
        how = p; off = 0; stride = w; vast.reset();
        if( p == VIEW && w>0 && h>0 && h<200 && w*h<=600 && g.chance(VAST) && makeVast(g,w,h,around) ) return;
        if( p == VIEW ) {
            int l=g.range(0,3),r=g.range(0,3),t=g.range(0,2),b=g.range(0,2);
            if( g.chance(30) ) { l=g.range(0,9); r=0; }
            if( h>9999 ) { l=g.range(0,1); r=1-l; t=b=0; }
            // a narrow part of a much wider image
            if( w<200 && h<40 && w*h<=600 && g.chance(4) ) { int far=8*w+g.range(0,6000/(h+3)); l=g.chance(50)?far:g.range(0,3); r=l==far?g.range(0,3):far; t=b=g.range(0,1); }
            int lead=g.range(0,4),tail=g.range(0,3);
            // the first pixel, or the last one, of its parent
            if( g.chance(20) ) lead=l=t=0;
            if( g.chance(15) ) tail=r=b=0;
            stride=w+l+r; off=lead+t*stride+l;
            buf.resize((size_t)lead+(size_t)stride*(h+t+b)+(size_t)tail);
            for( auto& x : buf ) x = around();
            img.reset(new boofcv::Gray<T>(buf.data(),(uint32_t)buf.size(),(uint32_t)w,(uint32_t)h,(uint32_t)off,(uint32_t)stride));
        } else {
            if( p == LARGER && h<9999 ) { img.reset(new boofcv::Gray<T>((uint32_t)(w+g.range(0,4)),(uint32_t)(h+g.range(1,3)))); img->reshape((uint32_t)w,(uint32_t)h); }
            else img.reset(new boofcv::Gray<T>((uint32_t)w,(uint32_t)h));
            for( size_t k=0;k<img->data_length;k++ ) img->data[k] = around();
        }
    }
    // cells before the first row, left and right of every row, after the last one
    template<class F> void makeAt(int w, int h, int lead, int left, int right, int tail, F around) {
        how = VIEW; stride = left+w+right; off = lead+left; vast.reset();
        buf.resize((size_t)lead+(size_t)stride*h+(size_t)tail);
        for( auto& x : buf ) x = around();
        img.reset(new boofcv::Gray<T>(buf.data(),(uint32_t)buf.size(),(uint32_t)w,(uint32_t)h,(uint32_t)off,(uint32_t)stride));
    }
    template<class F> void set(F f) { for( uint32_t y=0;y<img->height;y++ ) for( uint32_t x=0;x<img->width;x++ ) img->unsafe_at(x,y) = f((int)x,(int)y); }
    std::vector<T> now() { std::vector<T> v; v.reserve(len()); for( size_t k=0,n=len();k<n;k++ ) v.push_back(cell(k)); return v; }
    void snap() { before=now(); }
    boofcv::Gray<T>& operator*() { return *img; }
    std::vector<T> pixels() { std::vector<T> r; for( uint32_t y=0;y<img->height;y++ ) for( uint32_t x=0;x<img->width;x++ ) r.push_back(img->unsafe_at(x,y)); return r; }
    // shape and memory now, memory at the last snapshot
    std::string json() {
        std::vector<T> after=now();
        std::vector<long long> k{koff(),kstr(),(long long)img->width,(long long)img->height};
        std::string s = "{\"k\":["; for( int j=0;j<4;j++ ) { if(j) s+=','; num(s,k[j]); } 
        return s+"],\"b\":"+jarr(before,rd)+",\"a\":"+jarr(after,rd)+"}";
    }
};
}
#endif
