// Values of any pixel type as small integers: enc spreads an integer over the bytes of the type, dec reads it back exactly.
#ifndef VERIF_TYPED_H
#define VERIF_TYPED_H
#include "tr.h"
#include "base_types.h"
template<class T> struct Enc {
    static constexpr long long unit() {
        return std::is_floating_point<T>::value ? 1 : sizeof(T)==1 ? 1 : sizeof(T)==2 ? 257 : sizeof(T)==4 ? 65537 : 4295032833LL;
    }
    static T mk(long long k) { return std::is_floating_point<T>::value ? (T)(k*0.25) : (T)(k*unit()); }
    static long long rd(T v) {
        if( std::is_floating_point<T>::value ) {
            double d = (double)v*4;
            if( !(d > -1e6 && d < 1e6) ) return -7777777;
            long long k = (long long)d;
            return (double)k == d ? k : -7777778;
        }
        long long x = (long long)v;
        return x % unit() == 0 ? x/unit() : -7777779;
    }
    static int lo() { return std::is_unsigned<T>::value ? 0 : -120; }
    static int hi() { return sizeof(T)==1 ? 255 : std::is_same<T,int16_t>::value ? 120 : 250; }
};
template<class T> const char* tname();
template<> inline const char* tname<uint8_t>() { return "U8"; }
template<> inline const char* tname<int16_t>() { return "S16"; }
template<> inline const char* tname<uint16_t>() { return "U16"; }
template<> inline const char* tname<int32_t>() { return "S32"; }
template<> inline const char* tname<uint32_t>() { return "U32"; }
template<> inline const char* tname<int64_t>() { return "S64"; }
template<> inline const char* tname<float>() { return "F32"; }
template<> inline const char* tname<double>() { return "F64"; }
#endif
