// The container and element types a translation unit is built for (MC_ROBIN | MC_G15 | MC_G16, MC_PART).
#ifndef MC_KINDS_H
#define MC_KINDS_H
#include "spaces.h"
#if defined(MC_ROBIN)
#define KINDNAME "robin"
static const mc::MapKind KIND = mc::ROBIN;
#elif defined(MC_G15)
#define KINDNAME "g15"
static const mc::MapKind KIND = mc::G15;
#else
#define KINDNAME "g16"
static const mc::MapKind KIND = mc::G16;
#endif
namespace mc {
typedef Obj<1, 8> K8; typedef Obj<2, 8> V8; typedef Obj<1, 24> K24; typedef Obj<2, 32> V32; typedef SObj<1, 8> S8; typedef SObj<2, 24> S24;
typedef MObj<1, 8> M8; typedef MObj<2, 32> M32;
template <int Part> struct Types;
template <> struct Types<0> { typedef K8 K; typedef V8 V; typedef LayoutDefault L; static const char * name() { return "tracked8"; } };
template <> struct Types<1> { typedef K24 K; typedef V32 V; typedef LayoutDefault L; static const char * name() { return "tracked-big"; } };
template <> struct Types<2> { typedef int K; typedef int V; typedef LayoutDefault L; static const char * name() { return "int"; } };
template <> struct Types<3> { typedef std::string K; typedef std::string V; typedef LayoutDefault L; static const char * name() { return "string"; } };
template <> struct Types<4> { typedef K24 K; typedef V32 V; typedef LayoutDirectHash L; static const char * name() { return "direct-hash"; } };
template <> struct Types<5> { typedef S8 K; typedef S24 V; typedef LayoutDirectHash L; static const char * name() { return "direct-swap"; } };
template <> struct Types<6> { typedef K8 K; typedef V8 V; typedef LayoutIndirect L; static const char * name() { return "indirect-small"; } };
template <> struct Types<7> { typedef K8 K; typedef M32 V; typedef LayoutDefault L; static const char * name() { return "move-only"; } };
template <> struct Types<8> { typedef int K; typedef V8 V; typedef LayoutDefault L; static const char * name() { return "int-tracked"; } };
template <> struct Types<9> { typedef AObj<1, 8> K; typedef AObj<2, 24> V; typedef LayoutDefault L; static const char * name() { return "over-aligned"; } };
template <int Part, int Prop = 0> using CfgOf = Cfg<KIND, typename Types<Part>::K, typename Types<Part>::V, typename Types<Part>::L, Prop>;
template <int Part, int Prop = 0> using SCfgOf = Cfg<KIND, typename Types<Part>::K, typename Types<Part>::V, typename Types<Part>::L, Prop, SHash<typename Types<Part>::K>, SEq<typename Types<Part>::K>>;
} // namespace mc
#ifdef MC_PART
static const char * const CN = mc::Types<MC_PART>::name();
#endif
#endif
