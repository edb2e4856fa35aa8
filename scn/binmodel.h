// Independent model of the container format; compiled without instrumentation. All its memory is the harness's.
#pragma once
#include "rt.h"
#include <vector>
namespace bm {
typedef sim::u64 u64; typedef sim::u32 u32; typedef sim::u8 u8;
struct Sec { u32 id; u64 off, size; };
struct Img { std::vector<u8> d; std::vector<Sec> s; char type[5]; u32 version, maxv; bool ok, trailing; std::vector<u64> sizeat; };   // sizeat: offsets of the size fields
void build(sim::Rng &r, Img &o, int style);                   // a well-formed container
void add(Img &o, u32 id, const std::vector<u8> &body);
void begin(Img &o, const char *type, u32 version, u32 maxv);
void parse(const std::vector<u8> &d, const char *type, u32 maxv, Img &o);   // what the format says about these bytes
void corrupt(sim::Rng &r, Img &o, int kind);                  // o.d changes; the rest is then re-parsed by the caller
const char *path();                                           // scratch file
void write_file(const std::vector<u8> &d);
void mutate_file(sim::Rng &r, int how, u64 n);
void patch_file(const u8 *d, u64 n, u64 at, u64 end);          // writes into the file, not beyond end
void replace_file(const std::vector<u8> &d);                  // another file takes its place
void remove_file();
void put32(std::vector<u8> &v, u32 x); void put64(std::vector<u8> &v, u64 x);
}
