// Helpers over the public DevIL API shared by the checks.
#pragma once
#include "mc.h"
#include <IL/il.h>
#include <IL/ilu.h>
#include <string>
#include <vector>
#include <map>

namespace ilx {
typedef std::vector<uint8_t> Bytes;

extern const std::vector<ILenum> FORMATS;      // all eight
extern const std::vector<ILenum> TYPES;        // all nine (incl. half)
int channels(ILenum f);
int bpc(ILenum t);
const char* fname(ILenum f);
const char* tname(ILenum t);
std::string ename(ILenum e);
int palbpp(ILenum p);
double rdsample(const uint8_t* p, ILenum type);               // sample as a number
void wrsample(uint8_t* p, ILenum type, double v);
double half2d(uint16_t h);
uint16_t d2half_trunc(double v);

void init();                           // ilInit+iluInit with a clean error stack
void drain();                          // empty the error stack
std::vector<ILenum> errors();          // take all errors (bounded)
ILenum firsterr();                     // take the newest, drop the rest

struct Img {                           // one image (no chains)
    int w = 0, h = 0, d = 0, bpp = 0, bpc = 0, format = 0, type = 0, origin = 0, size = 0, plane = 0;
    int dur = 0, offx = 0, offy = 0, cube = 0;
    int paltype = 0, palcols = 0, palbpp = 0;
    int dxtcf = 0;
    Bytes data, pal;
    int nimg = 0, nmip = 0, nlay = 0, nface = 0;
    bool operator==(const Img& o) const;
    bool operator!=(const Img& o) const { return !(*this == o); }
    std::string diff(const Img& o) const;
    std::string desc() const;
    uint64_t hash() const;
    // pixel access on the picture: y counted from the top whatever the origin
    const uint8_t* at(int x, int y, int z = 0) const;
};
struct Tree { Img img; std::vector<Tree> mips, imgs, lays, faces;     // chains flattened relative to this image
    bool operator==(const Tree& o) const; bool operator!=(const Tree& o) const { return !(*this == o); }
    std::string diff(const Tree& o) const; uint64_t hash() const; };

Img  snap();                           // current image; leaves errors as they were if all is well
Tree snaptree(ILuint name);            // binds name, walks its chains, leaves name bound at its base

// makes an image current and defines it
bool mk(int w, int h, int d, ILenum f, ILenum t, const uint8_t* data, ILenum origin = 0);
bool mkpal(int w, int h, ILenum paltype, int cols, const uint8_t* idx, const uint8_t* pal, ILenum origin = 0, int d = 1);
Bytes pattern(int n, uint32_t salt);   // deterministic byte pattern
Bytes typed_pattern(int samples, ILenum type, uint32_t salt);  // finite values for float types
std::string hex(const Bytes& b, size_t max = 48);
std::string hex(const uint8_t* b, size_t n, size_t max = 48);

// all integer state variables observable through the getters
struct State { std::vector<int> v; std::vector<std::string> s; bool operator==(const State& o) const { return v == o.v && s == o.s; } std::string diff(const State& o) const; };
State state();

Bytes readfile(const std::string& p);
void writefile(const std::string& p, const Bytes& b);
Bytes saveL(ILenum type, bool* ok = 0);           // two-call protocol (NULL probe, then save); empty on failure
size_t heap_bytes();                   // bytes currently allocated (ASan only, else 0)
} // namespace ilx
