// A file system in memory behind ilSetRead/ilSetWrite that records and checks every call and can refuse any one of them.
#pragma once
#include "ilx.h"
#include <map>
namespace vfs {
using ilx::Bytes;
struct H { uint32_t magic = 0x48414E44; std::string name; long pos = 0; bool open = true, mine = false, eof = false, wr = false; int closes = 0; };
static std::map<std::string, Bytes>& fs() { static std::map<std::string, Bytes> f; return f; }
static std::vector<H*> handles; static std::vector<std::string> bad;   // bad: broken rules
static long calls, failat = -1; static bool sticky; static std::string failed; static long opens, closes;
static int shortmode;     // 0: a refused read/write transfers nothing, 1: transfers a part
static void rule(const char* m) { if (bad.size() < 5) bad.push_back(m); }
static bool refuse(const char* what) { long n = calls++; if (n == failat || (sticky && failat >= 0 && n > failat)) { if (failed.empty()) failed = what; return true; } return false; }
static H* chk(ILHANDLE h, const char* what) { for (H* x : handles) if (x == h) { if (!x->open) rule(mc::sfmt("%s on a closed handle", what).c_str()); return x; } rule(mc::sfmt("%s on an unknown handle", what).c_str()); return 0; }
static H* make(const std::string& n, long pos, bool wr) { H* h = new H; h->name = n; h->pos = pos; h->mine = true; h->wr = wr; handles.push_back(h); return h; }   // a handle the caller owns
static ILHANDLE ILAPIENTRY openr(ILconst_string n) { opens++; if (refuse("open")) return 0; if (!fs().count(n)) return 0; H* h = make(n, 0, false); h->mine = false; return h; }
static ILHANDLE ILAPIENTRY openw(ILconst_string n) { opens++; if (refuse("open")) return 0; fs()[n].clear(); H* h = make(n, 0, true); h->mine = false; return h; }
static void ILAPIENTRY close(ILHANDLE f) { closes++; H* h = chk(f, "close"); if (!h) return; if (h->mine) rule("the caller's handle was closed"); h->open = false; h->closes++; }
static ILboolean ILAPIENTRY eof(ILHANDLE f) { H* h = chk(f, "eof"); return h ? h->eof : true; }
static ILint ILAPIENTRY read(void* b, ILuint s, ILuint n, ILHANDLE f)
{
    H* h = chk(f, "read"); if (!h) return 0; if (h->wr) rule("read from a handle opened for writing"); if (!s || !n) return 0; Bytes& d = fs()[h->name]; long left = (long)d.size() - h->pos; if (left < 0) left = 0; unsigned long long want = (unsigned long long)s * n; bool r = refuse("read"); if (r) want = shortmode ? want / 2 : 0;
    size_t k = want > (unsigned long long)left ? left : (size_t)want; if (k) memcpy(b, &d[h->pos], k); h->pos += k; if (!r && k < want) h->eof = true; return (ILint)(k / s);
}
static ILint ILAPIENTRY getc(ILHANDLE f) { H* h = chk(f, "getc"); if (!h) return -1; if (h->wr) rule("getc from a handle opened for writing"); if (refuse("getc")) return -1; Bytes& d = fs()[h->name]; if (h->pos >= (long)d.size()) { h->eof = true; return -1; } return d[h->pos++]; }
static ILint ILAPIENTRY seek(ILHANDLE f, ILint o, ILint m) { H* h = chk(f, "seek"); if (!h) return -1; if (refuse("seek")) return -1; long p = m == 0 ? 0 : m == 1 ? h->pos : (long)fs()[h->name].size(); if (p + o < 0) return -1; h->pos = p + o; h->eof = false; return 0; }
static ILint ILAPIENTRY tell(ILHANDLE f) { H* h = chk(f, "tell"); return h ? (ILint)h->pos : -1; }
static ILint ILAPIENTRY write(const void* b, ILuint s, ILuint n, ILHANDLE f)
{
    H* h = chk(f, "write"); if (!h) return 0; if (!h->wr) rule("write to a handle opened for reading"); if (!s || !n) return n; if (refuse("write")) { if (!shortmode) return 0; n /= 2; } Bytes& d = fs()[h->name]; size_t k = (size_t)s * n; if (h->pos + k > d.size()) d.resize(h->pos + k); if (k) memcpy(&d[h->pos], b, k); h->pos += k; return n;
}
static ILint ILAPIENTRY putc(ILubyte c, ILHANDLE f) { H* h = chk(f, "putc"); if (!h) return -1; if (!h->wr) rule("putc to a handle opened for reading"); if (refuse("putc")) return -1; Bytes& d = fs()[h->name]; if (h->pos + 1 > (long)d.size()) d.resize(h->pos + 1); d[h->pos++] = c; return c; }
static void reset() { for (H* h : handles) delete h; handles.clear(); bad.clear(); calls = 0; failat = -1; sticky = false; failed.clear(); opens = closes = 0; shortmode = 0; }
static void install() { ilSetRead(openr, close, eof, getc, read, seek, tell); ilSetWrite(openw, close, putc, seek, tell, write); }
// the rules at the end of a call: every handle the library opened is closed exactly once
static std::string verdict() { for (H* h : handles) if (!h->mine) { if (h->closes == 0) rule("a handle the library opened was not closed"); if (h->closes > 1) rule("a handle was closed twice"); } return bad.empty() ? "" : bad[0]; }
static void drop() { for (H* h : handles) delete h; handles.clear(); }
} // namespace vfs
