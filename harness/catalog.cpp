#include "op.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
std::vector<Factory>& catalog() { static std::vector<Factory> v; return v; }
Reg::Reg(const char* n, const char* g, int c, int f, LibOp* (*mk)()) { catalog().push_back(Factory{n, g, c, f, mk}); }
std::vector<const Factory*> pick(const std::string& groups, int maxcost, int need, int avoid) {
  std::vector<const Factory*> v;
  for (auto& f : catalog())
    if ((groups.empty() || ("," + groups + ",").find("," + f.group + ",") != std::string::npos) && f.cost <= maxcost && (f.flags & need) == need && !(f.flags & avoid)) v.push_back(&f);
  std::sort(v.begin(), v.end(), [](const Factory* a, const Factory* b) { return a->name < b->name; });
  return v;
}
static char* g_arena = nullptr; static size_t g_used = 0; static const size_t ARENA = 1ull << 30;
// Every object lies between zones that nobody may touch: their contents, other ones each time, are looked at by
// box_check(), and builds with address checks report any access to them.
static const size_t BZ = 256; static const int NBOX = 1 << 15;
struct BoxRec { char* p; size_t n, full; uint64_t seed; void* raw; };
static BoxRec g_box[NBOX]; static int g_nbox = 0; static uint64_t g_boxcount = 0; static const char* g_boxbad = nullptr;
static bool in_arena(const void* p) { return g_arena && (const char*)p >= g_arena && (const char*)p < g_arena + ARENA; }
static uint64_t zone_word(const BoxRec& b, size_t i) { return sim::mix(b.seed, i); }
static const char* zone_bad(const BoxRec& b) {
  sim::unpoison(b.p - BZ, BZ); sim::unpoison(b.p + b.n, b.full - b.n + BZ); const char* bad = nullptr; uint64_t w;
  for (size_t i = 0; i < BZ; i += 8) { memcpy(&w, b.p - BZ + i, 8); if (w != zone_word(b, i)) bad = "before the start of an object"; }
  for (size_t i = b.n; i < b.full + BZ; i++) if ((unsigned char)b.p[i] != (unsigned char)(zone_word(b, i) >> 8)) bad = "after the end of an object";
  return bad;
}
static void zone_close(const BoxRec& b) { sim::poison(b.p - BZ, BZ); sim::poison(b.p + b.n, b.full - b.n + BZ); }
const char* box_check() {
  const char* bad = g_boxbad;
  for (int i = 0; i < g_nbox; i++) if (g_box[i].p) { const char* x = zone_bad(g_box[i]); if (x) bad = x; zone_close(g_box[i]); }
  return bad;
}
void box_reuse() {
  if (!g_arena) g_arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int i = 0; i < g_nbox; i++) if (g_box[i].p && in_arena(g_box[i].p)) { const char* x = zone_bad(g_box[i]); if (x) g_boxbad = x; g_box[i].p = nullptr; }
  g_used = 0;
}
static bool g_track = false; static std::vector<void**> g_slots; static std::vector<const void*>* g_touched = nullptr;
void box_track(bool on) { g_track = on; }
size_t box_mark() { return g_slots.size(); }
void box_slot(void** at) { if (g_track) g_slots.push_back(at); }
void box_touch(const void* p) { if (g_touched) g_touched->push_back(p); }
int box_share(LibOp& a, size_t a0, size_t a1, size_t b0) {
  std::vector<const void*> in, out; g_touched = &in; a.in(); g_touched = &out; a.out(); g_touched = nullptr; int k = 0;
  for (size_t i = a0; i < a1 && b0 + (i - a0) < g_slots.size(); i++) {
    char* base = (char*)*g_slots[i]; size_t n = 0; bool is_in = false, is_out = false;
    for (int j = 0; j < g_nbox; j++) if (g_box[j].p == base) n = g_box[j].n;
    for (auto p : in) is_in |= (char*)p >= base && (char*)p < base + n;
    for (auto p : out) is_out |= (char*)p >= base && (char*)p < base + n;
    if (is_in && !is_out) { *g_slots[b0 + (i - a0)] = base; k++; }
  }
  return k;
}
void* box_alloc(size_t n) {
  size_t full = (n + 63) & ~(size_t)63, room = full + 2 * BZ; char* raw; void* base = nullptr;
  if (!g_arena || g_used + room > ARENA) { base = operator new(room + 64); raw = (char*)base; raw = (char*)(((uintptr_t)raw + 63) & ~(uintptr_t)63); }
  else { raw = g_arena + g_used; g_used += room; }
  BoxRec b{raw + BZ, n, full, sim::mix(0xB0C5, ++g_boxcount), base};
  for (size_t i = 0; i < BZ; i += 8) { uint64_t w = zone_word(b, i); memcpy(raw + i, &w, 8); }
  for (size_t i = n; i < full + BZ; i++) b.p[i] = (char)(zone_word(b, i) >> 8);
  zone_close(b);
  int k = 0; while (k < g_nbox && g_box[k].p) k++;
  if (k < NBOX) { g_box[k] = b; if (k == g_nbox) g_nbox++; } else { fprintf(stderr, "too many objects\n"); abort(); }
  return b.p;
}
void box_free(void* p) {
  for (int i = 0; i < g_nbox; i++) if (g_box[i].p == p) {
    const char* x = zone_bad(g_box[i]); if (x) g_boxbad = x; g_box[i].p = nullptr; 
    if (!in_arena(p)) operator delete(g_box[i].raw);
    return;
  }
}
