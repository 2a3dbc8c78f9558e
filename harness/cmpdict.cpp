// Comparison feedback: builds compiled with -fsanitize-coverage=trace-cmp report the operands of every comparison. The
// constants of comparisons that have not yet come out equal become the dictionary that gen_bytes draws bytes from.
#include "engine.hpp"
#include <algorithm>
#include <sys/mman.h>

namespace {
struct Site { uintptr_t pc; uint64_t konst; uint32_t size; uint32_t eq; };
const size_t CAP = 1 << 14;
// shared with forked children: some properties run the call in one
struct Tab { unsigned count; Site sites[CAP]; };
Tab *make_tab() {
    void *m = mmap(nullptr, sizeof(Tab), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Tab *)m;
}
Tab *g_tab = make_tab();
#define g_sites (g_tab->sites)
#define g_count (g_tab->count)
std::vector<DictEntry> g_dict;

inline void record(uintptr_t pc, uint64_t k, uint64_t v, unsigned size) {
    if (!g_tab) return;
    size_t i = (pc * 0x9e3779b97f4a7c15ULL) >> 50;
    for (unsigned probe = 0; probe < 64; probe++, i = (i + 1) & (CAP - 1)) {
        Site &s = g_sites[i];
        if (s.pc == pc) { if (k == v) s.eq = 1; return; }
        if (!s.pc) {
            if (g_count > CAP / 2) return;
            g_count++;
            s.pc = pc; s.konst = k; s.size = size; s.eq = k == v;
            return;
        }
    }
}
}

extern "C" {
#define CB(n, t)                                                                                                              \
    __attribute__((visibility("default"))) void __sanitizer_cov_trace_const_cmp##n(t a, t b) { record((uintptr_t)__builtin_return_address(0), a, b, n); } \
    __attribute__((visibility("default"))) void __sanitizer_cov_trace_cmp##n(t, t) {}
CB(1, uint8_t) CB(2, uint16_t) CB(4, uint32_t) CB(8, uint64_t)
__attribute__((visibility("default"))) void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *cases) {
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    unsigned bits = (unsigned)cases[1];
    for (uint64_t i = 0; i < cases[0] && i < 64; i++) record(pc + i * 0x10001, cases[2 + i], v, bits / 8 ? bits / 8 : 1);
}
}

bool dict_update() {
    static uint64_t before = 0;
    if (!g_count) return false;
    uint64_t score = 0;
    std::vector<DictEntry> add;
    for (Site &s : g_sites) {
        if (!s.pc) continue;
        score += 1 + s.eq;
        if (s.eq) continue;
        DictEntry e{s.konst, s.size};
        if (s.size == 4 || s.size == 8) {  // promoted operands: keep the width the value needs
            int64_t v = s.size == 4 ? (int32_t)s.konst : (int64_t)s.konst;
            if (v >= -128 && v <= 255) e.size = 1;
            else if (v >= -32768 && v <= 65535) e.size = 2;
        }
        bool have = false;
        for (auto &d : g_dict) if (d.value == e.value && d.size == e.size) have = true;
        if (!have) add.push_back(e);
    }
    std::sort(add.begin(), add.end(), [](const DictEntry &a, const DictEntry &b) { return a.value != b.value ? a.value < b.value : a.size < b.size; });
    for (auto &e : add) if (g_dict.size() < 256 && (g_dict.empty() || e.value != g_dict.back().value || e.size != g_dict.back().size)) g_dict.push_back(e);
    bool fresh = score != before;
    before = score;
    return fresh;
}
const std::vector<DictEntry> &dict() { return g_dict; }
