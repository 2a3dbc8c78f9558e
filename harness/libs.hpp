#pragma once
#include "model.hpp"
#include <immintrin.h>

struct Lib {
    std::string name, path;   // name: gen.opt.mode.size
    std::string gen, opt, mode;
    unsigned size;
    Gen g;
    const Params *p;
    void *h = nullptr;
    int (*f_keypair)(unsigned char *, unsigned char *) = nullptr;
    int (*f_enc)(unsigned char *, unsigned char *, const unsigned char *) = nullptr;
    int (*f_dec)(unsigned char *, const unsigned char *, const unsigned char *) = nullptr;
    template <class F> F sym(const char *n) const { return (F)rawsym(n); }
    void *rawsym(const char *n) const;  // nullptr when absent or its signature changed
};
extern std::vector<Lib *> g_libs;
extern std::vector<std::string> g_allowed;
Lib *load_lib(const std::string &name, const std::string &path);
void reload_lib(Lib &l);  // as after a fresh start: nothing called yet
Lib &pick_lib(Src &s, Ctx &c);
Lib &pick_lib_like(Src &s, Ctx &c, const Lib &l, const char *what);  // same scheme

// The random source the libraries see.
struct RngState {
    Bytes data;              // bytes handed out, in order
    size_t pos = 0;          // bytes consumed
    unsigned calls = 0;      // requests made
    long fail_at = -1;       // this request (0-based) reports failure; -1 none
    long fail_count = 1;     // how many requests fail from there
    int fail_ret = 1;
    size_t fail_fill = 0;    // bytes written by a failing request
    bool overrun = false;
    size_t taint_lo = 0, taint_hi = 0;  // bytes of the stream that are secret (valgrind)
};
extern thread_local RngState g_rng;
void rng_set(const Bytes &b);

struct Out { int rc = -1; Bytes a, b; size_t used = 0; unsigned calls = 0; bool overrun = false; };
Out call_keypair(const Lib &l, const Bytes &rnd);         // a = pk, b = sk
Out call_enc(const Lib &l, const Bytes &pk, const Bytes &mu);  // a = ct, b = ss
Out call_dec(const Lib &l, const Bytes &sk, const Bytes &ct);  // a = ss

// A buffer between two inaccessible pages, flush with one of them, at any alignment, with canaries in the slack.
struct Guard {
    uint8_t *base; size_t maplen, n = 0; uint8_t *p = nullptr; uint8_t canary = 0xA5; size_t room;
    explicit Guard(size_t maxn);
    ~Guard();
    uint8_t *place(size_t n, bool at_end, unsigned shift, uint8_t fill);  // shift bytes away from the flush edge
    bool slack_intact() const;
};
void first_diff(const Bytes &a, const Bytes &b, size_t &pos);
std::string diffmsg(const Bytes &got, const Bytes &want);
// run f on a fresh stack of the given size prefilled with a pattern; returns the stack for inspection
void run_on_stack(uint8_t *stack, size_t len, const std::function<void()> &f);
