#include "libs.hpp"
#include <csignal>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <valgrind/valgrind.h>

static std::map<std::string, PropFn> &registry() { static std::map<std::string, PropFn> r; return r; }
PropReg::PropReg(const char *name, PropFn f) { registry()[name] = f; }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += (char)ch;
    }
    return o + "\"";
}
static unsigned g_case_limit = 60;
static void on_alarm(int) {
    if (g_shared) g_shared->state = 2;
    _exit(97);
}
extern "C" void note_exit() {}

// Runs one case; empty string = held.
static std::string run_case(PropFn f, Ctx &c, Src &s) {
    c.note.clear();
    c.nontrivial = true;
    alarm(g_case_limit);
    std::string r;
    try { f(c, s); } catch (Fail &e) { r = e.msg.empty() ? "failed" : e.msg; }
    alarm(0);
    return r;
}

static bool child_fails(PropFn f, Ctx &proto, const std::vector<uint64_t> &in) {
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1); dup2(dn, 2);
        g_shared = nullptr;
        Src s; s.replay = true; s.in = in;
        Ctx c = proto; c.cls = nullptr;
        std::string r = run_case(f, c, s);
        _exit(r.empty() ? 0 : 98);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

static std::vector<uint64_t> shrink(PropFn f, Ctx &proto, std::vector<uint64_t> cur, double budget, unsigned &tries) {
    double end = now() + budget;
    tries = 0;
    auto attempt = [&](const std::vector<uint64_t> &x) {
        if (now() > end) return false;
        tries++;
        if (child_fails(f, proto, x)) { cur = x; return true; }
        return false;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t blk = cur.size(); blk >= 1; blk /= 2) {  // delete blocks
            for (size_t i = 0; i + blk <= cur.size() && now() < end;) {
                std::vector<uint64_t> x(cur);
                x.erase(x.begin() + i, x.begin() + i + blk);
                if (attempt(x)) progress = true; else i += blk;
            }
            if (blk == 1) break;
        }
        for (size_t i = 0; i < cur.size() && now() < end; i++) {  // lower values
            if (cur[i] == 0) continue;
            std::vector<uint64_t> x(cur);
            x[i] = 0;
            if (attempt(x)) { progress = true; continue; }
            uint64_t lo = 0, hi = cur[i];
            while (lo + 1 < hi && now() < end) {
                uint64_t mid = lo + (hi - lo) / 2;
                x = cur; x[i] = mid;
                if (attempt(x)) { hi = mid; progress = true; } else lo = mid;
            }
        }
    }
    return cur;
}

static std::vector<uint64_t> read_choices(const char *path) {
    std::vector<uint64_t> v;
    FILE *f = fopen(path, "r");
    if (!f) { perror(path); exit(3); }
    unsigned long long x;
    while (fscanf(f, "%llu", &x) == 1) v.push_back(x);
    fclose(f);
    return v;
}
static std::string jlist(const std::vector<uint64_t> &v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += std::to_string(v[i]); }
    return r + "]";
}

bool fault_hooks();  // props_fault.cpp

int main(int argc, char **argv) {
    std::string prop, out, shared, choices, mode = argc > 1 ? argv[1] : "";
    uint64_t seed = 1, cases = 100, first = 0;
    double deadline = 1e9, budget = 20;
    Ctx proto; proto.cls = nullptr;
    std::vector<std::pair<std::string, std::string>> libs;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--prop") prop = v;
        else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--cases") cases = strtoull(v.c_str(), 0, 10);
        else if (a == "--first") first = strtoull(v.c_str(), 0, 10);
        else if (a == "--deadline") deadline = atof(v.c_str());
        else if (a == "--budget") budget = atof(v.c_str());
        else if (a == "--limit") g_case_limit = (unsigned)atoi(v.c_str());
        else if (a == "--out") out = v;
        else if (a == "--shared") shared = v;
        else if (a == "--choices") choices = v;
        else if (a == "--allow") { std::string cur; for (char ch : v + ",") { if (ch == ',') { if (!cur.empty()) g_allowed.push_back(cur); cur.clear(); } else cur += ch; } }
        else if (a == "--lib") { size_t e = v.find('='); libs.push_back({v.substr(0, e), v.substr(e + 1)}); }
        else if (a == "--opt") { size_t e = v.find('='); proto.opt[v.substr(0, e)] = v.substr(e + 1); }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    signal(SIGALRM, on_alarm);
    struct rlimit rl = {256u << 20, 256u << 20};
    setrlimit(RLIMIT_STACK, &rl);
    if (prop == "C25" && fault_hooks()) proto.opt["hooks"] = "1";
    for (auto &l : libs) load_lib(l.first, l.second);
    auto it = registry().find(prop);
    if (it == registry().end()) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 3; }
    PropFn f = it->second;
    if (!shared.empty()) {
        int fd = open(shared.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Shared))) { perror("shared"); return 3; }
        g_shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    if (mode == "replay") {
        Src s; s.replay = true; s.in = read_choices(choices.c_str());
        Ctx c = proto;
        std::string r = run_case(f, c, s);
        printf("%s\nnote: %s\n", r.empty() ? "HELD" : ("FAILED: " + r).c_str(), c.note.c_str());
        return r.empty() ? 0 : 1;
    }
    if (mode == "shrink") {
        unsigned tries;
        std::vector<uint64_t> in = read_choices(choices.c_str());
        std::vector<uint64_t> v = shrink(f, proto, in, budget, tries);
        FILE *o = fopen(out.c_str(), "w");
        fprintf(o, "{\"choices\": %s, \"tries\": %u}\n", jlist(v).c_str(), tries);
        fclose(o);
        return 0;
    }
    if (mode != "run") { fprintf(stderr, "usage: pbt run|replay|shrink ...\n"); return 3; }
    std::map<std::string, uint64_t> cls;
    std::set<uint64_t> seen;
    std::vector<std::string> samples;
    uint64_t done = 0;
    double t0 = now();
    std::string failure;
    std::vector<std::vector<uint64_t>> corpus;
    uint64_t mutated = 0;
    uint64_t jobh = hash_bytes(prop.data(), prop.size(), seed * 1000003);
    for (uint64_t i = first; i < cases; i++) {
        if (now() - t0 > deadline) break;
        Src s; s.index = i; s.rng = Rng(mix64(jobh) ^ mix64(i + 0x1234567));
        if (!corpus.empty() && s.rng.below(100) < 40) {  // keep a part of a case that reached something new
            const std::vector<uint64_t> &old = corpus[s.rng.below(2) ? corpus.size() - 1 : s.rng.below(corpus.size())];
            s.in = old;
            if (s.rng.below(100) < 75) s.in.resize(s.rng.below(old.size() + 1));
            else s.redraw = s.rng.below(old.size() + 1);
            mutated++;
        }
        Ctx c = proto; c.cls = &cls;
        if (g_shared) { g_shared->case_index = i; g_shared->nchoices = 0; g_shared->state = 1; }
        c.opt["case_index"] = std::to_string(i);
        std::string r = run_case(f, c, s);
        if (g_shared) g_shared->state = 0;
        if (dict_update() && i > first && corpus.size() < 64) corpus.push_back(s.rec);
        done++;
        if (c.nontrivial) {
            uint64_t h = hash_bytes(s.rec.data(), 8 * s.rec.size());
            if (seen.insert(h).second && samples.size() < 3 && (seen.size() & (seen.size() - 1)) == 0) samples.push_back(c.note);
        }
        if (!r.empty()) {
            failure = "{\"case\": " + std::to_string(i) + ", \"msg\": " + jstr(r) + ", \"note\": " + jstr(c.note) + ", \"choices\": " + jlist(s.rec) + "}";
            break;
        }
    }
    if (mutated) cls["engine/mutated from a case with new coverage"] = mutated;
    if (!dict().empty()) cls["engine/comparison constants"] = dict().size();
    FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!o) { perror(out.c_str()); return 3; }
    fprintf(o, "{\"evaluations\": %llu, \"planned\": %llu, \"distinct_nontrivial\": %zu, \"wall\": %.2f, \"samples\": [",
            (unsigned long long)done, (unsigned long long)(cases - first), seen.size(), now() - t0);
    for (size_t i = 0; i < samples.size(); i++) fprintf(o, "%s%s", i ? ", " : "", jstr(samples[i]).c_str());
    fprintf(o, "], \"classes\": {");
    bool firstc = true;
    for (auto &k : cls) { fprintf(o, "%s%s: %llu", firstc ? "" : ", ", jstr(k.first).c_str(), (unsigned long long)k.second); firstc = false; }
    fprintf(o, "}, \"failure\": %s}\n", failure.empty() ? "null" : failure.c_str());
    if (o != stdout) fclose(o);
    return failure.empty() ? 0 : 1;
}
