#include "mc.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <csignal>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

bool thorough = false, replaying = false;
int seed = 1;

enum { NSLOT = 8192, NOTE = 400, BITS = 1 << 22, MAXUNKNOWN = 12, MAXRAW = 20000 };

struct Slot { std::atomic<int> used; int fails; uint64_t batch_i; char note[NOTE]; char path[2000]; char step[600]; };
struct Shared {
    std::atomic<uint64_t> nodes, trans, leaves, evals, cases, distinct;
    std::atomic<int> tokens, stop, unknown, raw, samples, capped;
    double deadline;
    Slot slots[NSLOT];
    std::atomic<uint8_t> bits[BITS / 8];
    std::atomic<uint64_t> next;
    char sample[24][600];
};
static Shared* S;
static Slot* me;
static std::string g_work, g_suite, g_prop, g_path;
static std::vector<std::string> g_known;
static int g_cpu = 20;
static int g_vfd = -1;
static int g_jobs = 8;

// replay state
static std::vector<int> r_choices; static size_t r_pos;
static std::string r_batch; static uint64_t r_from, r_to; static bool r_has_batch;
static std::vector<int> g_choices;    // choices made so far

struct Suite { const char* name; SuiteFn fn; int tier; };
static std::vector<Suite>& suites() { static std::vector<Suite> v; return v; }
SuiteReg::SuiteReg(const char* n, SuiteFn f, int t) { suites().push_back({n, f, t}); }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

std::string sfmt(const char* fmt, ...) { char b[2000]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return b; }

static Slot* get_slot()
{
    for (int tries = 0; tries < 100; tries++)
        for (int i = 0; i < NSLOT; i++) { int z = 0; if (S->slots[i].used.compare_exchange_strong(z, 1)) { Slot* s = &S->slots[i]; s->fails = 0; s->note[0] = s->path[0] = s->step[0] = 0; s->batch_i = ~0ULL; return s; } }
    fprintf(stderr, "mc: out of slots\n"); abort();
}

bool stopped()
{
    if (S->stop.load()) return true;
    if (!replaying && now() > S->deadline) { S->capped = 1; S->stop = 1; return true; }
    return false;
}

void note(const char* fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(me->note, NOTE, fmt, a); va_end(a); }
void step(const char* fmt, ...)
{
    char b[300]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    size_t l = strlen(me->step); if (l + strlen(b) + 2 < sizeof me->step) { if (l) strcat(me->step, ";"); strcat(me->step, b); }
}
int nfails() { return me->fails; }
void eval(uint64_t n) { S->evals += n; }
void transition(uint64_t n) { S->trans += n; }
void outcome(uint64_t h)
{
    h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 29; h %= BITS;
    uint8_t b = 1 << (h & 7); uint8_t o = S->bits[h >> 3].load(std::memory_order_relaxed);
    if (!(o & b)) { o = S->bits[h >> 3].fetch_or(b); if (!(o & b)) S->distinct++; }
}
const std::string& workdir()
{
    static pid_t pid; static std::string d;
    if (pid != getpid()) { pid = getpid(); d = g_work + "/p" + std::to_string(pid); mkdir(d.c_str(), 0777); }
    return d;
}

static void sample_now(const Slot* s)
{
    if (S->samples.load() >= 24) return;
    // spread: take executions number 1,2,4,8,...
    uint64_t n = S->leaves.load() + S->cases.load();
    if (n & (n - 1)) return;
    int i = S->samples.fetch_add(1); if (i >= 24) return;
    snprintf(S->sample[i], 600, "%s%s%s%s", g_suite.c_str(), s->path[0] ? s->path : "", s->note[0] ? " " : "", s->note);
}

static std::string key_of(const Slot* s) { std::string k = g_suite; k += s->path; if (s->note[0]) { k += " "; k += s->note; } return k; }

static void record(const Slot* s, const std::string& batchpath, const char* kind, const std::string& msg)
{
    std::string key = key_of(s);
    bool known = false;
    for (auto& p : g_known) if (p == key || fnmatch(p.c_str(), key.c_str(), 0) == 0) { known = true; break; }
    int r = S->raw++;
    if (!known) { int u = S->unknown++; if (u + 1 >= MAXUNKNOWN) S->stop = 1; if (u >= MAXUNKNOWN * 2) return; }
    if (r > MAXRAW) return;
    // one line: known \t suite \t choices \t batch \t key \t kind \t msg \t steps
    std::string line = known ? "K\t" : "V\t"; line += g_suite + "\t";
    for (size_t i = 0; i < g_choices.size(); i++) line += (i ? "," : "") + std::to_string(g_choices[i]);
    line += "\t" + batchpath + "\t" + key + "\t" + kind + "\t";
    for (char c : msg) line += (c == '\n' || c == '\t') ? ' ' : c;
    line += "\t"; for (const char* c = s->step; *c; c++) line += (*c == '\n' || *c == '\t') ? ' ' : *c;
    line += "\n";
    if (write(g_vfd, line.data(), line.size()) < 0) {}
}

static std::string g_batchpath;
bool fail(const char* fmt, ...)
{
    char b[1500]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    me->fails++;
    if (me->fails == 1) record(me, g_batchpath, "oracle", b);
    return false;
}

static void arm()
{
    struct itimerval it = {}; it.it_value.tv_sec = g_cpu; setitimer(ITIMER_VIRTUAL, &it, 0);
}
void set_cpu_limit(int s) { g_cpu = s; arm(); }

static std::string crash_text(pid_t pid, int st)
{
    std::string t;
    if (WIFSIGNALED(st)) t = WTERMSIG(st) == SIGVTALRM ? std::string("hang (cpu limit)") : sfmt("signal %d", WTERMSIG(st));
    else t = sfmt("exit status %d", WEXITSTATUS(st));
    std::string fn = g_work + "/asan." + std::to_string(pid);
    if (FILE* f = fopen(fn.c_str(), "r")) {
        char l[1000]; int fr = 0;
        while (fgets(l, sizeof l, f)) {
            l[strcspn(l, "\n")] = 0;
            if (char* p = strstr(l, "ERROR: AddressSanitizer")) t += std::string(" ") + std::string(p).substr(7, 120);
            else if (strstr(l, "of size") && strstr(l, "at 0x")) t += std::string(" ") + std::string(l).substr(0, 40);
            else if (strstr(l, "    #") && fr < 6) { char* p = strstr(l, " in "); if (p && !strstr(l, "libasan") && !strstr(l,"interceptor")) { std::string s(p + 4); size_t q = s.find(" ("); if (q != s.npos) s = s.substr(0, q); size_t r = s.rfind('/'); size_t sp = s.find(' '); if (r != s.npos && sp != s.npos) s = s.substr(0, sp + 1) + s.substr(r + 1); t += " <" + s + ">"; fr++; } }
        }
        fclose(f); unlink(fn.c_str());
    }
    return t;
}

[[noreturn]] static void quit(int c) { fflush(stdout); fflush(stderr); _exit(c); }

[[noreturn]] void leaf()
{
    S->leaves++; sample_now(me);
    quit(0);
}

static void reap(std::map<pid_t, std::pair<Slot*, bool>>& kids, std::map<pid_t,int>& idx, bool block_all, pid_t one)
{
    while (!kids.empty()) {
        int st; pid_t p = waitpid(one ? one : -1, &st, (block_all || one) ? 0 : WNOHANG);
        if (p == 0) return;
        if (p < 0) { if (errno == EINTR) continue; return; }
        auto it = kids.find(p); if (it == kids.end()) continue;
        Slot* s = it->second.first; bool tok = it->second.second;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            std::string m = crash_text(p, st);
            g_choices.push_back(idx[p]);
            record(s, "", "crash", m);
            g_choices.pop_back();
        }
        if (tok) S->tokens++;
        s->used = 0;
        kids.erase(it);
        if (one) return;
    }
}

int choose(const std::vector<std::string>& names)
{
    int n = (int)names.size();
    if (replaying) {
        if (r_pos >= r_choices.size()) { quit(0); }
        int c = r_choices[r_pos++];
        if (c < 0 || c >= n) { fprintf(stderr, "replay divergence: choice %d of %d\n", c, n); quit(4); }
        g_choices.push_back(c); g_path += ">" + names[c];
        snprintf(me->path, sizeof me->path, "%s", g_path.c_str());
        return c;
    }
    if (me->fails) quit(0);      // do not explore beyond a violation
    S->nodes++;
    std::map<pid_t, std::pair<Slot*, bool>> kids; std::map<pid_t,int> idx;
    for (int i = 0; i < n && !stopped(); i++) {
        S->trans++;
        bool tok = false; int t = S->tokens.load();
        while (t > 0 && !tok) tok = S->tokens.compare_exchange_weak(t, t - 1);
        if (i == n - 1 && tok) { S->tokens++; tok = false; }
        Slot* s = get_slot();
        s->fails = 0; snprintf(s->note, NOTE, "%s", me->note); snprintf(s->step, sizeof s->step, "%s", me->step);
        std::string np = g_path + ">" + names[i];
        snprintf(s->path, sizeof s->path, "%s", np.c_str());
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p < 0) { s->used = 0; if (tok) S->tokens++; S->trans--; usleep(20000); i--; reap(kids, idx, false, 0); continue; }
        if (p == 0) { me = s; g_path = np; g_choices.push_back(i); arm(); return i; }
        kids[p] = {s, tok}; idx[p] = i;
        if (!tok) reap(kids, idx, false, p); else reap(kids, idx, false, 0);
    }
    reap(kids, idx, true, 0);
    quit(0);
}
int choose(int n, const char* label)
{
    std::vector<std::string> v; for (int i = 0; i < n; i++) v.push_back(std::string(label) + std::to_string(i));
    return choose(v);
}

void batch(const char* name, uint64_t n, const std::function<void(uint64_t)>& f, uint64_t chunk)
{
    if (replaying) {
        if (!r_has_batch || r_batch != name) return;
        for (uint64_t i = r_from; i <= r_to && i < n; i++) { me->fails = 0; me->note[0] = 0; me->step[0] = 0; arm(); g_batchpath = sfmt("%s:%llu:%llu", name, (unsigned long long)i, (unsigned long long)i); f(i); }
        return;
    }
    if (me->fails) return;
    if (!chunk) { chunk = n / (g_jobs * 16) + 1; if (chunk > 4000) chunk = 4000; }
    S->next = 0;
    struct W { Slot* s; uint64_t start, end; };
    std::map<pid_t, W> ws;
    auto spawn = [&](uint64_t from, uint64_t start, uint64_t end) {
        Slot* s = get_slot(); s->batch_i = from; snprintf(s->path, sizeof s->path, "%s", g_path.c_str());
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p < 0) { s->used = 0; return false; }
        if (p == 0) {
            me = s;
            for (uint64_t i = from; i < end && !stopped(); i++) {
                me->batch_i = i; me->fails = 0; me->note[0] = 0; me->step[0] = 0; arm();
                g_batchpath = sfmt("%s:%llu:%llu", name, (unsigned long long)start, (unsigned long long)i);
                f(i);
                S->cases++; sample_now(me);
            }
            quit(0);
        }
        ws[p] = {s, start, end};
        return true;
    };
    uint64_t pos = 0;
    while (true) {
        while ((int)ws.size() < g_jobs && pos < n && !stopped()) {
            uint64_t e = pos + chunk < n ? pos + chunk : n;
            if (!spawn(pos, pos, e)) { if (ws.empty()) usleep(20000); break; }
            pos = e;
        }
        if (ws.empty()) { if (pos >= n || stopped()) break; continue; }
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        auto it = ws.find(p); if (it == ws.end()) continue;
        W w = it->second; ws.erase(it);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            std::string m = crash_text(p, st);
            uint64_t i = w.s->batch_i;
            record(w.s, sfmt("%s:%llu:%llu", name, (unsigned long long)w.start, (unsigned long long)i), "crash", m);
            S->cases++;
            w.s->used = 0;
            if (i + 1 < w.end) while (!spawn(i + 1, i + 1, w.end)) usleep(20000);
        } else w.s->used = 0;
    }
}

void seqs(const char* name, const std::vector<std::string>& names, int depth, const std::function<void(const std::vector<int>&)>& f)
{
    uint64_t n = 1; for (int i = 0; i < depth; i++) n *= names.size();
    batch(name, n, [&](uint64_t q) {
        std::vector<int> s(depth); std::string t; uint64_t r = q;
        for (int i = depth - 1; i >= 0; i--) { s[i] = r % names.size(); r /= names.size(); }
        for (int i = 0; i < depth; i++) t += (i ? ">" : "") + names[s[i]];
        note("%s", t.c_str()); transition(depth); f(s);
    });
}

static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) o += sfmt("\\u%04x", c); else o += c; } return o; }

} // namespace mc
using namespace mc;

// usage: check --prop ID --tier quick|thorough --work DIR --out FILE --viol FILE --known FILE --budget SECONDS [--suite NAME]
//        check --replay "suite|choices|batch" ...
int main(int argc, char** argv)
{
    std::string out, viol, known, replay, only; double budget = 600; 
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--prop") g_prop = v; else if (a == "--tier") thorough = v == "thorough";
        else if (a == "--work") g_work = v; else if (a == "--out") out = v; else if (a == "--viol") viol = v;
        else if (a == "--known") known = v; else if (a == "--budget") budget = atof(v.c_str());
        else if (a == "--replay") replay = v; else if (a == "--suite") only = v; else if (a == "--seed") seed = atoi(v.c_str());
        else if (a == "--jobs") g_jobs = atoi(v.c_str());
    }
    if (!known.empty()) if (FILE* f = fopen(known.c_str(), "r")) { char l[4000]; while (fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; if (l[0]) g_known.push_back(l); } fclose(f); }
    S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    g_vfd = open(viol.empty() ? "/dev/stdout" : viol.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    signal(SIGPIPE, SIG_IGN);
    me = get_slot();
    if (!replay.empty()) {
        replaying = true; S->deadline = now() + 1e9;
        size_t a = replay.find('|'), b = replay.find('|', a + 1);
        std::string su = replay.substr(0, a), ch = replay.substr(a + 1, b - a - 1), ba = replay.substr(b + 1);
        g_suite = su;
        for (size_t p = 0; p < ch.size();) { r_choices.push_back(atoi(ch.c_str() + p)); p = ch.find(',', p); if (p == ch.npos) break; p++; }
        if (!ba.empty()) { size_t q = ba.rfind(':'), p = ba.rfind(':', q - 1); r_batch = ba.substr(0, p); r_from = strtoull(ba.c_str() + p + 1, 0, 10); r_to = strtoull(ba.c_str() + q + 1, 0, 10); r_has_batch = true; }
        pid_t pid = fork();
        if (pid == 0) { arm(); for (auto& s : suites()) if (su == s.name) { s.fn(); } quit(0); }
        int st; waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { if (WIFEXITED(st) && WEXITSTATUS(st) == 4) return 4; std::string m = crash_text(pid, st); S->raw++; g_choices = r_choices; std::string line = "V\t" + g_suite + "\t" + ch + "\t" + ba + "\t" + key_of(me) + "\tcrash\t" + m + "\t\n"; if (write(g_vfd, line.data(), line.size()) < 0) {} }
        return S->raw.load() ? 1 : 0;
    }
    double t0 = now();
    std::string js = "{\"suites\":[";
    uint64_t tot_n = 0, tot_t = 0, tot_l = 0, tot_e = 0, tot_c = 0; bool first = true; bool anycap = false;
    int nrun = 0; for (auto& s : suites()) if ((only.empty() || only == s.name) && !(s.tier == 1 && !thorough)) nrun++;
    for (auto& s : suites()) {
        if (!only.empty() && only != s.name) continue;
        if (s.tier == 1 && !thorough && only.empty()) continue;
        double left = budget - (now() - t0);
        S->nodes = S->trans = S->leaves = S->evals = S->cases = 0; uint64_t d0 = S->distinct.load(); S->tokens = g_jobs - 1; S->stop = 0; S->capped = 0; S->unknown = 0;
        // a suite may use what is left, but at least 40% of an equal share of the rest is kept for the later ones
        double share = nrun > 1 ? left * 0.7 : left; S->deadline = now() + (share > 5 ? share : 5);
        nrun--;
        g_suite = s.name; double t1 = now();
        fflush(stdout);
        Slot* sl = get_slot();
        pid_t pid = fork();
        if (pid == 0) { me = sl; arm(); s.fn(); S->leaves += 1; quit(0); }
        int st; waitpid(pid, &st, 0);
        // body returned inside children as well: they ran through here as leaves
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) record(sl, "", "crash", crash_text(pid, st));
        sl->used = 0;
        if (S->capped) anycap = true;
        js += sfmt("%s{\"name\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"executions\":%llu,\"cases\":%llu,\"evaluations\":%llu,\"distinct_outcomes\":%llu,\"capped\":%s,\"wall_s\":%.2f}", first ? "" : ",", s.name,
            (unsigned long long)S->nodes, (unsigned long long)S->trans, (unsigned long long)S->leaves, (unsigned long long)S->cases, (unsigned long long)S->evals, (unsigned long long)(S->distinct - d0), S->capped ? "true" : "false", now() - t1);
        first = false; tot_n += S->nodes; tot_t += S->trans; tot_l += S->leaves; tot_e += S->evals; tot_c += S->cases;
    }
    js += sfmt("],\"states\":%llu,\"transitions\":%llu,\"executions\":%llu,\"cases\":%llu,\"evaluations\":%llu,\"distinct\":%llu,\"capped\":%s,\"wall_s\":%.2f,\"samples\":[", (unsigned long long)tot_n, (unsigned long long)tot_t, (unsigned long long)tot_l, (unsigned long long)tot_c, (unsigned long long)tot_e, (unsigned long long)S->distinct, anycap ? "true" : "false", now() - t0);
    int ns = S->samples.load(); if (ns > 24) ns = 24;
    for (int i = 0; i < ns; i++) js += (i ? ",\"" : "\"") + jesc(S->sample[i]) + "\"";
    js += "]}\n";
    if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); if (f) { fputs(js.c_str(), f); fclose(f); } } else fputs(js.c_str(), stdout);
    return 0;
}
