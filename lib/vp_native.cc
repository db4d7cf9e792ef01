// Native side of vp.h: concrete inputs from $VP_INPUT, assertions in double.
#include "vp.h"
#include <atomic>
#include <chrono>
#include <shared_mutex>
#include <thread>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
struct Uf { std::string n; double x, y, v; };
static std::map<std::string, double> R;
static std::map<std::string, long> I;
static std::vector<Uf> U;
static std::map<std::string, int> names;
static std::map<std::string, long> PRM;
static bool loaded = false;
static double TOL = 1e-7;
static int fails = 0, checks = 0;
static bool stop1 = false;
static void load() {
    if (loaded) return;
    loaded = true;
    const char* t = getenv("VP_TOL");
    if (t) TOL = atof(t);
    const char* f = getenv("VP_INPUT");
    if (!f) return;
    FILE* fp = fopen(f, "r");
    if (!fp) { fprintf(stderr, "VP: cannot open %s\n", f); exit(3); }
    char k[16], n[256];
    while (fscanf(fp, "%15s %255s", k, n) == 2) {
        if (!strcmp(k, "real")) { double v; if (fscanf(fp, "%lf", &v)==1) R[n] = v; }
        else if (!strcmp(k, "uf")) { Uf u; u.n = n; if (fscanf(fp, "%lf %lf %lf", &u.x,&u.y,&u.v)==3) U.push_back(u); }
        else if (!strcmp(k, "param")) { long v; if (fscanf(fp, "%ld", &v)==1) PRM[n] = v; }
        else { long v; if (fscanf(fp, "%ld", &v)==1) I[n] = v; }
    }
    fclose(fp);
}
static std::string uniq(const char* n) {
    int k = names[n]++;
    if (!k) return n;
    return std::string(n) + "#" + std::to_string(k);
}
static void fail(const char* id, const char* what, double a, double b) {
    ++fails;
    printf("VP-FAIL %s (%s) %.17g %.17g\n", id, what, a, b);
    fflush(stdout);
}
extern "C" {
double vp_real(const char* n, double lo, double hi) {
    load(); std::string s = uniq(n);
    auto i = R.find(s);
    double v = i == R.end() ? lo + 0.37 * (hi - lo) : i->second;
    return v < lo ? lo : v > hi ? hi : v;
}
long vp_int(const char* n, long lo, long hi) {
    load(); std::string s = uniq(n);
    auto i = I.find(s);
    long v = i == I.end() ? lo : i->second;
    return v < lo ? lo : v > hi ? hi : v;
}
long vp_choice(const char* n, long lo, long hi) { return vp_int(n, lo, hi); }
long vp_param(const char* n, long d) { load(); auto i = PRM.find(n); return i == PRM.end() ? d : i->second; }
void vp_assume(bool c) { if (!c) { if (fails) exit(1); printf("VP-ASSUME-FALSE\n"); exit(4); } }
bool vp_split(bool c) { return c; }
void vp_assert(bool c, const char* id) { ++checks; if (!c) fail(id, "assert", 0, 0); }
void vp_eq(double a, double b, const char* id) {
    ++checks;
    if (std::isnan(a) && std::isnan(b)) return;
    if (a == b) return;
    double s = fmax(1.0, fmax(fabs(a), fabs(b)));
    if (!(fabs(a - b) <= TOL * s)) fail(id, "eq", a, b);
}
void vp_eq_scale(double a, double b, double sc, const char* id) {
    ++checks;
    if (std::isnan(a) && std::isnan(b)) return;
    if (a == b) return;
    if (!(fabs(a - b) <= TOL * fabs(sc))) fail(id, "eq", a, b);
}
void vp_le(double a, double b, const char* id) {
    ++checks;
    double s = fmax(1.0, fmax(fabs(a), fabs(b)));
    if (!(a - b <= TOL * s)) fail(id, "le", a, b);
}
bool vp_isnum(double a) { return std::isfinite(a); }
void vp_cover(const char*) {}
void vp_reach(const char* id) { ++checks; fail(id, "reach", 0, 0); }
void vp_domain(long) {}
void vp_observe(const char* id, double v) { printf("VP-OBS %s %.17g\n", id, v); }
void vp_trace(const char* id, double v) { fprintf(stderr, "VP-TRACE %s %.17g\n", id, v); }
void vp_done(void) { printf("VP-DONE checks=%d fails=%d\n", checks, fails); fflush(stdout); exit(fails ? 1 : 0); }
int vp_locks_held(void) { return 0; }
int vp_hold(void* lock, long write, void (*fn)(void*), void* arg) {
    std::shared_mutex& m = *(std::shared_mutex*)lock;
    std::atomic<bool> done(false);
    if (write & 1) m.lock(); else m.lock_shared();
    std::thread t([&] { fn(arg); done = true; });
    for (int n = 0; n < 300 && !done; ++n) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    int r = done ? 2 : 1;
    if (write & 1) m.unlock(); else m.unlock_shared();
    t.join();
    return r;
}
void vp_unhold(void*) {}
bool vp_free(void* lock) {
    std::shared_mutex& m = *(std::shared_mutex*)lock;
    bool ok = false;
    std::thread t([&] { ok = m.try_lock(); if (ok) m.unlock(); });
    t.join();
    return ok;
}
double vp_uf(const char* n, double x, double y, double lo, double hi) {
    load();
    const Uf* best = nullptr; double bd = 0;
    for (auto& u : U) if (u.n == n) {
        double d = fabs(u.x - x) / (1 + fabs(u.x)) + fabs(u.y - y) / (1 + fabs(u.y));
        if (!best || d < bd) { best = &u; bd = d; }
    }
    double ph = 0; for (const char* c = n; *c; ++c) ph = ph * 1.7 + *c;
    double v = best && bd < 1e-6 ? best->v : lo + (hi - lo) * (0.5 + 0.4 * sin(x * 0.7 + y * 1.3 + ph));
    return v < lo ? lo : v > hi ? hi : v;
}
}
int main() {
    load();
    setvbuf(stdout, nullptr, _IOLBF, 0);
    try { h_main(); }
    catch (...) { printf("VP-FAIL exception:uncaught (throw) 0 0\n"); fflush(stdout); return 1; }
    vp_done();
}
