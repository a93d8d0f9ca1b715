// Native implementation of the harness API: replays one assignment.
// usage: prog inputs.txt   (one "name value" per line, in call order)
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unistd.h>
#include <exception>
static std::vector<std::pair<std::string, std::string>> in; static size_t pos = 0; static int expectT = 0; static bool bad = false;
static const std::string& nxt(const char* n)
{
    if (pos >= in.size()) { fprintf(stdout, "REPLAY-EXHAUSTED %s\n", n); fflush(stdout); _exit(4); }
    if (in[pos].first != n) { fprintf(stdout, "REPLAY-MISMATCH %s %s\n", n, in[pos].first.c_str()); fflush(stdout); _exit(4); }
    return in[pos++].second;
}
extern "C"
{
    int vp_int(int, int, const char* n) { return (int)strtol(nxt(n).c_str(), 0, 10); }
    int64_t vp_long(int64_t, int64_t, const char* n) { return strtoll(nxt(n).c_str(), 0, 10); }
    int vp_bool(const char* n) { return (int)strtol(nxt(n).c_str(), 0, 10); }
    double vp_real(int, const char* n) { return strtod(nxt(n).c_str(), 0); }
    void vp_assume(bool c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); _exit(bad ? 1 : 5); } }
    void vp_assert(bool c, const char* id) { if (!c) { bad = true; printf("ASSERT-FAILED %s\n", id); fflush(stdout); } }
    void vp_close(double a, double b, double tol, const char* id) { if (!(std::fabs(a - b) <= tol)) { bad = true; printf("ASSERT-FAILED %s (%.17g vs %.17g)\n", id, a, b); fflush(stdout); } }
    void vp_cover(const char*) {}
    void vp_observe_i(int64_t v) { printf("OBS %lld\n", (long long)v); }
    void vp_observe_f(double v) { printf("OBS %.17g\n", v); }
    int64_t vp_concretize(int64_t v) { return v; }
    bool vp_fork(bool c) { return c; }
    void vp_select(int) {}
    void vp_expect_throw(int on) { expectT = on; }
    void vp_end() { fflush(stdout); _exit(bad ? 1 : 0); }
}
int main(int argc, char** argv)
{
    FILE* f = fopen(argv[1], "r"); char n[512], v[512];
    if (!f) return 3;
    while (fscanf(f, "%511s %511s", n, v) == 2) in.push_back({n, v});
    fclose(f);
    try { vp_main(); }
    catch (const std::exception& e) { if (!expectT) { bad = true; printf("EXCEPTION %s\n", e.what()); } }
    catch (...) { if (!expectT) { bad = true; printf("EXCEPTION unknown\n"); } }
    fflush(stdout);
    _exit(bad ? 1 : 0);
}
