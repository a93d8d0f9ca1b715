#include "vp.h"
#include <samurai/list_of_intervals.hpp>
using LOI = samurai::ListOfIntervals<int>; using I = samurai::Interval<int>;
#ifndef N
#define N 3
#endif
extern "C" void vp_main()
{
    // an arbitrary canonical list of n<=N intervals
    LOI l; int n = (int)vp_concretize(vp_int(0, N, "n"));
    int s[N], e[N];
    const int B = 1 << 29;
    auto it = l.before_begin();
    for (int i = 0; i < n; i++) {
        s[i] = vp_int(-B, B, "s"); e[i] = vp_int(-B, B, "e");
        vp_assume(s[i] < e[i]); if (i) vp_assume(e[i - 1] < s[i]);
        l.add_interval({s[i], e[i]});
    }
    int a = vp_int(-B, B, "a"), b = vp_int(-B, B, "b");
    l.add_interval({a, b});
    int p = vp_int(-B - 1, B + 1, "p");
    bool want = AND(a <= p, p < b);
    for (int i = 0; i < n; i++) want = OR(want, AND(s[i] <= p, p < e[i]));
    bool got = false; bool first = true; int pe = 0; bool canon = true; int cnt = 0;
    for (auto& x : l) { got = OR(got, AND(x.start <= p, p < x.end)); canon = AND(canon, x.start < x.end); if (!first) canon = AND(canon, pe < x.start); first = false; pe = x.end; cnt++; vp_observe_i(x.start); vp_observe_i(x.end); }
    vp_assert(got == want, "loi.union"); vp_assert(canon, "loi.canonical"); vp_assert((int)l.size() == cnt, "loi.size");
}
