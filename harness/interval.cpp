// Interval algebra: every operation yields exactly (shift, translate, refine, parity) or the smallest covering
// (coarsen, divide) set of coordinates. Full-range symbolic endpoints.
#include "vp.h"
#include <samurai/interval.hpp>
#include <samurai/samurai_config.hpp>
using I = samurai::default_config::interval_t;
static const int B = 1 << 24;
// x is one of the coordinates the interval stands for (start, start+step, ... < end)
static bool has(const I& i, int x) { return AND(AND(i.start <= x, x < i.end), i.step == 1 ? true : (((x - i.start) & (i.step - 1)) == 0)); }

extern "C" void vp_main()
{
    int a = vp_int(-B, B, "start"), b = vp_int(-B, B, "end"), x = vp_int(-2 * B, 2 * B, "x");
    int64_t idx = vp_int(-B, B, "index");
    I i{a, b, static_cast<I::index_t>(idx)};
    vp_assert(i.step == 1, "interval.default-step");
    vp_assert(i.is_valid() == (a < b), "interval.is-valid");
    vp_assert(i.contains(x) == AND(a <= x, x < b), "interval.contains");
    vp_assume(a < b);
    vp_assert(i.size() == static_cast<std::size_t>(b - a), "interval.size");
    int op = (int)vp_concretize(vp_int(0, 9, "op"));
    int k  = vp_int(-B, B, "k");
    I r, r2 = i;
    switch (op)
    {
        case 0: r = i + k; r2 += k; vp_assert(has(r, x) == has(i, x - k), "interval.add"); { I s = k + i; vp_assert(s == r, "interval.add-commutes"); } break;
        case 1: r = i - k; r2 -= k; vp_assert(has(r, x) == has(i, x + k), "interval.sub"); break;
        case 2: // refine by n levels: x is in iff its ancestor is
        {
            std::size_t n = (std::size_t)vp_concretize(vp_int(0, 6, "n"));
            r = i << n; r2 <<= n;
            vp_assert(has(r, x) == has(i, x >> n), "interval.refine");
            vp_assert((r >> n) == i, "interval.refine-coarsen");
            break;
        }
        case 3: // coarsen by n levels: smallest interval covering
        {
            std::size_t n = (std::size_t)vp_concretize(vp_int(0, 24, "n"));
            r = i >> n; r2 >>= n;
            vp_assert(IMP(has(i, x), has(r, x >> n)), "interval.coarsen-covers");
            vp_assert(AND(r.start == (i.start >> n), r.end == ((i.end - 1) >> n) + 1), "interval.coarsen-smallest");
            break;
        }
        case 4:
        {
            int m = (int)vp_concretize(vp_int(1, 9, "m"));
            r = i * m; r2 *= m;
            vp_assert(AND(AND(r.start == m * a, r.end == m * b), r.step == m), "interval.scale");
            { I s = m * i; vp_assert(s == r, "interval.scale-commutes"); }
            break;
        }
        case 5: // smallest interval at the coarser scale containing the real interval
        {
            int m = (int)vp_concretize(vp_int(1, 9, "m"));
            r = i / m; r2 /= m;
            vp_assert(AND(r.start * m <= a, a < (r.start + 1) * m), "interval.div-start");
            vp_assert(AND((r.end - 1) * m < b, b <= r.end * m), "interval.div-end");
            vp_assert(r.step == 1, "interval.div-step");
            break;
        }
        case 6: r = r2 = i.even_elements(); vp_assert(has(r, x) == AND(has(i, x), (x & 1) == 0), "interval.even"); vp_assert(r.step == 2, "interval.even-step"); break;
        case 7: r = r2 = i.odd_elements(); vp_assert(has(r, x) == AND(has(i, x), (x & 1) == 1), "interval.odd"); vp_assert(r.step == 2, "interval.odd-step"); break;
        case 8: // total order used to sort intervals, equality
        {
            I j{vp_int(-B, B, "s2"), vp_int(-B, B, "e2"), static_cast<I::index_t>(idx)};
            vp_assert((i == j) == AND(a == j.start, b == j.end), "interval.equal");
            vp_assert((i != j) == !(i == j), "interval.not-equal");
            vp_assert((i < j) == (a < j.start), "interval.less");
            r = i;
            break;
        }
        default:
        {
            I j{a, b, static_cast<I::index_t>(idx + 1)}; // the storage index takes part in equality
            vp_assert(!(i == j), "interval.equal-index");
            r = i;
        }
    }
    vp_assert(r == r2, "interval.assign-form");
    vp_assert(r.index == i.index, "interval.index-kept");
    vp_observe_i(r.start); vp_observe_i(r.end); vp_observe_i(r.step);
}
