// Guest-side replacements for the out-of-line parts of libstdc++ used by the harnesses
// (compiled to bitcode and linked with the harness).
#include <cstddef>
#include <cstdint>
#include <list>
#include <map>
#include <string>
#include <unordered_map>
#include <utility>
namespace std
{
    // ---- red-black trees: algorithm of libstdc++'s tree.cc
    static _Rb_tree_node_base* inc(_Rb_tree_node_base* x)
    {
        if (x->_M_right != 0) { x = x->_M_right; while (x->_M_left != 0) x = x->_M_left; }
        else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
        return x;
    }
    static _Rb_tree_node_base* dec(_Rb_tree_node_base* x)
    {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
        else if (x->_M_left != 0) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right != 0) y = y->_M_right; x = y; }
        else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
        return x;
    }
    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
    const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
    const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
    static void rotl(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root)
    {
        _Rb_tree_node_base* const y = x->_M_right;
        x->_M_right = y->_M_left; if (y->_M_left != 0) y->_M_left->_M_parent = x;
        y->_M_parent = x->_M_parent;
        if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
        y->_M_left = x; x->_M_parent = y;
    }
    static void rotr(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root)
    {
        _Rb_tree_node_base* const y = x->_M_left;
        x->_M_left = y->_M_right; if (y->_M_right != 0) y->_M_right->_M_parent = x;
        y->_M_parent = x->_M_parent;
        if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
        y->_M_right = x; x->_M_parent = y;
    }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw()
    {
        _Rb_tree_node_base*& root = header._M_parent;
        x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
        if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
        else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
        while (x != root && x->_M_parent->_M_color == _S_red)
        {
            _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
            if (x->_M_parent == xpp->_M_left)
            {
                _Rb_tree_node_base* const y = xpp->_M_right;
                if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
                else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); }
            }
            else
            {
                _Rb_tree_node_base* const y = xpp->_M_left;
                if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
                else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); }
            }
        }
        root->_M_color = _S_black;
    }
    _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw()
    {
        _Rb_tree_node_base*& root = header._M_parent; _Rb_tree_node_base*& leftmost = header._M_left; _Rb_tree_node_base*& rightmost = header._M_right;
        _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0; _Rb_tree_node_base* xp = 0;
        if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left != 0) y = y->_M_left; x = y->_M_right; }
        if (y != z)
        {
            z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
            if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
            else xp = y;
            if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
            y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
        }
        else
        {
            xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
            if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
            if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_left != 0) m = m->_M_left; leftmost = m; } }
            if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_right != 0) m = m->_M_right; rightmost = m; } }
        }
        if (y->_M_color != _S_red)
        {
            while (x != root && (x == 0 || x->_M_color == _S_black))
                if (x == xp->_M_left)
                {
                    _Rb_tree_node_base* w = xp->_M_right;
                    if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
                    if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                    else
                    {
                        if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
                        w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break;
                    }
                }
                else
                {
                    _Rb_tree_node_base* w = xp->_M_left;
                    if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
                    if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                    else
                    {
                        if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
                        w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break;
                    }
                }
            if (x) x->_M_color = _S_black;
        }
        return y;
    }
    namespace __detail
    {
        void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
        void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = this->_M_next; _List_node_base* const p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
        void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
        {
            if (this != last)
            {
                last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
                _List_node_base* const tmp = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
            }
        }
        void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
        {
            if (x._M_next != &x)
            {
                if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
                else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
            }
            else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
        }
        static size_t nextb(size_t n) { static const size_t t[] = {2, 3, 5, 7, 11, 13, 17, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061}; for (size_t p : t) if (p >= n) return p; return 712697; }
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p = nextb(n); _M_next_resize = p; return p; }
        std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const
        {
            if (n_elt + n_ins > _M_next_resize) { size_t m = n_elt + n_ins; if (_M_next_resize == 0 && m < 11) m = 11; if (m >= n_bkt) { size_t g = m + 1; if (g < 2 * n_bkt) g = 2 * n_bkt; return {true, _M_next_bkt(g)}; } _M_next_resize = n_bkt; return {false, 0}; }
            return {false, 0};
        }
    }
    size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) h = h * 131 + c[i]; return h; }
#define T(name, sig) void name sig { throw 1; }
    T(__throw_length_error, (const char*)) T(__throw_logic_error, (const char*)) T(__throw_out_of_range, (const char*)) T(__throw_invalid_argument, (const char*)) T(__throw_runtime_error, (const char*)) T(__throw_bad_alloc, ()) T(__throw_bad_array_new_length, ()) T(__throw_bad_function_call, ()) T(__throw_bad_cast, ()) T(__throw_bad_optional_access, ())
    void __throw_out_of_range_fmt(const char*, ...) { throw 1; }
}
extern "C" void __clang_call_terminate(void*) { __builtin_trap(); }
// message formatting is not modelled (every formatted message is empty) unless the harness brings the header-only fmt
#include <string>
inline std::string vp_rt_vformat(const char*, unsigned long, unsigned long, const void*) asm("_ZN3fmt2v97vformatB5cxx11ENS0_17basic_string_viewIcEENS0_17basic_format_argsINS0_20basic_format_contextINS0_8appenderEcEEEE");
__attribute__((used)) inline std::string vp_rt_vformat(const char*, unsigned long, unsigned long, const void*) { return std::string(); }
// the members of std::string (libstdc++ keeps them in its library)
template class std::__cxx11::basic_string<char>;
