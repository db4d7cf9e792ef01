/* VP_SYM only: IR for the libstdc++ functions that live in libstdc++.so */
#pragma once
#include <list>
#include <string>
#include <map>
#include <unordered_map>
namespace std {
static inline _Rb_tree_node_base* vp_inc(_Rb_tree_node_base* x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y; }
    return x;
}
static inline _Rb_tree_node_base* vp_dec(_Rb_tree_node_base* x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left;
        while (y->_M_right) y = y->_M_right; x = y; }
    else { _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return vp_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return vp_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return vp_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return vp_dec(const_cast<_Rb_tree_node_base*>(x)); }
// Unbalanced insertion/removal: the search-tree order is all that callers see.
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x,
        _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) { p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z,
        _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base*& root = h._M_parent;
    _Rb_tree_node_base*& lm = h._M_left;
    _Rb_tree_node_base*& rm = h._M_right;
    _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) {
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
        }
        if (root == z) root = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        y = z;
    } else {
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if (lm == z) { if (!z->_M_right) lm = z->_M_parent;
            else { lm = x; while (lm->_M_left) lm = lm->_M_left; } }
        if (rm == z) { if (!z->_M_left) rm = z->_M_parent;
            else { rm = x; while (rm->_M_right) rm = rm->_M_right; } }
    }
    return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
    _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept {
    _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
    if (this != l) {
        l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
        _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x; } }
    else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev;
        x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
void _List_node_base::_M_reverse() noexcept {
    _List_node_base* t = this;
    do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
    static const size_t p[] = {2,5,11,13,29,59,127,257,541,1109};
    for (size_t q : p) if (q >= n) { _M_next_resize = (size_t)(q * 1.0); return q; }
    return n | 1; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const {
    if (ne + ni > _M_next_resize) {
        size_t want = ne + ni; if (want < 11 && _M_next_resize == 0) want = 11;
        if (want >= nb) return {true, _M_next_bkt(want + 1 > nb * 2 ? want + 1 : nb * 2)};
        _M_next_resize = nb; }
    return {false, 0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
    size_t h = seed; const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) h = h * 131 + c[i];
    return h; }
}
