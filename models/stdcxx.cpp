// Definitions of what the C++ headers leave to the shared library: strings, and the
// nodes of lists, trees and hash tables (order and contents only: the trees are not balanced).
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <list>
#include <set>
#include <unordered_set>
template class std::basic_string<char>;
namespace std
{
namespace __detail
{
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept
{
    if (x._M_next != &x)
    {
        if (y._M_next != &y)
        {
            std::swap(x._M_next, y._M_next);
            std::swap(x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
        }
        else
        {
            y._M_next = x._M_next; y._M_prev = x._M_prev;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x;
        }
    }
    else if (y._M_next != &y) swap(y, x);
}
void _List_node_base::_M_transfer(_List_node_base *first, _List_node_base *last) noexcept
{
    if (this == last) return;
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base *t = this->_M_prev;
    this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept
{
    _List_node_base *t = this;
    do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this);
}
void _List_node_base::_M_hook(_List_node_base *p) noexcept
{
    this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    this->_M_next->_M_prev = this->_M_prev; this->_M_prev->_M_next = this->_M_next;
}
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const
{
    static const unsigned p[] = {2, 3, 5, 7, 11, 13, 17, 29, 37, 53, 97, 193, 389, 769, 1543, 3079, 6151, 12289, 24593, 49157, 98317, 196613, 393241, 786433};
    unsigned r = 786433;
    for (unsigned q : p) if (q >= n) { r = q; break; }
    _M_next_resize = r;
    return r;
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t bkt, std::size_t elt, std::size_t ins) const
{
    if (elt + ins <= bkt) return {false, 0};
    std::size_t n = elt + ins + 1;
    return {true, _M_next_bkt(n > 2 * bkt ? n : 2 * bkt)};
}
}
std::size_t _Hash_bytes(const void *p, std::size_t n, std::size_t seed)
{
    std::size_t h = seed;
    for (std::size_t i = 0; i < n; ++i) h = h * 131 + static_cast<const unsigned char *>(p)[i];
    return h;
}
typedef _Rb_tree_node_base *B;
B _Rb_tree_increment(B x) throw()
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    B y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<B>(x)); }
B _Rb_tree_decrement(B x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; // the header
    if (x->_M_left) { B y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    B y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<B>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, B x, B p, _Rb_tree_node_base &h) throw()
{
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
B _Rb_tree_rebalance_for_erase(B const z, _Rb_tree_node_base &h) throw()
{
    B next = 0, prev = 0;
    if (h._M_left == z) { next = _Rb_tree_increment(z); }
    if (h._M_right == z) { prev = _Rb_tree_decrement(z); }
    auto put = [&](B old, B n) {
        if (h._M_parent == old) h._M_parent = n;
        else if (old->_M_parent->_M_left == old) old->_M_parent->_M_left = n;
        else old->_M_parent->_M_right = n;
        if (n) n->_M_parent = old->_M_parent;
    };
    if (!z->_M_left) put(z, z->_M_right);
    else if (!z->_M_right) put(z, z->_M_left);
    else
    {
        B y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z)
        {
            put(y, y->_M_right);
            y->_M_right = z->_M_right; y->_M_right->_M_parent = y;
        }
        put(z, y);
        y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    if (next) h._M_left = next;
    if (prev) h._M_right = prev;
    if (!h._M_parent) h._M_left = h._M_right = &h;
    return z;
}
}
