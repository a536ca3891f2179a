// The parts of std::string, the ordered and the hashed containers that libstdc++ keeps in its shared library.
#include <string>
#include <map>
#include <unordered_map>
#include <list>
template class std::basic_string<char>;
namespace std {
typedef _Rb_tree_node_base N;
static N* inc(N* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } N* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
static N* dec(N* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // the header
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; } N* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
N* _Rb_tree_increment(N* x) throw() { return inc(x); }
const N* _Rb_tree_increment(const N* x) throw() { return inc(const_cast<N*>(x)); }
N* _Rb_tree_decrement(N* x) throw() { return dec(x); }
const N* _Rb_tree_decrement(const N* x) throw() { return dec(const_cast<N*>(x)); }
// a search tree in the same order, not balanced; every node but the header is black
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
N* _Rb_tree_rebalance_for_erase(N* const z, N& h) throw() {
  N* nx = inc(z); if (h._M_left == z) h._M_left = nx; if (h._M_right == z) h._M_right = h._M_parent == z && !z->_M_left ? &h : dec(z);
  auto put = [&](N* a, N* b) { if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
  if (!z->_M_left) put(z, z->_M_right); else if (!z->_M_right) put(z, z->_M_left);
  else { N* m = z->_M_right; while (m->_M_left) m = m->_M_left;
    if (m->_M_parent != z) { put(m, m->_M_right); m->_M_right = z->_M_right; m->_M_right->_M_parent = m; } put(z, m); m->_M_left = z->_M_left; m->_M_left->_M_parent = m; }
  return z;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t P[] = {1, 2, 5, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061, 712697, 1447153}; size_t b = 0; for (int i = 0; i < 20; i++) if (P[i] >= n) { b = P[i]; break; } if (!b) b = n | 1; _M_next_resize = b; return b; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const { if (elt + ins <= _M_next_resize) return {false, 0}; if (elt + ins < bkt) { _M_next_resize = bkt; return {false, 0}; } size_t want = elt + ins + 1; if (want < 11 && !_M_next_resize) want = 11; if (want < 2 * bkt) want = 2 * bkt; return {true, _M_next_bkt(want)}; }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this == l) return; l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* b = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull; return h; }
}
