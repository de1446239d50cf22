// Trusted models of the out-of-line parts of libstdc++ that exist only as binaries here
// (tree rebalancing, list hooks).  Semantics: ordered insertion/removal without rebalancing.
#pragma once
#include <map>
#include <list>
#include <set>
#include <string>
#include <ostream>
namespace std {
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
	if(x->_M_right) { x = x->_M_right; while(x->_M_left) x = x->_M_left; return x; }
	_Rb_tree_node_base *y = x->_M_parent;
	while(x == y->_M_right) { x = y; y = y->_M_parent; }
	if(x->_M_right != y) x = y;
	return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
	if(x->_M_color == _S_red and x->_M_parent and x->_M_parent->_M_parent == x) return x->_M_right;
	if(x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while(y->_M_right) y = y->_M_right; return y; }
	_Rb_tree_node_base *y = x->_M_parent;
	while(x == y->_M_left) { x = y; y = y->_M_parent; }
	return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
// header is red, nodes are black: decrement(header) is recognised by colour as in libstdc++
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) throw() {
	x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
	if(left) {
		p->_M_left = x;
		if(p == &header) { header._M_parent = x; header._M_right = x; }
		else if(p == header._M_left) header._M_left = x;
	} else {
		p->_M_right = x;
		if(p == header._M_right) header._M_right = x;
	}
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) throw() {
	_Rb_tree_node_base *next = _Rb_tree_increment(z);
	_Rb_tree_node_base *prev = (header._M_right == z and header._M_left != z) ? _Rb_tree_decrement(z) : 0;
	_Rb_tree_node_base *r; // replacement subtree
	if(not z->_M_left) r = z->_M_right;
	else if(not z->_M_right) r = z->_M_left;
	else {
		_Rb_tree_node_base *y = z->_M_right; while(y->_M_left) y = y->_M_left;
		if(y != z->_M_right) { y->_M_parent->_M_left = y->_M_right; if(y->_M_right) y->_M_right->_M_parent = y->_M_parent; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
		y->_M_left = z->_M_left; z->_M_left->_M_parent = y;
		r = y;
	}
	if(r) r->_M_parent = z->_M_parent;
	if(header._M_parent == z) header._M_parent = r;
	else if(z->_M_parent->_M_left == z) z->_M_parent->_M_left = r;
	else z->_M_parent->_M_right = r;
	if(header._M_left == z) header._M_left = header._M_parent ? next : &header;
	if(header._M_right == z) header._M_right = header._M_parent ? prev : &header;
	return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
	if(this != l) {
		l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
		_List_node_base *const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
	}
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
	if(x._M_next != &x) {
		if(y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
		else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
	} else if(y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}
}
