// libstdc++ keeps the pointer surgery of std::list in its shared library, out of reach of
// the instrumentation.  These definitions override it so that list updates are simulated,
// race-checked memory accesses like everything else.
#include <list>
#include <bits/stl_list.h>
namespace std { namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) {
            std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
        } else {
            y._M_next = x._M_next; y._M_prev = x._M_prev;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x;
        }
    } else if (y._M_next != &y) {
        x._M_next = y._M_next; x._M_prev = y._M_prev;
        x._M_next->_M_prev = x._M_prev->_M_next = &x;
        y._M_next = y._M_prev = &y;
    }
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if (this != last) {
        last->_M_prev->_M_next = this;
        first->_M_prev->_M_next = last;
        this->_M_prev->_M_next = first;
        _List_node_base* const tmp = this->_M_prev;
        this->_M_prev = last->_M_prev;
        last->_M_prev = first->_M_prev;
        first->_M_prev = tmp;
    }
}
void _List_node_base::_M_reverse() noexcept {
    _List_node_base* tmp = this;
    do { std::swap(tmp->_M_next, tmp->_M_prev); tmp = tmp->_M_prev; } while (tmp != this);
}
void _List_node_base::_M_hook(_List_node_base* const pos) noexcept {
    this->_M_next = pos;
    this->_M_prev = pos->_M_prev;
    pos->_M_prev->_M_next = this;
    pos->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
    _List_node_base* const n = this->_M_next;
    _List_node_base* const p = this->_M_prev;
    p->_M_next = n;
    n->_M_prev = p;
}
}}
