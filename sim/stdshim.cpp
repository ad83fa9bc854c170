// Instrumented copies of the few functions of libstdc++ that change or read containers out of line: without them these accesses would be invisible to the simulator.
#include <list>
#include <utility>
namespace std _GLIBCXX_VISIBILITY(default) {
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) {
            std::swap(x._M_next, y._M_next);
            std::swap(x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
        } else {
            y._M_next = x._M_next;
            y._M_prev = x._M_prev;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x;
        }
    } else if (y._M_next != &y) {
        x._M_next = y._M_next;
        x._M_prev = y._M_prev;
        x._M_next->_M_prev = x._M_prev->_M_next = &x;
        y._M_next = y._M_prev = &y;
    }
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if (this == last) return;
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base* const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = tmp;
}
void _List_node_base::_M_reverse() noexcept {
    _List_node_base* t = this;
    do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this);
}
void _List_node_base::_M_hook(_List_node_base* const position) noexcept {
    this->_M_next = position;
    this->_M_prev = position->_M_prev;
    position->_M_prev->_M_next = this;
    position->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
    _List_node_base* const next = this->_M_next;
    _List_node_base* const prev = this->_M_prev;
    prev->_M_next = next;
    next->_M_prev = prev;
}
}  // namespace __detail
}  // namespace std
