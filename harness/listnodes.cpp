// The link operations of std::list live in libstdc++.so, which is not
// instrumented: ThreadSanitizer would not see them write. These definitions
// take their place in the executables built for it.
#include <list>

namespace std {
_GLIBCXX_BEGIN_NAMESPACE_VERSION
namespace __detail {

void _List_node_base::_M_hook(_List_node_base *const position) noexcept {
    this->_M_next = position;
    this->_M_prev = position->_M_prev;
    position->_M_prev->_M_next = this;
    position->_M_prev = this;
}

void _List_node_base::_M_unhook() noexcept {
    _List_node_base *const next = this->_M_next;
    _List_node_base *const prev = this->_M_prev;
    prev->_M_next = next;
    next->_M_prev = prev;
}

void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
    if (this == last) return;
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base *const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = tmp;
}

void _List_node_base::_M_reverse() noexcept {
    _List_node_base *tmp = this;
    do {
        _List_node_base *const next = tmp->_M_next;
        tmp->_M_next = tmp->_M_prev;
        tmp->_M_prev = next;
        tmp = next;
    } while (tmp != this);
}

void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    bool xe = x._M_next == &x, ye = y._M_next == &y;
    _List_node_base xc, yc;
    xc._M_next = x._M_next; xc._M_prev = x._M_prev;
    yc._M_next = y._M_next; yc._M_prev = y._M_prev;
    if (ye) { x._M_next = x._M_prev = &x; }
    else { x._M_next = yc._M_next; x._M_prev = yc._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
    if (xe) { y._M_next = y._M_prev = &y; }
    else { y._M_next = xc._M_next; y._M_prev = xc._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
}

}  // namespace __detail
_GLIBCXX_END_NAMESPACE_VERSION
}  // namespace std
