"""Models of external functions (C/C++ runtime)."""
from absint import *
from lin import *


def m_new(eng, st, a, ins):
    n = a[0]
    r = st.new_region('heap', n if isinstance(n, Lin) else None, tag='new')
    r.meta['how'] = 'new'
    return Ptr(r.rid, ZERO)


def m_delete(eng, st, a, ins):
    p = eng.force(st, a[0])
    if isinstance(p, Ptr):
        if p.r is None:
            return None
        r = st.wregion(p.r)
        if not r.alive:
            eng.report(st, 'double-free', 'memory released twice (%s)' % r.tag)
        r.alive = False
        r.tag = 'freed ' + r.tag
    return None


def m_ident(eng, st, a, ins):
    return a[0]


def m_noop(eng, st, a, ins):
    return None


def m_exit(eng, st, a, ins):
    raise PathEnd()


def m_memcpy(eng, st, a, ins):
    eng.memcpy(st, a[0], a[1], a[2])
    return a[0]


def m_memset(eng, st, a, ins):
    eng.memset(st, a[0], a[1], a[2])
    return a[0]


def m_swap2(eng, st, a, ins):
    return NotImplemented


BASE = [
    (r'^operator new(\[\])?\(unsigned long\)$', m_new),
    (r'^(malloc|valloc)$', m_new),
    (r'^operator delete(\[\])?\(', m_delete),
    (r'^free$', m_delete),
    (r'^(exit|abort|_Exit|std::terminate\(\)|__clang_call_terminate|__assert_fail|std::__throw_.*)$', m_exit),
    (r'^exit\(', m_exit),
    (r'^std::(basic_ostream|ostream).*operator<<', m_ident),
    (r'operator<< ?<', m_ident),
    (r'std::endl', m_ident),
    (r'^(memcpy|memmove)$', m_memcpy),
    (r'^memset$', m_memset),
]
