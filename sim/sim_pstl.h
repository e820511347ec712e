// Replacement for the TBB backend of libstdc++'s parallel algorithms: the algorithm layer
// (pstl/algorithm_impl.h, numeric_impl.h, ...) is the real one; only the task scheduler underneath is
// the simulator's. Force-included before any other header, with the guard of the real backend
// (parallel_backend.h) taken.
#pragma once
#define _PSTL_PARALLEL_BACKEND_H
#include <bits/c++config.h>
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <exception>
#include <iterator>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>
#include <vector>
#include <pstl/pstl_config.h>
// C++23 (P2408) lets parallel algorithms split any C++20 random access range, views::iota included, and other standard
// libraries do; libstdc++ 14 still looks at the C++17 category and runs those loops serially. Simulate what the code asks for.
#define __are_random_access_iterators __are_cpp17_random_access_iterators
#define __tag_type __cpp17_tag_type
#define __select_backend __cpp17_select_backend
#include <pstl/execution_impl.h>
#undef __are_random_access_iterators
#undef __tag_type
#undef __select_backend
namespace __pstl
{
namespace __internal
{
template <class... _It> using __are_random_access_iterators = std::conjunction<std::bool_constant<std::random_access_iterator<std::decay_t<_It>>>...>;
template <class _IsVector, class... _It> using __tag_type = std::conditional_t<__are_random_access_iterators<_It...>::value, __parallel_tag<_IsVector>, __serial_tag<_IsVector>>;
template <class... _It> __serial_tag<std::false_type> __select_backend(__pstl::execution::sequenced_policy, _It&&...) { return {}; }
template <class... _It> __serial_tag<__are_random_access_iterators<_It...>> __select_backend(__pstl::execution::unsequenced_policy, _It&&...) { return {}; }
template <class... _It> __tag_type<std::false_type, _It...> __select_backend(__pstl::execution::parallel_policy, _It&&...) { return {}; }
template <class... _It> __tag_type<__are_random_access_iterators<_It...>, _It...> __select_backend(__pstl::execution::parallel_unsequenced_policy, _It&&...) { return {}; }
}
}

extern "C" {
void sim_tasks(size_t n, void (*fn)(void*, size_t), void* ctx);
uint32_t sim_pstl_split(size_t n, size_t grain, size_t* cuts, uint32_t maxcuts);
}

namespace __pstl
{
namespace __tbb_backend
{
template <typename _Tp>
class __buffer
{
    _Tp* _M_p;
    __buffer(const __buffer&) = delete;
    void operator=(const __buffer&) = delete;
  public:
    explicit __buffer(std::size_t __n) : _M_p(static_cast<_Tp*>(::operator new(__n * sizeof(_Tp), std::nothrow))) {}
    operator bool() const { return _M_p != nullptr; }
    _Tp* get() const { return _M_p; }
    ~__buffer() { ::operator delete(_M_p); }
};

inline void __cancel_execution() {}

namespace __sim
{
template <class _F>
void __tasks(std::size_t __n, _F&& __f)
{
    struct _Ctx { std::remove_reference_t<_F>* f; } __c{&__f};
    sim_tasks(__n, [](void* __p, size_t __i) { (*static_cast<_Ctx*>(__p)->f)(__i); }, &__c);
}
// boundaries 0 = b[0] < b[1] < ... < b[k] = n, every piece at least grain long
struct _Cuts
{
    size_t b[34];
    uint32_t k;
    _Cuts(size_t __n, size_t __grain)
    {
        b[0] = 0;
        uint32_t __m = __n ? sim_pstl_split(__n, __grain, b + 1, 32) : 0;
        b[__m + 1] = __n;
        k = __n ? __m + 1 : 0;
    }
};
}

template <class _ExecutionPolicy, class _Index, class _Fp>
void
__parallel_for(__pstl::__internal::__tbb_backend_tag, _ExecutionPolicy&&, _Index __first, _Index __last, _Fp __f)
{
    if (!(__first < __last)) return;
    __sim::_Cuts __c(static_cast<size_t>(__last - __first), 1);
    __sim::__tasks(__c.k, [&](size_t __i) { __f(__first + __c.b[__i], __first + __c.b[__i + 1]); });
}

template <class _ExecutionPolicy, class _Value, class _Index, typename _RealBody, typename _Reduction>
_Value
__parallel_reduce(__pstl::__internal::__tbb_backend_tag, _ExecutionPolicy&&, _Index __first, _Index __last,
                  const _Value& __identity, const _RealBody& __real_body, const _Reduction& __reduction)
{
    if (!(__first < __last)) return __identity;
    __sim::_Cuts __c(static_cast<size_t>(__last - __first), 1);
    std::unique_ptr<_Value[]> __v(new _Value[__c.k]());
    __sim::__tasks(__c.k, [&](size_t __i) {
        __v[__i] = __real_body(__first + __c.b[__i], __first + __c.b[__i + 1], __identity);
    });
    _Value __r = __v[0];
    for (uint32_t __i = 1; __i < __c.k; ++__i) __r = __reduction(__r, __v[__i]);
    return __r;
}

template <class _ExecutionPolicy, class _Index, class _Up, class _Tp, class _Cp, class _Rp>
_Tp
__parallel_transform_reduce(__pstl::__internal::__tbb_backend_tag, _ExecutionPolicy&&, _Index __first, _Index __last,
                            _Up __u, _Tp __init, _Cp __combine, _Rp __brick_reduce)
{
    if (!(__first < __last)) return __init;
    __sim::_Cuts __c(static_cast<size_t>(__last - __first), 2);
    if (__c.k == 1) return __brick_reduce(__first, __last, __init);
    struct _Slot { alignas(_Tp) unsigned char s[sizeof(_Tp)]; bool has = false;
                   _Tp& v() { return *reinterpret_cast<_Tp*>(s); } ~_Slot() { if (has) v().~_Tp(); } };
    std::unique_ptr<_Slot[]> __v(new _Slot[__c.k]);
    __sim::__tasks(__c.k, [&](size_t __i) {
        _Index __b = __first + __c.b[__i], __e = __first + __c.b[__i + 1];
        if (__i == 0) { new (__v[0].s) _Tp(__brick_reduce(__b, __e, __init)); __v[0].has = true; return; }
        _Tp __t = __combine(__u(__b), __u(__b + 1));
        __b = __b + 2;
        if (__b != __e) __t = __brick_reduce(__b, __e, __t);
        new (__v[__i].s) _Tp(__t); __v[__i].has = true;
    });
    _Tp __r = __v[0].v();
    for (uint32_t __i = 1; __i < __c.k; ++__i) __r = __combine(__r, __v[__i].v());
    return __r;
}

template <class _ExecutionPolicy, typename _Index, typename _Tp, typename _Rp, typename _Cp, typename _Sp, typename _Ap>
void
__parallel_strict_scan(__pstl::__internal::__tbb_backend_tag, _ExecutionPolicy&&, _Index __n, _Tp __initial,
                       _Rp __reduce, _Cp __combine, _Sp __scan, _Ap __apex)
{
    if (__n > 1)
    {
        __sim::_Cuts __c(static_cast<size_t>(__n), 1);
        std::unique_ptr<_Tp[]> __v(new _Tp[__c.k]);
        __sim::__tasks(__c.k, [&](size_t __i) {
            __v[__i] = __reduce(_Index(__c.b[__i]), _Index(__c.b[__i + 1] - __c.b[__i]));
        });
        std::unique_ptr<_Tp[]> __pre(new _Tp[__c.k + 1]);
        __pre[0] = __initial;
        for (uint32_t __i = 0; __i < __c.k; ++__i) __pre[__i + 1] = __combine(__pre[__i], __v[__i]);
        __apex(__pre[__c.k]);
        __sim::__tasks(__c.k, [&](size_t __i) {
            __scan(_Index(__c.b[__i]), _Index(__c.b[__i + 1] - __c.b[__i]), __pre[__i]);
        });
        return;
    }
    _Tp __sum = __initial;
    if (__n) __sum = __combine(__sum, __reduce(_Index(0), __n));
    __apex(__sum);
    if (__n) __scan(_Index(0), __n, __initial);
}

template <class _ExecutionPolicy, class _Index, class _Up, class _Tp, class _Cp, class _Rp, class _Sp>
_Tp
__parallel_transform_scan(__pstl::__internal::__tbb_backend_tag, _ExecutionPolicy&&, _Index __n, _Up __u, _Tp __init,
                          _Cp __combine, _Rp __brick_reduce, _Sp __scan)
{
    if (!__n) return __init;
    __sim::_Cuts __c(static_cast<size_t>(__n), 1);
    std::vector<_Tp> __pre;
    __pre.push_back(__init);
    for (uint32_t __i = 0; __i + 1 < __c.k; ++__i)
        __pre.push_back(__brick_reduce(_Index(__c.b[__i]), _Index(__c.b[__i + 1]), __pre.back()));
    std::vector<_Tp> __out(__pre);
    __sim::__tasks(__c.k, [&](size_t __i) {
        __out[__i] = __scan(_Index(__c.b[__i]), _Index(__c.b[__i + 1]), __pre[__i]);
    });
    return __out.back();
}

template <class _ExecutionPolicy, typename _RandomAccessIterator, typename _Compare, typename _LeafSort>
void
__parallel_stable_sort(__pstl::__internal::__tbb_backend_tag, _ExecutionPolicy&&, _RandomAccessIterator __xs,
                       _RandomAccessIterator __xe, _Compare __comp, _LeafSort __leaf_sort, std::size_t = 0)
{
    if (__xs == __xe) return;
    __sim::_Cuts __c(static_cast<size_t>(__xe - __xs), 1);
    __sim::__tasks(__c.k, [&](size_t __i) { __leaf_sort(__xs + __c.b[__i], __xs + __c.b[__i + 1], __comp); });
    for (uint32_t __i = 1; __i < __c.k; ++__i)
        std::inplace_merge(__xs, __xs + __c.b[__i], __xs + __c.b[__i + 1], __comp);
}

template <class _ExecutionPolicy, typename _RandomAccessIterator1, typename _RandomAccessIterator2,
          typename _RandomAccessIterator3, typename _Compare, typename _LeafMerge>
void
__parallel_merge(__pstl::__internal::__tbb_backend_tag, _ExecutionPolicy&&, _RandomAccessIterator1 __xs,
                 _RandomAccessIterator1 __xe, _RandomAccessIterator2 __ys, _RandomAccessIterator2 __ye,
                 _RandomAccessIterator3 __zs, _Compare __comp, _LeafMerge __leaf_merge)
{
    __leaf_merge(__xs, __xe, __ys, __ye, __zs, __comp);
}

template <class _ExecutionPolicy, typename _F1, typename _F2>
void
__parallel_invoke(__pstl::__internal::__tbb_backend_tag, _ExecutionPolicy&&, _F1&& __f1, _F2&& __f2)
{
    __sim::__tasks(2, [&](size_t __i) { if (__i == 0) std::forward<_F1>(__f1)(); else std::forward<_F2>(__f2)(); });
}
} // namespace __tbb_backend
namespace __par_backend = __tbb_backend;
} // namespace __pstl
