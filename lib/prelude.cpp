// Reference definitions of the <algorithm>/<numeric> templates, as the C++ standard states them:
// a call in /repo to one of these names is verified as a call to the definition below (the library's
// own unrolled or vectorised implementation is trusted to agree with it).
namespace stdalg {
template <class It, class P> bool any_of(It first, It last, P p) {
    for (; first != last; ++first)
        if (p(*first)) return true;
    return false;
}
template <class It, class P> bool all_of(It first, It last, P p) {
    for (; first != last; ++first)
        if (!p(*first)) return false;
    return true;
}
template <class It, class P> bool none_of(It first, It last, P p) {
    for (; first != last; ++first)
        if (p(*first)) return false;
    return true;
}
template <class It, class P> It find_if(It first, It last, P p) {
    for (; first != last; ++first)
        if (p(*first)) break;
    return first;
}
template <class It, class P> It find_if_not(It first, It last, P p) {
    for (; first != last; ++first)
        if (!p(*first)) break;
    return first;
}
template <class It, class T> It find(It first, It last, const T& v) {
    for (; first != last; ++first)
        if (*first == v) break;
    return first;
}
template <class It, class P> long count_if(It first, It last, P p) {
    long n = 0;
    for (; first != last; ++first)
        if (p(*first)) ++n;
    return n;
}
template <class It, class F> F for_each(It first, It last, F f) {
    for (; first != last; ++first)
        f(*first);
    return f;
}
template <class It, class T> void fill(It first, It last, const T& v) {
    for (; first != last; ++first)
        *first = v;
}
template <class It, class T> It fill_n(It first, long n, const T& v) {
    for (; n > 0; --n) {
        *first = v;
        ++first;
    }
    return first;
}
template <class It, class Out> Out copy(It first, It last, Out out) {
    while (first != last) {
        *out = *first;
        ++first;
        ++out;
    }
    return out;
}
template <class It, class Out> Out copy_n(It first, long n, Out out) {
    for (; n > 0; --n) {
        *out = *first;
        ++first;
        ++out;
    }
    return out;
}
template <class It, class Out, class F> Out transform(It first, It last, Out out, F f) {
    while (first != last) {
        *out = f(*first);
        ++first;
        ++out;
    }
    return out;
}
template <class It, class It2, class Out, class F> Out transform(It first, It last, It2 second, Out out, F f) {
    while (first != last) {
        *out = f(*first, *second);
        ++first;
        ++second;
        ++out;
    }
    return out;
}
template <class It, class T> T accumulate(It first, It last, T acc) {
    for (; first != last; ++first)
        acc = acc + *first;
    return acc;
}
template <class It, class T, class F> T accumulate(It first, It last, T acc, F f) {
    for (; first != last; ++first)
        acc = f(acc, *first);
    return acc;
}
template <class It, class It2, class T> T inner_product(It first, It last, It2 second, T acc) {
    while (first != last) {
        acc = acc + *first * *second;
        ++first;
        ++second;
    }
    return acc;
}
template <class It, class It2> bool equal(It first, It last, It2 second) {
    while (first != last) {
        if (!(*first == *second)) return false;
        ++first;
        ++second;
    }
    return true;
}
// binary searches: the range is obliged to be sorted at the call, where a scan gives the same answer
template <class It, class T> It upper_bound(It first, It last, const T& v) {
    for (; first != last; ++first)
        if (v < *first) break;
    return first;
}
template <class It, class T> It lower_bound(It first, It last, const T& v) {
    for (; first != last; ++first)
        if (!(*first < v)) break;
    return first;
}
}
