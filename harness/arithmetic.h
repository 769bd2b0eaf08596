// Integer arithmetic against exact (128 bit) arithmetic.
#pragma once
#include "seq.h"
#include "alg.h"

namespace arithmetic {

using namespace alg;
using seq::cat;
typedef __int128 Big;

inline Big big(uint64_t v) { return (Big)v; }
template<class T> Big exact(T v) { return (Big)v; }

inline std::string text(Big v)
{
    if(v == 0) return "0";
    bool neg = v < 0; std::string s;
    unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    while(u) { s.insert(s.begin(), char('0' + (int)(u % 10))); u /= 10; }
    return neg ? "-" + s : s;
}

template<class T> char const* type_name()
{
    if(std::is_same<T, bool>::value) return "bool";
    if(std::is_same<T, float>::value) return "float";
    if(std::is_same<T, double>::value) return "double";
    bool s = std::is_signed<T>::value;
    switch(sizeof(T)) {
        case 1: return s ? "int8" : "uint8";
        case 2: return s ? "int16" : "uint16";
        case 4: return s ? "int32" : "uint32";
        default: return s ? "int64" : "uint64";
    }
}

// All values of an 8 bit type; the edges, and their neighbourhood, of others.
template<class T> std::vector<T> values(bool thorough)
{
    using L = std::numeric_limits<T>;
    std::vector<T> r;
    if(sizeof(T) == 1) { for(int v = (int)L::min(); v <= (int)L::max(); ++v) r.push_back((T)v); return r; }
    std::set<T> s;
    int width = thorough ? 5 : 2;
    auto around = [&](Big v) {
        for(int d = -width; d <= width; ++d) { Big x = v + d; if(x >= exact(L::min()) && x <= exact(L::max())) s.insert((T)x); }
    };
    around(0);
    around(exact(L::min())); around(exact(L::max()));
    for(unsigned b = 1; b < 64; b += (thorough ? 1 : (b == 7 || b == 15 || b == 31) ? 1 : 4)) { around((Big)1 << b); around(-((Big)1 << b)); }
    for(Big v: {(Big)8, (Big)16, (Big)32, (Big)64}) { around((Big)1 << (v - 1)); around(-((Big)1 << (v - 1))); around(((Big)1 << v) - 1); }
    // Square roots of the limits.
    for(Big v: {(Big)11, (Big)181, (Big)46340, (Big)65535, (Big)3037000499ll, (Big)4294967295ll}) { around(v); around(-v); }
    for(Big d: {(Big)3, (Big)7, (Big)100}) { around(exact(L::max()) / d); around(exact(L::min()) / d); }
    return {s.begin(), s.end()};
}

// The type the result of combining two integers has.
template<class A, class B> struct Rule
{
    static constexpr bool sa = std::is_signed<A>::value, sb = std::is_signed<B>::value;
    static constexpr bool is_signed = sa || sb;
    static constexpr size_t larger = sizeof(A) > sizeof(B) ? sizeof(A) : sizeof(B);
    // Of a signed and an unsigned type: the smallest signed type that can
    // represent the values of both; 64 bits if there is none.
    static constexpr size_t of_signed = sa ? sizeof(A) : sizeof(B), of_unsigned = sa ? sizeof(B) : sizeof(A);
    static constexpr size_t mixed = of_signed > of_unsigned ? of_signed : (of_unsigned < 8 ? 2 * of_unsigned : 8);
    static constexpr size_t size = sa == sb ? larger : mixed;
};

template<class R> bool representable(Big v)
{
    return v >= exact(std::numeric_limits<R>::min()) && v <= exact(std::numeric_limits<R>::max());
}

struct Expect { bool defined; Big value; };

// Op: result<A, B>, run(mask-aware op), expect(a, b)
template<class Op, class A, class B> void binary(seq::Context& ctx)
{
    using R = typename Op::template Result<A, B>;
    std::string types = cat(type_name<A>(), " ", Op::symbol, " ", type_name<B>());
    if(ctx.begin()) {
        ctx.describe(types);
        ctx.check(std::is_integral<R>::value && std::is_signed<R>::value == Rule<A, B>::is_signed && sizeof(R) == Rule<A, B>::size,
            cat(types, " result type"), cat("result type is ", type_name<R>()));
    }
    auto va = values<A>(ctx.thorough()); auto vb = values<B>(ctx.thorough());
    Sequential sequential;
    for(A a: va) {
        if(!ctx.begin()) continue;
        for(B b: vb) {
            // Arguments that the result type cannot represent are outside of
            // the rule's promise.
            if(!representable<R>(exact(a)) || !representable<R>(exact(b))) continue;
            ctx.describe(cat(a, " (", type_name<A>(), ") ", Op::symbol, " ", b, " (", type_name<B>(), ")"));
            Expect e = Op::expect(exact(a), exact(b));
            bool want_mask = !e.defined || !representable<R>(e.value);
            S<R> result((R)3);
            S<A> sa(a); S<B> sb(b);
            fa::InputNoDataPolicies<D0, D0> in{{sa.mask(), true}, {sb.mask(), true}};
            O0 out(result.mask(), true);
            Op::apply(in, out, sequential, sa, sb, result);
            if(ctx.check(result.mask() == want_mask, cat(types, want_mask ? " not flagged" : " flagged"),
                    cat(a, " ", Op::symbol, " ", b, want_mask ? " must be marked as no-data" : " must not be marked as no-data")) && !want_mask)
                ctx.check(exact(result.value()) == e.value, cat(types, " value"),
                    cat(a, " ", Op::symbol, " ", b, " is ", result.value(), ", must be ", text(e.value)));
            // Without policies.
            if(e.defined && !want_mask) {
                R plain(3);
                Op::apply(sequential, a, b, plain);
                ctx.check(exact(plain) == e.value, cat(types, " value without policies"), cat(a, " ", Op::symbol, " ", b, " is ", plain, ", must be ", text(e.value)));
            }
        }
        ctx.nontrivial(seq::mix(seq::hash(types), (uint64_t)a));
        ctx.outcome(types);
        ctx.sample(cat(types, ": ", a, " with ", vb.size(), " values"));
    }
}

template<class Op, class A> void with_all(seq::Context& ctx)
{
    binary<Op, A, int8_t>(ctx); binary<Op, A, uint8_t>(ctx); binary<Op, A, int16_t>(ctx); binary<Op, A, uint16_t>(ctx);
    binary<Op, A, int32_t>(ctx); binary<Op, A, uint32_t>(ctx); binary<Op, A, int64_t>(ctx); binary<Op, A, uint64_t>(ctx);
}

template<class Op> void all_types(seq::Context& ctx)
{
    with_all<Op, int8_t>(ctx); with_all<Op, uint8_t>(ctx); with_all<Op, int16_t>(ctx); with_all<Op, uint16_t>(ctx);
    with_all<Op, int32_t>(ctx); with_all<Op, uint32_t>(ctx); with_all<Op, int64_t>(ctx); with_all<Op, uint64_t>(ctx);
}

} // namespace arithmetic
