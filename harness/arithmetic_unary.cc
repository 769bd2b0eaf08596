// absolute and factorial of integers
#include "arithmetic.h"
#include "fern/algorithm/algebra/elementary/absolute.h"
#include "fern/algorithm/algebra/elementary/factorial.h"

using namespace arithmetic;

namespace {

template<class T> void absolute(seq::Context& ctx)
{
    Sequential sequential;
    for(T v: values<T>(ctx.thorough())) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("absolute ", v, " ", type_name<T>()));
        Big want = exact(v) < 0 ? -exact(v) : exact(v);
        S<T> value(v), result((T)3);
        fa::InputNoDataPolicies<D0> in{{value.mask(), true}};
        O0 out(result.mask(), true);
        fa::algebra::absolute<fa::absolute::OutOfRangePolicy>(in, out, sequential, value, result);
        ctx.check(result.mask() == !representable<T>(want), cat("absolute ", type_name<T>(), " no-data"), cat("absolute ", v, " mask ", result.mask()));
        if(representable<T>(want)) ctx.check(exact(result.value()) == want, cat("absolute ", type_name<T>(), " value"), cat("absolute ", v, " is ", result.value()));
        ctx.nontrivial(cat(type_name<T>(), v));
    }
}

template<class T> void factorial(seq::Context& ctx)
{
    Sequential sequential;
    for(T v: values<T>(ctx.thorough())) {
        if(!ctx.begin()) continue;
        ctx.describe(cat("factorial ", v, " ", type_name<T>()));
        bool defined = exact(v) >= 0;
        Big want = 1; bool big_ = false;
        for(Big k = 2; defined && k <= exact(v); ++k) { want *= k; if(want > ((Big)1 << 70)) { big_ = true; break; } }
        bool mask = !defined || big_ || !representable<T>(want);
        S<T> value(v), result((T)3);
        fa::InputNoDataPolicies<D0> in{{value.mask(), true}};
        O0 out(result.mask(), true);
        fa::algebra::factorial<fa::factorial::OutOfDomainPolicy, fa::factorial::OutOfRangePolicy>(in, out, sequential, value, result);
        ctx.check(result.mask() == mask, cat("factorial ", type_name<T>(), " no-data"), cat("factorial ", v, " mask ", result.mask()));
        if(!mask) ctx.check(exact(result.value()) == want, cat("factorial ", type_name<T>(), " value"), cat("factorial ", v, " is ", result.value(), " must be ", text(want)));
        ctx.nontrivial(cat(type_name<T>(), v));
    }
}

} // namespace

SUITE("C07", "absolute")
{
    absolute<int8_t>(ctx); absolute<uint8_t>(ctx); absolute<int16_t>(ctx); absolute<uint16_t>(ctx);
    absolute<int32_t>(ctx); absolute<uint32_t>(ctx); absolute<int64_t>(ctx); absolute<uint64_t>(ctx);
}

SUITE("C07", "factorial")
{
    factorial<int8_t>(ctx); factorial<uint8_t>(ctx); factorial<int16_t>(ctx); factorial<uint16_t>(ctx);
    factorial<int32_t>(ctx); factorial<uint32_t>(ctx); factorial<int64_t>(ctx); factorial<uint64_t>(ctx);
}
