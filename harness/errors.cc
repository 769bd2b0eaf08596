// Messages and errors: the catalogue filled with all arguments of a set, and
// every sequence of copies, moves and assignments of errors.
#define SEQ_MAIN
#include "seq.h"
#include <climits>
#include <cstring>
#include "fern/core/io_error.h"
#include "fern/core/parse_error.h"
#include "fern/core/validate_error.h"

using seq::cat;
using S = std::string;
using fern::MessageId;

namespace {

struct Template { MessageId id; S name; std::vector<S> pieces; };

// The texts between the arguments.
std::vector<Template> const& templates()
{
    static std::vector<Template> const result{
        {MessageId::UNKNOWN_ERROR, "unknown error", {"Sorry, unknown error"}},
        {MessageId::IO_ERROR, "io error", {"I/O error handling ", ": ", ""}},
        {MessageId::DOES_NOT_EXIST, "does not exist", {"Does not exist"}},
        {MessageId::CANNOT_BE_READ, "cannot be read", {"Cannot be read"}},
        {MessageId::CANNOT_BE_WRITTEN, "cannot be written", {"Cannot be written"}},
        {MessageId::CANNOT_BE_CREATED, "cannot be created", {"Cannot be created"}},
        {MessageId::DOES_NOT_CONFORM_TO_CONVENTION, "convention", {"Does not conform to convention: ", ""}},
        {MessageId::DOES_NOT_CONTAIN_VARIABLE, "variable", {"Does not contain variable: ", ""}},
        {MessageId::VARIABLE_IS_NOT_A_SCALAR, "scalar", {"Variable is not a scalar: ", ""}},
        {MessageId::DOES_NOT_CONTAIN_FEATURE, "feature", {"Does not contain feature: ", ""}},
        {MessageId::DOES_NOT_CONTAIN_ATTRIBUTE, "attribute", {"Does not contain attribute: ", ""}},
        {MessageId::DOES_NOT_CONTAIN_DATA, "data", {"Does not contain data: ", ""}},
        {MessageId::UNSUPPORTED_VALUE_TYPE, "value type", {"Unsupported value type: ", ": ", ""}},
        {MessageId::NO_SUCH_DRIVER, "driver", {"No such driver: ", ""}},
        {MessageId::ERROR_PARSING, "parsing", {"Error parsing ", ":", ":", ": ", ""}},
        {MessageId::ERROR_PARSING_STATEMENT, "parsing statement", {"Error parsing ", ":", ":", ":", ": ", ""}},
        {MessageId::UNSUPPORTED_LANGUAGE_CONSTRUCT, "construct", {"Unsupported language construct: ", ""}},
        {MessageId::UNDEFINED_IDENTIFIER, "identifier", {"Undefined identifier: ", ""}},
        {MessageId::UNDEFINED_OPERATION, "operation", {"Undefined operation: ", ""}},
        {MessageId::WRONG_NUMBER_OF_ARGUMENTS, "number of arguments", {"Wrong number of arguments for operation: ", ": ", " required, but ", " provided"}},
        {MessageId::WRONG_TYPE_OF_ARGUMENT, "type of argument", {"Wrong type of argument ", " provided for operation: ", ": ", " required, but ", " provided"}},
        {MessageId::ERROR_VALIDATING, "validating", {"", ":", ":", ": ", ""}}};
    return result;
}

S filled(MessageId id, std::vector<S> const& arguments)
{
    for(auto const& t: templates()) if(t.id == id) {
        S result = t.pieces[0];
        for(size_t i = 1; i < t.pieces.size(); ++i) result += arguments[i - 1] + t.pieces[i];
        return result;
    }
    return "?";
}

std::vector<S> const& texts()
{
    static std::vector<S> const result{"", "a", "%", "%1%", "%2%", "%%", "a: b", "\n", "\xc3\xa9", " a ", "\"", "%s", S("a\0b", 3), "10", "%|5|", "\\"};
    return result;
}

std::vector<long> const& numbers()
{
    static std::vector<long> const result{0, 1, -1, 9, 10, 999, 1000, 1234567, INT_MAX, INT_MIN, LONG_MAX, LONG_MIN};
    return result;
}

template<class A, class B> void two(seq::Context& ctx, Template const& t, std::vector<A> const& as, std::vector<B> const& bs)
{
    fern::Messages messages;
    for(auto const& a: as) for(auto const& b: bs) {
        if(!ctx.begin()) continue;
        auto expected = filled(t.id, {cat(a), cat(b)});
        ctx.describe(cat(t.name, " of two arguments: ", a, ", ", b));
        auto is = messages.format_message(t.id, a, b);
        ctx.check(is == expected, cat("message ", t.name), cat("is ", is, ", must be ", expected));
        ctx.nontrivial(expected); ctx.outcome("arguments 2");
    }
}

template<class A, class B, class C> void three(seq::Context& ctx, Template const& t, std::vector<A> const& as, std::vector<B> const& bs, std::vector<C> const& cs)
{
    fern::Messages messages;
    for(auto const& a: as) for(auto const& b: bs) for(auto const& c: cs) {
        if(!ctx.begin()) continue;
        auto expected = filled(t.id, {cat(a), cat(b), cat(c)});
        ctx.describe(cat(t.name, " of three arguments: ", a, ", ", b, ", ", c));
        auto is = messages.format_message(t.id, a, b, c);
        ctx.check(is == expected, cat("message ", t.name), cat("is ", is, ", must be ", expected));
        ctx.nontrivial(expected); ctx.outcome("arguments 3");
    }
}

template<class A, class B, class C, class D> void four(seq::Context& ctx, Template const& t, std::vector<A> const& as, std::vector<B> const& bs, std::vector<C> const& cs, std::vector<D> const& ds)
{
    fern::Messages messages;
    for(auto const& a: as) for(auto const& b: bs) for(auto const& c: cs) for(auto const& d: ds) {
        if(!ctx.begin()) continue;
        auto expected = filled(t.id, {cat(a), cat(b), cat(c), cat(d)});
        ctx.describe(cat(t.name, " of four arguments: ", a, ", ", b, ", ", c, ", ", d));
        auto is = messages.format_message(t.id, a, b, c, d);
        ctx.check(is == expected, cat("message ", t.name), cat("is ", is, ", must be ", expected));
        ctx.nontrivial(expected); ctx.outcome("arguments 4");
    }
}

} // namespace

SUITE("C39", "messages")
{
    fern::Messages messages;
    std::vector<S> few(texts().begin(), texts().begin() + 8);
    for(auto const& t: templates()) switch(t.pieces.size() - 1) {
        case 0:
            if(ctx.begin()) {
                ctx.describe(t.name);
                ctx.check(messages[t.id] == t.pieces[0], cat("message ", t.name), messages[t.id]);
                ctx.check(fern::Exception::messages()[t.id] == t.pieces[0] && fern::Exception(t.id).message() == t.pieces[0], cat("message of exception ", t.name), fern::Exception(t.id).message());
                ctx.nontrivial(t.name); ctx.outcome("arguments 0");
            }
            break;
        case 1:
            for(auto const& a: texts()) if(ctx.begin()) {
                ctx.describe(cat(t.name, " of one argument: ", a));
                auto expected = filled(t.id, {a}), is = messages.format_message(t.id, a);
                ctx.check(is == expected, cat("message ", t.name), cat("is ", is, ", must be ", expected));
                ctx.check(fern::Exception::messages().format_message(t.id, a) == expected, cat("message ", t.name), "of exceptions");
                ctx.nontrivial(expected); ctx.outcome("arguments 1"); ctx.sample(expected);
            }
            break;
        case 2: two(ctx, t, texts(), texts()); break;
        case 3: three(ctx, t, texts(), texts(), texts()); three(ctx, t, texts(), std::vector<size_t>{0, 1, 2, 10, SIZE_MAX}, std::vector<size_t>{0, 1, 2, 10, SIZE_MAX}); break;
        case 4: four(ctx, t, few, few, few, few); four(ctx, t, numbers(), texts(), few, few); four(ctx, t, texts(), numbers(), numbers(), texts()); break;
    }
}

namespace {

// Every sequence of copies and moves of errors of a type.
template<class Error, class Make> void histories(seq::Context& ctx, S const& name, size_t n, Make make)
{
    enum Op { copy, copy_assigned, moved, move_assigned, thrown, nr_ops };
    char const* names[] = {"copied", "assigned", "moved", "move assigned", "thrown"};
    for(unsigned length = 0; length <= (ctx.thorough() ? 4u : 3u); ++length) seq::tuples(length, nr_ops, [&](auto const& ops) {
        for(size_t i = 0; i < n; ++i) {
            if(!ctx.begin()) continue;
            S history = cat(name, " ", i);
            for(auto op: ops) history += cat(", ", names[op]);
            ctx.describe(history);
            auto made = make(i);
            auto error = std::make_unique<Error>(made.first);
            ctx.check(made.first.message() == made.second, cat("message of ", name), cat("is ", made.first.message(), ", must be ", made.second));
            for(auto op: ops) {
                std::unique_ptr<Error> next;
                auto other = make((i + 1) % n);
                bool kept = true;
                switch(op) {
                    case copy: next = std::make_unique<Error>(*error); kept = error->message() == made.second; break;
                    case copy_assigned: next = std::make_unique<Error>(other.first); *next = *error; kept = error->message() == made.second && other.first.message() == other.second; break;
                    case moved: next = std::make_unique<Error>(std::move(*error)); break;
                    case move_assigned: next = std::make_unique<Error>(other.first); *next = std::move(*error); break;
                    case thrown: try { throw *error; } catch(fern::Exception const& e) {
                        kept = e.message() == made.second;
                        next = std::make_unique<Error>(dynamic_cast<Error const&>(e));
                    } break;
                }
                ctx.check(kept, cat(names[op], ", source of ", name), "the other error has another message");
                error = std::move(next);
                ++ctx.transitions;
                ctx.check(error->message() == made.second, cat(names[op], " ", name), cat("is ", error->message(), ", must be ", made.second));
                ctx.check(static_cast<fern::Exception const&>(*error).message() == made.second, cat(names[op], " ", name), "as a general exception");
            }
            ctx.nontrivial(history);
            ctx.outcome(cat(name, " ", length));
            ctx.sample(history);
        }
    });
}

template<class T> std::vector<T> nonempty(std::vector<T> v) { v.erase(std::remove(v.begin(), v.end(), T()), v.end()); return v; }

} // namespace

SUITE("C39", "errors")
{
    auto sources = nonempty(texts());
    auto const& t = texts();
    auto const& n = numbers();
    histories<fern::IOError>(ctx, "I/O error", t.size() * t.size(), [&](size_t i) {
        auto const& a = t[i % t.size()]; auto const& b = t[i / t.size()];
        return std::make_pair(fern::IOError(a, b), filled(MessageId::IO_ERROR, {a, b})); });
    histories<fern::IOError>(ctx, "I/O error of the system", 140, [&](size_t i) {
        return std::make_pair(fern::IOError("a", int(i)), filled(MessageId::IO_ERROR, {"a", std::strerror(int(i))})); });
    // Each argument takes all of its values, next to the others.
    histories<fern::ParseError>(ctx, "parse error", sources.size() * n.size() * 3, [&](size_t i) {
        auto const& a = sources[i % sources.size()]; auto line = n[i / sources.size() % n.size()], col = n[(i / sources.size() + i) % n.size()];
        auto const& m = t[(i * 7 + i / 11) % t.size()];
        return std::make_pair(fern::ParseError(a, line, col, m), filled(MessageId::ERROR_PARSING, {a, cat(line), cat(col), m})); });
    histories<fern::ParseError>(ctx, "parse error of a statement", sources.size() * n.size() * 3, [&](size_t i) {
        auto const& a = sources[i % sources.size()]; auto line = n[i / sources.size() % n.size()], col = n[(i / sources.size() + i) % n.size()];
        auto const& s = sources[(i * 5 + i / 13) % sources.size()]; auto const& m = t[(i * 7 + i / 11) % t.size()];
        return std::make_pair(fern::ParseError(a, line, col, s, m), filled(MessageId::ERROR_PARSING_STATEMENT, {a, cat(line), cat(col), s, m})); });
    histories<fern::ValidateError>(ctx, "validate error", sources.size() * n.size() * 3, [&](size_t i) {
        auto const& a = sources[i % sources.size()]; auto line = n[i / sources.size() % n.size()], col = n[(i / sources.size() + i) % n.size()];
        auto const& m = t[(i * 7 + i / 11) % t.size()];
        return std::make_pair(fern::ValidateError(a, line, col, m), filled(MessageId::ERROR_VALIDATING, {a, cat(line), cat(col), m})); });
}

// The full product of arguments of the errors with a position.
SUITE("C39", "positions")
{
    auto sources = nonempty(texts());
    auto const& t = texts();
    for(auto const& a: sources) for(auto line: numbers()) for(auto col: numbers()) for(auto const& m: t) {
        if(!ctx.begin()) continue;
        ctx.describe(cat(a, ":", line, ":", col, ": ", m));
        fern::ParseError parse(a, line, col, m); fern::ValidateError validate(a, line, col, m);
        ctx.check(parse.message() == filled(MessageId::ERROR_PARSING, {a, cat(line), cat(col), m}), "message of parse error", parse.message());
        ctx.check(validate.message() == filled(MessageId::ERROR_VALIDATING, {a, cat(line), cat(col), m}), "message of validate error", validate.message());
        for(auto const& s: {S("x = 1"), S("%1%"), S("%")}) {
            fern::ParseError statement(a, line, col, s, m);
            ctx.check(statement.message() == filled(MessageId::ERROR_PARSING_STATEMENT, {a, cat(line), cat(col), s, m}), "message of parse error of a statement", statement.message());
        }
        ctx.nontrivial(cat(a, ":", line, ":", col, ": ", m));
        ctx.outcome("position");
    }
}
