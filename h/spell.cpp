// The families, one per slice (-DSLICE=k).
#include "spell.hpp"

namespace h {
#if SLICE == 0
std::vector<Family>& families() {
    static std::vector<Family> f;
    return f;
}
#endif

template <bool IH, bool Const, Mode M, typename... O>
struct Spell {
    static std::unique_ptr<ISut> file(const str& path, const str& delim) {
        return std::make_unique<Sut<IH, M, ss::parser<O...>>>(path, delim);
    }
    static std::unique_ptr<ISut> buffer(const char* data, size_t size, const str& delim) {
        return std::make_unique<Sut<IH, M, ss::parser<O...>>>(data, size, delim);
    }
    static std::unique_ptr<IConv> conv() {
        return std::make_unique<ConvImpl<Const, M, ss::converter<O...>>>();
    }
};

#define W(...)                                                                 \
    Spelling {                                                                 \
        #__VA_ARGS__, Spell<ih, cl, mode, __VA_ARGS__>::file, Spell<ih, cl, mode, __VA_ARGS__>::buffer,                \
            Spell<ih, cl, mode, __VA_ARGS__>::conv                             \
    }

#define FAMILY(NAME, MODE_, IH_, CONST_, Q_, ESC_, TL_, TR_, ML_, IE_, ...)    \
    static int registered = [] {                                               \
        constexpr Mode mode = MODE_;                                            \
        constexpr bool ih = IH_, cl = CONST_;                                    \
        Family f;                                                              \
        f.name = NAME;                                                         \
        f.mode = mode;                                                         \
        const char* quote_char = Q_;                                            \
        f.cfg.Q = quote_char != nullptr;                                       \
        if (quote_char) f.cfg.q = *quote_char;                                 \
        f.cfg.esc = ESC_;                                                       \
        f.cfg.tl = TL_;                                                         \
        f.cfg.tr = TR_;                                                         \
        f.cfg.ML = ML_ >= 0;                                                   \
        f.cfg.limit = ML_ > 0 ? static_cast<size_t>(ML_) : 0;                  \
        f.cfg.IE = IE_;                                                         \
        f.cfg.IH = ih;                                                         \
        f.spellings = {__VA_ARGS__};                                           \
        families().push_back(f);                                               \
        return 0;                                                              \
    }();

using namespace ss;
using std::tuple;
using q = quote<'"'>;
using e = escape<'\\'>;
using e2 = escape<'\\', '^'>;
using e2r = escape<'^', '\\'>;
using t2 = trim<' ', '\t'>;
using t2r = trim<'\t', ' '>;
using l2 = trim_left<' ', '\t'>;
using r2 = trim_right<'\t', ' '>;
using no = std::nullptr_t;

#if SLICE == 0
FAMILY("all, string", STRING, false, false, "\"", "\\^", " \t", " \t", 0, false,
       W(q, e2, t2, multiline, string_error), W(string_error, multiline, t2, e2, q), W(multiline, q, t2, string_error, e2),
       W(t2r, e2r, multiline_restricted<0>, q, string_error), W(setup<q, e2, t2, multiline, string_error>),
       W(setup<setup<string_error, e2r, q, multiline, t2>>), W(tuple<multiline, e2, string_error, t2r, q>),
       W(setup<tuple<q, t2, e2, string_error, multiline>>), W(l2, r2, q, e2, multiline, string_error),
       W(setup<r2, multiline, e2r, l2, string_error, q>))
#elif SLICE == 1
FAMILY("all limited, throw", THROW, false, false, "\"", "\\", " ", " ", 3, true,
       W(q, e, trim<' '>, multiline_restricted<3>, throw_on_error, ignore_empty),
       W(ignore_empty, throw_on_error, multiline_restricted<3>, trim<' '>, e, q),
       W(throw_on_error, q, ignore_empty, e, multiline_restricted<3>, trim<' '>),
       W(multiline_restricted<3>, trim_right<' '>, trim_left<' '>, ignore_empty, q, throw_on_error, e),
       W(setup<q, throw_on_error, trim<' '>, ignore_empty, e, multiline_restricted<3>>),
       W(setup<setup<setup<multiline_restricted<3>, ignore_empty, q, e, throw_on_error, trim<' '>>>>),
       W(tuple<ignore_empty, q, e, trim_left<' '>, throw_on_error, trim_right<' '>, multiline_restricted<3>>),
       W(setup<tuple<setup<trim<' '>, e, throw_on_error, q, multiline_restricted<3>, ignore_empty>>>))
#elif SLICE == 2
FAMILY("quote multiline, plain", BOOL, false, false, "'", "", "_", "_", 0, false,
       W(quote<'\''>, trim<'_'>, multiline), W(multiline, trim<'_'>, quote<'\''>), W(trim<'_'>, quote<'\''>, multiline),
       W(multiline_restricted<0>, quote<'\''>, trim_left<'_'>, trim_right<'_'>), W(setup<multiline, quote<'\''>, trim<'_'>>),
       W(tuple<trim<'_'>, multiline, quote<'\''>>), W(setup<setup<trim_right<'_'>, multiline, quote<'\''>, trim_left<'_'>>>),
       W(setup<tuple<tuple<quote<'\''>, multiline, trim<'_'>>>>))
#elif SLICE == 3
FAMILY("escape multiline header, string", STRING, true, false, nullptr, "\\", "", "", 2, true,
       W(e, multiline_restricted<2>, ignore_header, ignore_empty, string_error),
       W(string_error, ignore_empty, ignore_header, multiline_restricted<2>, e),
       W(ignore_header, string_error, e, ignore_empty, multiline_restricted<2>),
       W(setup<ignore_empty, e, string_error, multiline_restricted<2>, ignore_header>),
       W(tuple<multiline_restricted<2>, ignore_header, string_error, e, ignore_empty>),
       W(setup<setup<ignore_header, e, multiline_restricted<2>, ignore_empty, string_error>>))
namespace {
FAMILY("many escapes, string", STRING, false, false, "\"", "\\^~$@%&", "", "", 0, false,
       W(q, escape<'\\', '^', '~', '$', '@', '%', '&'>, multiline, string_error),
       W(string_error, multiline, escape<'&', '%', '@', '$', '~', '^', '\\'>, q),
       W(setup<multiline, string_error, q, escape<'$', '&', '\\', '@', '%', '~', '^'>>),
       W(tuple<escape<'@', '\\', '$', '^', '&', '%', '~'>, q, string_error, multiline>))
}
#elif SLICE == 4
FAMILY("trim only, string", STRING, false, true, nullptr, "", " \t", " \t", -1, true, W(t2, ignore_empty, string_error),
       W(string_error, t2r, ignore_empty), W(ignore_empty, string_error, t2), W(l2, string_error, r2, ignore_empty),
       W(r2, ignore_empty, trim_left<'\t', ' '>, string_error), W(setup<t2r, string_error, ignore_empty>),
       W(tuple<ignore_empty, string_error, l2, r2>), W(setup<setup<string_error, ignore_empty, t2>>))
namespace {
FAMILY("many characters, plain", BOOL, false, true, nullptr, "", " \t_.!#", " \t_.!#", -1, false,
       W(trim<' ', '\t', '_', '.', '!', '#'>), W(trim<'#', '!', '.', '_', '\t', ' '>), W(trim<'.', '#', ' ', '!', '_', '\t'>),
       W(trim_left<' ', '\t', '_', '.', '!', '#'>, trim_right<'#', '!', '.', '_', '\t', ' '>),
       W(setup<trim_right<'.', '#', ' ', '!', '_', '\t'>, trim_left<'!', '_', ' ', '#', '.', '\t'>>),
       W(tuple<trim<'\t', ' ', '.', '_', '#', '!'>>))
}
#elif SLICE == 5
FAMILY("sided trim, throw", THROW, false, false, "\"", "\\", " ", "\t", -1, false,
       W(q, e, trim_left<' '>, trim_right<'\t'>, throw_on_error), W(throw_on_error, trim_right<'\t'>, trim_left<' '>, e, q),
       W(trim_right<'\t'>, q, throw_on_error, trim_left<' '>, e), W(setup<e, trim_left<' '>, q, trim_right<'\t'>, throw_on_error>),
       W(tuple<trim_left<' '>, throw_on_error, trim_right<'\t'>, q, e>),
       W(setup<tuple<trim_right<'\t'>, trim_left<' '>, throw_on_error, e, q>>))
#elif SLICE == 6
FAMILY("escapes, plain", BOOL, true, false, nullptr, "\\^", "_ ", "_ ", 0, false,
       W(e2, trim<'_', ' '>, multiline, ignore_header), W(ignore_header, multiline, trim<' ', '_'>, e2r),
       W(multiline, e2r, ignore_header, trim_left<'_', ' '>, trim_right<' ', '_'>), W(setup<ignore_header, e2, multiline, trim<'_', ' '>>),
       W(tuple<trim<' ', '_'>, ignore_header, e2, multiline_restricted<0>>), W(setup<setup<multiline, ignore_header, e2r, trim<' ', '_'>>>))
#elif SLICE == 7
FAMILY("quote and escape, string", STRING, false, false, "\"", "\\", "", "", 1, false,
       W(q, e, multiline_restricted<1>, string_error), W(string_error, multiline_restricted<1>, e, q),
       W(e, string_error, q, multiline_restricted<1>), W(multiline_restricted<1>, q, string_error, e),
       W(setup<string_error, q, multiline_restricted<1>, e>), W(tuple<multiline_restricted<1>, e, q, string_error>),
       W(setup<setup<e, q, multiline_restricted<1>, string_error>>), W(setup<tuple<setup<q, string_error, e, multiline_restricted<1>>>>))
#endif

} /* namespace h */
