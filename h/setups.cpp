// The setups under test. Compiled in slices (-DSLICE=k -DSLICES=n) to use all
// cores.
#include "sut.hpp"

namespace h {
#if SLICE == 0
std::vector<Setup>& setups() {
    static std::vector<Setup> s;
    return s;
}
#endif

static Cfg mk(const char* q, str esc, str tl, str tr, int ml = -1,
              bool ie = false, bool ih = false) {
    Cfg c;
    c.Q = q != nullptr;
    if (q) {
        c.q = *q;
    }
    c.esc = std::move(esc);
    c.tl = std::move(tl);
    c.tr = std::move(tr);
    c.ML = ml >= 0;
    c.limit = ml > 0 ? static_cast<size_t>(ml) : 0;
    c.IE = ie;
    c.IH = ih;
    return c;
}

template <int I, bool IH, bool Const, typename... O>
static void add(const char* name, Cfg cfg) {
    using M = Make<IH, Const, O...>;
    static Add_setup a{Setup{name, cfg, M::file, M::buffer, M::conv}};
}

#define S(I, NAME, CFG, ...)                                                   \
    template <int Slice>                                                       \
    struct S##I {                                                              \
        static void run() {                                                    \
            if constexpr (I % SLICES == Slice) {                               \
                constexpr bool ih = has_opt<ss::ignore_header, ##__VA_ARGS__>; \
                constexpr bool cl =                                            \
                    !ss::setup<__VA_ARGS__>::quote::enabled &&                 \
                    !ss::setup<__VA_ARGS__>::escape::enabled;                  \
                add<I, ih, cl, ##__VA_ARGS__>(NAME, CFG);                      \
            }                                                                  \
        }                                                                      \
    };                                                                         \
    static int r##I = (S##I<SLICE>::run(), 0);

template <typename T, typename... Os>
constexpr bool has_opt = (std::is_same_v<T, Os> || ...);

using namespace ss;
#pragma clang diagnostic ignored "-Wgnu-zero-variadic-macro-arguments"
#pragma clang diagnostic ignored "-Wunused-variable"
#define Qt "\""

S(0, "plain", mk(0, "", "", ""))
S(1, "Q", mk(Qt, "", "", ""), quote<'"'>)
S(2, "E", mk(0, "\\", "", ""), escape<'\\'>)
S(3, "T", mk(0, "", " ", " "), trim<' '>)
S(4, "TL", mk(0, "", " \t", ""), trim_left<' ', '\t'>)
S(5, "TR", mk(0, "", "", " "), trim_right<' '>)
S(6, "QE", mk(Qt, "\\", "", ""), quote<'"'>, escape<'\\'>)
S(7, "QT", mk(Qt, "", " ", " "), quote<'"'>, trim<' '>)
S(8, "ET", mk(0, "\\", " ", " "), escape<'\\'>, trim<' '>)
S(9, "QET", mk(Qt, "\\", " \t", " \t"), quote<'"'>, escape<'\\'>,
  trim<' ', '\t'>)
S(10, "Q+ML", mk(Qt, "", "", "", 0), quote<'"'>, multiline)
S(11, "E+ML", mk(0, "\\", "", "", 0), escape<'\\'>, multiline)
S(12, "QE+ML", mk(Qt, "\\", "", "", 0), quote<'"'>, escape<'\\'>, multiline)
S(13, "QET+ML", mk(Qt, "\\", " ", " ", 0), quote<'"'>, escape<'\\'>, trim<' '>,
  multiline)
S(14, "QE+TL+ML", mk(Qt, "\\", " ", "", 0), quote<'"'>, escape<'\\'>,
  trim_left<' '>, multiline)
S(15, "QE+TR+ML2", mk(Qt, "\\", "", " ", 2), quote<'"'>, escape<'\\'>,
  trim_right<' '>, multiline_restricted<2>)
S(16, "Q+ML1", mk(Qt, "", "", "", 1), quote<'"'>, multiline_restricted<1>)
S(17, "E+ML3", mk(0, "\\", "", "", 3), escape<'\\'>, multiline_restricted<3>)
S(18, "QET+ML5", mk(Qt, "\\", " ", " ", 5), quote<'"'>, escape<'\\'>,
  trim<' '>, multiline_restricted<5>)
S(19, "IE", mk(0, "", "", "", -1, true), ignore_empty)
S(20, "QET+ML+IE", mk(Qt, "\\", " ", " ", 0, true), quote<'"'>, escape<'\\'>,
  trim<' '>, multiline, ignore_empty)
S(21, "q'EE+TT+ML", mk("'", "\\^", "_ ", "_ ", 0), quote<'\''>,
  escape<'\\', '^'>, trim<'_', ' '>, multiline)
S(22, "E+ML2+IE+T", mk(0, "\\", " ", " ", 2, true), escape<'\\'>,
  multiline_restricted<2>, ignore_empty, trim<' '>)
S(23, "QT+ML", mk(Qt, "", " ", " ", 0), quote<'"'>, trim<' '>, multiline)
S(24, "IH", mk(0, "", "", "", -1, false, true), ignore_header)
S(25, "IH+IE", mk(0, "", "", "", -1, true, true), ignore_header, ignore_empty)
S(26, "IH+QE+ML", mk(Qt, "\\", "", "", 0, false, true), ignore_header,
  quote<'"'>, escape<'\\'>, multiline)
S(27, "Q+TL+TR", mk(Qt, "", " ", "\t", -1), quote<'"'>, trim_left<' '>,
  trim_right<'\t'>)
S(28, "QE+ML3", mk(Qt, "\\", "", "", 3), quote<'"'>, escape<'\\'>,
  multiline_restricted<3>)
S(29, "Q+IE", mk(Qt, "", "", "", -1, true), quote<'"'>, ignore_empty)
S(30, "QE+ML1+IE", mk(Qt, "\\", "", "", 1, true), quote<'"'>, escape<'\\'>,
  multiline_restricted<1>, ignore_empty)
S(31, "ET+ML", mk(0, "\\", " ", " ", 0), escape<'\\'>, trim<' '>, multiline)

S(32, "q|EEE+T4", mk("|", "\\^~", " \t_.", " \t_."), quote<'|'>,
  escape<'\\', '^', '~'>, trim<' ', '\t', '_', '.'>)
S(33, "hi QET+ML", mk("\xab", "\xac\xff", "\xa0", "\xa0", 0), quote<'\xab'>,
  escape<'\xac', '\xff'>, trim<'\xa0'>, multiline)
S(34, "Q+ML300", mk(Qt, "", "", "", 300), quote<'"'>,
  multiline_restricted<300>)
S(35, "QE+ML256+IE", mk(Qt, "\\", "", "", 256, true), quote<'"'>, escape<'\\'>,
  multiline_restricted<256>, ignore_empty)
S(36, "TL3+TR3", mk(0, "", " \t.", "_ ~"), trim_left<' ', '\t', '.'>,
  trim_right<'_', ' ', '~'>)
S(37, "IH+QET", mk(Qt, "\\", " ", " ", -1, false, true), ignore_header,
  quote<'"'>, escape<'\\'>, trim<' '>)
S(38, "QE6+T8+ML", mk(Qt, "\\^~$@%", " \t_.!#*+", " \t_.!#*+", 0), quote<'"'>,
  escape<'\\', '^', '~', '$', '@', '%'>,
  trim<' ', '\t', '_', '.', '!', '#', '*', '+'>, multiline)
S(39, "TL6+TR7", mk(0, "", " \t_.!#", "*+~ ^\t%"),
  trim_left<' ', '\t', '_', '.', '!', '#'>,
  trim_right<'*', '+', '~', ' ', '^', '\t', '%'>)

} /* namespace h */
