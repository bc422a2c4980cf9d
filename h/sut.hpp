// Type erased access to the public API of the library, so that one workload
// can drive every setup and error mode. Only documented, public calls are used.
#pragma once
#include "model.hpp"
#include <memory>
#include <optional>
#include <tuple>

#ifdef USE_SINGLE_HEADER
#include "ssp.hpp"
#else
#include <ss/parser.hpp>
#endif

namespace h {

enum Mode { BOOL = 0, STRING = 1, THROW = 2 };
inline const char* const mode_name[] = {"bool", "string", "throw"};

// what one call on the library showed
struct Obs {
    bool ok = false;
    str msg;  // string error or text of the exception
    strs vals;
    bool flag = false;
    bool threw = false;
};

struct State {
    size_t line = 0, pos = 0;
    bool eof = false, valid = false;
    bool operator==(const State& o) const {
        return line == o.line && pos == o.pos && eof == o.eof &&
               valid == o.valid;
    }
};

constexpr int max_arity = 6;

struct ISut {
    virtual ~ISut() = default;
    virtual Obs next(int k) = 0; // get_next<std::string...> with k types
    virtual Obs iterate_rest(int k, size_t max, std::vector<strs>& rows) = 0;
    virtual bool ignore_next() = 0;
    virtual Obs header() = 0;
    virtual Obs raw_header() = 0;
    virtual Obs field_exists(const str& f) = 0;
    virtual Obs use_fields(const strs& f) = 0;
    virtual State state() = 0;
    virtual Obs open() = 0; // error state after construction
    virtual void move_construct() = 0;
    // assigns to a parser which is reading something else
    virtual void move_assign(const char* other, size_t size) = 0;
    virtual str error_msg() = 0;
    // takes over the parser of another one of the same type, by construction
    // or by assignment to the one held; the other is left moved-from
    virtual void take(ISut& other, bool assign) = 0;
    virtual void destroy() = 0;
};

struct IConv {
    virtual ~IConv() = default;
    // converts a line given as a null terminated array (edited if needed)
    virtual Obs convert(char* line, int k, const str& delim) = 0;
    virtual Obs split(char* line, const str& delim,
                      std::vector<std::pair<size_t, size_t>>& ranges) = 0;
    virtual Obs convert_split(int k) = 0; // converts the last split line
    virtual Obs convert_given(int k) = 0; // same, by the returned split data
    virtual std::unique_ptr<IConv> clone() = 0;
    // the splitter alone: the same one for all lines
    virtual Obs splitter(char* line, const str& delim, bool& open_quote,
                         std::vector<std::pair<size_t, size_t>>& ranges) = 0;
};

template <typename T>
struct Splitter_of;
template <typename... O>
struct Splitter_of<ss::converter<O...>> {
    using type = ss::splitter<O...>;
};

struct Setup {
    str name;
    Cfg cfg;
    std::unique_ptr<ISut> (*file)(Mode, const str& path, const str& delim);
    std::unique_ptr<ISut> (*buffer)(Mode, const char* data, size_t size,
                                    const str& delim);
    std::unique_ptr<IConv> (*conv)(Mode);
};

std::vector<Setup>& setups();

struct Add_setup {
    Add_setup(Setup s) {
        setups().push_back(std::move(s));
    }
};

inline void append_vals(strs& out, const std::string& s) {
    out.push_back(s);
}

template <typename... Ts>
void append_vals(strs& out, const std::tuple<Ts...>& t) {
    std::apply([&](const auto&... xs) { (out.push_back(xs), ...); }, t);
}

template <typename P, int K>
struct Next {
    template <size_t... Is>
    static auto get(P& p, std::index_sequence<Is...>) {
        return p.template get_next<
            std::conditional_t<(Is >= 0), std::string, int>...>();
    }
    static void run(P& p, strs& out) {
        append_vals(out, get(p, std::make_index_sequence<K>{}));
    }
    template <size_t... Is>
    static void it(P& p, size_t max, std::vector<strs>& rows,
                   std::index_sequence<Is...>) {
        if (max == 0) {
            return;
        }
        for (const auto& v : p.template iterate<std::conditional_t<
                 (Is >= 0), std::string, int>...>()) {
            strs r;
            append_vals(r, v);
            rows.push_back(r);
            if (rows.size() >= max) {
                break;
            }
        }
    }
    static void iterate(P& p, size_t max, std::vector<strs>& rows) {
        it(p, max, rows, std::make_index_sequence<K>{});
    }
};

template <typename C, int K>
struct Conv {
    template <typename L, size_t... Is>
    static void line(C& c, L* l, const str& d, strs& out,
                     std::index_sequence<Is...>) {
        append_vals(out, c.template convert<std::conditional_t<
                             (Is >= 0), std::string, int>...>(l, d));
    }
    template <size_t... Is>
    static void cached(C& c, strs& out, std::index_sequence<Is...>) {
        append_vals(out, c.template convert<std::conditional_t<
                             (Is >= 0), std::string, int>...>());
    }
    template <size_t... Is>
    static void given(C& c, const ss::split_data& s, strs& out,
                      std::index_sequence<Is...>) {
        append_vals(out, c.template convert<std::conditional_t<
                             (Is >= 0), std::string, int>...>(s));
    }
};

#define H_DISPATCH(k, CALL)                                                    \
    switch (k) {                                                               \
    case 1: { constexpr int K = 1; CALL; break; }                              \
    case 2: { constexpr int K = 2; CALL; break; }                              \
    case 3: { constexpr int K = 3; CALL; break; }                              \
    case 4: { constexpr int K = 4; CALL; break; }                              \
    case 5: { constexpr int K = 5; CALL; break; }                              \
    case 6: { constexpr int K = 6; CALL; break; }                              \
    default: std::fprintf(stderr, "harness: bad arity\n"); std::_Exit(91);     \
    }

template <typename... O>
using with_string_error = ss::parser<O..., ss::string_error>;

template <bool IH, Mode M, typename P>
class Sut : public ISut {
public:
    template <typename... As>
    explicit Sut(As&&... as) {
        if constexpr (M == THROW) {
            try {
                p.emplace(std::forward<As>(as)...);
                opened.ok = true;
            } catch (const ss::exception& e) {
                opened.threw = true;
                opened.msg = e.what();
            }
        } else {
            p.emplace(std::forward<As>(as)...);
            opened.ok = p->valid();
            if constexpr (M == STRING) {
                opened.msg = p->error_msg();
            }
        }
    }

    Obs open() override {
        return opened;
    }

    template <typename F>
    Obs guarded(F&& f) {
        Obs o;
        if constexpr (M == THROW) {
            try {
                f(o);
                o.ok = true;
            } catch (const ss::exception& e) {
                o.threw = true;
                o.msg = e.what();
                o.vals.clear();
            }
        } else {
            f(o);
            o.ok = p->valid();
            if constexpr (M == STRING) {
                o.msg = p->error_msg();
            }
        }
        return o;
    }

    Obs next(int k) override {
        return guarded([&](Obs& o) {
            H_DISPATCH(k, (Next<P, K>::run(*p, o.vals)));
        });
    }
    Obs iterate_rest(int k, size_t max, std::vector<strs>& rows) override {
        return guarded([&](Obs&) {
            H_DISPATCH(k, (Next<P, K>::iterate(*p, max, rows)));
        });
    }
    bool ignore_next() override {
        return p->ignore_next();
    }
    Obs header() override {
        if constexpr (!IH) {
            return guarded([&](Obs& o) { o.vals = p->header(); });
        } else {
            return {};
        }
    }
    Obs raw_header() override {
        Obs o;
        if constexpr (!IH) {
            o.vals = {p->raw_header()};
            o.ok = true;
        }
        return o;
    }
    Obs field_exists(const str& f) override {
        if constexpr (!IH) {
            return guarded([&](Obs& o) { o.flag = p->field_exists(f); });
        } else {
            return {};
        }
    }
    Obs use_fields(const strs& f) override {
        if constexpr (!IH) {
            return guarded([&](Obs&) {
                switch (f.size()) {
                case 1:
                    p->use_fields(f[0]);
                    break;
                case 2:
                    p->use_fields(f[0], f[1].c_str());
                    break;
                case 3:
                    p->use_fields(f[0], f[1], f[2]);
                    break;
                default:
                    p->use_fields(f);
                }
            });
        } else {
            return {};
        }
    }
    State state() override {
        return {p->line(), p->position(), p->eof(), p->valid()};
    }
    void move_construct() override {
        auto other = std::make_unique<P>(std::move(*p));
        p.emplace(std::move(*other));
    }
    void move_assign(const char* other, size_t size) override {
        P target{other, size};
        if constexpr (M == THROW) {
            try {
                static_cast<void>(target.template get_next<std::string>());
            } catch (const ss::exception&) {
            }
        } else {
            static_cast<void>(target.template get_next<std::string>());
        }
        target = std::move(*p);
        p.reset();
        p.emplace(std::move(target));
    }
    str error_msg() override {
        if constexpr (M == STRING) {
            return p->error_msg();
        } else {
            return {};
        }
    }
    void take(ISut& other, bool assign) override {
        Sut& o = static_cast<Sut&>(other);
        if (assign && p) {
            *p = std::move(*o.p);
        } else {
            p.emplace(std::move(*o.p));
        }
    }
    void destroy() override {
        p.reset();
    }

    std::optional<P> p;
    Obs opened;
};

template <bool Const, Mode M, typename C>
class ConvImpl : public IConv {
public:
    using ptr = std::conditional_t<Const, const char, char>;

    template <typename F>
    Obs guarded(F&& f) {
        Obs o;
        if constexpr (M == THROW) {
            try {
                f(o);
                o.ok = true;
            } catch (const ss::exception& e) {
                o.threw = true;
                o.msg = e.what();
                o.vals.clear();
            }
        } else {
            f(o);
            o.ok = c.valid();
            if constexpr (M == STRING) {
                o.msg = c.error_msg();
            }
        }
        return o;
    }
    Obs convert(char* line, int k, const str& delim) override {
        return guarded([&](Obs& o) {
            H_DISPATCH(k, (Conv<C, K>::line(c, static_cast<ptr*>(line), delim,
                                            o.vals,
                                            std::make_index_sequence<K>{})));
        });
    }
    Obs split(char* line, const str& delim,
              std::vector<std::pair<size_t, size_t>>& ranges) override {
        ranges.clear();
        Obs o;
        // split reports its errors on the following conversion
        try {
            data = c.split(line, delim);
            for (auto& [b, e] : data) {
                ranges.push_back({static_cast<size_t>(b - line),
                                  static_cast<size_t>(e - line)});
                o.vals.push_back(str{b, e});
            }
            o.ok = true;
        } catch (const ss::exception& e) {
            o.threw = true;
            o.msg = e.what();
        }
        return o;
    }
    Obs convert_split(int k) override {
        return guarded([&](Obs& o) {
            H_DISPATCH(k, (Conv<C, K>::cached(c, o.vals,
                                              std::make_index_sequence<K>{})));
        });
    }
    Obs convert_given(int k) override {
        return guarded([&](Obs& o) {
            H_DISPATCH(k, (Conv<C, K>::given(c, data, o.vals,
                                             std::make_index_sequence<K>{})));
        });
    }

    std::unique_ptr<IConv> clone() override {
        auto n = std::make_unique<ConvImpl>();
        n->c = c;
        n->data = data;
        return n;
    }

    Obs splitter(char* line, const str& delim, bool& open_quote,
                 std::vector<std::pair<size_t, size_t>>& ranges) override {
        ranges.clear();
        Obs o;
        try {
            const auto& returned = s.split(line, delim);
            o.ok = s.valid();
            if constexpr (M == STRING) {
                o.msg = s.error_msg();
            }
            if (&returned != &s.get_split_data()) {
                o.msg += "(two results)";
            }
            for (auto& [b, e] : s.get_split_data()) {
                ranges.push_back({static_cast<size_t>(b - line),
                                  static_cast<size_t>(e - line)});
                o.vals.push_back(str{b, e});
            }
        } catch (const ss::exception& e) {
            o.threw = true;
            o.msg = e.what();
        }
        open_quote = s.unterminated_quote();
        return o;
    }

    C c;
    ss::split_data data;
    typename Splitter_of<C>::type s;
};

template <bool IH, bool Const, typename... O>
struct Make {
    using P0 = ss::parser<O...>;
    using P1 = ss::parser<O..., ss::string_error>;
    using P2 = ss::parser<O..., ss::throw_on_error>;
    using C0 = ss::converter<O...>;
    using C1 = ss::converter<O..., ss::string_error>;
    using C2 = ss::converter<O..., ss::throw_on_error>;

    template <typename... As>
    static std::unique_ptr<ISut> any(Mode m, const As&... as) {
        switch (m) {
        case BOOL:
            return std::make_unique<Sut<IH, BOOL, P0>>(as...);
        case STRING:
            return std::make_unique<Sut<IH, STRING, P1>>(as...);
        default:
            return std::make_unique<Sut<IH, THROW, P2>>(as...);
        }
    }
    static std::unique_ptr<ISut> file(Mode m, const str& path,
                                      const str& delim) {
        return any(m, path, delim);
    }
    static std::unique_ptr<ISut> buffer(Mode m, const char* data, size_t size,
                                        const str& delim) {
        return any(m, data, size, delim);
    }
    static std::unique_ptr<IConv> conv(Mode m) {
        switch (m) {
        case BOOL:
            return std::make_unique<ConvImpl<Const, BOOL, C0>>();
        case STRING:
            return std::make_unique<ConvImpl<Const, STRING, C1>>();
        default:
            return std::make_unique<ConvImpl<Const, THROW, C2>>();
        }
    }
};

} /* namespace h */
