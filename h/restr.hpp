// The restrictions of the library as columns of rows: what each describes, in
// terms of the mathematical value.
#pragma once
#include "rows.hpp"

namespace h {

template <typename T>
inline long double num(const str& t) {
    if constexpr (std::is_same_v<T, bool> || (std::is_integral_v<T> && sizeof(T) == 1) ||
                  std::is_floating_point_v<T>) {
        return static_cast<long double>(ref_value<T>(t));
    } else {
        i128 v = 0;
        ref_int(t, true, -(static_cast<i128>(1) << 80), static_cast<i128>(1) << 80, v);
        return static_cast<long double>(v); // exact up to 64 bits
    }
}

#define RESTRICTION(NAME, PARAMS, ARGS, COND, MESSAGE)                          \
    template <typename T, PARAMS>                                              \
    struct Col<ss::NAME<T, ARGS>> {                                            \
        using base = T;                                                        \
        static constexpr bool restricted = true;                               \
        static bool ok(const str& t) {                                         \
            const long double v = num<T>(t);                                   \
            return COND;                                                       \
        }                                                                      \
        static str message() {                                                 \
            return MESSAGE;                                                    \
        }                                                                      \
        static str name() {                                                    \
            return #NAME "<" + Ref<T>::name() + ">";                           \
        }                                                                      \
    };
#define LD(x) static_cast<long double>(x)
#define COMMA ,

RESTRICTION(ax, auto... Vs, Vs..., !((v == LD(Vs)) || ...), "value excluded")
RESTRICTION(nx, auto... Vs, Vs..., ((v == LD(Vs)) || ...), "value excluded")
RESTRICTION(gt, auto N, N, v > LD(N), "validation error")
RESTRICTION(gte, auto N, N, v >= LD(N), "validation error")
RESTRICTION(lt, auto N, N, v < LD(N), "validation error")
RESTRICTION(lte, auto N, N, v <= LD(N), "validation error")
RESTRICTION(ir, auto A COMMA auto B, A COMMA B, v >= LD(A) && v <= LD(B), "validation error")
RESTRICTION(oor, auto A COMMA auto B, A COMMA B, v < LD(A) || v > LD(B), "validation error")

template <typename T>
struct Col<ss::ne<T>> {
    using base = T;
    static constexpr bool restricted = true;
    static bool ok(const str& t) {
        return !t.empty();
    }
    static str message() {
        return "empty field";
    }
    static str name() {
        return "ne<" + Ref<T>::name() + ">";
    }
};

// accepts everything, once
template <typename T>
struct once {
    bool used = false;
    bool ss_valid(const T&) {
        const bool first = !used;
        used = true;
        return first;
    }
};

template <typename T>
struct Col<once<T>> {
    using base = T;
    static constexpr bool restricted = true;
    static bool ok(const str&) {
        return true;
    }
    static str message() {
        return "validation error";
    }
    static str name() {
        return "once<" + Ref<T>::name() + ">";
    }
};

} /* namespace h */
