// Symbolic floating-point scalars that occupy the bytes of a float / double.
//
// A value whose bits are not a NaN is an ordinary literal.  A quiet NaN with a
// positive sign carries the index of a node of the expression graph in its
// payload (index 0 = undefined value).  The payload sits in the upper bits of
// the mantissa, so hardware float<->double conversion and any byte-wise copy
// (ATen views, permutes, contiguous()) keep it intact.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <stdexcept>
#include <type_traits>

extern "C" {
int64_t symf_const(double v);
int64_t symf_op(int op, int64_t a, int64_t b);
int symf_cmp(int op, int64_t a, int64_t b);   // 0 / 1, or -1: abort
}

namespace symf
{
    enum Op { CONST = 0, LEAF = 1, ADD = 2, SUB = 3, MUL = 4, DIV = 5, EXP = 6, MAX = 7, MIN = 8, SQRT = 9, LOG = 10, ABS = 11, NEG = 12, SIN = 13, COS = 14, POW = 15 };
    enum Cmp { LT = 0, LE = 1, EQ = 2 };

    inline bool decide(int op, int64_t a, int64_t b)
    {
        int r = symf_cmp(op, a, b);
        if (r < 0) throw std::runtime_error("symbolic comparison could not be decided");
        return r != 0;
    }

    template <typename R, typename U, U TAG, U MASK, int SHIFT, U INFBITS, U ABSMASK, U FILL> struct Sym {
        U u;
        Sym() = default;
        static Sym bits(U x)
        {
            Sym s;
            s.u = x;
            return s;
        }
        static Sym node(int64_t id)
        {
            if (id >= (int64_t(1) << 22)) throw std::runtime_error("symbolic node table full");
            return bits(TAG | (U(id) << SHIFT));
        }
        bool lit() const { return (u & ABSMASK) <= INFBITS && u != FILL; }
        R val() const
        {
            R r;
            std::memcpy(&r, &u, sizeof(R));
            return r;
        }
        int64_t id() const
        {
            if (lit()) return symf_const((double)val());
            if (u == FILL || (u & TAG) != TAG) return 0;
            return (int64_t)((u & MASK) >> SHIFT);
        }
        static Sym of(R v)
        {
            Sym s;
            if (v != v) return bits(TAG); // NaN: undefined
            std::memcpy(&s.u, &v, sizeof(R));
            return s;
        }
        template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>>> Sym(T v) { *this = of((R)v); }
        template <typename R2, typename U2, U2 A, U2 B, int C, U2 D, U2 E, U2 F>
        Sym(const Sym<R2, U2, A, B, C, D, E, F> &o)
        {
            if (o.lit()) *this = of((R)o.val());
            else *this = node(o.id());
        }
        template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>>> explicit operator T() const
        {
            if (!lit()) throw std::runtime_error("number taken from a symbolic value");
            return (T)val();
        }
    };

    using F = Sym<float, uint32_t, 0x7FC00000u, 0x003FFFFFu, 0, 0x7F800000u, 0x7FFFFFFFu, 0xFEFEFEFEu>;
    using D = Sym<double, uint64_t, 0x7FF8000000000000ull, 0x0007FFFFE0000000ull, 29, 0x7FF0000000000000ull, 0x7FFFFFFFFFFFFFFFull, 0xFEFEFEFEFEFEFEFEull>;
    static_assert(sizeof(F) == 4 && sizeof(D) == 8 && std::is_trivially_default_constructible_v<F> && std::is_trivially_copyable_v<F>);

    template <typename T> struct is_sym : std::false_type {};
    template <> struct is_sym<F> : std::true_type {};
    template <> struct is_sym<D> : std::true_type {};

    // result type of mixed arithmetic
    template <typename A, typename B, typename = void> struct res {};
    template <> struct res<F, F> { using t = F; };
    template <> struct res<D, D> { using t = D; };
    template <> struct res<F, D> { using t = D; };
    template <> struct res<D, F> { using t = D; };
    template <typename A> struct res<F, A, std::enable_if_t<std::is_arithmetic_v<A>>> { using t = std::conditional_t<std::is_same_v<A, double>, D, F>; };
    template <typename A> struct res<A, F, std::enable_if_t<std::is_arithmetic_v<A>>> { using t = std::conditional_t<std::is_same_v<A, double>, D, F>; };
    template <typename A> struct res<D, A, std::enable_if_t<std::is_arithmetic_v<A>>> { using t = D; };
    template <typename A> struct res<A, D, std::enable_if_t<std::is_arithmetic_v<A>>> { using t = D; };

    template <typename T> T bin(int op, const T &a, const T &b)
    {
        if (a.lit() && b.lit()) {
            auto x = a.val(), y = b.val();
            switch (op) {
            case ADD: return T::of(x + y);
            case SUB: return T::of(x - y);
            case MUL: return T::of(x * y);
            case DIV: return T::of(x / y);
            case MAX: return x < y ? b : a;
            case MIN: return y < x ? b : a;
            case POW: return T::of(std::pow(x, y));
            }
        }
        if (op == ADD) {
            if (a.lit() && a.val() == 0) return b;
            if (b.lit() && b.val() == 0) return a;
        }
        if (op == SUB && b.lit() && b.val() == 0) return a;
        if (op == MUL) {
            if (a.lit() && a.val() == 1) return b;
            if (b.lit() && b.val() == 1) return a;
            // 0 * x is 0 for every finite x
            if (a.lit() && a.val() == 0 && b.id() != 0) return T::of(0);
            if (b.lit() && b.val() == 0 && a.id() != 0) return T::of(0);
        }
        int64_t r = symf_op(op, a.id(), b.id());
        return T::node(r);
    }
    template <typename T> T un(int op, const T &a, double (*f)(double))
    {
        if (a.lit()) return T::of((decltype(a.val()))f((double)a.val()));
        return T::node(symf_op(op, a.id(), 0));
    }
    template <typename T> bool cmp(int op, const T &a, const T &b)
    {
        if (a.lit() && b.lit()) {
            auto x = a.val(), y = b.val();
            return op == LT ? x < y : op == LE ? x <= y : x == y;
        }
        return decide(op, a.id(), b.id());
    }

#define SYMF_BIN(OPER, CODE)                                                                                           \
    template <typename A, typename B, typename R = typename res<A, B>::t> inline R operator OPER(const A &a, const B &b) \
    {                                                                                                                  \
        return bin<R>(CODE, R(a), R(b));                                                                               \
    }
    SYMF_BIN(+, ADD)
    SYMF_BIN(-, SUB)
    SYMF_BIN(*, MUL)
    SYMF_BIN(/, DIV)
#undef SYMF_BIN
#define SYMF_ASG(OPER, CODE)                                                                                           \
    template <typename A, typename B, typename = std::enable_if_t<is_sym<A>::value>, typename R = typename res<A, B>::t> \
    inline A &operator OPER(A &a, const B &b)                                                                          \
    {                                                                                                                  \
        a = A(bin<R>(CODE, R(a), R(b)));                                                                               \
        return a;                                                                                                      \
    }
    SYMF_ASG(+=, ADD)
    SYMF_ASG(-=, SUB)
    SYMF_ASG(*=, MUL)
    SYMF_ASG(/=, DIV)
#undef SYMF_ASG
#define SYMF_CMP(OPER, EXPR)                                                                                           \
    template <typename A, typename B, typename R = typename res<A, B>::t> inline bool operator OPER(const A &a, const B &b) \
    {                                                                                                                  \
        R x(a), y(b);                                                                                                  \
        return EXPR;                                                                                                   \
    }
    SYMF_CMP(<, cmp<R>(LT, x, y))
    SYMF_CMP(>, cmp<R>(LT, y, x))
    SYMF_CMP(<=, cmp<R>(LE, x, y))
    SYMF_CMP(>=, cmp<R>(LE, y, x))
    SYMF_CMP(==, cmp<R>(EQ, x, y))
    SYMF_CMP(!=, !cmp<R>(EQ, x, y))
#undef SYMF_CMP
    inline F operator-(const F &a) { return a.lit() ? F::of(-a.val()) : F::node(symf_op(NEG, a.id(), 0)); }
    inline D operator-(const D &a) { return a.lit() ? D::of(-a.val()) : D::node(symf_op(NEG, a.id(), 0)); }
    inline F operator+(const F &a) { return a; }
    inline D operator+(const D &a) { return a; }

#define SYMF_UN(NAME, CODE, FN)                                                                                        \
    inline F NAME(const F &a) { return un(CODE, a, static_cast<double (*)(double)>(FN)); }                             \
    inline D NAME(const D &a) { return un(CODE, a, static_cast<double (*)(double)>(FN)); }
    SYMF_UN(exp, EXP, ::exp)
    SYMF_UN(sqrt, SQRT, ::sqrt)
    SYMF_UN(log, LOG, ::log)
    SYMF_UN(fabs, ABS, ::fabs)
    SYMF_UN(abs, ABS, ::fabs)
    SYMF_UN(sin, SIN, ::sin)
    SYMF_UN(cos, COS, ::cos)
#undef SYMF_UN
    template <typename A, typename B, typename R = typename res<A, B>::t> inline R fmax(const A &a, const B &b) { return bin<R>(MAX, R(a), R(b)); }
    template <typename A, typename B, typename R = typename res<A, B>::t> inline R fmin(const A &a, const B &b) { return bin<R>(MIN, R(a), R(b)); }
    template <typename A, typename B, typename R = typename res<A, B>::t> inline R pow(const A &a, const B &b) { return bin<R>(POW, R(a), R(b)); }
    template <typename A, typename B, typename C> inline auto fma(const A &a, const B &b, const C &c) -> decltype(a * b + c) { return a * b + c; }
    template <typename A, typename = std::enable_if_t<is_sym<A>::value>> inline bool isnan(const A &) { return false; }
    template <typename A, typename = std::enable_if_t<is_sym<A>::value>> inline bool isinf(const A &a) { return a.lit() && std::isinf(a.val()); }
    template <typename A, typename = std::enable_if_t<is_sym<A>::value>> inline bool isfinite(const A &a) { return !isinf(a); }
} // namespace symf

using SymF = symf::F;
using SymD = symf::D;

using symf::exp;
using symf::sqrt;
using symf::log;
using symf::fabs;
using symf::fmax;
using symf::fmin;
using symf::fma;
inline SymF expf(const SymF &a) { return symf::exp(a); }
inline SymF sqrtf(const SymF &a) { return symf::sqrt(a); }
inline SymF logf(const SymF &a) { return symf::log(a); }
inline SymF fabsf(const SymF &a) { return symf::fabs(a); }
inline SymF fmaxf(const SymF &a, const SymF &b) { return symf::fmax(a, b); }
inline SymF fminf(const SymF &a, const SymF &b) { return symf::fmin(a, b); }

namespace std
{
    using symf::abs;
    using symf::cos;
    using symf::exp;
    using symf::fabs;
    using symf::fma;
    using symf::fmax;
    using symf::fmin;
    using symf::isfinite;
    using symf::isinf;
    using symf::isnan;
    using symf::log;
    using symf::pow;
    using symf::sin;
    using symf::sqrt;
    inline SymF expf(const SymF &a) { return symf::exp(a); }
    inline SymF sqrtf(const SymF &a) { return symf::sqrt(a); }
    // max / min of two symbolic values stay one expression instead of two paths
#define SYMF_MM(T)                                                                                                     \
    inline const T max(const T &a, const T &b) { return symf::bin<T>(symf::MAX, a, b); }                               \
    inline const T min(const T &a, const T &b) { return symf::bin<T>(symf::MIN, a, b); }                               \
    template <> inline const T &max<T>(const T &a, const T &b)                                                         \
    {                                                                                                                  \
        static thread_local T r;                                                                                       \
        r = symf::bin<T>(symf::MAX, a, b);                                                                             \
        return r;                                                                                                      \
    }                                                                                                                  \
    template <> inline const T &min<T>(const T &a, const T &b)                                                         \
    {                                                                                                                  \
        static thread_local T r;                                                                                       \
        r = symf::bin<T>(symf::MIN, a, b);                                                                             \
        return r;                                                                                                      \
    }
    SYMF_MM(SymF)
    SYMF_MM(SymD)
#undef SYMF_MM
#define SYMF_LIM(S, R)                                                                                                 \
    template <> struct numeric_limits<S> : numeric_limits<R> {                                                         \
        static S max() { return S(numeric_limits<R>::max()); }                                                         \
        static S min() { return S(numeric_limits<R>::min()); }                                                         \
        static S lowest() { return S(numeric_limits<R>::lowest()); }                                                   \
        static S epsilon() { return S(numeric_limits<R>::epsilon()); }                                                 \
        static S infinity() { return S(numeric_limits<R>::infinity()); }                                               \
        static S quiet_NaN() { return S(numeric_limits<R>::quiet_NaN()); }                                             \
    };
    SYMF_LIM(SymF, float)
    SYMF_LIM(SymD, double)
#undef SYMF_LIM
} // namespace std
