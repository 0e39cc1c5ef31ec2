// Stand-in for pybind11: records what pysrc/*.cpp exports, so that the
// wrappers themselves can be executed symbolically from compiler IR.
#pragma once
#include <array>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

extern "C" {
    typedef void (*vf_tramp)(const void* f, void** args, void* ret);
    void vf_class(const char* cls);
    void vf_base(const char* cls, const char* base);
    void vf_reg(const char* cls, const char* name, const char* sig, vf_tramp t, const void* f, size_t fsize);
    void vf_arg(const char* cls, const char* name, const char* arg);
    void vf_member(const char* cls, const char* name, size_t offset, const char* code, const char* type);
}

namespace pybind11 {
    struct tuple { double v[8]; long n; };
    template<class... A> tuple make_tuple(A... a) {
        tuple t{};
        double vs[] = { (double)a..., 0.0 };
        t.n = sizeof...(A);
        for (size_t i=0; i<sizeof...(A); i++) t.v[i] = vs[i];
        return t;
    }
    struct object {};
    struct arg { const char* name; template<class T> arg operator=(T) const { return *this; } };
    namespace literals { inline arg operator""_a(const char* s, size_t) { return arg{s}; } }

    namespace detail {
        template<class T> struct cname { static inline const char* value = "?"; };

        template<class T> struct is_vec : std::false_type {};
        template<class T> struct is_vec<std::vector<T>> : std::true_type {};

        template<class T> constexpr char code() {
            using U = std::remove_cv_t<std::remove_reference_t<T>>;
            if constexpr (std::is_void_v<U>) return 'v';
            else if constexpr (std::is_same_v<U, bool>) return 'b';
            else if constexpr (std::is_same_v<U, double>) return 'd';
            else if constexpr (std::is_same_v<U, float>) return 'f';
            else if constexpr (std::is_same_v<U, const char*>) return 'S';
            else if constexpr (std::is_integral_v<U>)
                return sizeof(U) == 8 ? (std::is_signed_v<U> ? 'l' : 'u') : (std::is_signed_v<U> ? 'i' : 'j');
            else if constexpr (std::is_same_v<U, std::complex<double>>) return 'c';
            else if constexpr (std::is_same_v<U, std::array<double, 3>>) return '3';
            else if constexpr (std::is_same_v<U, std::array<double, 9>>) return '9';
            else if constexpr (std::is_same_v<U, tuple>) return 'T';
            else if constexpr (is_vec<U>::value) return 'V';
            else if constexpr (std::is_pointer_v<U>) return 'P';
            else return 'P';
        }
        template<class R, class... A> struct sigstr {
            static inline const char s[] = { code<R>(), code<A>()..., 0 };
            static inline const char z[] = { 'Z', code<R>(), code<A>()..., 0 };
        };
        template<class T> decltype(auto) get(void* p) {
            using U = std::remove_cv_t<std::remove_reference_t<T>>;
            if constexpr (std::is_pointer_v<U>) return (U)p;
            else return (*(U*)p);
        }
        template<class R, class F, class... A> struct Tr {
            template<size_t... I>
            static void go(F& fn, void** args, void* ret, std::index_sequence<I...>) {
                if constexpr (std::is_void_v<R>) fn(get<A>(args[I])...);
                else if constexpr (std::is_reference_v<R>) *(const void**)ret = &fn(get<A>(args[I])...);
                else *(std::remove_cv_t<R>*)ret = fn(get<A>(args[I])...);
            }
            static void call(const void* f, void** args, void* ret) {
                F fn = *(const F*)f;
                go(fn, args, ret, std::index_sequence_for<A...>{});
            }
        };
        template<class C, class M> struct Mem { M m; template<class... A> decltype(auto) operator()(C& c, A&&... a) const { return (c.*m)(std::forward<A>(a)...); } };

        template<class R, class F, class... A>
        void reg(const char* cls, const char* name, const F& f, bool vec=false) {
            F keep = f;
            vf_reg(cls, name, vec ? sigstr<R, A...>::z : sigstr<R, A...>::s, &Tr<R, F, A...>::call, &keep, sizeof(F));
        }
        // function pointers
        template<class R, class... A>
        void bind(const char* cls, const char* name, R (*f)(A...), bool vec=false) { reg<R, R(*)(A...), A...>(cls, name, f, vec); }
        // member functions
        template<class R, class C, class... A>
        void bind(const char* cls, const char* name, R (C::*f)(A...), bool vec=false) {
            using M = Mem<C, R (C::*)(A...)>; reg<R, M, C&, A...>(cls, name, M{f}, vec); }
        template<class R, class C, class... A>
        void bind(const char* cls, const char* name, R (C::*f)(A...) const, bool vec=false) {
            using M = Mem<const C, R (C::*)(A...) const>; reg<R, M, const C&, A...>(cls, name, M{f}, vec); }
        // lambdas
        template<class F, class R, class... A>
        void bindl(const char* cls, const char* name, const F& f, R (F::*)(A...) const, bool vec) { reg<R, F, A...>(cls, name, f, vec); }
        template<class F, class = decltype(&F::operator())>
        void bind(const char* cls, const char* name, const F& f, bool vec=false) { bindl(cls, name, f, &F::operator(), vec); }

        template<class F> struct vectorized { F f; };
        template<class F> void bind(const char* cls, const char* name, const vectorized<F>& v, bool=false) { bind(cls, name, v.f, true); }

        template<class... A> struct init { };
        template<class F> struct initf { F f; };

        struct self_t {};
        template<int K> struct op_t {};
        inline op_t<0> operator==(self_t, self_t) { return {}; }
        inline op_t<1> operator!=(self_t, self_t) { return {}; }
        inline op_t<2> operator<(self_t, self_t) { return {}; }

        inline void extra(const char* c, const char* n, const arg& a) { vf_arg(c, n, a.name); }
        template<class E> void extra(const char*, const char*, const E&) {}
        template<class T, class... A> T* make(A... a) { return new T(a...); }
        template<class T> bool eq(const T& a, const T& b) { return a == b; }
        template<class T> bool ne(const T& a, const T& b) { return a != b; }
    }
    static const detail::self_t self;
    template<class... A> detail::init<A...> init() { return {}; }
    template<class F> detail::initf<F> init(F f) { return {f}; }
    template<class F> detail::vectorized<F> vectorize(F f) { return {f}; }

    struct module_ {
        template<class F, class... E> module_& def(const char* name, F f, const E&... e) {
            detail::bind("", name, f);
            (detail::extra("", name, e), ...);
            return *this;
        }
        template<class T> module_& attr(T) { return *this; }
    };
    using module = module_;

    template<class T, class... O> struct class_ {
        const char* n;
        template<class B> void base() {
            if constexpr (std::is_base_of_v<B, T> && !std::is_same_v<B, T>) vf_base(n, detail::cname<B>::value);
        }
        template<class... E> class_(module_&, const char* name, const E&...) : n(name) {
            detail::cname<T>::value = name;
            vf_class(name);
            (base<O>(), ...);
        }
        template<class... A, class... E> class_& def(const detail::init<A...>&, const E&... e) {
            detail::bind(n, "__init__", &detail::make<T, A...>);
            (detail::extra(n, "__init__", e), ...);
            return *this;
        }
        template<class F, class... E> class_& def(const detail::initf<F>& i, const E&... e) {
            detail::bind(n, "__init__", i.f);
            (detail::extra(n, "__init__", e), ...);
            return *this;
        }
        template<class... E> class_& def(const detail::op_t<0>&, const E&...) { detail::bind(n, "__eq__", &detail::eq<T>); return *this; }
        template<class... E> class_& def(const detail::op_t<1>&, const E&...) { detail::bind(n, "__ne__", &detail::ne<T>); return *this; }
        template<class F, class... E> class_& def(const char* name, const F& f, const E&... e) {
            detail::bind(n, name, f);
            (detail::extra(n, name, e), ...);
            return *this;
        }
        template<class F, class... E> class_& def_static(const char* name, const F& f, const E&...) {
            detail::bind(n, name, f); return *this;
        }
        template<class C, class M, class... E> class_& def_readonly(const char* name, M C::*m, const E&...) {
            static const char cd[] = { detail::code<M>(), 0 };
            vf_member(n, name, (size_t)&(((T*)0x1000)->*m) - 0x1000, cd, detail::cname<std::remove_cv_t<M>>::value);
            return *this;
        }
        template<class C, class M, class... E> class_& def_readwrite(const char* name, M C::*m, const E&... e) { return def_readonly(name, m, e...); }
        template<class F, class... E> class_& def_property_readonly(const char* name, const F& f, const E&...) {
            std::string s; (void)s; detail::bind(n, name, f); return *this;
        }
    };
}
#define PYBIND11_MODULE(name, m) \
    static void vf_init_body(pybind11::module_&); \
    extern "C" __attribute__((used)) void vf_init() { pybind11::module_ mm; vf_init_body(mm); } \
    static void vf_init_body(pybind11::module_& m)
