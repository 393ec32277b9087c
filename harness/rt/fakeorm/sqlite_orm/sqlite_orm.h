// A stand-in for sqlite_orm, which the sandbox does not have: the same statements, evaluated over
// rows kept in memory. A storage opened under a file name sees what the storages opened under that
// name before have left there (as long as the file, which holds nothing but the header, exists).
// Files of other origin are no databases.
#pragma once
#include <algorithm>
#include <cstdint>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace sqlite_orm {

// ---- schema ----
struct primary_key_t {
    primary_key_t autoincrement() const { return {}; }
};
inline primary_key_t primary_key() { return {}; }

template <class T, class F>
struct column_t {
    using table = T;
    using field = F;
    std::string name;
    F T::*ptr;
    bool pk;
};
template <class T, class F, class... O>
column_t<T, F> make_column(std::string n, F T::*p, O...) {
    return {std::move(n), p, (std::is_same_v<O, primary_key_t> || ... || false)};
}
template <class T, class F>
struct foreign_key_t {
    using table = void;
    F T::*ptr;
    template <class X, class Y>
    foreign_key_t references(Y X::*) const {
        return *this;
    }
};
template <class T, class F>
foreign_key_t<T, F> foreign_key(F T::*p) {
    return {p};
}
template <class T, class... C>
struct table_t {
    using row = T;
    std::string name;
    std::tuple<C...> columns;
};
template <class T, class F, class... C>
table_t<T, column_t<T, F>, C...> make_table(std::string n, column_t<T, F> first, C... rest) {
    return {std::move(n), std::make_tuple(std::move(first), std::move(rest)...)};
}

// ---- expressions ----
struct condition {};
enum class op { eq, ne, lt, le, gt, ge };
template <class L, class R>
struct compare_t : condition {
    op o;
    L l;
    R r;
    compare_t(op o, L l, R r) : o(o), l(std::move(l)), r(std::move(r)) {}
};
template <class L, class R>
struct and_t : condition {
    L l;
    R r;
    and_t(L l, R r) : l(std::move(l)), r(std::move(r)) {}
};
template <class L, class R>
struct or_t : condition {
    L l;
    R r;
    or_t(L l, R r) : l(std::move(l)), r(std::move(r)) {}
};
template <class T>
struct c_t {
    T v;
};
template <class T>
c_t<T> c(T v) {
    return {std::move(v)};
}
#define FAKEORM_OP(sym, name)                                          \
    template <class L, class R>                                        \
    compare_t<L, std::decay_t<R>> operator sym(c_t<L> l, R &&r) {      \
        return {op::name, std::move(l.v), std::forward<R>(r)};         \
    }
FAKEORM_OP(==, eq)
FAKEORM_OP(!=, ne)
FAKEORM_OP(<, lt)
FAKEORM_OP(<=, le)
FAKEORM_OP(>, gt)
FAKEORM_OP(>=, ge)
#undef FAKEORM_OP
template <class L, class R>
    requires std::is_base_of_v<condition, L> && std::is_base_of_v<condition, R>
and_t<L, R> operator&&(L l, R r) {
    return {std::move(l), std::move(r)};
}
template <class L, class R>
    requires std::is_base_of_v<condition, L> && std::is_base_of_v<condition, R>
or_t<L, R> operator||(L l, R r) {
    return {std::move(l), std::move(r)};
}

template <class E>
struct where_t {
    E e;
};
template <class E>
where_t<E> where(E e) {
    return {std::move(e)};
}
template <class T, class F>
struct order_by_t {
    F T::*ptr;
    bool down = false;
    order_by_t asc() const { return {ptr, false}; }
    order_by_t desc() const { return {ptr, true}; }
};
template <class T, class F>
order_by_t<T, F> order_by(F T::*p) {
    return {p};
}
struct limit_t {
    size_t n;
};
inline limit_t limit(size_t n) { return {n}; }
template <class... T>
struct columns_t {
    std::tuple<T...> c;
};
template <class... T>
columns_t<T...> columns(T... t) {
    return {std::make_tuple(t...)};
}
template <class T>
struct distinct_t {
    T c;
};
template <class T>
distinct_t<T> distinct(T t) {
    return {t};
}
enum class journal_mode { DELETE, TRUNCATE, PERSIST, MEMORY, WAL, OFF };

// ---- values ----
namespace fake {
template <class F>
struct plain {
    using type = F;
    static F copy(const F &f) { return f; }
    static std::optional<F> get(const F &f) { return f; }
};
template <class F>
struct plain<std::unique_ptr<F>> {
    using type = F;
    static std::unique_ptr<F> copy(const std::unique_ptr<F> &f) { return f ? std::make_unique<F>(*f) : nullptr; }
    static std::optional<F> get(const std::unique_ptr<F> &f) { return f ? std::optional<F>(*f) : std::nullopt; }
};
// NULL, an integer or a text
struct value {
    int kind = 0;
    __int128 i = 0;
    std::string s;
    bool operator<(const value &o) const { return std::tie(kind, i, s) < std::tie(o.kind, o.i, o.s); }
    bool operator==(const value &o) const { return std::tie(kind, i, s) == std::tie(o.kind, o.i, o.s); }
};
template <class V>
value val(const V &v) {
    if constexpr (std::is_arithmetic_v<V> || std::is_enum_v<V>)
        return {1, (__int128)v, {}};
    else
        return {2, 0, std::string(v)};
}
template <class V>
value val(const std::optional<V> &v) {
    return v ? val(*v) : value{};
}
template <class V>
value val(const std::unique_ptr<V> &v) {
    return v ? val(*v) : value{};
}
inline bool holds(op o, const value &a, const value &b) {
    if (!a.kind || !b.kind) return false;
    switch (o) {
        case op::eq: return a == b;
        case op::ne: return !(a == b);
        case op::lt: return a < b;
        case op::le: return !(b < a);
        case op::gt: return b < a;
        default: return !(a < b);
    }
}
template <class T, class... L>
constexpr size_t index_of() {
    size_t n = 0;
    ((std::is_same_v<T, L> ? false : (n++, true)) && ...);
    return n;
}
}  // namespace fake

template <class... Tables>
class storage_t {
    template <class T>
    static constexpr size_t at = fake::index_of<T, typename Tables::row...>();
    using Rows = std::tuple<std::vector<typename Tables::row>...>;
    using Env = std::tuple<const typename Tables::row *...>;
    struct Data {
        Rows rows;
        std::optional<Rows> saved;
    };
    std::tuple<Tables...> tables_;
    std::shared_ptr<Data> data_;

    template <class T, class Fn>
    void each_column(Fn fn) const {
        std::apply(
            [&](auto const &...c) {
                auto one = [&](auto const &x) {
                    if constexpr (!std::is_void_v<typename std::decay_t<decltype(x)>::table>) fn(x);
                };
                (one(c), ...);
            },
            std::get<at<T>>(tables_).columns);
    }
    template <class T>
    T copy(const T &t) const {
        T r{};
        each_column<T>([&](auto const &c) {
            r.*(c.ptr) = fake::plain<typename std::decay_t<decltype(c)>::field>::copy(t.*(c.ptr));
        });
        return r;
    }
    Rows copy_all() const {
        return std::apply(
            [&](auto const &...t) {
                auto one = [&](auto const &v) {
                    std::decay_t<decltype(v)> r;
                    for (auto const &x : v) r.emplace_back(copy(x));
                    return r;
                };
                return Rows(one(t)...);
            },
            data_->rows);
    }
    // the tables an expression mentions
    template <class T, class F>
    static uint64_t used(F T::*) {
        return 1ull << at<T>;
    }
    template <class V>
    static uint64_t used(const V &) {
        return 0;
    }
    template <class V>
    static uint64_t used(const c_t<V> &v) {
        return used(v.v);
    }
    template <class L, class R>
    static uint64_t used(const compare_t<L, R> &e) {
        return used(e.l) | used(e.r);
    }
    template <class L, class R>
    static uint64_t used(const and_t<L, R> &e) {
        return used(e.l) | used(e.r);
    }
    template <class L, class R>
    static uint64_t used(const or_t<L, R> &e) {
        return used(e.l) | used(e.r);
    }
    template <class E>
    static uint64_t used(const where_t<E> &w) {
        return used(w.e);
    }
    template <class... C>
    static uint64_t used(const columns_t<C...> &c) {
        return std::apply([](auto const &...x) { return (used(x) | ... | 0ull); }, c.c);
    }
    template <class C>
    static uint64_t used(const distinct_t<C> &c) {
        return used(c.c);
    }
    template <class T, class F>
    static uint64_t used(const order_by_t<T, F> &o) {
        return used(o.ptr);
    }
    // what it is for a row of each of them
    template <class T, class F>
    static fake::value ev(F T::*p, const Env &e) {
        return fake::val(std::get<at<T>>(e)->*p);
    }
    template <class V>
    static fake::value ev(const c_t<V> &v, const Env &e) {
        return ev(v.v, e);
    }
    template <class V>
    static fake::value ev(const V &v, const Env &) {
        return fake::val(v);
    }
    template <class L, class R>
    static bool test(const compare_t<L, R> &x, const Env &e) {
        return fake::holds(x.o, ev(x.l, e), ev(x.r, e));
    }
    template <class L, class R>
    static bool test(const and_t<L, R> &x, const Env &e) {
        return test(x.l, e) && test(x.r, e);
    }
    template <class L, class R>
    static bool test(const or_t<L, R> &x, const Env &e) {
        return test(x.l, e) || test(x.r, e);
    }
    template <class E>
    static bool keep(const where_t<E> &w, const Env &e) {
        return test(w.e, e);
    }
    template <class O>
    static bool keep(const O &, const Env &) {
        return true;
    }
    template <size_t I = 0, class Fn>
    void join(uint64_t mask, Env &e, Fn &fn) const {
        if constexpr (I == sizeof...(Tables)) {
            fn(e);
        } else {
            if (!(mask >> I & 1)) return join<I + 1>(mask, e, fn);
            for (auto const &r : std::get<I>(data_->rows)) {
                std::get<I>(e) = &r;
                join<I + 1>(mask, e, fn);
            }
        }
    }
    template <class T, class F>
    static void sort(std::vector<Env> &v, const order_by_t<T, F> &o) {
        std::stable_sort(v.begin(), v.end(), [&](const Env &a, const Env &b) {
            return o.down ? ev(o.ptr, b) < ev(o.ptr, a) : ev(o.ptr, a) < ev(o.ptr, b);
        });
    }
    template <class O>
    static void sort(std::vector<Env> &, const O &) {}
    static void cut(std::vector<Env> &v, const limit_t &l) {
        if (v.size() > l.n) v.resize(l.n);
    }
    template <class O>
    static void cut(std::vector<Env> &, const O &) {}

    template <class... O>
    std::vector<Env> rows(uint64_t mask, const O &...o) const {
        mask = (mask | ... | used(o));
        std::vector<Env> r;
        Env e{};
        auto add = [&](const Env &x) {
            if ((keep(o, x) && ... && true)) r.push_back(x);
        };
        join(mask, e, add);
        (sort(r, o), ...);
        (cut(r, o), ...);
        return r;
    }
    template <class T, class F>
    static auto field(F T::*p, const Env &e) {
        return fake::plain<F>::copy(std::get<at<T>>(e)->*p);
    }

public:
    storage_t(const std::string &file, Tables... t) : tables_(std::move(t)...) {
        if (file.empty() || file == ":memory:") {
            data_ = std::make_shared<Data>();
            return;
        }
        static std::map<std::string, std::shared_ptr<Data>> files;
        auto &d = files[file];
        std::error_code ec;
        bool there = std::filesystem::exists(file, ec) && std::filesystem::file_size(file, ec) > 0;
        if (there && !d) throw std::system_error(std::make_error_code(std::errc::invalid_argument), "file is not a database");
        if (there) {
            data_ = d;
            return;
        }
        d = std::make_shared<Data>();
        std::ofstream f(file);
        f << std::string("SQLite format 3\0", 16) << std::string(84, '\0');
        if (!f.flush()) throw std::system_error(std::make_error_code(std::errc::io_error), "unable to open database file");
        data_ = d;
    }
    // rows of a moved-from storage are not used
    storage_t(storage_t &&) = default;
    storage_t(const storage_t &) = default;

    void sync_schema() {}
    void begin_transaction() { data_->saved = copy_all(); }
    void commit() { data_->saved.reset(); }
    void rollback() {
        if (data_->saved) data_->rows = std::move(*data_->saved);
        data_->saved.reset();
    }
    struct {
        void journal_mode(sqlite_orm::journal_mode) {}
    } pragma;

    template <class T>
    void replace(const T &t) {
        auto &v = std::get<at<T>>(data_->rows);
        auto n = copy(t);
        each_column<T>([&](auto const &c) {
            if (!c.pk) return;
            std::erase_if(v, [&](const T &x) { return fake::val(x.*(c.ptr)) == fake::val(t.*(c.ptr)); });
        });
        // rows are kept in the order of the primary key, if there is one
        auto pos = v.end();
        each_column<T>([&](auto const &c) {
            if (!c.pk) return;
            pos = std::find_if(v.begin(), v.end(), [&](const T &x) { return fake::val(t.*(c.ptr)) < fake::val(x.*(c.ptr)); });
        });
        v.insert(pos, std::move(n));
    }
    template <class T, class... O>
    std::vector<T> get_all(O... o) const {
        std::vector<T> r;
        for (auto &e : rows(1ull << at<T>, o...)) r.emplace_back(copy(*std::get<at<T>>(e)));
        return r;
    }
    template <class T, class K>
    std::unique_ptr<T> get_pointer(K k) const {
        for (auto const &x : std::get<at<T>>(data_->rows)) {
            bool hit = false;
            each_column<T>([&](auto const &c) { hit = hit || (c.pk && fake::val(x.*(c.ptr)) == fake::val(k)); });
            if (hit) return std::make_unique<T>(copy(x));
        }
        return nullptr;
    }
    template <class T, class... O>
    int count(O... o) const {
        return (int)rows(1ull << at<T>, o...).size();
    }
    template <class T, class F, class... O>
    std::vector<F> select(F T::*p, O... o) const {
        std::vector<F> r;
        for (auto &e : rows(used(p), o...)) r.emplace_back(field(p, e));
        return r;
    }
    template <class T, class F, class... O>
    std::vector<F> select(distinct_t<F T::*> p, O... o) const {
        std::vector<F> r;
        std::vector<fake::value> seen;
        for (auto &e : rows(used(p), o...)) {
            auto v = ev(p.c, e);
            if (std::find(seen.begin(), seen.end(), v) != seen.end()) continue;
            seen.push_back(v);
            r.emplace_back(field(p.c, e));
        }
        return r;
    }
    template <class... C, class... O>
    auto select(columns_t<C...> c, O... o) const {
        auto row = [&](const Env &e) {
            return std::apply([&](auto... p) { return std::make_tuple(field(p, e)...); }, c.c);
        };
        std::vector<decltype(row(std::declval<Env>()))> r;
        for (auto &e : rows(used(c), o...)) r.emplace_back(row(e));
        return r;
    }
};
template <class... T>
storage_t<T...> make_storage(const std::string &file, T... t) {
    return {file, std::move(t)...};
}
}  // namespace sqlite_orm
