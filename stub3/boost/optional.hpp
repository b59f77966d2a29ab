// Stand-in for boost::optional: the installed Boost does not accept all of the assignments the
// tool's sources make (through conversion operators), so those files do not compile with it.
#pragma once
#include <optional>
namespace boost {
struct none_t {};
const none_t none{};
template <typename T> class optional {
    std::optional<T> v;
public:
    optional() {}
    optional(none_t) {}
    optional(const T& t) : v(t) {}
    optional& operator=(none_t) { v.reset(); return *this; }
    optional& operator=(const T& t) { v = t; return *this; }
    explicit operator bool() const { return v.has_value(); }
    bool operator!() const { return !v; }
    T& operator*() { return *v; }
    const T& operator*() const { return *v; }
    T* operator->() { return &*v; }
    const T* operator->() const { return &*v; }
    T& get() { return *v; }
    const T& get() const { return *v; }
    bool is_initialized() const { return v.has_value(); }
    void reset() { v.reset(); }
};
template <typename T, typename U> bool operator==(const optional<T>& a, const U& b) { return a && *a == b; }
template <typename T, typename U> bool operator!=(const optional<T>& a, const U& b) { return !(a == b); }
}
