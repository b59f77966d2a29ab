// Stand-in for CTPL (not available offline) for sequential harnesses: a pushed task runs at once.
#pragma once
#include <utility>
namespace ctpl {
class thread_pool {
public:
    thread_pool(int) {}
    template <typename F, typename... A> void push(F&& f, A&&... a) { f(0, std::forward<A>(a)...); }
    void stop(bool = false) {}
};
}
