// The part of the CTPL thread pool the tool uses (CTPL itself is fetched from the network by the build):
// n threads; push runs f(thread id, args...) on one of them, first come first served; stop(true) lets the
// queued work finish and joins, stop(false) drops what has not started.  Exceptions stay in the task.
#pragma once
#include <condition_variable>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
namespace ctpl {
class thread_pool {
    std::mutex m; std::condition_variable cv; std::deque<std::function<void(int)>> q; std::vector<std::thread> t; bool ending = false, dropped = false;
    void work(int id) {
        std::unique_lock<std::mutex> l(m);
        while (true) {
            cv.wait(l, [&] { return !q.empty() || ending; });
            if (q.empty() || dropped) return;
            auto f = q.front(); q.pop_front();
            l.unlock(); try { f(id); } catch (...) {} l.lock();
        }
    }
public:
    explicit thread_pool(int n) { if (n < 1) n = 1; for (int i = 0; i < n; ++i) t.emplace_back([this, i] { work(i); }); }
    ~thread_pool() { stop(true); }
    int size() { return (int) t.size(); }
    template <class F, class... A> void push(F f, A... a) { { std::lock_guard<std::mutex> l(m); if (ending) return; q.push_back([=](int id) { f(id, a...); }); } cv.notify_one(); }
    void stop(bool wait = false) { { std::lock_guard<std::mutex> l(m); if (ending && t.empty()) return; ending = true; if (!wait) { dropped = true; q.clear(); } } cv.notify_all(); for (auto& x : t) if (x.joinable()) x.join(); t.clear(); }
};
}
