// Stand-in for oneTBB used by the model-checking builds: the same source-level
// API as far as ericw-tools uses it, but every parallel construct is handed to
// the explorer's own scheduler (mc/sched.hh), which decides the order and the
// interleaving of the tasks.  Nothing here runs on more than one OS thread.
#pragma once
#include <cstddef>
#include <deque>
#include <functional>
#include <iterator>
#include <memory>
#include <vector>
#include <mc/sched.hh>

namespace tbb
{
template<typename Index, typename F>
void parallel_for(Index first, Index last, const F &f)
{
    if (!(first < last))
        return;
    mc::sched_par_range(static_cast<size_t>(last - first), [&](size_t i) { f(static_cast<Index>(first + static_cast<Index>(i))); });
}

template<typename It, typename F>
void mc_for_each_range(It b, It e, const F &f)
{
    std::vector<It> its;
    for (It i = b; i != e; ++i)
        its.push_back(i);
    if (its.empty())
        return;
    mc::sched_par_range(its.size(), [&](size_t i) { f(*its[i]); });
}
template<typename C, typename F>
void parallel_for_each(C &c, const F &f)
{
    mc_for_each_range(std::begin(c), std::end(c), f);
}
template<typename C, typename F>
void parallel_for_each(const C &c, const F &f)
{
    mc_for_each_range(std::begin(c), std::end(c), f);
}
template<typename It, typename F>
void parallel_for_each(It b, It e, const F &f)
{
    mc_for_each_range(b, e, f);
}
template<typename... Fs>
void parallel_invoke(Fs &&...fs)
{
    std::vector<std::function<void()>> t{std::function<void()>(fs)...};
    mc::sched_par_range(t.size(), [&](size_t i) { t[i](); });
}

class task_group
{
    std::vector<std::function<void()>> tasks;

public:
    task_group() = default;
    task_group(const task_group &) = delete;
    ~task_group() { }
    template<typename F>
    void run(F &&f)
    {
        tasks.emplace_back(std::forward<F>(f));
    }
    void wait()
    {
        std::vector<std::function<void()>> t;
        t.swap(tasks);
        if (!t.empty())
            mc::sched_par_range(t.size(), [&](size_t i) { t[i](); });
    }
    template<typename F>
    void run_and_wait(F &&f)
    {
        run(std::forward<F>(f));
        wait();
    }
    void cancel() { tasks.clear(); }
};

template<typename T>
struct scalable_allocator : std::allocator<T>
{
    scalable_allocator() = default;
    template<typename U>
    scalable_allocator(const scalable_allocator<U> &)
    {
    }
    template<typename U>
    struct rebind
    {
        using other = scalable_allocator<U>;
    };
};

// element addresses are stable and growing is atomic, as the real one promises
template<typename T>
class concurrent_vector : public std::deque<T>
{
    using base = std::deque<T>;

public:
    using base::base;
    using iterator = typename base::iterator;
    iterator push_back(const T &v)
    {
        mc::Atomic a;
        base::push_back(v);
        return std::prev(base::end());
    }
    iterator push_back(T &&v)
    {
        mc::Atomic a;
        base::push_back(std::move(v));
        return std::prev(base::end());
    }
    template<typename... A>
    iterator emplace_back(A &&...args)
    {
        mc::Atomic a;
        base::emplace_back(std::forward<A>(args)...);
        return std::prev(base::end());
    }
    iterator grow_by(size_t n)
    {
        mc::Atomic a;
        size_t s = base::size();
        base::resize(s + n);
        return base::begin() + s;
    }
    T &operator[](size_t i)
    {
        mc::Atomic a;
        return base::operator[](i);
    }
    const T &operator[](size_t i) const
    {
        mc::Atomic a;
        return base::operator[](i);
    }
    size_t size() const
    {
        mc::Atomic a;
        return base::size();
    }
    void reserve(size_t) { }
};

class global_control
{
public:
    enum parameter
    {
        max_allowed_parallelism,
        thread_stack_size,
        terminate_on_exception
    };
    global_control(parameter, size_t) { }
    static size_t active_value(parameter) { return 1; }
};
} // namespace tbb
