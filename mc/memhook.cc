// Our own runtime for gcc -fsanitize=thread instrumentation: every load and store
// of the code under test is offered to the scheduler as a scheduling point.
#include <mc/sched.hh>
#include <cstring>
#include <cstdlib>
#include <malloc.h>
#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
#define A reinterpret_cast<uintptr_t>(p)
#define H(sz, w)                              \
    if (__builtin_expect(mc::g_mem_active, 0)) \
    mc::mem_access(A, sz, w, PC)
extern "C" {
void __tsan_init() { }
void __tsan_func_entry(void *) { }
void __tsan_func_exit() { }
void __tsan_read1(void *p) { H(1, false); }
void __tsan_read2(void *p) { H(2, false); }
void __tsan_read4(void *p) { H(4, false); }
void __tsan_read8(void *p) { H(8, false); }
void __tsan_read16(void *p) { H(16, false); }
void __tsan_write1(void *p) { H(1, true); }
void __tsan_write2(void *p) { H(2, true); }
void __tsan_write4(void *p) { H(4, true); }
void __tsan_write8(void *p) { H(8, true); }
void __tsan_write16(void *p) { H(16, true); }
void __tsan_unaligned_read2(void *p) { H(2, false); }
void __tsan_unaligned_read4(void *p) { H(4, false); }
void __tsan_unaligned_read8(void *p) { H(8, false); }
void __tsan_unaligned_read16(void *p) { H(16, false); }
void __tsan_unaligned_write2(void *p) { H(2, true); }
void __tsan_unaligned_write4(void *p) { H(4, true); }
void __tsan_unaligned_write8(void *p) { H(8, true); }
void __tsan_unaligned_write16(void *p) { H(16, true); }
void __tsan_volatile_read1(void *p) { H(1, false); }
void __tsan_volatile_read2(void *p) { H(2, false); }
void __tsan_volatile_read4(void *p) { H(4, false); }
void __tsan_volatile_read8(void *p) { H(8, false); }
void __tsan_volatile_write1(void *p) { H(1, true); }
void __tsan_volatile_write2(void *p) { H(2, true); }
void __tsan_volatile_write4(void *p) { H(4, true); }
void __tsan_volatile_write8(void *p) { H(8, true); }
void __tsan_read_range(void *p, size_t n) { H(n > 64 ? 64 : n, false); }
void __tsan_write_range(void *p, size_t n) { H(n > 64 ? 64 : n, true); }
void __tsan_vptr_read(void *) { }
void __tsan_vptr_update(void *, void *) { }
void __tsan_ignore_thread_begin() { }
void __tsan_ignore_thread_end() { }
#define ATOMICS(N, TY)                                                                                                     \
    TY __tsan_atomic##N##_load(const volatile TY *p, int)                                                                  \
    {                                                                                                                      \
        H(N / 8, false);                                                                                                   \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                       \
    }                                                                                                                      \
    void __tsan_atomic##N##_store(volatile TY *p, TY v, int)                                                               \
    {                                                                                                                      \
        H(N / 8, true);                                                                                                    \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                          \
    }                                                                                                                      \
    TY __tsan_atomic##N##_exchange(volatile TY *p, TY v, int)                                                              \
    {                                                                                                                      \
        H(N / 8, true);                                                                                                    \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                                \
    }                                                                                                                      \
    TY __tsan_atomic##N##_fetch_add(volatile TY *p, TY v, int)                                                             \
    {                                                                                                                      \
        H(N / 8, true);                                                                                                    \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                                 \
    }                                                                                                                      \
    TY __tsan_atomic##N##_fetch_sub(volatile TY *p, TY v, int)                                                             \
    {                                                                                                                      \
        H(N / 8, true);                                                                                                    \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                                 \
    }                                                                                                                      \
    TY __tsan_atomic##N##_fetch_or(volatile TY *p, TY v, int)                                                              \
    {                                                                                                                      \
        H(N / 8, true);                                                                                                    \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                                  \
    }                                                                                                                      \
    TY __tsan_atomic##N##_fetch_and(volatile TY *p, TY v, int)                                                             \
    {                                                                                                                      \
        H(N / 8, true);                                                                                                    \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                                 \
    }                                                                                                                      \
    int __tsan_atomic##N##_compare_exchange_strong(volatile TY *p, TY *e, TY v, int, int)                                  \
    {                                                                                                                      \
        H(N / 8, true);                                                                                                    \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                            \
    }                                                                                                                      \
    int __tsan_atomic##N##_compare_exchange_weak(volatile TY *p, TY *e, TY v, int, int)                                    \
    {                                                                                                                      \
        H(N / 8, true);                                                                                                    \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                            \
    }                                                                                                                      \
    TY __tsan_atomic##N##_compare_exchange_val(volatile TY *p, TY e, TY v, int, int)                                       \
    {                                                                                                                      \
        H(N / 8, true);                                                                                                    \
        __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                  \
        return e;                                                                                                          \
    }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) { }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
}

// every deallocation
extern "C" void __libc_free(void *);
extern "C" void free(void *p)
{
    if (p && __builtin_expect(mc::g_mem_active, 0))
        mc::mem_free(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p));
    __libc_free(p);
}
