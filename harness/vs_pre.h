/* Forced include for libdex sources: makes atomic operations schedule points. */
#pragma once
#ifndef __ASSEMBLER__
#include <stdatomic.h>
#include <glib.h>
extern void vs_sync_point (void);
#undef atomic_fetch_add_explicit
#define atomic_fetch_add_explicit(...) ({ vs_sync_point (); __c11_atomic_fetch_add (__VA_ARGS__); })
#undef atomic_fetch_sub_explicit
#define atomic_fetch_sub_explicit(...) ({ vs_sync_point (); __c11_atomic_fetch_sub (__VA_ARGS__); })
#undef atomic_fetch_or_explicit
#define atomic_fetch_or_explicit(...) ({ vs_sync_point (); __c11_atomic_fetch_or (__VA_ARGS__); })
#undef atomic_fetch_and_explicit
#define atomic_fetch_and_explicit(...) ({ vs_sync_point (); __c11_atomic_fetch_and (__VA_ARGS__); })
#undef atomic_load_explicit
#define atomic_load_explicit(...) ({ vs_sync_point (); __c11_atomic_load (__VA_ARGS__); })
#undef atomic_store_explicit
#define atomic_store_explicit(...) ({ vs_sync_point (); __c11_atomic_store (__VA_ARGS__); })
#undef atomic_compare_exchange_strong_explicit
#define atomic_compare_exchange_strong_explicit(...) ({ vs_sync_point (); __c11_atomic_compare_exchange_strong (__VA_ARGS__); })
#undef atomic_compare_exchange_weak_explicit
#define atomic_compare_exchange_weak_explicit(...) ({ vs_sync_point (); __c11_atomic_compare_exchange_weak (__VA_ARGS__); })
#undef atomic_exchange_explicit
#define atomic_exchange_explicit(...) ({ vs_sync_point (); __c11_atomic_exchange (__VA_ARGS__); })
#endif
#ifndef __ASSEMBLER__
#undef g_atomic_int_get
#define g_atomic_int_get(a) ({ vs_sync_point (); (gint) __atomic_load_n ((gint *)(a), __ATOMIC_SEQ_CST); })
#undef g_atomic_int_set
#define g_atomic_int_set(a,v) ({ vs_sync_point (); __atomic_store_n ((gint *)(a), (gint)(v), __ATOMIC_SEQ_CST); })
#undef g_atomic_int_add
#define g_atomic_int_add(a,v) ({ vs_sync_point (); (gint) __atomic_fetch_add ((gint *)(a), (gint)(v), __ATOMIC_SEQ_CST); })
#undef g_atomic_int_inc
#define g_atomic_int_inc(a) ({ vs_sync_point (); (void) __atomic_fetch_add ((gint *)(a), 1, __ATOMIC_SEQ_CST); })
#undef g_atomic_int_dec_and_test
#define g_atomic_int_dec_and_test(a) ({ vs_sync_point (); __atomic_fetch_sub ((gint *)(a), 1, __ATOMIC_SEQ_CST) == 1; })
#endif
