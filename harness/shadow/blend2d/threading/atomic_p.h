#pragma once
#include_next <blend2d/threading/atomic_p.h>
#include <vsched.h>
#define bl_atomic_fetch_relaxed(P) bl_atomic_fetch_relaxed(vs_at(P))
#define bl_atomic_fetch_strong(P) bl_atomic_fetch_strong(vs_at(P))
#define bl_atomic_store_relaxed(P, ...) bl_atomic_store_relaxed(vs_at(P), __VA_ARGS__)
#define bl_atomic_store_strong(P, ...) bl_atomic_store_strong(vs_at(P), __VA_ARGS__)
#define bl_atomic_fetch_or_relaxed(P, ...) bl_atomic_fetch_or_relaxed(vs_at(P), __VA_ARGS__)
#define bl_atomic_fetch_or_strong(P, ...) bl_atomic_fetch_or_strong(vs_at(P), __VA_ARGS__)
#define bl_atomic_fetch_or_seq_cst(P, ...) bl_atomic_fetch_or_seq_cst(vs_at(P), __VA_ARGS__)
#define bl_atomic_fetch_and_relaxed(P, ...) bl_atomic_fetch_and_relaxed(vs_at(P), __VA_ARGS__)
#define bl_atomic_fetch_and_strong(P, ...) bl_atomic_fetch_and_strong(vs_at(P), __VA_ARGS__)
#define bl_atomic_fetch_and_seq_cst(P, ...) bl_atomic_fetch_and_seq_cst(vs_at(P), __VA_ARGS__)
#define bl_atomic_compare_exchange(P, ...) bl_atomic_compare_exchange(vs_at(P), __VA_ARGS__)
#define bl_atomic_fetch_add_relaxed(P, ...) bl_atomic_fetch_add_relaxed(vs_at(P) __VA_OPT__(,) __VA_ARGS__)
#define bl_atomic_fetch_add_strong(P, ...) bl_atomic_fetch_add_strong(vs_at(P) __VA_OPT__(,) __VA_ARGS__)
#define bl_atomic_fetch_sub_relaxed(P, ...) bl_atomic_fetch_sub_relaxed(vs_at(P) __VA_OPT__(,) __VA_ARGS__)
#define bl_atomic_fetch_sub_strong(P, ...) bl_atomic_fetch_sub_strong(vs_at(P) __VA_OPT__(,) __VA_ARGS__)
