// Allocation fails once, at any point of an operation: it is reported by an exception (or by the state, which is part of
// the result), nothing leaks, and the same operation started again gives what it always gave.
#pragma once
#include <new>
#include <cstdlib>
#include <cstddef>

// Linked with --wrap=malloc,--wrap=realloc
extern "C" void* __real_malloc(size_t n);
extern "C" void* __real_realloc(void* p, size_t n);

namespace oom
{
	inline thread_local int64_t left = -1;       // allocations of this thread until one fails; -1: none fails
	inline thread_local uint64_t made = 0;       // allocations of this thread
	inline thread_local uint64_t failed = 0;
	inline bool strike()
	{
		made++;
		if (left < 0 || left-- > 0) return false;
		failed++;
		return true;
	}
	inline void* get(size_t n)
	{
		if (strike()) return nullptr;
		return __real_malloc(n ? n : 1);
	}
}
extern "C" void* __wrap_malloc(size_t n) { return oom::strike() ? nullptr : __real_malloc(n); }
extern "C" void* __wrap_realloc(void* p, size_t n) { return n && oom::strike() ? nullptr : __real_realloc(p, n); }
void* operator new(size_t n) { if (void* p = oom::get(n)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { if (void* p = oom::get(n)) return p; throw std::bad_alloc(); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return oom::get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return oom::get(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
