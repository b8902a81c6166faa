// X02: the replaced operator new and delete. In a file of its own: the code under test must be compiled without seeing that its
// released memory is looked at.
#include <cstdint>
#include <cstdlib>
#include <map>
#include <new>

// Only blocks allocated while watching are examined: those belong to the container under test.
bool watching;
uint64_t released, dirty, dirty_bytes, bytes;
std::map<void*, size_t>& blocks() { static std::map<void*, size_t> m; return m; }
static void* take(size_t n)
{
	void* p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	if (watching) {
		watching = false;
		blocks()[p] = n;
		watching = true;
	}
	return p;
}
static void give(void* p) noexcept
{
	if (watching && p) {
		watching = false;
		auto i = blocks().find(p);
		if (i != blocks().end()) {
			released++;
			bytes += i->second;
			size_t d = 0;
			auto b = static_cast<volatile uint8_t*>(p);
			for (size_t k = 0; k < i->second; k++) d += b[k] != 0;
			if (d) { dirty++; dirty_bytes += d; }
			blocks().erase(i);
		}
		watching = true;
	}
	free(p);
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
