#ifndef __SANITIZE_ADDRESS__
// Released memory is overwritten, so that a late read of it shows.
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
void operator delete(void* p) noexcept { if(p) { std::memset(p, 0xBC, malloc_usable_size(p)); std::free(p); } }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
#endif
