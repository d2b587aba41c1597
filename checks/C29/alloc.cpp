// operator new which fails on demand
#include <cstdlib>
#include <new>
long oomCountdown = -1;
long oomFailed = 0;
bool oomRecord = false;    // large requests fail and are recorded
std::size_t oomLargest = 0;
bool oomArrays = false; // only the memory of elements is counted and fails
static void *get(std::size_t n, bool array) {
  if ((array || !oomArrays) && oomCountdown >= 0 && oomCountdown-- == 0) {
    oomFailed++;
    throw std::bad_alloc();
  }
  if (oomRecord && n > (std::size_t(1) << 30)) {
    if (n > oomLargest)
      oomLargest = n;
    throw std::bad_alloc();
  }
  if (n > (std::size_t(1) << 33)) // nobody has that much
    throw std::bad_alloc();
  void *p = std::malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new(std::size_t n) { return get(n, false); }
void *operator new[](std::size_t n) { return get(n, true); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept {
  if (oomCountdown >= 0 && oomCountdown-- == 0)
    return nullptr; // the caller has to handle this
  return std::malloc(n ? n : 1);
}
void *operator new[](std::size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p, const std::nothrow_t &) noexcept { std::free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { std::free(p); }
