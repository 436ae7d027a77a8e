// linked with -Wl,--wrap=<name>
extern "C" {
void* __real_malloc(std::size_t);
void* __real_aligned_alloc(std::size_t, std::size_t);
FILE* __real_fopen(char const*, char const*);
std::size_t __real_fread(void*, std::size_t, std::size_t, FILE*);
std::size_t __real_fwrite(void const*, std::size_t, std::size_t, FILE*);
int __real_fputc(int, FILE*);
int __real_fseek(FILE*, long, int);
int __real_fflush(FILE*);
int __real_fstat(int, struct stat*);
int __real_ftruncate(int, off_t);
void* __real_mmap(void*, std::size_t, int, int, int, off_t);
int __real_msync(void*, std::size_t, int);

void* __wrap_malloc(std::size_t const n) {
  if (vp::fails(vp::MALLOC)) { errno = ENOMEM; return nullptr; }
  return __real_malloc(n);
}
void* __wrap_aligned_alloc(std::size_t const a, std::size_t const n) {
  if (vp::fails(vp::ALIGNED)) { errno = ENOMEM; return nullptr; }
  return __real_aligned_alloc(a, n);
}
FILE* __wrap_fopen(char const* p, char const* m) {
  if (vp::fails(vp::FOPEN)) { errno = EMFILE; return nullptr; }
  return __real_fopen(p, m);
}
// As the real ones: a short transfer leaves the stream at its end (the file
// became shorter) or with its error indicator set.
static void mark_error(FILE* f) { f->_flags |= 0x20; }
std::size_t __wrap_fread(void* p, std::size_t const s, std::size_t const n, FILE* f) {
  if (vp::fails(vp::FREAD)) {
    auto const got = n == 0U ? 0U : __real_fread(p, s, n / 2U, f);
    if (n != 0U && !vp::fault().persistent) {
      __real_fseek(f, 0L, SEEK_END);
      std::fgetc(f);
    } else {
      mark_error(f);
      errno = EIO;
    }
    return got;
  }
  return __real_fread(p, s, n, f);
}
std::size_t __wrap_fwrite(void const* p, std::size_t const s, std::size_t const n, FILE* f) {
  if (vp::fails(vp::FWRITE)) { auto const put = n == 0U ? 0U : __real_fwrite(p, s, n / 2U, f); mark_error(f); errno = ENOSPC; return put; }
  return __real_fwrite(p, s, n, f);
}
int __wrap_fputc(int const c, FILE* f) {
  if (vp::fails(vp::FPUTC)) { mark_error(f); errno = ENOSPC; return EOF; }
  return __real_fputc(c, f);
}
int __wrap_fseek(FILE* f, long const o, int const w) {
  if (vp::fails(vp::FSEEK)) { errno = EIO; return -1; }
  return __real_fseek(f, o, w);
}
int __wrap_fflush(FILE* f) {
  if (vp::fails(vp::FFLUSH)) { mark_error(f); errno = ENOSPC; return EOF; }
  return __real_fflush(f);
}
int __wrap_fstat(int const fd, struct stat* s) {
  if (vp::fails(vp::FSTAT)) { errno = EIO; return -1; }
  return __real_fstat(fd, s);
}
int __wrap_ftruncate(int const fd, off_t const n) {
  if (vp::fails(vp::FTRUNCATE)) { errno = ENOSPC; return -1; }
  return __real_ftruncate(fd, n);
}
void* __wrap_mmap(void* a, std::size_t const n, int const p, int const f, int const fd, off_t const o) {
  if (vp::fails(vp::MMAP)) { errno = ENOMEM; return MAP_FAILED; }
  return __real_mmap(a, n, p, f, fd, o);
}
int __wrap_msync(void* a, std::size_t const n, int const f) {
  if (vp::fails(vp::MSYNC)) { errno = EIO; return -1; }
  return __real_msync(a, n, f);
}
}  // extern "C"

void* operator new(std::size_t const n) {
  if (vp::fails(vp::NEW)) throw std::bad_alloc{};
  auto* const p = __real_malloc(n == 0U ? 1U : n);
  if (p == nullptr) throw std::bad_alloc{};
  return p;
}
void* operator new[](std::size_t const n) { return ::operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void* operator new(std::size_t const n, std::nothrow_t const&) noexcept { return vp::fails(vp::NEW) ? nullptr : __real_malloc(n == 0U ? 1U : n); }
void* operator new[](std::size_t const n, std::nothrow_t const& t) noexcept { return ::operator new(n, t); }
void operator delete(void* p, std::nothrow_t const&) noexcept { std::free(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { std::free(p); }
