// In-memory disk behind fopen/fclose/read/write/writev/lseek, with fault injection.
// libstdc++'s file streams reach the operating system only through these calls.
#include "sim.h"
#include "internal.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/syscall.h>

namespace sim {
struct DFile { char* name; char* data; size_t n, cap; bool live; };
static DFile files[512]; static int nfiles;
struct Hnd { int file; size_t pos; bool append, wr, rd, used; FILE* f; };
static const int MAXFD = 512;
static Hnd hnd[MAXFD];
static bool armed; static int nh;
static DiskPlan plan; static DiskStats ds; static uint64_t o_n, r_n, w_n, c_n; static int64_t cap_left, crash_left;

static DFile* find(const char* name, bool create) {
    for (int i = 0; i < nfiles; ++i) if (!strcmp(files[i].name, name)) { if (files[i].live || create) { if (!files[i].live) { files[i].live = true; files[i].n = 0; } return &files[i]; } return nullptr; }
    if (!create) return nullptr;
    if (nfiles >= 512) fail_at("harness-limit", "disk", "too many files");
    DFile& f = files[nfiles++]; f.name = strdup(name); f.data = nullptr; f.n = f.cap = 0; f.live = true; return &f;
}
static void reserve(DFile* f, size_t n) { if (n > f->cap) { f->cap = n * 2 + 256; f->data = (char*)realloc(f->data, f->cap); } }
void disk_arm(bool on) { armed = on; }
void disk_plan(const DiskPlan& p) { plan = p; memset(&ds, 0, sizeof ds); o_n = r_n = w_n = c_n = 0; cap_left = p.capacity; crash_left = p.crash_at_byte; }
void disk_no_faults() { disk_plan(DiskPlan()); }
void disk_put(const char* name, const void* d, size_t n) { DFile* f = find(name, true); reserve(f, n + 1); if (n) memcpy(f->data, d, n); f->n = n; }
bool disk_get(const char* name, std::string& out) { DFile* f = find(name, false); if (!f) return false; out.assign(f->data ? f->data : "", f->n); return true; }
bool disk_exists(const char* name) { return find(name, false) != nullptr; }
void disk_remove(const char* name) { DFile* f = find(name, false); if (f) { f->live = false; f->n = 0; } }
int disk_handles() { return nh; }
DiskStats disk_stats() { return ds; }
int disk_file_count() { return nfiles; }
const char* disk_file_name(int i) { return files[i].live ? files[i].name : nullptr; }

static FILE* (*r_fopen)(const char*, const char*);
static int (*r_fclose)(FILE*);
static void rinit() { if (!r_fopen) { r_fopen = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen"); r_fclose = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose"); } }

bool vfs_open_name(const char* n, bool write, std::string& out);   // proc.cpp
static FILE* sim_open(const char* name0, const char* mode) {
    rt_quiet(+1);
    struct Q { ~Q() { rt_quiet(-1); } } q;
    std::string resolved; const char* name = name0;
    ds.opens++; o_n++;
    if (plan.open_fail_at && (int)o_n >= plan.open_fail_at) { ds.open_failed++; count("fault:open_failure"); trace("disk: open %s fails, errno %d", name, plan.open_errno); errno = plan.open_errno; return nullptr; }
    bool w = strpbrk(mode, "wa+") != nullptr;
    if (!vfs_open_name(name0, w && mode[0] != 'r', resolved)) { trace("disk: open %s fails, errno %d", name0, errno); return nullptr; }
    name = resolved.c_str();
    DFile* f = find(name, false);
    if (mode[0] == 'r' && !f) { errno = ENOENT; return nullptr; }
    if (!name[0] || name[strlen(name) - 1] == '/') { errno = name[0] ? EISDIR : ENOENT; return nullptr; }
    if (w) { f = find(name, true); if (mode[0] == 'w') f->n = 0; }
    int fd = memfd_create("simdisk", MFD_CLOEXEC);
    if (fd < 0 || fd >= MAXFD) { fail_at("harness-limit", "disk", "cannot create a handle"); }
    if (mode[0] == 'r') { if (ftruncate(fd, f->n)) {} }      // size visible through fstat
    FILE* fp = fdopen(fd, "r+");
    Hnd& h = hnd[fd]; h.file = (int)(f - files); h.pos = mode[0] == 'a' ? f->n : 0; h.append = mode[0] == 'a'; h.wr = w; h.rd = mode[0] == 'r' || strchr(mode, '+'); h.used = true; h.f = fp; nh++;
    trace("disk: open %s %s", name, mode);
    return fp;
}
static inline Hnd* H(int fd) { return fd >= 0 && fd < MAXFD && hnd[fd].used ? &hnd[fd] : nullptr; }

static ssize_t sim_write(Hnd* h, const char* p, size_t n) {
    rt_quiet(+1);
    struct Q { ~Q() { rt_quiet(-1); } } q;
    ds.writes++;
    if (!n) return 0;
    if (plan.interrupt && chance(F, 1, 3)) { ds.interrupts++; count("fault:write_interrupted"); errno = EINTR; return -1; }
    w_n++;
    if (plan.write_fail_at && (int)w_n >= plan.write_fail_at && (int)w_n < (int64_t)plan.write_fail_at + plan.write_fail_count) { ds.write_failed++; count("fault:write_error"); trace("disk: write of %zu bytes fails, errno %d", n, plan.write_errno); errno = plan.write_errno; return -1; }
    size_t k = n;
    if (plan.short_io && n > 1 && chance(F, 1, 2)) { k = 1 + draw(F, (uint32_t)(n > 4096 ? 4096 : n)); if (k > n) k = n; if (k < n) { ds.short_writes++; count("fault:short_write"); } }
    if (cap_left >= 0) {
        if (cap_left == 0) { ds.write_failed++; count("fault:disk_full"); trace("disk: full"); errno = ENOSPC; return -1; }
        if ((int64_t)k > cap_left) { k = (size_t)cap_left; count("fault:short_write"); ds.short_writes++; }
        cap_left -= k;
    }
    size_t store = k;
    if (crash_left >= 0) { if ((int64_t)store > crash_left) { if (store) count("fault:power_cut"); store = (size_t)crash_left; } crash_left -= store; }
    DFile* f = &files[h->file];
    if (h->append) h->pos = f->n;
    if (store) {
        reserve(f, h->pos + store + 1);
        if (h->pos > f->n) memset(f->data + f->n, 0, h->pos - f->n);
        memcpy(f->data + h->pos, p, store);
        if (h->pos + store > f->n) f->n = h->pos + store;
    }
    h->pos += k; ds.bytes_written += k;
    trace("disk: write %zu of %zu bytes to %s", k, n, f->name);
    return (ssize_t)k;
}
static ssize_t sim_read(Hnd* h, char* p, size_t n) {
    rt_quiet(+1);
    struct Q { ~Q() { rt_quiet(-1); } } q;
    ds.reads++;
    if (plan.interrupt && chance(F, 1, 3)) { ds.interrupts++; count("fault:read_interrupted"); errno = EINTR; return -1; }
    r_n++;
    if (plan.read_fail_at && (int)r_n >= plan.read_fail_at && (int)r_n < (int64_t)plan.read_fail_at + plan.read_fail_count) { ds.read_failed++; count("fault:read_error"); trace("disk: read of %zu bytes fails, errno %d", n, plan.read_errno); errno = plan.read_errno; return -1; }
    DFile* f = &files[h->file];
    size_t av = h->pos < f->n ? f->n - h->pos : 0, k = n < av ? n : av;
    if (plan.short_io && k > 1 && chance(F, 1, 2)) { size_t c = 1 + draw(F, (uint32_t)(k > 4096 ? 4096 : k)); if (c < k) { k = c; ds.short_reads++; count("fault:short_read"); } }
    if (k) memcpy(p, f->data + h->pos, k);
    h->pos += k;
    trace("disk: read %zu of %zu bytes from %s", k, n, f->name);
    return (ssize_t)k;
}
} // namespace sim
using namespace sim;

extern "C" {
FILE* fopen(const char* n, const char* m) { rinit(); return armed ? sim_open(n, m) : r_fopen(n, m); }
FILE* fopen64(const char* n, const char* m) { rinit(); return armed ? sim_open(n, m) : r_fopen(n, m); }
int fclose(FILE* f) {
    rinit();
    int fd = fileno(f); Hnd* h = H(fd);
    if (!h || h->f != f) return r_fclose(f);
    rt_quiet(+1);
    ds.closes++; c_n++; h->used = false; nh--;
    r_fclose(f);
    int rc = 0;
    if (h->wr && plan.close_fail_at && (int)c_n == plan.close_fail_at) {     // deferred write error (network file system, quota): the tail of the data is lost
        ds.close_failed++; count("fault:close_failure"); DFile* df = &files[h->file]; if (df->n) df->n -= 1 + draw(F, (uint32_t)df->n); errno = plan.close_errno; rc = EOF;
        trace("disk: close of %s fails, errno %d", df->name, plan.close_errno);
    }
    rt_quiet(-1);
    return rc;
}
ssize_t write(int fd, const void* p, size_t n) { Hnd* h = H(fd); return h ? sim_write(h, (const char*)p, n) : syscall(SYS_write, fd, p, n); }
ssize_t read(int fd, void* p, size_t n) { Hnd* h = H(fd); return h ? sim_read(h, (char*)p, n) : syscall(SYS_read, fd, p, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
    Hnd* h = H(fd); if (!h) return syscall(SYS_writev, fd, v, c);
    ssize_t tot = 0;
    for (int i = 0; i < c; ++i) { if (!v[i].iov_len) continue; ssize_t k = sim_write(h, (const char*)v[i].iov_base, v[i].iov_len); if (k < 0) return tot ? tot : -1; tot += k; if ((size_t)k < v[i].iov_len) break; }
    return tot;
}
off_t lseek(int fd, off_t o, int wh) {
    Hnd* h = H(fd); if (!h) return syscall(SYS_lseek, fd, o, wh);
    int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)h->pos : (int64_t)files[h->file].n;
    if (b + o < 0) { errno = EINVAL; return -1; }
    h->pos = (size_t)(b + o); return h->pos;
}
off64_t lseek64(int fd, off64_t o, int wh) { return lseek(fd, o, wh); }
}
