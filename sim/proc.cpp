// Simulated child processes and file-name tree. Inactive unless proc_arm(true) was called.
#include "sim.h"
#include "internal.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
static bool armed, in_child_copy; static ProcPlan plan;
static const int MAXL = 16; static Launch* lg; static int nl, n_fork_failed, n_kills, n_eintr, n_fs, n_fsf, eintr_left;
static const pid_t FAKE = 4100000;
struct Dir { char p[600]; }; struct Lnk { char p[600], t[600]; };
static Dir dirs[64]; static int nd; static Lnk links[32]; static int nlk;
static const char* const CWD = "/simproj/work";

static void setup() { if (!lg) { lg = (Launch*)mmap(0, sizeof(Launch) * MAXL, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (lg == MAP_FAILED) fail_at("harness-limit", "proc", "mmap"); } }
void proc_arm(bool on) { setup(); armed = on; }
void proc_plan(const ProcPlan& p) { setup(); plan = p; memset((void*)lg, 0, sizeof(Launch) * MAXL); nl = n_fork_failed = n_kills = n_eintr = n_fs = n_fsf = 0; eintr_left = p.eintr; }
int proc_forks() { return nl; }
int proc_fork_failed() { return n_fork_failed; }
int proc_kills() { return n_kills; }
int proc_eintrs() { return n_eintr; }
int proc_fs_failed() { return n_fsf; }
const Launch& proc_launch(int i) { return lg[i]; }
bool proc_in_child() { return in_child_copy; }
static void die(int c) { for (;;) syscall(SYS_exit_group, c); }
void proc_child_escaped() { lg[nl].escaped = true; die(77); for (;;); }

// ---- names
void vfs_reset() { nd = nlk = 0; }
void vfs_dir(const char* p) { if (nd >= 64) fail_at("harness-limit", "vfs", "folders"); snprintf(dirs[nd++].p, 600, "%s", p); }
void vfs_link(const char* p, const char* t) { if (nlk >= 32) fail_at("harness-limit", "vfs", "links"); snprintf(links[nlk].p, 600, "%s", p); snprintf(links[nlk++].t, 600, "%s", t); }
bool vfs_is_dir(const char* p) { if (!strcmp(p, "/")) return true; for (int i = 0; i < nd; ++i) if (!strcmp(dirs[i].p, p)) return true; return false; }
int vfs_dir_count() { return nd; }
const char* vfs_dir_name(int i) { return dirs[i].p; }
static const char* lnk(const std::string& p) { for (int i = 0; i < nlk; ++i) if (p == links[i].p) return links[i].t; return nullptr; }
static bool mine(const char* p) { return armed && p; }
int vfs_resolve(const char* p, bool follow_last, bool must_exist, std::string& out) {
    if (!p || !p[0]) return ENOENT;
    if (strlen(p) >= PATH_MAX) return ENAMETOOLONG;
    std::string rest = p, cur = p[0] == '/' ? "" : CWD; int hops = 0; bool ended = false;
    size_t i = 0;
    for (;;) {
        while (i < rest.size() && rest[i] == '/') ++i;
        if (i >= rest.size()) break;
        size_t e = rest.find('/', i); bool last = e == std::string::npos || rest.find_first_not_of('/', e) == std::string::npos; bool slash = e != std::string::npos;
        std::string c = rest.substr(i, e == std::string::npos ? e : e - i); i = e == std::string::npos ? rest.size() : e;
        if (c.size() > NAME_MAX) return ENAMETOOLONG;
        if (!vfs_is_dir(cur.empty() ? "/" : cur.c_str())) return disk_exists(cur.c_str()) ? ENOTDIR : ENOENT;
        if (c == ".") continue;
        if (c == "..") { size_t k = cur.rfind('/'); cur = k == std::string::npos ? "" : cur.substr(0, k); continue; }
        std::string nx = cur + "/" + c;
        if (const char* t = lnk(nx)) if (!last || follow_last || slash) {
            if (++hops > 16) return ELOOP;
            rest = std::string(t) + rest.substr(i); i = 0; if (t[0] == '/') cur = ""; continue;
        }
        cur = nx;
        bool dir = vfs_is_dir(cur.c_str()), file = disk_exists(cur.c_str()) || (lnk(cur) && !follow_last);
        if (!last && !dir) return file ? ENOTDIR : ENOENT;
        if (last) { if (slash && file) return ENOTDIR; if (!dir && !file && must_exist) return ENOENT; }
        (void)ended;
    }
    out = cur.empty() ? "/" : cur;
    return 0;
}
static bool fs_fault(const char* what, const char* p) {
    n_fs++;
    if (plan.fs_fail_at && n_fs >= plan.fs_fail_at && n_fs < plan.fs_fail_at + plan.fs_fail_count) { n_fsf++; count("fault:file_name_lookup"); trace("%s %s fails, errno %d", what, p, plan.fs_errno); errno = plan.fs_errno; return true; }
    return false;
}
struct Quiet { Quiet() { rt_quiet(+1); } ~Quiet() { rt_quiet(-1); } };
static int do_stat(const char* p, struct stat* s, bool follow) {
    Quiet q; if (fs_fault("stat", p)) return -1;
    std::string r; int e = vfs_resolve(p, follow, true, r); if (e) { errno = e; return -1; }
    memset(s, 0, sizeof *s); s->st_nlink = 1; s->st_dev = 77; uint64_t h = 1469598103934665603ull; for (char c : r) h = (h ^ (unsigned char)c) * 1099511628211ull; s->st_ino = h >> 20;
    if (!follow && lnk(r)) s->st_mode = S_IFLNK | 0777; else if (vfs_is_dir(r.c_str())) s->st_mode = S_IFDIR | 0755; else { s->st_mode = S_IFREG | 0644; std::string d; disk_get(r.c_str(), d); s->st_size = d.size(); }
    return 0;
}
// name -> name on the simulated disk (called by the disk before an open); false: fails with errno
bool vfs_open_name(const char* n, bool write, std::string& out) {
    if (!mine(n)) { out = n; return true; }
    int e = vfs_resolve(n, true, !write, out); if (e) { errno = e; return false; }
    size_t k = out.rfind('/'); std::string par = k ? out.substr(0, k) : "/";
    if (vfs_is_dir(out.c_str())) { errno = EISDIR; return false; }
    if (!vfs_is_dir(par.c_str())) { errno = ENOENT; return false; }
    return true;
}

// ---- processes
static const char* const shells[] = {"/bin/sh", "/bin/bash", "sh", "bash", "/bin/dash", "/usr/bin/sh", "/usr/bin/env"};
static void record(Launch& L, const char* path, char* const argv[], char* const envp[]) {
    L.exec_tries++;
    snprintf(L.path, sizeof L.path, "%s", path ? path : "(null)");
    for (const char* s : shells) if (path && !strcmp(path, s)) L.shell = true;
    L.argc = 0; for (int i = 0; argv && argv[i]; ++i) { if (i < 12) snprintf(L.arg[i], sizeof L.arg[i], "%s", argv[i]); L.argc++; }
    L.ld[0] = 0; for (int i = 0; envp && envp[i]; ++i) if (!strncmp(envp[i], "LD_LIBRARY_PATH=", 16)) snprintf(L.ld, sizeof L.ld, "%s", envp[i] + 16);
}
static int do_exec(const char* path, char* const argv[], char* const envp[]) {
    Launch& L = lg[nl];
    record(L, path, argv, envp);
    if (plan.exec_errno) { errno = plan.exec_errno; return -1; }
    L.execed = true; die(0); return -1;
}
static bool fork_fails() {
    if (!plan.fork_errno) return false;
    n_fork_failed++; count("fault:fork_failure"); trace("fork fails, errno %d", plan.fork_errno); return true;
}
static pid_t started() {
    Launch& L = lg[nl];
    if (L.exec_tries && !L.execed) count("fault:exec_failure");
    if (L.execed && plan.sig) count("fault:program_killed"); else if (L.execed && plan.exit_code) count("fault:program_exit_code");
    trace("process started: exec tries %d, execed %d, escaped %d, path %s, args %d", L.exec_tries, (int)L.execed, (int)L.escaped, L.path, L.argc);
    return FAKE + nl++;
}
static int status_of(const Launch& L) { if (!L.execed) return (L.exit_called ? (L.exit_called - 1) & 255 : 1) << 8; return plan.sig ? plan.sig : (plan.exit_code & 255) << 8; }
static pid_t do_wait(pid_t pid, int* st, int opt) {
    int i = pid == -1 || pid == 0 ? -1 : pid - FAKE;
    if (i == -1) { for (int k = 0; k < nl; ++k) if (!lg[k].reaped) { i = k; break; } }
    if (i < 0 || i >= nl || lg[i].reaped) { errno = ECHILD; return -1; }
    if ((opt & WNOHANG) && now_ns() < plan.run_ns) return 0;
    if (!(opt & WNOHANG)) {
        if (eintr_left > 0) { eintr_left--; n_eintr++; advance_ns(plan.run_ns / 8 + 1); count("fault:wait_interrupted"); trace("waitpid interrupted"); errno = EINTR; return -1; }
        if (eintr_left < 0) { n_eintr++; count("fault:wait_interrupted"); errno = EINTR; return -1; }
        advance_ns(plan.run_ns);
    }
    lg[i].reaped = true;
    if (plan.echild) { count("fault:status_lost"); trace("waitpid: status lost"); errno = ECHILD; return -1; }
    if (st) *st = status_of(lg[i]);
    trace("waitpid: status 0x%x", status_of(lg[i]));
    return FAKE + i;
}
template <class T> static T next(const char* n) { return (T)dlsym(RTLD_NEXT, n); }
} // namespace sim
using namespace sim;

extern char** environ;
extern "C" {
pid_t fork() {
    static pid_t (*r)() = nullptr; if (!r) r = next<pid_t (*)()>("fork");
    if (!armed) return r();
    if (in_child_copy) { errno = EAGAIN; return -1; }
    if (fork_fails()) { errno = plan.fork_errno; return -1; }
    if (nl >= MAXL) fail_at("harness-limit", "proc", "too many processes");
    pid_t p = r();
    if (p == 0) { in_child_copy = true; if (plan.child_alloc_fail) alloc_fail_at(plan.child_alloc_fail, 1 << 30); return 0; }
    if (p < 0) fail_at("harness-limit", "proc", "real fork failed");
    int st = 0; while (syscall(SYS_wait4, p, &st, 0, nullptr) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) lg[nl].exit_called = 1 + 200;
    return started();
}
pid_t vfork() { return fork(); }
int execve(const char* p, char* const a[], char* const e[]) { if (!in_child_copy && !armed) return (int)syscall(SYS_execve, p, a, e); if (!in_child_copy) { lg[nl].escaped = true; record(lg[nl], p, a, e); fail_at("unintended-execution", current_site(), "exec called without fork"); } return do_exec(p, a, e); }
int execv(const char* p, char* const a[]) { return execve(p, a, environ); }
int execvp(const char* p, char* const a[]) { if (!armed) { static int (*r)(const char*, char* const[]) = nullptr; if (!r) r = next<int (*)(const char*, char* const[])>("execvp"); return r(p, a); } return execve(p, a, environ); }
int execvpe(const char* p, char* const a[], char* const e[]) { return execve(p, a, e); }
int posix_spawn(pid_t* pid, const char* p, const posix_spawn_file_actions_t* fa, const posix_spawnattr_t* at, char* const a[], char* const e[]) {
    if (!armed) { static int (*r)(pid_t*, const char*, const posix_spawn_file_actions_t*, const posix_spawnattr_t*, char* const[], char* const[]) = nullptr; if (!r) r = next<decltype(r)>("posix_spawn"); return r(pid, p, fa, at, a, e); }
    if (fork_fails()) return plan.fork_errno;
    if (nl >= MAXL) fail_at("harness-limit", "proc", "too many processes");
    Launch& L = lg[nl]; record(L, p, a, e);
    if (plan.exec_errno) { count("fault:exec_failure"); return plan.exec_errno; }
    L.execed = true; pid_t q = started(); if (pid) *pid = q; return 0;
}
int posix_spawnp(pid_t* pid, const char* p, const posix_spawn_file_actions_t* fa, const posix_spawnattr_t* at, char* const a[], char* const e[]) { return posix_spawn(pid, p, fa, at, a, e); }
int system(const char* c) {
    if (!armed) { static int (*r)(const char*) = nullptr; if (!r) r = next<int (*)(const char*)>("system"); return r(c); }
    char m[300]; snprintf(m, sizeof m, "a shell command is run: %s", c ? c : "(null)"); fail_at("unintended-execution", current_site(), m);
}
FILE* popen(const char* c, const char*) { char m[300]; snprintf(m, sizeof m, "a shell command is run: %s", c ? c : "(null)"); if (armed) fail_at("unintended-execution", current_site(), m); errno = ENOSYS; return nullptr; }
pid_t waitpid(pid_t p, int* st, int opt) { if (!armed) return (pid_t)syscall(SYS_wait4, p, st, opt, nullptr); return do_wait(p, st, opt); }
pid_t wait4(pid_t p, int* st, int opt, struct rusage* ru) { if (!armed) return (pid_t)syscall(SYS_wait4, p, st, opt, ru); return do_wait(p, st, opt); }
pid_t wait(int* st) { return waitpid(-1, st, 0); }
int kill(pid_t p, int s) { if (!armed) return (int)syscall(SYS_kill, p, s); n_kills++; trace("kill %d %d", (int)(p - FAKE), s); if (p < FAKE || p >= FAKE + nl) fail_at("unintended-execution", current_site(), "a signal is sent to a process that is not the started program"); return 0; }
void _exit(int c) { if (in_child_copy) lg[nl].exit_called = 1 + (c & 255); die(c); for (;;); }
void _Exit(int c) { _exit(c); }
void exit(int c) { if (in_child_copy) { lg[nl].exit_called = 1 + (c & 255); die(c); } static void (*r)(int) = nullptr; if (!r) r = next<void (*)(int)>("exit"); r(c); for (;;); }

int stat(const char* p, struct stat* s) { if (mine(p)) return do_stat(p, s, true); return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); }
int lstat(const char* p, struct stat* s) { if (mine(p)) return do_stat(p, s, false); return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int stat64(const char* p, struct stat64* s) { return stat(p, (struct stat*)s); }
int lstat64(const char* p, struct stat64* s) { return lstat(p, (struct stat*)s); }
int access(const char* p, int m) { if (mine(p)) { struct stat s; return do_stat(p, &s, true); } return (int)syscall(SYS_access, p, m); }
int mkdir(const char* p, mode_t m) {
    if (!mine(p)) return (int)syscall(SYS_mkdir, p, m);
    Quiet q; if (fs_fault("mkdir", p)) return -1;
    std::string s = p, r; while (s.size() > 1 && s.back() == '/') s.pop_back();
    int e = vfs_resolve(s.c_str(), true, false, r); if (e) { errno = e; return -1; }
    if (vfs_is_dir(r.c_str()) || disk_exists(r.c_str())) { errno = EEXIST; return -1; }
    vfs_dir(r.c_str()); trace("mkdir %s", r.c_str()); return 0;
}
ssize_t readlink(const char* p, char* b, size_t n) {
    if (!mine(p)) return syscall(SYS_readlink, p, b, n);
    Quiet q; std::string r; int e = vfs_resolve(p, false, true, r); if (e) { errno = e; return -1; }
    const char* t = lnk(r); if (!t) { errno = EINVAL; return -1; } size_t k = strlen(t); if (k > n) k = n; memcpy(b, t, k); return k;
}
char* realpath(const char* p, char* b) {
    static char* (*rr)(const char*, char*) = nullptr; if (!rr) rr = next<char* (*)(const char*, char*)>("realpath");
    if (!mine(p)) return rr(p, b);
    std::string r; { Quiet q; if (fs_fault("realpath", p)) return nullptr; int e = vfs_resolve(p, true, true, r); if (e) { errno = e; return nullptr; } }
    if (!b) { b = (char*)malloc(PATH_MAX); if (!b) { errno = ENOMEM; return nullptr; } }
    snprintf(b, PATH_MAX, "%s", r.c_str()); return b;
}
char* getcwd(char* b, size_t n) {
    if (!armed) { if (!b) { if (!n) n = 4096; b = (char*)malloc(n); } long k = syscall(SYS_getcwd, b, n); return k < 0 ? nullptr : b; }
    if (!b) { if (!n) n = 600; b = (char*)malloc(n); if (!b) { errno = ENOMEM; return nullptr; } }
    if (strlen(CWD) + 1 > n) { errno = ERANGE; return nullptr; } strcpy(b, CWD); return b;
}
int unlink(const char* p) { if (!mine(p)) return (int)syscall(SYS_unlink, p); Quiet q; std::string r; int e = vfs_resolve(p, false, true, r); if (e) { errno = e; return -1; } if (vfs_is_dir(r.c_str())) { errno = EISDIR; return -1; } disk_remove(r.c_str()); trace("unlink %s", r.c_str()); return 0; }
int remove(const char* p) { if (!mine(p)) { if (syscall(SYS_unlink, p) == 0) return 0; return (int)syscall(SYS_rmdir, p); } return unlink(p); }
int rename(const char* a, const char* b) {
    if (!mine(a) || !mine(b)) return (int)syscall(SYS_rename, a, b);
    Quiet q; std::string x, y; int e = vfs_resolve(a, false, true, x); if (!e) e = vfs_resolve(b, false, false, y); if (e) { errno = e; return -1; }
    if (vfs_is_dir(x.c_str()) || vfs_is_dir(y.c_str())) { errno = EISDIR; return -1; }
    std::string d; disk_get(x.c_str(), d); disk_put(y.c_str(), d.data(), d.size()); disk_remove(x.c_str()); trace("rename %s %s", x.c_str(), y.c_str()); return 0;
}
}
