// In-memory file system behind the libc calls that stdio, libstdc++ file streams and std::filesystem make.
#include "rt.h"
#include "vfs.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <poll.h>
#include <set>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
static const char PFX[] = "/simfs";
struct Node { bool dir = false; std::string data; };
struct Disk { std::map<std::string, std::shared_ptr<Node>> f; };
struct Open { std::shared_ptr<Node> n; uint64_t off = 0; bool rd = false, wr = false, app = false; FILE* fp = nullptr; bool isdir = false; std::string path; };
struct Dir { std::vector<std::string> names; size_t i = 0; int fd = -1; struct dirent de; };
static Disk* disk; static Disk* snap;
static std::map<int, Open*>* fds;
static std::map<FILE*, int>* files;
static std::set<Dir*>* dirs;
static FsConfig conf;
static uint64_t muts = 0; static uint32_t hard = 0; static bool crashed = false;
static const int FD0 = 700000;
static int nextfd = FD0;
FsConfig& fs() { return conf; }

static void init()
{
    if (disk) return;
    RtScope r;
    disk = new Disk(); fds = new std::map<int, Open*>(); files = new std::map<FILE*, int>(); dirs = new std::set<Dir*>();
    disk->f[PFX] = std::make_shared<Node>(); disk->f[PFX]->dir = true;
}
static bool faults() { return in_sim(); }
static bool rel = false;
void fs_relative(bool on) { rel = on; }
static bool ours(const char* p) { if (p && rel && *p && *p != '/') return true; return p && !strncmp(p, PFX, sizeof PFX - 1) && (p[sizeof PFX - 1] == '/' || !p[sizeof PFX - 1]); }
static std::string norm(const char* p)
{
    // lexical normalisation: collapses //, /. and /..
    std::vector<std::string> c; std::string cur; if (*p && *p != '/') c = {"simfs", "cwd"};
    for (const char* q = p;; ++q) {
        if (*q == '/' || !*q) { if (cur == "..") { if (!c.empty()) c.pop_back(); } else if (!cur.empty() && cur != ".") c.push_back(cur); cur.clear(); if (!*q) break; }
        else cur += *q;
    }
    std::string o; for (auto& x : c) { o += '/'; o += x; }
    return o.empty() ? "/" : o;
}
static std::string parent(const std::string& p) { auto k = p.rfind('/'); return k == 0 ? "/" : p.substr(0, k); }
uint64_t fs_used() { uint64_t n = 0; init(); for (auto& e : disk->f) n += e.second->data.size(); return n; }
static Disk* clone(const Disk* d) { Disk* c = new Disk(); for (auto& e : d->f) { c->f[e.first] = std::make_shared<Node>(*e.second); } return c; }
// called at the start of every mutating operation; true when the crash point is inside this very operation
static bool mutation()
{
    ++muts;
    if (conf.crash_at && muts == conf.crash_at && faults() && !crashed) return true;
    return false;
}
static void take_crash() { RtScope r; fault("process-crash"); crashed = true; delete snap; snap = clone(disk); }
static bool hardf(Kind k, uint32_t permille, const char* name)
{
    if (!permille || !faults()) return false;
    if (decide_p(k, 2, permille, 1000)) { fault(name); ++hard; return true; }
    return false;
}

void fs_reset()
{
    RtScope r; init();
    delete disk; disk = nullptr; delete snap; snap = nullptr;
    disk = new Disk(); disk->f[PFX] = std::make_shared<Node>(); disk->f[PFX]->dir = true;
    conf = FsConfig(); muts = 0; hard = 0; crashed = false; rel = false;
}
void fs_put(const std::string& p, const std::string& d)
{
    RtScope r; init();
    std::string n = norm(p.c_str());
    for (std::string q = parent(n); q.size() > 1; q = parent(q)) { auto& x = disk->f[q]; if (!x) { x = std::make_shared<Node>(); x->dir = true; } }
    auto x = std::make_shared<Node>(); x->data = d; disk->f[n] = x;
}
bool fs_get(const std::string& p, std::string& out)
{
    RtScope r; init(); auto i = disk->f.find(norm(p.c_str()));
    if (i == disk->f.end() || i->second->dir) return false;
    out = i->second->data; return true;
}
bool fs_exists(const std::string& p) { RtScope r; init(); return disk->f.count(norm(p.c_str())); }
void fs_remove(const std::string& p) { RtScope r; init(); disk->f.erase(norm(p.c_str())); }
std::vector<std::string> fs_list() { RtScope r; init(); std::vector<std::string> v; for (auto& e : disk->f) if (!e.second->dir) v.push_back(e.first); return v; }
uint64_t fs_mutations() { return muts; }
int fs_open_handles() { init(); return (int)fds->size(); }
static void (*on_readdir)() = nullptr;
void fs_on_readdir(void (*f)()) { on_readdir = f; }
uint32_t fs_hard_faults() { return hard; }
void fs_clear_faults() { conf = FsConfig(); hard = 0; }
bool fs_crashed() { return crashed; }
void fs_restart()
{
    RtScope r; init();
    if (crashed && snap) { delete disk; disk = snap; snap = nullptr; }
    crashed = false; conf = FsConfig(); hard = 0;
}

static uint32_t short_len(uint32_t n)
{
    if (n <= 1 || !conf.soft || !faults()) return n;
    uint32_t v = decide_p(K_FAULT_IO, 4, 1, 3);
    if (!v) return n;
    fault("short-transfer");
    if (v == 1) return 1;
    if (v == 2) return n - 1;
    return 1 + decide(K_FAULT_IO, n - 1);
}
// one read(2)
static ssize_t do_read(Open* o, char* b, size_t n)
{
    if (!o->rd) { errno = EBADF; return -1; }
    if (o->isdir) { errno = EISDIR; return -1; }
    if (hardf(K_FAULT_IO, conf.p_read_err, "read-error")) { errno = EIO; return -1; }
    const std::string& d = o->n->data;
    size_t left = o->off < d.size() ? d.size() - o->off : 0;
    size_t k = std::min(left, n);
    if (k) k = short_len((uint32_t)std::min<size_t>(k, 1u << 30));
    memcpy(b, d.data() + o->off, k);
    o->off += k;
    return (ssize_t)k;
}
// one write(2)
static ssize_t do_write(Open* o, const char* b, size_t n)
{
    if (!o->wr) { errno = EBADF; return -1; }
    if (!n) return 0;
    bool crash_here = mutation();
    if (hardf(K_FAULT_IO, conf.p_write_err, "write-error")) { if (crash_here) take_crash(); errno = EIO; return -1; }
    size_t k = short_len((uint32_t)std::min<size_t>(n, 1u << 30));
    if (conf.capacity && faults()) {
        uint64_t used = fs_used(), room = conf.capacity > used ? conf.capacity - used : 0;
        if (o->app) o->off = o->n->data.size();
        uint64_t end = o->off + k, have = o->n->data.size();
        uint64_t grow = end > have ? end - have : 0;
        if (grow > room) {
            uint64_t ok = k - (grow - room);
            if ((int64_t)ok <= 0) { fault("disk-full"); ++hard; if (crash_here) take_crash(); errno = ENOSPC; return -1; }
            k = ok;
        }
    }
    RtScope r;
    if (o->app) o->off = o->n->data.size();
    std::string& d = o->n->data;
    auto put = [&](size_t m) { if (d.size() < o->off + m) d.resize(o->off + m, '\0'); memcpy(&d[o->off], b, m); };
    if (crash_here) { size_t m = k; m = decide(K_CRASH, (uint32_t)k + 1); put(m); fault("torn-write"); take_crash(); }
    put(k);
    o->off += k;
    return (ssize_t)k;
}
static off_t do_seek(Open* o, off_t off, int wh)
{
    int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)o->off : (int64_t)o->n->data.size();
    if (b + off < 0) { errno = EINVAL; return -1; }
    o->off = (uint64_t)(b + off); return (off_t)o->off;
}
static int do_open(const char* path, int fl)
{
    init();
    std::string p = norm(path);
    if (hardf(K_FAULT_IO, conf.p_open_err, "open-error")) { static const int es[] = {EIO, EMFILE, EACCES, ENOENT}; errno = es[decide(K_FAULT_IO, 4)]; return -1; }
    RtScope r;
    auto i = disk->f.find(p);
    std::shared_ptr<Node> n = i == disk->f.end() ? nullptr : i->second;
    int acc = fl & O_ACCMODE;
    if (!n) {
        if (!(fl & O_CREAT)) { errno = ENOENT; return -1; }
        auto q = disk->f.find(parent(p));
        if (q == disk->f.end()) { errno = ENOENT; return -1; }
        if (!q->second->dir) { errno = ENOTDIR; return -1; }
        bool c = mutation();
        if (c && decide(K_CRASH, 2) == 0) { take_crash(); c = false; }
        n = std::make_shared<Node>(); disk->f[p] = n;
        if (c) take_crash();
    } else {
        if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
        if (n->dir && acc != O_RDONLY) { errno = EISDIR; return -1; }
        if (!n->dir && (fl & O_DIRECTORY)) { errno = ENOTDIR; return -1; }
        if (fl & O_TRUNC) { bool c = mutation(); if (c && decide(K_CRASH, 2) == 0) { take_crash(); c = false; } n->data.clear(); if (c) take_crash(); }
    }
    Open* o = new Open(); o->n = n; o->rd = acc != O_WRONLY; o->wr = acc != O_RDONLY; o->app = fl & O_APPEND; o->isdir = n->dir; o->path = p;
    int fd = nextfd++;
    (*fds)[fd] = o;
    return fd;
}
static int do_close(int fd)
{
    RtScope r;
    auto i = fds->find(fd);
    if (i == fds->end()) { errno = EBADF; return -1; }
    const bool w = i->second->wr;
    auto n = i->second->n;
    delete i->second; fds->erase(i);
    if (w && hardf(K_FAULT_IO, conf.p_close_err, "close-error")) {
        // the write-back behind the close failed: some of the tail never reached the disk
        if (size_t s = n->data.size()) n->data.resize(s - 1 - decide(K_FAULT_IO, (uint32_t)std::min<size_t>(s, 4096)));
        errno = EIO; return -1;
    }
    return 0;
}
static Open* fd_of(int fd) { if (fd < FD0 || !fds) return nullptr; auto i = fds->find(fd); return i == fds->end() ? nullptr : i->second; }
static int do_stat(const char* p, struct stat* st)
{
    init();
    if (hardf(K_FAULT_IO, conf.p_dir_err, "stat-error")) { errno = EIO; return -1; }
    RtScope r;
    auto i = disk->f.find(norm(p));
    if (i == disk->f.end()) { auto q = disk->f.find(parent(norm(p))); errno = q != disk->f.end() && !q->second->dir ? ENOTDIR : ENOENT; return -1; }
    memset(st, 0, sizeof *st);
    st->st_mode = i->second->dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
    st->st_size = (off_t)i->second->data.size(); st->st_nlink = 1; st->st_blksize = 4096; st->st_ino = (ino_t)(uintptr_t)i->second.get();
    return 0;
}
static int do_mkdir(const char* path)
{
    init();
    if (hardf(K_FAULT_IO, conf.p_dir_err, "mkdir-error")) { errno = EIO; return -1; }
    RtScope r;
    std::string p = norm(path);
    if (disk->f.count(p)) { errno = EEXIST; return -1; }
    auto q = disk->f.find(parent(p));
    if (q == disk->f.end()) { errno = ENOENT; return -1; }
    if (!q->second->dir) { errno = ENOTDIR; return -1; }
    if (mutation()) take_crash();
    auto n = std::make_shared<Node>(); n->dir = true; disk->f[p] = n;
    return 0;
}
static int do_unlink(const char* path, bool dirok)
{
    init();
    if (hardf(K_FAULT_IO, conf.p_dir_err, "unlink-error")) { errno = EIO; return -1; }
    RtScope r;
    std::string p = norm(path); auto i = disk->f.find(p);
    if (i == disk->f.end()) { errno = ENOENT; return -1; }
    if (i->second->dir) {
        if (!dirok) { errno = EISDIR; return -1; }
        auto k = disk->f.upper_bound(p + "/"); if (k != disk->f.end() && k->first.compare(0, p.size() + 1, p + "/") == 0) { errno = ENOTEMPTY; return -1; }
    }
    if (mutation()) take_crash();
    disk->f.erase(i); return 0;
}
static int do_rename(const char* a, const char* b)
{
    init();
    if (hardf(K_FAULT_IO, conf.p_dir_err, "rename-error")) { errno = EIO; return -1; }
    RtScope r;
    std::string x = norm(a), y = norm(b); auto i = disk->f.find(x);
    if (i == disk->f.end()) { errno = ENOENT; return -1; }
    if (i->second->dir) { errno = EINVAL; return -1; }
    if (!disk->f.count(parent(y))) { errno = ENOENT; return -1; }
    if (mutation()) take_crash();
    auto n = i->second; disk->f.erase(i); disk->f[y] = n; return 0;
}

// stdio streams -------------------------------------------------------------
static ssize_t ck_read(void* c, char* b, size_t n)
{
    RtScope r;
    Open* o = fd_of((int)(intptr_t)c); if (!o) { errno = EBADF; return -1; }
    return do_read(o, b, n);
}
static ssize_t ck_write(void* c, const char* b, size_t n)
{
    // as glibc's own file write: loops over short writes, stops at an error
    RtScope r;
    Open* o = fd_of((int)(intptr_t)c); if (!o) { errno = EBADF; return 0; }
    size_t done = 0;
    while (done < n) { ssize_t k = do_write(o, b + done, n - done); if (k < 0) break; done += (size_t)k; }
    return (ssize_t)done;
}
static int ck_seek(void* c, off64_t* p, int wh)
{
    RtScope r;
    Open* o = fd_of((int)(intptr_t)c); if (!o) { errno = EBADF; return -1; }
    off_t v = do_seek(o, *p, wh); if (v < 0) return -1; *p = v; return 0;
}
static int ck_close(void* c) { return do_close((int)(intptr_t)c); }
static int mode_flags(const char* m)
{
    int f; bool plus = strchr(m, '+');
    if (m[0] == 'r') f = plus ? O_RDWR : O_RDONLY;
    else if (m[0] == 'w') f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    if (strchr(m, 'x')) f |= O_EXCL;
    return f;
}
template <class F> static F nx(const char* n) { RtScope r; return (F)dlsym(RTLD_NEXT, n); }
static FILE* open_stream(const char* p, const char* m)
{
    int fd = do_open(p, mode_flags(m));
    if (fd < 0) return nullptr;
    cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
    const char* mm = m[0] == 'r' ? (strchr(m, '+') ? "r+" : "r") : m[0] == 'w' ? (strchr(m, '+') ? "w+" : "w") : (strchr(m, '+') ? "a+" : "a");
    FILE* f = fopencookie((void*)(intptr_t)fd, mm, io);
    if (!f) { do_close(fd); errno = ENOMEM; return nullptr; }
    RtScope r; (*files)[f] = fd; if (Open* o = fd_of(fd)) o->fp = f;
    return f;
}
static void check_path(const char* p, bool wr)
{
    // a write by the code under test outside the simulated disk would escape the sandbox of the run
    if (in_sim() && wr && p && strncmp(p, "/dev/", 5)) violation(std::string("file opened for writing outside the simulated disk: ") + p);
}
void sim_touch(const void* p, size_t n, bool w, uint32_t pc);
} // namespace sim

using namespace sim;
#define PCR ((uint32_t)(uintptr_t)__builtin_return_address(0))
extern "C" {
FILE* fopen(const char* p, const char* m)
{
    static auto real = nx<FILE* (*)(const char*, const char*)>("fopen");
    if (!ours(p)) { if (strpbrk(m, "wa+")) check_path(p, true); return real(p, m); }
    preempt();
    return open_stream(p, m);
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
FILE* freopen(const char* p, const char* m, FILE* f)
{
    static auto real = nx<FILE* (*)(const char*, const char*, FILE*)>("freopen");
    if (!ours(p)) return real(p, m, f);
    fclose(f); return open_stream(p, m);
}
int fclose(FILE* f)
{
    static auto real = nx<int (*)(FILE*)>("fclose");
    if (files) { RtScope r; files->erase(f); }
    if (in_sim() && !f) violation("null stream closed");
    return real(f);
}
int fileno(FILE* f)
{
    static auto real = nx<int (*)(FILE*)>("fileno");
    if (files) { auto i = files->find(f); if (i != files->end()) return i->second; }
    return real(f);
}
size_t fread(void* b, size_t s, size_t n, FILE* f)
{
    static auto real = nx<size_t (*)(void*, size_t, size_t, FILE*)>("fread");
    if (in_sim() && !f) violation("read from a null stream");
    size_t k = real(b, s, n, f);
    if (in_sim() && k && s) sim_touch(b, s * k, true, PCR);
    return k;
}
size_t fwrite(const void* b, size_t s, size_t n, FILE* f)
{
    static auto real = nx<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite");
    if (in_sim() && !f) violation("write to a null stream");
    if (in_sim() && n && s) sim_touch(b, s * n, false, PCR);
    return real(b, s, n, f);
}
ssize_t read(int fd, void* b, size_t n)
{
    if (Open* o = fd_of(fd)) {
        if (conf.soft && faults() && decide_p(K_FAULT_IO, 2, 1, 12)) { fault("eintr"); errno = EINTR; return -1; }
        RtScope r; return do_read(o, (char*)b, n);
    }
    static auto real = nx<ssize_t (*)(int, void*, size_t)>("read"); return real(fd, b, n);
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n)
{
    if (Open* o = fd_of(fd)) {
        if (conf.soft && faults() && decide_p(K_FAULT_IO, 2, 1, 12)) { fault("eintr"); errno = EINTR; return -1; }
        RtScope r; return do_write(o, (const char*)b, n);
    }
    static auto real = nx<ssize_t (*)(int, const void*, size_t)>("write"); return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (Open* o = fd_of(fd)) {
        if (conf.soft && faults() && decide_p(K_FAULT_IO, 2, 1, 12)) { fault("eintr"); errno = EINTR; return -1; }
        RtScope r;
        std::string all; for (int i = 0; i < c; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len);
        return do_write(o, all.data(), all.size());
    }
    static auto real = nx<ssize_t (*)(int, const struct iovec*, int)>("writev"); return real(fd, v, c);
}
off_t lseek(int fd, off_t o, int w)
{
    if (Open* x = fd_of(fd)) return do_seek(x, o, w);
    static auto real = nx<off_t (*)(int, off_t, int)>("lseek"); return real(fd, o, w);
}
off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
int close(int fd)
{
    if (fd_of(fd)) return do_close(fd);
    static auto real = nx<int (*)(int)>("close"); return real(fd);
}
int open(const char* p, int fl, ...)
{
    va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    if (ours(p)) { preempt(); return do_open(p, fl); }
    if ((fl & O_ACCMODE) != O_RDONLY) check_path(p, true);
    static auto real = nx<int (*)(const char*, int, ...)>("open"); return real(p, fl, m);
}
int open64(const char* p, int fl, ...)
{
    va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    return open(p, fl, m);
}
static std::string at_path(int d, const char* p) { if (p[0] == '/') return p; if (Open* o = fd_of(d)) return o->path + "/" + p; return p; }
int openat(int d, const char* p, int fl, ...)
{
    va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    if (ours(p) || fd_of(d)) { std::string q; { RtScope r; q = at_path(d, p); } return do_open(q.c_str(), fl); }
    static auto real = nx<int (*)(int, const char*, int, ...)>("openat"); return real(d, p, fl, m);
}
int __openat_2(int d, const char* p, int fl) { return openat(d, p, fl); }
int stat(const char* p, struct stat* st)
{
    if (ours(p)) return do_stat(p, st);
    static auto real = nx<int (*)(const char*, struct stat*)>("stat"); return real(p, st);
}
int lstat(const char* p, struct stat* st)
{
    if (ours(p)) return do_stat(p, st);
    static auto real = nx<int (*)(const char*, struct stat*)>("lstat"); return real(p, st);
}
int fstatat(int d, const char* p, struct stat* st, int fl)
{
    if (ours(p) || fd_of(d)) { std::string q; { RtScope r; q = at_path(d, p); } return do_stat(q.c_str(), st); }
    static auto real = nx<int (*)(int, const char*, struct stat*, int)>("fstatat"); return real(d, p, st, fl);
}
int fstat(int fd, struct stat* st)
{
    if (Open* o = fd_of(fd)) {
        memset(st, 0, sizeof *st); st->st_mode = o->isdir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
        st->st_size = (off_t)o->n->data.size(); st->st_nlink = 1; st->st_blksize = 4096; return 0;
    }
    static auto real = nx<int (*)(int, struct stat*)>("fstat"); return real(fd, st);
}
int access(const char* p, int m) { if (ours(p)) { struct stat st; return do_stat(p, &st); } static auto real = nx<int (*)(const char*, int)>("access"); return real(p, m); }
int mkdir(const char* p, mode_t m)
{
    if (ours(p)) return do_mkdir(p);
    check_path(p, true);
    static auto real = nx<int (*)(const char*, mode_t)>("mkdir"); return real(p, m);
}
int unlink(const char* p) { if (ours(p)) return do_unlink(p, false); check_path(p, true); static auto real = nx<int (*)(const char*)>("unlink"); return real(p); }
int rmdir(const char* p) { if (ours(p)) return do_unlink(p, true); check_path(p, true); static auto real = nx<int (*)(const char*)>("rmdir"); return real(p); }
int remove(const char* p) { if (ours(p)) return do_unlink(p, true); check_path(p, true); static auto real = nx<int (*)(const char*)>("remove"); return real(p); }
int unlinkat(int d, const char* p, int fl)
{
    if (ours(p) || fd_of(d)) { std::string q; { RtScope r; q = at_path(d, p); } return do_unlink(q.c_str(), fl & AT_REMOVEDIR); }
    check_path(p, true);
    static auto real = nx<int (*)(int, const char*, int)>("unlinkat"); return real(d, p, fl);
}
int rename(const char* a, const char* b) { if (ours(a) && ours(b)) return do_rename(a, b); check_path(b, true); static auto real = nx<int (*)(const char*, const char*)>("rename"); return real(a, b); }
int fsync(int fd) { if (fd_of(fd)) return 0; static auto real = nx<int (*)(int)>("fsync"); return real(fd); }
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t n) { if (Open* o = fd_of(fd)) { RtScope r; o->n->data.resize((size_t)n); return 0; } static auto real = nx<int (*)(int, off_t)>("ftruncate"); return real(fd, n); }
int truncate(const char* p, off_t n)
{
    if (ours(p)) { RtScope r; init(); auto i = disk->f.find(norm(p)); if (i == disk->f.end()) { errno = ENOENT; return -1; } i->second->data.resize((size_t)n); return 0; }
    static auto real = nx<int (*)(const char*, off_t)>("truncate"); return real(p, n);
}
int ioctl(int fd, unsigned long req, ...)
{
    va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
    if (Open* o = fd_of(fd)) { if (req == FIONREAD) { *(int*)a = (int)(o->n->data.size() - std::min<uint64_t>(o->off, o->n->data.size())); return 0; } errno = ENOTTY; return -1; }
    static auto real = nx<int (*)(int, unsigned long, ...)>("ioctl"); return real(fd, req, a);
}
int poll(struct pollfd* f, nfds_t n, int t)
{
    for (nfds_t i = 0; i < n; ++i) if (fd_of(f[i].fd)) { f[i].revents = f[i].events; return 1; }
    static auto real = nx<int (*)(struct pollfd*, nfds_t, int)>("poll"); return real(f, n, t);
}
int statvfs(const char* p, struct statvfs* s) { if (ours(p)) { memset(s, 0, sizeof *s); s->f_bsize = s->f_frsize = 4096; s->f_bavail = s->f_bfree = 1 << 20; return 0; } static auto real = nx<int (*)(const char*, struct statvfs*)>("statvfs"); return real(p, s); }
char* realpath(const char* p, char* out)
{
    static auto real = nx<char* (*)(const char*, char*)>("realpath");
    if (!ours(p)) return real(p, out);
    struct stat st; if (do_stat(p, &st)) return nullptr;
    std::string n; { RtScope r; n = norm(p); }
    if (!out) out = (char*)malloc(n.size() + 1);
    if (out) strcpy(out, n.c_str());
    return out;
}
ssize_t readlink(const char* p, char* b, size_t n) { if (ours(p)) { errno = EINVAL; return -1; } static auto real = nx<ssize_t (*)(const char*, char*, size_t)>("readlink"); return real(p, b, n); }

static Dir* mkdirstream(const std::string& p, int fd)
{
    Dir* d = new Dir(); d->fd = fd;
    d->names = {".", ".."};
    std::string b = p + "/";
    for (auto i = disk->f.upper_bound(b); i != disk->f.end() && i->first.compare(0, b.size(), b) == 0; ++i)
        if (i->first.find('/', b.size()) == std::string::npos) d->names.push_back(i->first.substr(b.size()));
    if (faults()) for (size_t i = d->names.size(); i > 1; --i) std::swap(d->names[i - 1], d->names[decide(K_MISC, (uint32_t)i)]);
    dirs->insert(d);
    return d;
}
DIR* fdopendir(int fd)
{
    if (Open* o = fd_of(fd)) { RtScope r; if (!o->isdir) { errno = ENOTDIR; return nullptr; } return (DIR*)mkdirstream(o->path, fd); }
    static auto real = nx<DIR* (*)(int)>("fdopendir"); return real(fd);
}
DIR* opendir(const char* p)
{
    if (ours(p)) { int fd = do_open(p, O_RDONLY | O_DIRECTORY); if (fd < 0) return nullptr; return fdopendir(fd); }
    static auto real = nx<DIR* (*)(const char*)>("opendir"); return real(p);
}
struct dirent* readdir(DIR* d)
{
    static auto real = nx<struct dirent* (*)(DIR*)>("readdir");
    if (dirs && dirs->count((Dir*)d)) {
        RtScope r; Dir* x = (Dir*)d; if (on_readdir) on_readdir();
        if (hardf(K_FAULT_IO, conf.p_dir_err, "readdir-error")) { errno = EIO; return nullptr; }
        while (x->i < x->names.size()) {
            const std::string& n = x->names[x->i++];
            Open* o = fd_of(x->fd);
            bool isdir = true;
            if (n != "." && n != "..") { auto i = disk->f.find(o->path + "/" + n); if (i == disk->f.end()) continue; isdir = i->second->dir; }
            memset(&x->de, 0, sizeof x->de); x->de.d_ino = 1; x->de.d_type = isdir ? DT_DIR : DT_REG; x->de.d_reclen = sizeof x->de;
            snprintf(x->de.d_name, sizeof x->de.d_name, "%s", n.c_str());
            return &x->de;
        }
        return nullptr;
    }
    return real(d);
}
struct dirent64* readdir64(DIR* d) { return (struct dirent64*)readdir(d); }
int closedir(DIR* d)
{
    static auto real = nx<int (*)(DIR*)>("closedir");
    if (dirs && dirs->count((Dir*)d)) { RtScope r; Dir* x = (Dir*)d; int fd = x->fd; dirs->erase(x); delete x; return do_close(fd); }
    return real(d);
}
int dirfd(DIR* d)
{
    static auto real = nx<int (*)(DIR*)>("dirfd");
    if (dirs && dirs->count((Dir*)d)) return ((Dir*)d)->fd;
    return real(d);
}
} // extern "C"
