#include "vfs.h"
#include <cerrno>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <memory>
#include <set>
#include <algorithm>
#include <fcntl.h>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include <utime.h>

namespace vfs {

Stats stats;
void (*on_crash)(bool power) = nullptr;
void (*on_op)(const char *op, const std::string &path, int err) = nullptr;
time_t now = 1700000000;
bool (*on_fd_close)(int fd) = nullptr;

// ext: unsynced growth of the file, as (number of namespace operations that
// were in the journal at that time, new size).  A journalling filesystem writes
// the new size of a file in a transaction no earlier than the namespace
// operations that came before it.
struct Inode { bool dir=false; std::string data, synced; mode_t mode=0644; std::vector<std::pair<size_t,size_t>> ext; };
typedef std::shared_ptr<Inode> Ino;
struct Jop { enum K { ADD, DEL, REN } k; std::string a, b; Ino ino; };

static std::map<std::string, Ino> live, durable;
static std::vector<Jop> journal;
static std::vector<Fault> faults;
static Rng rng(1);

struct Handle { Ino ino; std::string path; size_t off=0; bool append=false, rd=false, wr=false; FILE *f=nullptr; uint64_t gen=0; };
static std::map<int, Handle> handles;
static std::map<FILE*, int> files;
static int next_fd = 100000;
static uint64_t gen = 1;
struct Dir { std::vector<std::pair<std::string,bool>> ents; size_t pos=0; struct dirent de; };
static std::set<Dir*> dirs;

static std::string norm(const char *p){
    std::string out;
    for(const char *c = p; *c; c++){
        if(*c == '/' && !out.empty() && out.back() == '/') continue;
        out += *c;
    }
    while(out.size() > 1 && out.back() == '/') out.pop_back();
    return out;
}
static std::string parent(const std::string &p){
    size_t i = p.rfind('/');
    if(i == std::string::npos) return "";
    return i == 0 ? "/" : p.substr(0, i);
}
static bool is_sim(const std::string &p){ return p == "/sim" || p.compare(0, 5, "/sim/") == 0; }

static void apply(std::map<std::string,Ino> &m, const Jop &j){
    if(j.k == Jop::ADD){ m[j.a] = j.ino; }
    else if(j.k == Jop::DEL){ m.erase(j.a); }
    else {
        // move the whole prefix
        std::vector<std::pair<std::string,Ino>> mv;
        auto it = m.find(j.a);
        if(it == m.end()) return;
        mv.push_back({j.b, it->second});
        std::string pre = j.a + "/";
        for(auto i = m.lower_bound(pre); i != m.end() && i->first.compare(0, pre.size(), pre) == 0; ++i)
            mv.push_back({j.b + "/" + i->first.substr(pre.size()), i->second});
        m.erase(j.a);
        for(auto i = m.lower_bound(pre); i != m.end() && i->first.compare(0, pre.size(), pre) == 0;) i = m.erase(i);
        for(auto &p : mv) m[p.first] = p.second;
    }
}
static void jop(Jop j){ vfs::apply(live, j); journal.push_back(j); }

void commit(){
    for(auto &j : journal) vfs::apply(durable, j);
    journal.clear();
    for(auto &p : live) for(auto &e : p.second->ext) e.first = 0;
}

void reset(uint64_t seed){
    for(auto *d : dirs) delete d;
    dirs.clear();
    handles.clear(); files.clear(); live.clear(); durable.clear(); journal.clear(); faults.clear();
    rng.reseed(seed ^ 0x5f5f); next_fd = 100000; gen++;
    Ino root = std::make_shared<Inode>(); root->dir = true;
    live["/sim"] = root; durable["/sim"] = root;
    now = 1700000000;
}
void arm(Fault f){ f.fired = false; faults.push_back(f); }
void disarm_all(){ faults.clear(); }
bool any_armed(){ return !faults.empty(); }
void drop_handles(){ handles.clear(); files.clear(); gen++; for(auto *d : dirs) delete d; dirs.clear(); }
std::string fd_path(int fd){ auto it = handles.find(fd); return it == handles.end() ? "" : it->second.path; }
size_t open_handles(){ return handles.size() + dirs.size(); }

void sync_all(){ for(auto &p : live) { p.second->synced = p.second->data; p.second->ext.clear(); } commit(); }

void power_loss(Rng &r){
    stats.powerlosses++;
    size_t keep = journal.empty() ? 0 : (size_t)r.below(journal.size() + 1);
    stats.lost_ops += journal.size() - keep;
    for(size_t i = 0; i < keep; i++) vfs::apply(durable, journal[i]);
    journal.clear();
    live = durable;
    std::set<Inode*> seen;
    for(auto &p : live){
        Inode *n = p.second.get();
        if(n->dir || !seen.insert(n).second) continue;
        if(n->data == n->synced) continue;
        if(n->data.size() >= n->synced.size() && n->data.compare(0, n->synced.size(), n->synced) == 0){
            size_t tail = n->data.size() - n->synced.size();
            size_t most = n->synced.size();
            for(auto &e : n->ext) if(e.first <= keep && e.second > most) most = e.second;
            if(most > n->data.size()) most = n->data.size();
            size_t k = (size_t)r.below(most - n->synced.size() + 1);
            stats.dropped_bytes += tail - k;
            n->data.resize(n->synced.size() + k);
        }else{
            // rewritten in place: old, new, or a truncated new content
            uint64_t c = r.below(3);
            if(c == 0){ stats.dropped_bytes += n->data.size(); n->data = n->synced; }
            else if(c == 1) n->data.resize((size_t)r.below(n->data.size() + 1));
        }
        n->synced = n->data;
        n->ext.clear();
    }
    drop_handles();
}

// returns an errno to inject, or 0; may not return at all (crash)
static int gate(const char *op, const std::string &path, bool mut, bool write, size_t *limit){
    stats.ops++;
    if(mut) stats.mut_ops++;
    int err = 0;
    if(mut){
        for(size_t i = 0; i < faults.size(); i++){
            Fault &f = faults[i];
            if(f.fired) continue;
            if(f.kind == Fault::SHORT_ && !write) continue;
            if(!f.match.empty() && path.find(f.match) == std::string::npos) continue;
            if(--f.countdown > 0) continue;
            if(f.then > 0){ f.match.clear(); f.countdown = f.then; f.then = 0; continue; }
            f.fired = true;
            switch(f.kind){
                case Fault::CRASH: case Fault::POWER: {
                    bool power = f.kind == Fault::POWER;
                    if(write && limit && *limit > 0 && rng.pct(50)){
                        // torn write: part of it happens before the crash
                        size_t k = (size_t)rng.below(*limit);
                        stats.torn_writes++;
                        *limit = k;
                        if(on_op) on_op("torn", path, power);
                        // the caller applies k bytes and then calls crash_now()
                        return power ? -2 : -1;
                    }
                    if(on_op) on_op("crash", path, power);
                    stats.crashes += !power;
                    faults.clear();
                    on_crash(power);
                    abort();
                }
                case Fault::EIO_: err = EIO; stats.eio++; break;
                case Fault::ENOSPC_: err = ENOSPC; stats.enospc++; break;
                case Fault::ENOMEM_: err = ENOMEM; break;
                case Fault::SHORT_:
                    if(limit && *limit > 1){ *limit = 1 + (size_t)rng.below(*limit - 1); stats.short_writes++; }
                    break;
            }
        }
        faults.erase(std::remove_if(faults.begin(), faults.end(), [](const Fault &f){ return f.fired; }), faults.end());
        if(on_op) on_op(op, path, err);
    }
    return err;
}
static void crash_now(int code){
    stats.crashes += code == -1;
    faults.clear();
    on_crash(code == -2);
    abort();
}

static Ino find(const std::string &p){ auto it = live.find(p); return it == live.end() ? nullptr : it->second; }

bool put(const std::string &path, const std::string &data){
    Ino i = find(path);
    if(!i){ i = std::make_shared<Inode>(); live[path] = i; durable[path] = i; }
    i->data = i->synced = data;
    return true;
}
bool get(const std::string &path, std::string &out){ Ino i = find(path); if(!i || i->dir) return false; out = i->data; return true; }
bool exists(const std::string &path){ return !!find(path); }
bool is_open(const std::string &path){
    Ino i = find(path);
    for(auto &h : handles) if(h.second.ino == i) return true;
    return false;
}
void replace(const std::string &path, const std::string &data, const std::string &synced){
    Ino i = find(path);
    if(!i || i->dir) return;
    i->data = data; i->synced = synced;
}
bool get_synced(const std::string &path, std::string &out){ Ino i = find(path); if(!i || i->dir) return false; out = i->synced; return true; }
void mkdirs(const std::string &path){
    std::string p = path;
    std::vector<std::string> todo;
    while(!p.empty() && p != "/" && !find(p)){ todo.push_back(p); p = parent(p); }
    while(!todo.empty()){
        Ino i = std::make_shared<Inode>(); i->dir = true;
        live[todo.back()] = i; durable[todo.back()] = i; todo.pop_back();
    }
}
bool remove_file(const std::string &path){ live.erase(path); durable.erase(path); return true; }
std::vector<std::string> list(const std::string &prefix){
    std::vector<std::string> out;
    std::string pre = prefix + "/";
    for(auto i = live.lower_bound(pre); i != live.end() && i->first.compare(0, pre.size(), pre) == 0; ++i) out.push_back(i->first);
    return out;
}
uint64_t hash(){
    uint64_t h = 1469598103934665603ull;
    for(auto &p : live){ for(char c : p.first) h = (h ^ (unsigned char)c) * 1099511628211ull; for(char c : p.second->data) h = (h ^ (unsigned char)c) * 1099511628211ull; }
    return h;
}

static bool has_children(const std::string &p){
    std::string pre = p + "/";
    auto i = live.lower_bound(pre);
    return i != live.end() && i->first.compare(0, pre.size(), pre) == 0;
}

static int fail(int e){ errno = e; return -1; }

static int do_open(const std::string &p, int flags, mode_t mode){
    if(!is_sim(p)){ stats.escapes++; return fail(ENOENT); }
    int acc = flags & O_ACCMODE;
    Ino i = find(p);
    bool mut = (!i && (flags & O_CREAT)) || (i && (flags & O_TRUNC) && !i->data.empty());
    size_t lim = 0;
    int err = gate("open", p, mut, false, &lim);
    if(err) return fail(err);
    if(i && (flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
    if(!i){
        if(!(flags & O_CREAT)) return fail(ENOENT);
        Ino d = find(parent(p));
        if(!d) return fail(ENOENT);
        if(!d->dir) return fail(ENOTDIR);
        i = std::make_shared<Inode>();
        i->mode = mode;
        jop({Jop::ADD, p, "", i});
    }else{
        if(i->dir && acc != O_RDONLY) return fail(EISDIR);
        if((flags & O_TRUNC) && acc != O_RDONLY) i->data.clear();
    }
    int fd = next_fd++;
    Handle h;
    h.ino = i; h.path = p; h.append = flags & O_APPEND; h.rd = acc != O_WRONLY; h.wr = acc != O_RDONLY; h.gen = gen;
    handles[fd] = h;
    return fd;
}
static ssize_t do_write(int fd, const void *buf, size_t n){
    auto it = handles.find(fd);
    if(it == handles.end()) return fail(EBADF);
    Handle &h = it->second;
    if(!h.wr) return fail(EBADF);
    if(n == 0) return 0;
    size_t lim = n;
    int err = gate("write", h.path, true, true, &lim);
    if(err > 0) return fail(err);
    size_t off = h.append ? h.ino->data.size() : h.off;
    if(h.ino->data.size() < off + lim) h.ino->data.resize(off + lim);
    memcpy(&h.ino->data[off], buf, lim);
    h.off = off + lim;
    if(h.off > h.ino->synced.size()) h.ino->ext.push_back({journal.size(), h.off});
    if(err < 0) crash_now(err);
    return (ssize_t)lim;
}
static ssize_t do_read(int fd, void *buf, size_t n){
    auto it = handles.find(fd);
    if(it == handles.end()) return fail(EBADF);
    Handle &h = it->second;
    if(h.ino->dir) return fail(EISDIR);
    size_t avail = h.off < h.ino->data.size() ? h.ino->data.size() - h.off : 0;
    if(n > avail) n = avail;
    memcpy(buf, h.ino->data.data() + h.off, n);
    h.off += n;
    return (ssize_t)n;
}
static int do_stat(const std::string &p, struct stat *s){
    if(!is_sim(p)){
        if(p == "/"){ memset(s, 0, sizeof(*s)); s->st_mode = S_IFDIR | 0755; return 0; }
        stats.escapes++;
        return fail(ENOENT);
    }
    Ino i = find(p);
    if(!i){
        // a path below a regular file
        for(std::string q = parent(p); is_sim(q); q = parent(q)){ Ino j = find(q); if(j){ if(!j->dir) return fail(ENOTDIR); break; } }
        return fail(ENOENT);
    }
    memset(s, 0, sizeof(*s));
    s->st_mode = i->dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
    s->st_size = (off_t)i->data.size();
    s->st_nlink = 1;
    return 0;
}
struct Cookie { int fd; uint64_t gen; };
} // namespace vfs

using namespace vfs;

extern "C" {
FILE *__real_fopen(const char*, const char*);
int __real_fileno(FILE*);
int __real_close(int);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_read(int, void*, size_t);

int __wrap_open(const char *path, int flags, ...){
    va_list ap; va_start(ap, flags);
    mode_t mode = (flags & O_CREAT) ? (mode_t)va_arg(ap, int) : 0;
    va_end(ap);
    return do_open(norm(path), flags, mode);
}
int __wrap_open64(const char *path, int flags, ...){
    va_list ap; va_start(ap, flags);
    mode_t mode = (flags & O_CREAT) ? (mode_t)va_arg(ap, int) : 0;
    va_end(ap);
    return do_open(norm(path), flags, mode);
}
int __wrap_close(int fd){
    if(vfs::on_fd_close && vfs::on_fd_close(fd)) return 0;
    if(fd >= 0 && fd < 100000) return __real_close(fd);
    if(!handles.erase(fd)){ stats.bad_close++; return fail(EBADF); }
    return 0;
}
ssize_t __wrap_write(int fd, const void *b, size_t n){ return (fd >= 0 && fd < 100000) ? __real_write(fd, b, n) : do_write(fd, b, n); }
ssize_t __wrap_read(int fd, void *b, size_t n){ return (fd >= 0 && fd < 100000) ? __real_read(fd, b, n) : do_read(fd, b, n); }

static ssize_t ck_read(void *c, char *b, size_t n){
    Cookie *k = (Cookie*)c;
    if(k->gen != gen) return 0;
    return do_read(k->fd, b, n);
}
static ssize_t ck_write(void *c, const char *b, size_t n){
    Cookie *k = (Cookie*)c;
    if(k->gen != gen) return (ssize_t)n;   // a handle from before a crash: swallow
    size_t done = 0;
    while(done < n){
        ssize_t r = do_write(k->fd, b + done, n - done);
        if(r < 0) return done ? (ssize_t)done : 0;
        done += (size_t)r;
    }
    return (ssize_t)n;
}
static int ck_close(void *c){
    Cookie *k = (Cookie*)c;
    if(k->gen == gen) handles.erase(k->fd);
    delete k;
    return 0;
}
static int ck_seek(void *c, off64_t *pos, int whence){
    Cookie *k = (Cookie*)c;
    if(k->gen != gen){ errno = EBADF; return -1; }
    auto it = handles.find(k->fd);
    if(it == handles.end()){ errno = EBADF; return -1; }
    Handle &h = it->second;
    off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t)h.off : (off64_t)h.ino->data.size();
    if(base + *pos < 0){ errno = EINVAL; return -1; }
    h.off = (size_t)(base + *pos);
    *pos = (off64_t)h.off;
    return 0;
}
FILE *__wrap_fopen(const char *path, const char *mode){
    std::string p = norm(path);
    int flags = 0;
    bool plus = strchr(mode, '+');
    switch(mode[0]){
        case 'r': flags = plus ? O_RDWR : O_RDONLY; break;
        case 'w': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
        case 'a': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
        default: errno = EINVAL; return NULL;
    }
    int fd = do_open(p, flags, 0666);
    if(fd < 0) return NULL;
    cookie_io_functions_t fns = {};
    fns.read = ck_read; fns.write = ck_write; fns.close = ck_close; fns.seek = ck_seek;
    Cookie *k = new Cookie{fd, gen};
    FILE *f = fopencookie(k, mode, fns);
    if(!f){ delete k; handles.erase(fd); return NULL; }
    handles[fd].f = f;
    files[f] = fd;
    return f;
}
FILE *__wrap_fopen64(const char *path, const char *mode){ return __wrap_fopen(path, mode); }
int __wrap_fileno(FILE *f){
    auto it = files.find(f);
    if(it != files.end() && handles.count(it->second) && handles[it->second].f == f) return it->second;
    return __real_fileno(f);
}
int __wrap_fsync(int fd){
    auto it = handles.find(fd);
    if(it == handles.end()) return fail(EBADF);
    vfs::stats.fsyncs++;
    size_t lim = 0;
    int err = gate("fsync", it->second.path, true, false, &lim);
    if(err) return fail(err);
    it->second.ino->synced = it->second.ino->data;
    it->second.ino->ext.clear();
    commit();
    return 0;
}
int __wrap_fdatasync(int fd){ return __wrap_fsync(fd); }
int __wrap_ftruncate(int fd, off_t len){
    auto it = handles.find(fd);
    if(it == handles.end()) return fail(EBADF);
    size_t lim = 0;
    int err = gate("ftruncate", it->second.path, true, false, &lim);
    if(err) return fail(err);
    it->second.ino->data.resize((size_t)len);
    return 0;
}
off_t __wrap_lseek(int fd, off_t off, int whence){
    auto it = handles.find(fd);
    if(it == handles.end()) return fail(EBADF);
    Handle &h = it->second;
    if(whence == SEEK_SET) h.off = (size_t)off;
    else if(whence == SEEK_CUR) h.off += (size_t)off;
    else h.off = h.ino->data.size() + (size_t)off;
    return (off_t)h.off;
}
int __wrap_fstat(int fd, struct stat *s){
    auto it = handles.find(fd);
    if(it == handles.end()) return fail(EBADF);
    memset(s, 0, sizeof(*s));
    s->st_mode = it->second.ino->dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
    s->st_size = (off_t)it->second.ino->data.size();
    return 0;
}
int __wrap_fstat64(int fd, struct stat *s){ return __wrap_fstat(fd, s); }
int __wrap_stat(const char *p, struct stat *s){ return do_stat(norm(p), s); }
int __wrap_lstat(const char *p, struct stat *s){ return do_stat(norm(p), s); }
int __wrap_stat64(const char *p, struct stat *s){ return do_stat(norm(p), s); }
int __wrap_lstat64(const char *p, struct stat *s){ return do_stat(norm(p), s); }
int __wrap_access(const char *p, int){ struct stat s; return do_stat(norm(p), &s); }
int __wrap_mkdir(const char *path, mode_t){
    std::string p = norm(path);
    if(!is_sim(p)){ stats.escapes++; return fail(EACCES); }
    if(find(p)) return fail(EEXIST);
    Ino d = find(parent(p));
    if(!d) return fail(ENOENT);
    if(!d->dir) return fail(ENOTDIR);
    size_t lim = 0;
    int err = gate("mkdir", p, true, false, &lim);
    if(err) return fail(err);
    Ino i = std::make_shared<Inode>(); i->dir = true;
    jop({Jop::ADD, p, "", i});
    return 0;
}
int __wrap_rmdir(const char *path){
    std::string p = norm(path);
    if(!is_sim(p)){ stats.escapes++; return fail(EACCES); }
    Ino i = find(p);
    if(!i) return fail(ENOENT);
    if(!i->dir) return fail(ENOTDIR);
    if(has_children(p)) return fail(ENOTEMPTY);
    size_t lim = 0;
    int err = gate("rmdir", p, true, false, &lim);
    if(err) return fail(err);
    jop({Jop::DEL, p, "", nullptr});
    return 0;
}
int __wrap_unlink(const char *path){
    std::string p = norm(path);
    if(!is_sim(p)){ stats.escapes++; return fail(EACCES); }
    Ino i = find(p);
    if(!i) return fail(ENOENT);
    if(i->dir) return fail(EISDIR);
    size_t lim = 0;
    int err = gate("unlink", p, true, false, &lim);
    if(err) return fail(err);
    jop({Jop::DEL, p, "", nullptr});
    return 0;
}
int __wrap_remove(const char *path){ Ino i = find(norm(path)); return (i && i->dir) ? __wrap_rmdir(path) : __wrap_unlink(path); }
int __wrap_rename(const char *a, const char *b){
    std::string pa = norm(a), pb = norm(b);
    if(!is_sim(pa) || !is_sim(pb)){ stats.escapes++; return fail(EACCES); }
    Ino i = find(pa);
    if(!i) return fail(ENOENT);
    Ino d = find(parent(pb));
    if(!d) return fail(ENOENT);
    if(!d->dir) return fail(ENOTDIR);
    Ino t = find(pb);
    if(pa == pb) return 0;
    if(t){
        if(t->dir && !i->dir) return fail(EISDIR);
        if(!t->dir && i->dir) return fail(ENOTDIR);
        if(t->dir && has_children(pb)) return fail(ENOTEMPTY);
    }
    if(i->dir && pb.compare(0, pa.size() + 1, pa + "/") == 0) return fail(EINVAL);
    size_t lim = 0;
    int err = gate("rename", pa, true, false, &lim);
    if(err) return fail(err);
    if(on_op) on_op("rename-to", pb, 0);
    jop({Jop::REN, pa, pb, nullptr});
    return 0;
}
int __wrap_link(const char *, const char *){ return fail(EPERM); }
int __wrap_symlink(const char *, const char *){ return fail(EPERM); }
ssize_t __wrap_readlink(const char *, char *, size_t){ return fail(EINVAL); }
int __wrap_chmod(const char *p, mode_t){ return find(norm(p)) ? 0 : fail(ENOENT); }
int __wrap_utime(const char *p, const struct utimbuf *){ return find(norm(p)) ? 0 : fail(ENOENT); }
int __wrap_flock(int, int){ return 0; }
DIR *__wrap_opendir(const char *path){
    std::string p = norm(path);
    Ino i = find(p);
    if(!i){ if(!is_sim(p)) stats.escapes++; errno = ENOENT; return NULL; }
    if(!i->dir){ errno = ENOTDIR; return NULL; }
    Dir *d = new Dir();
    std::string pre = p + "/";
    d->ents.push_back({".", true}); d->ents.push_back({"..", true});
    for(auto it = live.lower_bound(pre); it != live.end() && it->first.compare(0, pre.size(), pre) == 0; ++it){
        std::string rest = it->first.substr(pre.size());
        if(rest.find('/') != std::string::npos) continue;
        d->ents.push_back({rest, it->second->dir});
    }
    for(size_t k = d->ents.size(); k > 1; k--) std::swap(d->ents[k-1], d->ents[(size_t)vfs::rng.below(k)]);
    dirs.insert(d);
    return (DIR*)d;
}
struct dirent *__wrap_readdir(DIR *dp){
    Dir *d = (Dir*)dp;
    if(d->pos >= d->ents.size()) return NULL;
    auto &e = d->ents[d->pos++];
    memset(&d->de, 0, sizeof(d->de));
    d->de.d_type = e.second ? DT_DIR : DT_REG;
    snprintf(d->de.d_name, sizeof(d->de.d_name), "%s", e.first.c_str());
    return &d->de;
}
struct dirent *__wrap_readdir64(DIR *dp){ return __wrap_readdir(dp); }
int __wrap_closedir(DIR *dp){ Dir *d = (Dir*)dp; dirs.erase(d); delete d; return 0; }
int __wrap_gethostname(char *b, size_t n){ snprintf(b, n, "simhost"); return 0; }
time_t __wrap_time(time_t *t){ if(t) *t = vfs::now; return vfs::now; }
}
