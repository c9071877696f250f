// Simulated operating system services other than sockets.
#pragma once
#include "core.h"

struct Inode { std::string data; bool dir = false; };
typedef std::shared_ptr<Inode> InodeP;
struct VFile { InodeP ino; size_t pos = 0; int flags = 0; std::string path; bool append = false; bool readable = true, writable = true; };
typedef std::shared_ptr<VFile> VFileP;

// descriptor table glue (net.cc)
int vfd_alloc(VFileP vf);
VFileP vfd_get(int fd);
ssize_t vf_read(VFileP vf, void *buf, size_t n);
ssize_t vf_write(VFileP vf, const void *buf, size_t n);

// in-memory file system
extern std::map<std::string, InodeP> vfs;
void vfs_remove(const std::string &path);
void vfs_put(const std::string &path, const std::string &data); // atomic replacement (new inode)
bool vfs_get(const std::string &path, std::string &data);

struct SysKnobs {
    int alloc_ppm = 0;         // malloc/realloc failure probability
    bool alloc_burst = false;
    int64_t disk_free = -1;    // bytes left on the disk, -1 unlimited
    int fopen_ppm = 0;         // fopen failure
    int64_t crash_fsop = -1;   // crash at the n-th file-system operation from now
};
extern SysKnobs sysk;
extern uint64_t fs_ops;        // file-system operations performed so far
extern uint64_t alloc_live, alloc_peak, allocs;
extern int64_t alloc_live_count;
void sys_calm();

// wall clock jumps
void clock_jump(int64_t us);

// HTTP (libcurl) server side: fills in body, returns CURLcode-like result; dt = transfer time
struct WebReply { int code = 0; std::string body; usec dt = 1000; size_t fail_after = SIZE_MAX; };
extern std::function<WebReply(const std::string &url)> web_get;
// external script run by system()
extern std::function<int(const std::string &cmd)> run_script;
extern std::function<void(int)> on_exit_hook;
extern std::function<void(const std::string &path)> on_rename; // target of a rename
extern std::function<void(const std::string &path)> on_stdio_write;  // bytes of a stdio stream reached the file
extern std::function<void(const std::string &path)> on_file_written; // a stdio file opened for writing was closed

// process life
void prog_start(const std::vector<std::string> &args);
void prog_snapshot();    // remember pristine program data
void prog_restart_data();// restore pristine program data (new process)
void prog_died();        // drop locks, mappings (synced to files), descriptors
extern bool prog_exited;
extern int prog_exit_code;
extern bool prog_main_done; // main() reached the end of start-up
