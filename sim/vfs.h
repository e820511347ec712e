// Simulated file system: everything below /simfs/ lives in memory, all transfers go through seeded faults.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace sim {
struct FsConfig {
    bool soft = false;            // short transfers, EINTR on raw reads/writes, shuffled directory order
    uint32_t p_read_err = 0;      // per-mille probability of EIO on a read
    uint32_t p_write_err = 0;     // per-mille probability of EIO on a write
    uint32_t p_open_err = 0;      // per-mille probability of a failing open
    uint32_t p_close_err = 0;     // per-mille probability of a failing close
    uint32_t p_dir_err = 0;       // per-mille probability of a failing directory operation / stat
    uint64_t capacity = 0;        // bytes the disk can hold (0: unlimited)
    uint64_t crash_at = 0;        // the process dies in the n-th mutating operation (0: never)
};
FsConfig& fs();
void fs_reset();                                   // empty disk, no faults
void fs_put(const std::string& path, const std::string& data);
bool fs_get(const std::string& path, std::string& out);
bool fs_exists(const std::string& path);
void fs_remove(const std::string& path);
std::vector<std::string> fs_list();                // all regular files, sorted
uint64_t fs_mutations();                           // mutating operations since reset
int fs_open_handles();
uint32_t fs_hard_faults();                         // injected hard faults since fs_clear_faults
void fs_clear_faults();                            // resets the counter above and turns all faults off
bool fs_crashed();                                 // the crash point was reached
void fs_restart();                                 // back to what the disk held at the crash point (if reached)
uint64_t fs_used();
void fs_relative(bool on);                         // relative paths lie below /simfs/cwd (off after fs_reset)
void fs_on_readdir(void (*f)());                    // called when the program reads the next entry of a directory
} // namespace sim
