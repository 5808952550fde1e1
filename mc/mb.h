// Access to the library under test. All standard headers come first so that the
// access override below touches only the library's own classes.
#pragma once
#include <algorithm>
#include <atomic>
#include <cassert>
#include <condition_variable>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#define private public
#define protected public
#include "db.h"
#include "dict.h"
#include "dict_mem.h"
#include "drm_base.h"
#include "free_list.h"
#include "util/mb_lsq.h"
#include "mabain_consts.h"
#include "mb_data.h"
#include "mb_rc.h"
#include "resource_pool.h"
#include "rollable_file.h"
#include "mmap_file.h"
#include "logger.h"
#include "async_writer.h"
#include "detail/search_engine.h"
#include "util/prefix_cache.h"
#include "util/utils.h"
#undef private
#undef protected
#include "core.h"

namespace mc {
using namespace mabain;
typedef std::map<std::string, std::string> Model;

struct Cfg {
    int wopt = 0, ropt = 0;
    uint32_t bsi = 16 * 1024, bsd = 16 * 1024;
    int maxi = 64, maxd = 64;
    size_t mci = 0, mcd = 0; // 0: bs*max
    int bucket = 500;
    uint32_t qsize = 8;
    bool keep = false;
    size_t rmci = 0, rmcd = 0; // reader's own mapping limits (0: as the writer)
    bool tolerant = false;     // updates may be refused for lack of space
    bool full_lists = false;   // more free buffers of one size than a list takes
    const char* name = "default";
};

inline void fill_config(MBConfig& c, const Cfg& g, const std::string& dir, int mode, uint32_t id = 0x6d63)
{
    memset(&c, 0, sizeof c);
    c.mbdir = dir.c_str();
    c.options = mode | ((mode & CONSTS::ACCESS_MODE_WRITER) ? g.wopt : g.ropt);
    c.block_size_index = g.bsi;
    c.block_size_data = g.bsd;
    c.max_num_index_block = g.maxi;
    c.max_num_data_block = g.maxd;
    c.memcap_index = g.mci ? g.mci : (size_t)g.bsi * g.maxi;
    c.memcap_data = g.mcd ? g.mcd : (size_t)g.bsd * g.maxd;
    if (!(mode & CONSTS::ACCESS_MODE_WRITER)) {
        if (g.rmci)
            c.memcap_index = g.rmci;
        if (g.rmcd)
            c.memcap_data = g.rmcd;
    }
    c.num_entry_per_bucket = g.bucket;
    c.queue_size = g.qsize;
    c.queue_dir = dir.c_str();
    c.connect_id = id;
    c.jemalloc_keep_db = g.keep;
}

inline std::string val_of(const MBData& d) { return std::string((const char*)d.buff, d.data_len); }
inline const char* es(int e)
{
    static char b[8][16];
    static int i;
    switch (e) {
    case MBError::SUCCESS: return "OK";
    case MBError::NOT_EXIST: return "NOT_EXIST";
    case MBError::IN_DICT: return "IN_DICT";
    case MBError::TRY_AGAIN: return "TRY_AGAIN";
    case MBError::OUT_OF_BOUND: return "OUT_OF_BOUND";
    case MBError::NO_MEMORY: return "NO_MEMORY";
    case MBError::READ_ERROR: return "READ_ERROR";
    }
    i = (i + 1) & 7;
    snprintf(b[i], 16, "err%d", e);
    return b[i];
}
std::string show(const std::string& s); // printable form of a key/value

// Structural audit of a database through its writer handle.
struct Audit {
    struct Obj {
        size_t off;
        int size;
        char kind; // N node, E edge string, D data
    };
    std::vector<Obj> idx, dat, fidx, fdat;
    std::map<std::string, std::string> kv;
    std::map<std::string, uint16_t> bucket;
    int64_t n_nodes = 0, n_edges = 0, estr = 0;
    size_t idx_end = 0, dat_end = 0, idx_start = 0, dat_start = 0;
    uint64_t hash = 0;
    std::string err; // malformed structure
};
bool audit_db(DB& db, Audit& a, bool with_values = true);
}
