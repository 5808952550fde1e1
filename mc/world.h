// A database under test together with its reference map.
#pragma once
#include "mb.h"

namespace mc {
struct Op {
    char t; // A add, O add with overwrite, R remove, X remove all, G collect, g collect(big thresholds)
            // C close+reopen writer, Q reader reopen, L lookups through all handles (cache warming),
            // E evict (n: limit kind), B backup (n: verified later), V verify backups, F verify through a fresh reader in another process
    std::string k, v;
    long n = 0;
};
std::string opstr(const Op& o);

enum Obs {
    O_FIND = 1,
    O_PREFIX = 2,
    O_LB = 4,
    O_ITER = 8,
    O_COUNT = 16,
    O_AUDIT = 32,
    O_TRAIL = 64,  // adversarial bytes after the key
    O_PITER = 128, // prefix iteration
    O_INDB = 256,
    O_ALL = O_FIND | O_PREFIX | O_LB | O_ITER | O_COUNT | O_AUDIT | O_PITER | O_INDB
};

struct World {
    std::string dir;
    Cfg cfg;
    DB* w = nullptr;
    DB* r = nullptr;
    bool want_reader = false;
    Model m;
    std::string kind, err; // first failure
    bool collected = false;  // collections ran
    bool partial_gc = false; // a collection of one kind only ran: pending bytes of the other kind are not in a free list
    bool lossy = false;      // storage of a refused update may be lost until a collection
    int refused = 0;         // updates refused for lack of space (tolerant configurations)
    std::map<std::string, long> stamp; // key -> number of updates before its last update (eviction order)
    bool lagged = false;     // the eviction index was left far behind the bucket in use
    long updates = 0;
    int nevicted = 0;
    int nbackup = 0;
    bool evict(const Op& o);
    bool backup(const Op& o);
    bool check_copy(const std::string& bd, const Model& m);
    bool verify_copies();
    std::vector<std::pair<std::string, Model>> copies; // backups not verified yet
    bool fresh_reader(bool writer_open);
    bool collect(long a, long b, const Op& o);
    bool open(const std::string& d, const Cfg& c, bool reader);
    bool open_writer();
    bool open_reader();
    void close();
    bool fail(const std::string& k, const std::string& e)
    {
        if (kind.empty()) {
            kind = k;
            err = e;
        }
        return false;
    }
    bool apply(const Op& o); // false: result differs from the reference
    // compare everything observable with the reference
    bool check(DB* h, const char* hn, unsigned obs, const std::vector<std::string>& queries,
        const std::vector<std::string>& prefixes);
    bool audit(Audit& a, bool strict);
    ~World() { close(); }
};

// queries derived from a key universe: the keys, their prefixes, extensions and
// bytewise neighbours
std::vector<std::string> make_queries(const std::vector<std::string>& keys, size_t cap = 400);
extern MBData* g_reuse; // lookups leave their results in this object, if set
int find(DB* h, const std::string& key, std::string& v, const std::string& trail = "");
int find_prefix(DB* h, const std::string& key, std::string& v, int& mlen, const std::string& trail = "");
int lower_bound(DB* h, const std::string& key, std::string& v, std::string* bk, const std::string& trail = "");
bool iterate(DB* h, const std::string* prefix, std::vector<std::pair<std::string, std::string>>& out, size_t cap);
bool same_contents(DB* h, const Model& m, std::string& why);
}
