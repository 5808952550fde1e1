#include "mb.h"
namespace mc {
std::string show(const std::string& s)
{
    if (s.size() > 24) {
        // run-length style for long keys/values
        return show(s.substr(0, 10)) + strf("..%zu..", s.size()) + show(s.substr(s.size() - 6)) + strf("#%04x", (unsigned)(hash_bytes(s.data(), s.size()) & 0xffff));
    }
    std::string r;
    for (unsigned char c : s) {
        if (c > 32 && c < 127 && c != '\\' && c != '"')
            r += c;
        else
            r += strf("\\x%02x", c);
    }
    return r;
}

static uint64_t get6(const uint8_t* p)
{
    return Get6BInteger(p);
}

struct Walker {
    DB& db;
    Audit& a;
    Dict* d;
    DictMem* m;
    bool vals;
    bool bad(const std::string& e)
    {
        if (a.err.empty())
            a.err = e;
        return false;
    }
    bool rd(uint8_t* b, int n, size_t off) { return m->ReadData(b, n, off) == n; }
    bool data(size_t off, const std::string& key)
    {
        uint16_t h[2];
        if (off < a.dat_start || off + DATA_HDR_BYTE > a.dat_end)
            return bad(strf("value of %s at %zu outside [%zu,%zu)", show(key).c_str(), off, a.dat_start, a.dat_end));
        if (d->ReadData((uint8_t*)h, DATA_HDR_BYTE, off) != DATA_HDR_BYTE)
            return bad("value header unreadable");
        if (off + DATA_HDR_BYTE + h[0] > a.dat_end)
            return bad(strf("value of %s at %zu len %u beyond end %zu", show(key).c_str(), off, h[0], a.dat_end));
        a.dat.push_back({ off, h[0] + DATA_HDR_BYTE, 'D' });
        std::string v(h[0], 0);
        if (d->ReadData((uint8_t*)v.data(), h[0], off + DATA_HDR_BYTE) != h[0])
            return bad("value unreadable");
        if (!a.kv.emplace(key, v).second)
            return bad("key reachable twice: " + show(key));
        a.bucket[key] = h[1];
        a.hash = hmix(a.hash, off);
        a.hash = hash_bytes(v.data(), v.size(), a.hash);
        return true;
    }
    bool edge(size_t eoff, const uint8_t* e, uint8_t first, std::string key, int depth)
    {
        int len = e[EDGE_LEN_POS];
        if (len == 0)
            return bad(strf("edge of length zero below %s", show(key).c_str()));
        key += (char)first;
        a.hash = hmix(a.hash, eoff * 256 + first);
        a.hash = hmix(a.hash, len);
        if (len > LOCAL_EDGE_LEN) {
            size_t so = Get5BInteger(e);
            if (so < a.idx_start || so + len - 1 > a.idx_end)
                return bad(strf("edge label of %s outside range", show(key).c_str()));
            std::string s(len - 1, 0);
            if (!rd((uint8_t*)s.data(), len - 1, so))
                return bad("edge label unreadable");
            a.idx.push_back({ so, len - 1, 'E' });
            a.estr += len - 1;
            a.hash = hmix(a.hash, so);
            key += s;
        } else
            key.append((const char*)e, len - 1);
        a.hash = hash_bytes(key.data(), key.size(), a.hash);
        a.n_edges++;
        if (key.size() > 256)
            return bad("key longer than 256");
        if (e[EDGE_FLAG_POS] & EDGE_FLAG_DATA_OFF)
            return data(get6(e + EDGE_NODE_LEADING_POS), key);
        return node(get6(e + EDGE_NODE_LEADING_POS), key, depth + 1);
    }
    bool node(size_t off, const std::string& key, int depth)
    {
        if (depth > 300)
            return bad("node depth > 300 (cycle)");
        uint8_t h[NODE_EDGE_KEY_FIRST + 256];
        if (off < a.idx_start || off + NODE_EDGE_KEY_FIRST > a.idx_end || !rd(h, NODE_EDGE_KEY_FIRST, off))
            return bad(strf("node of %s at %zu outside range", show(key).c_str(), off));
        int n = h[1] + 1;
        int size = m->GetNodeSizePtr()[n - 1];
        if (off + size > a.idx_end || !rd(h, NODE_EDGE_KEY_FIRST + n, off))
            return bad("node outside range");
        a.idx.push_back({ off, size, 'N' });
        a.n_nodes++;
        if (a.n_nodes > 2000000)
            return bad("too many nodes (cycle)");
        a.hash = hmix(a.hash, off * 512 + n);
        if (h[0] & FLAG_NODE_MATCH) {
            if (!data(get6(h + 2), key))
                return false;
        }
        std::set<uint8_t> seen;
        for (int i = 0; i < n; i++) {
            uint8_t e[EDGE_SIZE];
            size_t eo = off + NODE_EDGE_KEY_FIRST + n + (size_t)i * EDGE_SIZE;
            if (!rd(e, EDGE_SIZE, eo))
                return bad("edge unreadable");
            if (!seen.insert(h[NODE_EDGE_KEY_FIRST + i]).second)
                return bad(strf("two edges with the same first byte below %s", show(key).c_str()));
            if (!edge(eo, e, h[NODE_EDGE_KEY_FIRST + i], key, depth))
                return false;
        }
        return true;
    }
    bool root()
    {
        size_t off = m->GetRootOffset();
        int n = 256;
        a.idx.push_back({ off, m->GetNodeSizePtr()[n - 1], 'N' });
        a.n_nodes++;
        for (int i = 0; i < n; i++) {
            uint8_t e[EDGE_SIZE];
            size_t eo = off + NODE_EDGE_KEY_FIRST + n + (size_t)i * EDGE_SIZE;
            if (!rd(e, EDGE_SIZE, eo))
                return bad("root edge unreadable");
            if (e[EDGE_LEN_POS] == 0)
                continue;
            if (!edge(eo, e, (uint8_t)i, "", 0))
                return false;
        }
        return true;
    }
};

static void free_objs(FreeList* f, std::vector<Audit::Obj>& v, uint64_t& h)
{
    if (!f)
        return;
    for (size_t i = 0; i < f->max_num_buffer; i++) {
        MBlsq* q = f->buffer_free_list[i];
        if (!q || q->Count() == 0)
            continue;
        size_t sz = f->GetBufferSizeByIndex(i);
        for (const LSQ_Node* n = q->head; n; n = n->next) {
            size_t off = (size_t)n->data.value;
            v.push_back({ off, (int)sz, 'F' });
            h = hmix(h, off * 65536 + sz);
        }
    }
}

bool audit_db(DB& db, Audit& a, bool vals)
{
    Dict* d = db.dict;
    DictMem* m = d->GetMM();
    IndexHeader* hd = d->GetHeaderPtr();
    Walker w { db, a, d, m, vals };
    a.idx_start = 0;
    a.dat_start = d->GetStartDataOffset();
    a.idx_end = hd->m_index_offset;
    a.dat_end = hd->m_data_offset;
    if (db.options & CONSTS::OPTION_JEMALLOC) { // offsets come from the allocator
        a.idx_end = (size_t)hd->index_block_size * 64;
        a.dat_end = (size_t)hd->data_block_size * 64;
        a.dat_start = 0;
    }
    a.hash = 7;
    bool ok = w.root();
    if (!(db.options & CONSTS::OPTION_JEMALLOC)) {
        free_objs(m->GetFreeList(), a.fidx, a.hash);
        free_objs(d->GetFreeList(), a.fdat, a.hash);
    }
    a.hash = hmix(a.hash, hd->m_index_offset);
    a.hash = hmix(a.hash, hd->m_data_offset);
    a.hash = hmix(a.hash, hd->count);
    a.hash = hmix(a.hash, hd->pending_data_buff_size);
    a.hash = hmix(a.hash, hd->pending_index_buff_size);
    a.hash = hmix(a.hash, hd->n_states);
    a.hash = hmix(a.hash, hd->n_edges);
    a.hash = hmix(a.hash, hd->edge_str_size);
    return ok;
}
}
