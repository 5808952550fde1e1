#include "themes.h"
namespace mc {
// ---------------------------------------------------------------- themes ----
Op A(const std::string& k, const std::string& v) { return { 'A', k, v, 0 }; }
Op P(const std::string& k, const std::string& v) { return { 'O', k, v, 0 }; }
Op R(const std::string& k) { return { 'R', k, "", 0 }; }
Op N(char t, long n) { return { t, "", "", n }; }
std::string val(const std::string& k, int gen, int len)
{
    // distinct per key and generation
    std::string v = strf("%d:", gen) + k.substr(0, 40) + strf("/%zu", k.size());
    if (len) {
        std::string x;
        while ((int)x.size() < len)
            x += v + "|";
        v = x.substr(0, len);
        if (len >= 2)
            v[len - 1] = 'Z';
    }
    return v;
}
std::vector<std::string> strings_over(const std::string& al, int maxlen)
{
    std::vector<std::string> r, cur { "" };
    for (int l = 1; l <= maxlen; l++) {
        std::vector<std::string> nx;
        for (auto& s : cur)
            for (char c : al)
                nx.push_back(s + c);
        r.insert(r.end(), nx.begin(), nx.end());
        cur = nx;
    }
    return r;
}
void add_remove(Theme& t, const std::vector<std::string>& ks, bool puts)
{
    for (auto& k : ks)
        t.ops.push_back(A(k, val(k, 1)));
    for (auto& k : ks)
        t.ops.push_back(R(k));
    if (puts)
        for (auto& k : ks)
            t.ops.push_back(P(k, val(k, 2, 40)));
}
void finish_theme(Theme& t, size_t qcap)
{
    std::set<std::string> ks;
    for (auto* v : { &t.init, &t.ops })
        for (auto& o : *v)
            if (!o.k.empty())
                ks.insert(o.k);
    std::vector<std::string> k(ks.begin(), ks.end());
    if (k.size() > 60) { // queries around a spread of the keys
        std::vector<std::string> s;
        for (auto& o : t.ops)
            if (!o.k.empty() && s.size() < 40)
                s.push_back(o.k);
        for (size_t i = 0; i < k.size(); i += 1 + k.size() / 30)
            s.push_back(k[i]);
        t.queries = make_queries(s, 160);
        t.queries.insert(t.queries.end(), k.begin(), k.end());
    } else
        t.queries = make_queries(k, qcap);
    std::sort(t.queries.begin(), t.queries.end());
    t.queries.erase(std::unique(t.queries.begin(), t.queries.end()), t.queries.end());
    std::set<std::string> ps;
    for (auto& s : k)
        for (size_t l = 1; l <= s.size() && ps.size() < 60; l += (l < 8 ? 1 : 40))
            ps.insert(s.substr(0, l));
    ps.insert("zz");
    if (!k.empty())
        ps.insert(k[0] + "q");
    t.prefixes.assign(ps.begin(), ps.end());
}

Cfg cfg_small()
{
    Cfg c;
    c.bsi = 32 * 1024;
    c.bsd = 32 * 1024;
    c.name = "file-32K";
    return c;
}

bool thorough() { return opt.tier == "thorough"; }

Theme th_bin3(bool full, int depth)
{
    Theme t;
    t.name = full ? "bin3-full" : "bin3";
    t.cfg = cfg_small();
    auto ks = strings_over("ab", 3);
    add_remove(t, ks, false);
    if (full)
        for (auto& k : ks)
            t.init.push_back(A(k, val(k, 1)));
    t.ops.push_back(P("ab", val("ab", 2, 33)));
    t.ops.push_back(P("aba", val("aba", 2, 33)));
    t.ops.push_back(N('X'));
    t.depth = depth;
    finish_theme(t);
    return t;
}
// short programs that release and reuse buffers of the same few sizes
Theme th_reuse(int depth)
{
    Theme t;
    t.name = "reuse";
    t.cfg = cfg_small();
    t.merge = false;
    std::string L1 = "kaLONGTAIL1", L2 = "kbLONGTAIL2";
    t.init = { A("ka", "1:ka/aaaaaa"), A("kb", "1:kb/bbbbbb"), A(L1, "1:L1/xxxxxx") };
    t.ops = { P("ka", "2:ka/cccccc"), P("kb", "2:kb/dddddd"), A("kc", "1:kc/eeeeee"), R("kc"), R("ka"), R("kb"), A(L2, "1:L2/yyyyyy"), R(L1), A("kaLONGXAIL1", "1:L3/zzzzzz"), P(L1, "2:L1/wwwwww") };
    t.depth = depth;
    finish_theme(t);
    return t;
}
// chain of prefixes and divergences of one long key, covering local (<=6) and
// external edge labels and every split position
Theme th_tail(int L, int depth, bool full)
{
    Theme t;
    t.name = strf("tail%d%s", L, full ? "-full" : "");
    t.cfg = cfg_small();
    std::string K;
    for (int i = 0; i < L; i++)
        K += (char)('a' + i % 26);
    std::vector<std::string> ks { K };
    for (int i = 1; i < L; i++)
        ks.push_back(K.substr(0, i));
    for (int i = 1; i < L; i++) {
        std::string d = K.substr(0, i) + "Z";
        ks.push_back(d);
        ks.push_back(d + "YXWVUTSR"); // long tail
    }
    add_remove(t, ks, false);
    t.init.push_back(A(K, val(K, 1)));
    if (full)
        for (size_t i = 1; i < ks.size(); i += 2)
            t.init.push_back(A(ks[i], val(ks[i], 1)));
    t.depth = depth;
    finish_theme(t);
    return t;
}
Theme th_fan(int n, int depth, const std::string& stem, bool match)
{
    Theme t;
    t.name = strf("fan%d-%s%s", n, stem.c_str(), match ? "m" : "");
    t.cfg = cfg_small();
    t.cfg.maxi = 256;
    std::vector<std::string> kids;
    // spread over the byte range, in an order that is not sorted
    for (int i = 0; i < 256; i++)
        kids.push_back(stem + (char)(unsigned char)((i * 167 + 3) & 255) + (i % 3 == 0 ? "tail-long" : i % 3 == 1 ? "" : "t"));
    for (int i = 0; i < n; i++)
        t.init.push_back(A(kids[i], val(kids[i], 1, 6)));
    if (match)
        t.init.push_back(A(stem, val(stem, 1)));
    std::set<int> pick { 0, 1, n / 2, n - 1, n, n + 1 };
    for (int i : pick)
        if (i >= 0 && i < 256) {
            t.ops.push_back(A(kids[i], val(kids[i], 2, 9)));
            t.ops.push_back(R(kids[i]));
            if (i < n)
                t.ops.push_back(A(kids[i] + "x", val(kids[i], 3)));
        }
    t.ops.push_back(A(stem, val(stem, 2)));
    t.ops.push_back(R(stem));
    t.depth = depth;
    finish_theme(t, 120);
    return t;
}
// children that come in order, with room for more before, between and after them
Theme th_ordered(int n, int first, bool down, int depth)
{
    Theme t;
    t.name = strf("ordered%d-%02x%s", n, first, down ? "-down" : "");
    t.cfg = cfg_small();
    auto kid = [&](int b) { return "s" + std::string(1, (char)b) + (b % 3 == 0 ? "tail-long" : b % 3 == 1 ? "" : "t"); };
    for (int i = 0; i < n; i++) {
        int b = first + 2 * (down ? n - 1 - i : i);
        t.init.push_back(A(kid(b), val(kid(b), 1, 6)));
    }
    std::set<int> more { 0, 1, first - 1, first + 1, first + 2 * (n / 2) + 1, first + 2 * n - 1, 0x7f, 0x80, 0xfe, 0xff };
    for (int b : more)
        t.ops.push_back(A(kid(b), val(kid(b), 2, 9)));
    for (int b : { first, first + 2 * (n / 2), first + 2 * n - 2, 0x80, 0xff })
        t.ops.push_back(R(kid(b)));
    t.depth = depth;
    finish_theme(t, 120);
    return t;
}
Theme th_bytes(int depth)
{
    Theme t;
    t.name = "bytes";
    t.cfg = cfg_small();
    auto ks = strings_over(std::string("\x00\x01\x7f\x80\xff", 5), 2);
    for (auto& k : ks)
        t.ops.push_back(A(k, std::string("\0v", 2) + k));
    for (size_t i = 0; i < ks.size(); i += 2)
        t.ops.push_back(R(ks[i]));
    t.depth = depth;
    finish_theme(t, 300);
    return t;
}
Theme th_values(int depth, bool big)
{
    Theme t;
    t.name = big ? "values-big" : "values";
    t.cfg = cfg_small();
    if (big)
        t.cfg.bsd = 64 * 1024;
    std::vector<int> lens = big ? std::vector<int> { 1, 4000, 8187, 8188, 8189, 16000, 32766, 32767 } : std::vector<int> { 1, 2, 3, 8, 9, 60, 61, 255, 256 };
    for (const char* k : { "k", "kl" })
        for (int l : lens)
            t.ops.push_back(P(k, val(k, 5, l)));
    t.ops.push_back(R("k"));
    t.ops.push_back(R("kl"));
    t.ops.push_back(A("m", val("m", 1, big ? 8188 : 8)));
    t.ops.push_back(R("m"));
    t.init.push_back(A("keep", val("keep", 1, 17)));
    t.depth = depth;
    finish_theme(t, 60);
    return t;
}
Theme th_long(int depth, bool full)
{
    Theme t;
    t.name = full ? "long-full" : "long";
    t.cfg = cfg_small();
    std::vector<int> lens { 1, 2, 5, 6, 7, 127, 128, 129, 250, 254, 255, 256 };
    std::vector<std::string> ks;
    for (int l : lens)
        ks.push_back(std::string(l, 'q'));
    ks.push_back(std::string(255, 'q') + "r");
    ks.push_back(std::string(254, 'q') + "r");
    ks.push_back(std::string(254, 'q') + "rs");
    ks.push_back(std::string(128, 'q') + std::string(128, 'r'));
    ks.push_back(std::string(1, 'q') + std::string(255, 'r'));
    ks.push_back(std::string(256, 'p'));
    add_remove(t, ks, false);
    if (full)
        for (size_t i = 0; i < ks.size(); i += 2)
            t.init.push_back(A(ks[i], val(ks[i], 1)));
    t.depth = depth;
    finish_theme(t, 200);
    return t;
}
Theme th_limits(int depth)
{
    Theme t;
    t.name = "limits";
    t.cfg = cfg_small();
    t.cfg.bsd = 64 * 1024;
    for (int kl : { 0, 1, 255, 256, 257, 258, 300, 511, 512, 513, 1000 })
        for (int vl : { 0, 1, 32767, 32768, 32769, 65535, 65536, 65537 }) {
            if (kl > 1 && kl != 256 && kl != 257 && vl != 1)
                continue;
            t.ops.push_back(P(std::string(kl, 'a'), std::string(vl, 'v')));
        }
    for (int kl : { 0, 1, 256, 257, 512, 513 })
        t.ops.push_back(R(std::string(kl, 'a')));
    t.depth = depth;
    t.init.push_back(A("b", "x"));
    t.init.push_back(A("aa", "y"));
    finish_theme(t, 100);
    t.queries.push_back(std::string(257, 'a'));
    t.queries.push_back(std::string(300, 'a'));
    t.queries.push_back(std::string(512, 'a'));
    t.queries.push_back(std::string(1000, 'a'));
    t.queries.push_back("");
    return t;
}
// more free buffers of one size than a free list takes
Theme th_lists(int depth)
{
    Theme t;
    t.name = "lists";
    t.cfg = cfg_small();
    t.cfg.full_lists = true;
    auto many = [&](const char* k, long n, int len) { t.ops.push_back(Op { 'U', k, "", n * 100000 + len }); };
    t.init = { Op { 'U', "k#LONGLABEL", "", 300 * 100000 + 20 }, A("other", val("other", 1)) };
    t.ops.push_back(Op { 'J', "k#LONGLABEL", "1", 300 });
    t.ops.push_back(Op { 'J', "k#LONGLABEL", "2", 300 });
    many("k#LONGLABEL", 300, 20);
    many("k#LONGLABEL", 300, 19);
    many("k#LONGLABEL", 300, 21);
    many("j#LONGLABE", 30, 18);
    many("k#LONGLABELMORE", 30, 20);
    t.ops.push_back(R("k007LONGLABEL"));
    t.ops.push_back(A("k007LONGLABXX", val("k007LONGLABXX", 1, 30)));
    t.ops.push_back(N('G'));
    t.ops.push_back(N('X'));
    t.depth = depth;
    finish_theme(t, 40);
    t.queries.push_back("k001LONGLABEL");
    t.queries.push_back("k150LONGLABEL");
    t.queries.push_back("k299LONGLABEL");
    return t;
}
// mixed life cycle: collections, reopen, remove all, overwrite
Theme th_life(const Cfg& c, int depth, const char* nm, bool gc, bool reopen, int vlen)
{
    Theme t;
    t.name = nm;
    t.cfg = c;
    std::vector<std::string> ks { "a", "ab", "abcdefghijk", "abcdefgZ", "b", "bcdefghijklmnop" };
    for (auto& k : ks) {
        t.ops.push_back(A(k, val(k, 1, vlen)));
        t.ops.push_back(R(k));
    }
    t.ops.push_back(P("ab", val("ab", 2, vlen * 2 + 9)));
    t.ops.push_back(P("abcdefghijk", val("abcdefghijk", 2, vlen ? vlen : 7)));
    t.ops.push_back(N('X'));
    if (gc)
        t.ops.push_back(N('G'));
    if (reopen)
        t.ops.push_back(N('C'));
    for (auto& k : ks)
        if (k != "b")
            t.init.push_back(A(k, val(k, 1, vlen)));
    t.init.push_back(R("ab"));
    t.depth = depth;
    t.reader = true;
    finish_theme(t, 120);
    return t;
}

// configurations for the life-cycle themes
Cfg cfg_of(const std::string& n)
{
    Cfg c = cfg_small();
    if (n == "multi" || n == "partial" || n == "unmapped" || n == "memory" || n == "sync" || n == "rsmall") {
        c.bsi = 4096; // the root node fills most of the first block
        c.bsd = 512;
        c.maxi = 64;
        c.maxd = 256;
    }
    if (n == "partial") {
        c.mci = 2 * c.bsi;
        c.mcd = 3 * c.bsd;
    }
    if (n == "unmapped") { // only the first block of each is mapped
        c.mci = 1;
        c.mcd = 1;
    }
    if (n == "memory")
        c.wopt = c.ropt = CONSTS::MEMORY_ONLY_MODE;
    if (n == "sync")
        c.wopt = CONSTS::SYNC_ON_WRITE;
    if (n == "rsmall") {
        c.rmci = 1;
        c.rmcd = 1;
    }
    if (n == "onlyidx") {
        c.bsi = 4096;
        c.mci = 4096 * 2;
    }
    if (n == "onlydat") {
        c.bsd = 512;
        c.maxd = 256;
        c.mcd = 512 * 2;
    }
    if (n == "jemalloc" || n == "keep") {
        c.bsi = c.bsd = 4u << 20;
        c.maxi = c.maxd = 4;
        c.wopt = c.ropt = CONSTS::OPTION_JEMALLOC;
        c.keep = n == "keep";
    }
    if (n == "keep1" || n == "keep2") { // smaller blocks
        c.bsi = c.bsd = n == "keep1" ? 1u << 20 : 2u << 20;
        c.maxi = c.maxd = 8;
        c.wopt = c.ropt = CONSTS::OPTION_JEMALLOC;
        c.keep = true;
    }
    if (n == "b4" || n == "b48") {
        c.bsi = 4u << 20;
        c.bsd = (n == "b4" ? 4u : 8u) << 20;
        c.maxi = c.maxd = 8;
    }
    if (n.compare(0, 2, "pc") == 0) { // the embedded prefix cache: 4 MB has no table for 4 bytes, 16 MB has all
        c.bsd = (n == "pc16" ? 16u : 4u) << 20;
        c.maxd = 4;
        c.wopt = c.ropt = CONSTS::OPTION_PREFIX_CACHE;
        if (n == "pcje") {
            c.bsi = 4u << 20;
            c.maxi = c.maxd = 4;
            c.wopt = c.ropt |= CONSTS::OPTION_JEMALLOC;
        }
    }
    return c;
}
// Keys with common prefixes of 2 to 4 bytes, cut at every depth, with short
// and long labels, and keys that share slots of the cache's tables.
Theme th_pcache(const std::string& cn, int variant, int depth, bool rich)
{
    Theme t;
    t.name = strf("cache-%s-%d%s", cn.c_str(), variant, rich ? "-full" : "");
    t.cfg = cfg_of(cn);
    static const std::vector<std::vector<std::string>> ks = {
        { "ab", "abc", "abcd", "abce", "abd", "a", "abcdefghijkl" },
        { "abcdefghijklmn", "abcdefghijZZ", "abcXYZ", "abQ", "aR", "ab" },
        { "abc", "abcd", "abcdX", "abg", "abXY", "a\xe2" "c", "ab" },
        { "wxyz", "wxyzA", "wxyzBCDEFGHIJKL", "wxyQRSTUVWX", "wxP", "wx" },
        { "abcdLONGTAIL1", "abQ", "xbcdLONGTAIX2", "abcdLONGTAIX2", "abXYZW" }, // the third may get the label buffer of the first
        { "\xff\xff\xff" "A", "\xff\xff\xff", "\xff\xff" "B", std::string("\0\0\0\0A", 5), std::string("\0\0\0", 3), std::string("\0\0\1", 3) }, // the tags' extremes
    };
    auto& k = ks[variant];
    add_remove(t, k, false);
    for (size_t i = 0; i < k.size(); i += 2)
        t.ops.push_back(P(k[i], val(k[i], 2, 40)));
    for (char c : std::string(cn == "pcje" ? "XQ" : "XGnyQ"))
        t.ops.push_back(N(c));
    if (rich)
        for (auto& s : k)
            t.init.push_back(A(s, val(s, 1)));
    else if (variant == 4)
        for (auto& s : { k[0], k[0] + "x" }) // the second one goes into the cache
            t.init.push_back(A(s, val(s, 1)));
    t.reader = true;
    t.depth = depth;
    finish_theme(t, 120);
    return t;
}
// Updates in bursts of one eviction bucket, single updates, removals, and
// collections with limits around the size and the count; start at bucket n.
Theme th_evict(long start, int depth, int variant)
{
    Theme t;
    t.name = strf("evict-%ld-%d", start, variant);
    t.cfg = cfg_small();
    t.cfg.bucket = 8;
    if (start)
        t.init.push_back(Op { 'W', variant >= 3 ? strf("%d", 2 * variant - 4) : "", "", start });
    auto op = [](char c, const char* k, long n = 0) { return Op { c, k, "", n }; };
    const char* groups[] = { "a", "b", "ab-long-stem-", "c", "ca", "d" };
    int ng = variant == 0 ? 0 : variant == 3 ? 3 : 6;
    for (int i = 0; i < ng; i++)
        t.init.push_back(op('M', groups[i]));
    if (variant == 2)
        for (int i = 5; i > 0; i -= 2) // older keys updated again, others removed
            t.init.push_back(op('M', groups[i])), t.init.push_back(op('D', groups[i - 1]));
    if (variant == 5) { // cleared after evictions
        t.init.push_back(op('E', "ch"));
        t.init.push_back(N('X'));
        for (const char* g : { "d", "a", "b" })
            t.init.push_back(op('M', g));
    }
    for (const char* g : { "a", "b", "ab-long-stem-", "c" })
        t.ops.push_back(op('M', g));
    t.ops.push_back(P("a0", "again"));
    t.ops.push_back(P("new", "again"));
    t.ops.push_back(op('D', "a"));
    t.ops.push_back(op('D', "c"));
    for (const char* l : { "c0", "c1", "c8", "cb", "ch", "cs", "s0", "s1", "sb", "sh" })
        t.ops.push_back(op('E', l));
    t.ops.push_back(op('E', "ch", 1));
    t.ops.push_back(op('E', "sh", 1));
    t.ops.push_back(N('X'));
    t.ops.push_back(N('G'));
    t.ops.push_back(N('C'));
    t.merge = false; // the ages are part of the state
    t.depth = depth;
    finish_theme(t, 40);
    return t;
}
// one shape of everything: nested prefixes, long labels, a wide node, values
// of sizes that do not divide the block size
Theme th_mixed(const std::string& cn, int depth, const std::string& extra, int rich)
{
    Theme t;
    t.name = "mixed-" + cn + strf("-%d", rich);
    t.cfg = cfg_of(cn);
    std::vector<std::string> ks { "a", "ab", "abcdefghijkl", "abcdefgZ", "b" };
    for (auto& k : ks) {
        t.ops.push_back(P(k, val(k, 1, 90)));
        t.ops.push_back(R(k));
    }
    t.ops.push_back(P("ab", val("ab", 2, 203)));
    t.ops.push_back(P("f5", val("f5", 2, 31)));
    t.ops.push_back(R("f5"));
    t.ops.push_back(P("bcdefghijklmnopqrstuvw", val("bc", 3, 157)));
    for (char c : extra)
        if (c == '1') {
            t.ops.push_back(N('g', 1));         // index only
            t.ops.push_back(N('g', 1 << 16));   // data only
            t.ops.push_back(N('g', 1000 | (300 << 16)));
        } else
            t.ops.push_back(N(c));
    if (rich) {
        for (auto& k : ks)
            t.init.push_back(A(k, val(k, 1, 90)));
        for (int i = 0; i < (rich > 1 ? 40 : 7); i++) {
            std::string k = strf("f%c", '0' + (i * 7) % 40);
            t.init.push_back(A(k, val(k, 1, 40 + i * 3)));
        }
    }
    if (rich == 2) // leave holes
        for (int i = 0; i < 40; i += 3)
            t.init.push_back(R(strf("f%c", '0' + i)));
    t.depth = depth;
    t.reader = true;
    finish_theme(t, 60);
    return t;
}

// Databases in allocator mode that keep their contents, reopened in every way.
// rich 0: empty, 1: small, 2: data over several blocks, 3: index over several
// blocks, 4: both, with holes, 5: nearly full.
Theme th_keep(const std::string& cn, int blocks, int rich, int depth)
{
    Theme t;
    t.name = strf("%s-%d-%d", cn.c_str(), blocks, rich);
    t.cfg = cfg_of(cn);
    t.cfg.maxi = t.cfg.maxd = blocks;
    long per = t.cfg.bsd / 32700; // large values in a block
    auto op = [](char c, const std::string& k, const std::string& v, long n) { return Op { c, k, v, n }; };
    std::string label = "#" + std::string(230, 'l');
    std::vector<std::string> ks { "a", "ab", "abcdefghijkl", "abcdefgZ" };
    t.ops = { P("a", val("a", 1, 90)), R("a"), P("ab", val("ab", 2, 4000)), P("abcdefghijkl", "v"), P("abcdefgZ", val("abc", 3, 32700)), N('X') };
    for (char c : { 'C', 'c', 'H', 'h' })
        t.ops.push_back(N(c));
    if (blocks > 3 && rich != 5)
        t.ops.push_back(op('k', "ab", "a", 0));
    if (rich == 0 || rich == 1)
        for (char c : { 'Q', 'G' })
            t.ops.push_back(N(c));
    if (rich >= 2) {
        t.ops.push_back(op('U', "d", "", per / 2 * 100000 + 32700));
        t.ops.push_back(op('J', "d", "2", per / 2));
        t.ops.push_back(op('U', "i" + label, "", 400 * 100000 + 8));
    } else {
        t.ops.push_back(op('U', "n", "", 20 * 100000 + 300));
        t.ops.push_back(op('J', "n", "3", 20));
    }
    if (rich)
        for (auto& k : ks)
            t.init.push_back(A(k, val(k, 1, 70)));
    if (rich == 2 || rich == 4)
        t.init.push_back(op('U', "d", "", per * 3 / 2 * 100000 + 32700));
    if (rich == 3 || rich == 4)
        for (char c = 'A'; c < 'A' + 4; c++)
            t.init.push_back(op('U', std::string(1, c) + label, "", 999 * 100000 + 8));
    if (rich == 5) {
        t.init.push_back(op('U', "d", "", per * blocks * 100000 + 32700));
        t.init.push_back(op('J', "d", "7", per * blocks));
    }
    if (rich == 7) { // no space for data
        t.init.push_back(op('U', "d", "", per * blocks * 100000 + 32700));
        t.init.push_back(op('U', "e", "", 60 * 100000 + 1000));
        t.init.push_back(op('U', "g", "", 400 * 100000 + 60));
    }
    if (rich == 8) // the next one needs another block
        t.init = { op('U', "d", "", 51 * 100000 + 16000), A("a", "1") };
    if (rich == 9) // no space for nodes and labels
        for (int i = 0; i < blocks * 5; i++)
            t.init.push_back(op('U', std::string(1, (char)('A' + i)) + label, "", 999 * 100000 + 8));
    if (rich == 6) { // blocks of 1 MB filled to their last byte
        const char* g[] = { "d", "e", "g", "h" };
        const int small[] = { 1, 20, 56, 120 };
        for (int i = 0; i < 4; i++) {
            t.init.push_back(op('U', g[i], "", 51 * 100000 + 16000));
            t.init.push_back(A(strf("s%d", i), val("s", i, small[i])));
        }
        t.ops = { R("s3"), op('J', "d", "1", 51), op('J', "g", "1", 51), op('J', "h", "1", 51), op('U', "g", "", 51 * 100000 + 16000), op('U', "x", "", 60 * 100000 + 32700), N('c'), N('X') };
    }
    if (rich == 4) {
        t.init.push_back(op('J', "d", "2", per * 3 / 2));
        t.init.push_back(op('J', "B" + label, "2", 999));
    }
    t.cfg.tolerant = rich == 5 || rich == 7 || rich == 9 || blocks < 4;
    t.depth = depth;
    t.reader = true;
    finish_theme(t, 60);
    return t;
}

// Backups: values and labels that end blocks exactly, copies left behind while
// the source goes on.
Theme th_backup(const std::string& cn, int depth, int rich)
{
    Theme t;
    t.name = "backup-" + cn + strf("-%d", rich);
    t.cfg = cfg_of(cn);
    std::string x(253, 'x'), y(253, 'y');
    t.ops = { P("a", val("a", 1, 476)), R("a"), P("ab", val("ab", 1, 252)), P("abcdefghijkl", val("abc", 1, 252)), P("a", val("a", 2, 20)),
        P(x, "vx"), P(y, "vy"), R(x), N('B', 1), N('X') };
    if (!(t.cfg.wopt & CONSTS::OPTION_JEMALLOC))
        for (char c : { 'G', 'c' })
            t.ops.push_back(N(c));
    if (rich == 1)
        for (int i = 0; i < 12; i++)
            t.init.push_back(A(strf("f%c%s", '0' + i, i % 3 ? "" : "long-label"), val("f", i, 30 + i * 41)));
    if (rich == 2) // several blocks of 4 MB
        for (int i = 0; i < 300; i++)
            t.init.push_back(A(strf("f%03d", i), val("f", i, 32700)));
    t.post = { N('B'), N('V') };
    t.depth = depth;
    t.reader = true;
    finish_theme(t, 0);
    return t;
}

// Little space: few blocks (mi, md), or all updates of a set of keys that grow
// nodes, labels and data. rich 1: half filled; 2: filled until nothing fits.
Theme th_space(const std::string& cn, int rich, int mi, int md, int depth)
{
    Theme t;
    t.name = strf("space-%s-%d-%d-%d", cn.c_str(), rich, mi, md);
    t.cfg = cfg_of(cn);
    t.cfg.maxi = mi;
    t.cfg.maxd = md;
    bool lim = mi < 10;
    if (lim) {
        t.cfg.tolerant = true;
        if (t.cfg.bsd < 512)
            t.cfg.bsd = 512;
    }
    std::string x(200, 'x');
    t.ops = { P("a", val("a", 1, 120)), P("ab", val("ab", 1, 60)), P("abcdefghijkl", val("abc", 1, 200)), P("abcdefgZ", "z"), A("b", val("b", 1, 250)),
        P(x + "1", "v1"), P(x + "2", "v2"), R("a"), R("ab"), R("abcdefgZ"), R(x + "1"), N('X') };
    if (!lim)
        t.post = { A("further", val("further", 1, 77)), R("further") };
    if (rich)
        for (int i = 0; i < (rich == 1 ? 4 : 40); i++) {
            t.init.push_back(A(strf("f%c%s", '0' + i, i % 3 ? "" : "long-label-of-the-edge"), val("f", i, 30 + i * 41 % 190)));
            t.init.push_back(A(strf("ab%c", 'A' + i), val("ab", i, 10 + i * 7 % 90)));
        }
    t.depth = depth;
    t.reader = true;
    finish_theme(t, 60);
    return t;
}

// Bulk layouts for collections: keys written in a scrambled order, with values
// whose sizes leave gaps at the block boundaries, then garbage; every short
// continuation is collected.
Theme th_order(int variant, const std::string& cn, int depth)
{
    Theme t;
    t.name = strf("order-%s-%d", cn.c_str(), variant);
    t.cfg = cfg_of(cn);
    uint64_t s = 0x9e3779b97f4a7c15ULL * (variant + 1);
    auto rnd = [&](unsigned n) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(s >> 33) % n; };
    std::vector<std::string> ks;
    int nk = 14 + variant % 5;
    for (int i = 0; i < nk; i++) {
        std::string k = strf("%c", 'a' + i);
        if (i % 4 == 1)
            k = ks.back() + "x";
        if (i % 4 == 2)
            k += std::string(8 + rnd(30), 'l');
        if (i % 4 == 3)
            k = ks.back().substr(0, 4) + "Z";
        ks.push_back(k);
    }
    auto size = [&] { return (int)(rnd(3) ? 130 + rnd(120) : 10 + rnd(60)); };
    for (int i = 0; i < 60 + 10 * (variant % 4); i++) {
        std::string k = ks[rnd(nk)];
        if (rnd(3) == 0)
            t.init.push_back(R(k));
        else
            t.init.push_back(P(k, val(k, i, size())));
    }
    for (int i = 0; i < nk; i += 3) {
        t.ops.push_back(R(ks[i]));
        t.ops.push_back(P(ks[(i + 1) % nk], val(ks[(i + 1) % nk], 91, 300)));
        t.ops.push_back(P(ks[(i + 2) % nk], val(ks[(i + 2) % nk], 92, 17)));
    }
    t.post.push_back(N('G'));
    t.merge = false; // the hash is taken after the collection
    t.depth = depth;
    finish_theme(t, 40);
    return t;
}

std::vector<Theme> themes;
std::string desc_seq(int th, const std::vector<uint8_t>& s)
{
    std::string d = themes[th].name + "|";
    for (size_t i = 0; i < s.size(); i++)
        d += (i ? "," : "") + std::to_string((int)s[i]);
    d += "|";
    for (size_t i = 0; i < s.size(); i++)
        d += (i ? " ; " : "") + opstr(themes[th].ops[s[i]]);
    return d;
}

std::function<void(Report&)> report_extra;
int explore(const SeqFn& fn, double hang_s)
{
    Report rep;
    if (!opt.replay.empty()) {
        size_t p1 = opt.replay.find('|'), p2 = opt.replay.find('|', p1 + 1);
        std::string tn = opt.replay.substr(0, p1), s = opt.replay.substr(p1 + 1, p2 - p1 - 1);
        std::vector<uint8_t> seq;
        for (size_t i = 0; i < s.size();) {
            seq.push_back(atoi(s.c_str() + i));
            i = s.find(',', i);
            if (i == std::string::npos)
                break;
            i++;
        }
        for (size_t i = 0; i < themes.size(); i++)
            if (themes[i].name == tn)
                run_pool("replay", 1, [&](uint64_t, CaseOut& o) { fn(i, seq, o); }, [&](uint64_t) { return desc_seq(i, seq); }, false, hang_s);
        return finish(rep);
    }
    std::string only = opt.gets("theme");
    double t0 = now();
    bool cut = false;
    int levels = 0;
    for (size_t ti = 0; ti < themes.size(); ti++) {
        Theme& t = themes[ti];
        if (!only.empty() && t.name.find(only) == std::string::npos)
            continue;
        double tt = now();
        std::vector<std::vector<uint8_t>> frontier { {} };
        std::set<uint64_t> seen;
        uint64_t cases = 0;
        std::vector<uint8_t> last;
        {
            std::vector<uint8_t> e;
            run_pool(t.name, 1, [&](uint64_t, CaseOut& o) { fn(ti, e, o); }, [&](uint64_t) { return desc_seq(ti, e); }, false, hang_s);
        }
        for (int d = 1; d <= t.depth && !frontier.empty(); d++) {
            uint64_t n = frontier.size() * t.ops.size();
            auto mk = [&](uint64_t i) {
                std::vector<uint8_t> s = frontier[i / t.ops.size()];
                s.push_back(i % t.ops.size());
                return s;
            };
            int every = pool_recycle;
            if ((t.cfg.wopt & CONSTS::OPTION_JEMALLOC) && every > 60)
                pool_recycle = 60; // the arenas of closed databases take up address space
            PoolResult r = run_pool(t.name + strf("/d%d", d), n, [&](uint64_t i, CaseOut& o) { fn(ti, mk(i), o); }, [&](uint64_t i) { return desc_seq(ti, mk(i)); }, true, hang_s);
            pool_recycle = every;
            cases += r.done;
            if (n)
                last = mk(n * 2 / 3);
            levels++;
            if (r.cut)
                cut = true;
            if (violations.size() >= 6)
                break;
            std::vector<std::vector<uint8_t>> nx;
            if (d < t.depth)
                for (uint64_t i = 0; i < n; i++)
                    if (r.ran[i] && !r.aux[i] && (!t.merge || seen.insert(r.hash[i]).second))
                        nx.push_back(mk(i));
            frontier.swap(nx);
            if (now() > opt.deadline)
                break;
        }
        if (opt.verbose)
            fprintf(term, "%s: ops %zu depth %d cases %llu %.1fs\n", t.name.c_str(), t.ops.size(), t.depth, (unsigned long long)cases, now() - tt);
        rep.notes.push_back(strf("theme %s: %zu operations, depth %d, %llu sequences executed", t.name.c_str(), t.ops.size(), t.depth, (unsigned long long)cases));
        if (!last.empty())
            sample(desc_seq(ti, last));
        if (violations.size() >= 6)
            break;
        if (now() > opt.deadline) {
            cut = true;
            break;
        }
    }
    rep.num["evaluations"] = shared->ctr[0];
    rep.num["ops_executed"] = shared->ctr[1];
    rep.num["distinct_nontrivial"] = distinct_count();
    rep.num["themes"] = themes.size();
    rep.num["cut"] = cut;
    rep.num["pruned_by_other_property"] = shared->ctr[3];
    rep.num["wall"] = now() - t0;
    if (report_extra)
        report_extra(rep);
    return finish(rep);
}
}
