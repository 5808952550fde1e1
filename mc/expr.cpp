// Engine U: the command client's expressions. Every expression up to a length
// over an alphabet of characters, and over an alphabet of tokens, is evaluated
// by the real parser and by a reference evaluator of the grammar
//   expr := part*      part := '...' | "..." | 0x digit+ | bin( expr ) | hex( expr )
// hexbin is run on all short strings with every buffer size, and what the
// client displays is fed back to it as a command.
#include "core.h"
#include "rl_stub.h"
#define main mbc_main
#include "mbc.cpp"
#undef main
#undef COMMAND_X
using namespace mc;

enum { C_EVAL, C_VALID, C_MALFORMED, C_HEX, C_CMD, C_CMDOK, C_SHOWN };

// ---- the reference --------------------------------------------------------
static int hexval(unsigned char c)
{
    if (c >= '0' && c <= '9')
        return c - '0';
    if (c >= 'a' && c <= 'f')
        return c - 'a' + 10;
    if (c >= 'A' && c <= 'F')
        return c - 'A' + 10;
    return -1;
}
static bool ref_expr(const std::string& s, size_t& p, std::string& out, bool inner)
{
    out.clear();
    while (p < s.size()) {
        char c = s[p];
        if (c == ')')
            return inner;
        if (c == '\'' || c == '"') {
            size_t e = s.find(c, p + 1);
            if (e == std::string::npos)
                return false;
            out += s.substr(p + 1, e - p - 1);
            p = e + 1;
        } else if (c == '0' && p + 1 < s.size() && (s[p + 1] == 'x' || s[p + 1] == 'X')) {
            size_t e = p + 2;
            while (e < s.size() && hexval(s[e]) >= 0)
                e++;
            if (e == p + 2)
                return false;
            out += s.substr(p, e - p);
            p = e;
        } else if (s.compare(p, 4, "bin(") == 0 || s.compare(p, 4, "hex(") == 0) {
            p += 4;
            std::string in;
            if (!ref_expr(s, p, in, true) || p >= s.size())
                return false;
            p++;
            if (c == 'h') {
                for (unsigned char b : in) {
                    out += "0123456789abcdef"[b >> 4];
                    out += "0123456789abcdef"[b & 15];
                }
            } else {
                if (in.size() >= 2 && in[0] == '0' && (in[1] == 'x' || in[1] == 'X'))
                    in = in.substr(2);
                if (in.size() % 2)
                    return false;
                for (size_t i = 0; i < in.size(); i += 2) {
                    if (hexval(in[i]) < 0 || hexval(in[i + 1]) < 0)
                        return false;
                    out += (char)(hexval(in[i]) << 4 | hexval(in[i + 1]));
                }
            }
        } else
            return false;
    }
    return !inner;
}
static bool reference(const std::string& s, std::string& out)
{
    size_t p = 0;
    return ref_expr(s, p, out, false) && p == s.size();
}
static std::string show(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
        r += c >= 32 && c < 127 ? std::string(1, c) : strf("\\x%02x", c);
    return r;
}

static void check_expr(const std::string& s, CaseOut& out)
{
    std::string want, got;
    bool ok = reference(s, want);
    ExprParser p(s);
    int r = p.Evaluate(got);
    count(C_EVAL);
    count(ok ? C_VALID : C_MALFORMED);
    if (ok && r < 0)
        out.fail("rejected", "well-formed expression rejected: " + show(s));
    else if (!ok && r >= 0)
        out.fail("accepted", "malformed expression accepted: " + show(s) + " gives [" + show(got) + "]");
    else if (ok && got != want)
        out.fail("value", show(s) + " evaluates to [" + show(got) + "] and denotes [" + show(want) + "]");
}

// ---- commands -----------------------------------------------------------
static std::string ref_trim(const std::string& s)
{
    std::string r;
    bool q = false;
    for (char c : s) {
        if (c == '\'' || c == '"') {
            r += '\'';
            q = !q;
        } else if (q || !isspace((unsigned char)c))
            r += c;
    }
    return r;
}
struct Cmd {
    const char* head;
    int id, id_hex; // id_hex: with .hex() behind, -1: not allowed
    bool pair;
};
static const Cmd CMDS[] = {
    { "find(", COMMAND_FIND, COMMAND_FIND_HEX, false }, { "findPrefix(", COMMAND_FIND_LPREFIX, COMMAND_FIND_LPREFIX_HEX, false },
    { "findLower(", COMMAND_FIND_LOWER_BOUND, -1, false }, { "findAll(", COMMAND_FIND_ALL, -1, false },
    { "delete(", COMMAND_DELETE, -1, false }, { "insert(", COMMAND_INSERT, -1, true }, { "replace(", COMMAND_REPLACE, -1, true }
};
static void check_cmd(const Cmd& c, const std::string& args, int tail, CaseOut& out)
{
    std::string line = c.head + args + (tail == 1 ? "" : ")") + (tail == 2 ? ".hex()" : ""), cmd, k, v, wk, wv;
    trim_spaces(line.c_str(), cmd);
    std::string tcmd = cmd, targs = ref_trim(c.head + args).substr(strlen(c.head));
    std::vector<std::string> al;
    int r = parse_command(cmd, k, v, al);
    count(C_CMD);
    bool ok = tail != 1;
    if (c.pair) {
        size_t sep = std::string::npos;
        bool q = false;
        for (size_t i = 0; i < targs.size(); i++) {
            if (targs[i] == '\'')
                q = !q;
            if (targs[i] == ':' && !q) {
                sep = i;
                break;
            }
        }
        ok = ok && sep != std::string::npos && sep > 0 && reference(targs.substr(0, sep), wk) && reference(targs.substr(sep + 1), wv);
    } else
        ok = ok && reference(targs, wk);
    int want = tail == 2 ? c.id_hex : c.id;
    if (tail == 2 && c.id_hex < 0)
        return; // not defined
    if (tail == 1 && !targs.empty() && targs.back() == ')')
        return; // not truncated then
    bool cmd_ok = r == want;
    bool recognised = r != COMMAND_UNKNOWN && r != COMMAND_PARSING_ERROR;
    if (ok)
        count(C_CMDOK);
    if (ok && !cmd_ok)
        out.fail("command", strf("command %s is not recognised (%d, not %d)", show(line).c_str(), r, want));
    else if (!ok && recognised)
        out.fail("command", strf("malformed command %s accepted as %d", show(line).c_str(), r));
    else if (ok && (k != wk || (c.pair && v != wv)))
        out.fail("command", "command " + show(line) + " gives [" + show(k) + "]:[" + show(v) + "] and denotes [" + show(wk) + "]:[" + show(wv) + "]");
}

// what is displayed is the command's argument again
static void check_shown(const std::string& k, const std::string& v, CaseOut& out)
{
    char* buf = nullptr;
    size_t len = 0;
    FILE* old = stdout;
    stdout = open_memstream(&buf, &len);
    display_key_value((const unsigned char*)k.data(), k.size(), (const unsigned char*)v.data(), v.size());
    fclose(stdout);
    stdout = old;
    std::string line(buf, len);
    free(buf);
    while (!line.empty() && line.back() == '\n')
        line.pop_back();
    count(C_SHOWN);
    std::string cmd, gk, gv;
    std::vector<std::string> al;
    trim_spaces(("insert(" + line + ")").c_str(), cmd);
    int r = parse_command(cmd, gk, gv, al);
    if (r != COMMAND_INSERT || gk != k || gv != v)
        out.fail("shown", "[" + show(k) + "]:[" + show(v) + "] is displayed as " + show(line) + " which is read as [" + show(gk) + "]:[" + show(gv) + "] " + strf("(%d)", r));
}

static void check_hexbin(const std::string& b, CaseOut& out)
{
    std::string h;
    for (unsigned char c : b)
        h += strf("%02x", c);
    for (int size = 0; size <= (int)b.size() * 2 + 3; size++) {
        std::vector<char> buf(b.size() * 2 + 40, '#');
        int r = bin_2_hex((const uint8_t*)b.data(), b.size(), buf.data(), size);
        count(C_HEX);
        bool fits = size >= (int)h.size() + 1;
        for (size_t i = size; i < buf.size(); i++)
            if (buf[i] != '#')
                return out.fail("overrun", strf("bin_2_hex of %zu bytes writes behind its buffer of %d bytes", b.size(), size));
        if (fits != (r >= 0) || (fits && (r != (int)h.size() || std::string(buf.data(), r) != h || buf[r] != 0)))
            return out.fail("hex", "bin_2_hex(" + show(b) + strf(", %d) = %d ", size, r) + show(std::string(buf.data(), r < 0 ? 0 : r)));
    }
}
static void check_unhex(const std::string& h, CaseOut& out)
{
    std::string b;
    bool ok = h.size() % 2 == 0;
    for (size_t i = 0; ok && i < h.size(); i += 2) {
        int x = hexval(h[i]), y = hexval(h[i + 1]);
        ok = x >= 0 && y >= 0;
        b += (char)(x << 4 | y);
    }
    for (int size = 0; size <= (int)h.size() / 2 + 2; size++) {
        std::vector<uint8_t> buf(h.size() / 2 + 40, '#');
        int r = hex_2_bin(h.data(), h.size(), buf.data(), size);
        count(C_HEX);
        for (size_t i = size; i < buf.size(); i++)
            if (buf[i] != '#')
                return out.fail("overrun", strf("hex_2_bin of %zu digits writes behind its buffer of %d bytes", h.size(), size));
        bool fits = ok && size >= (int)h.size() / 2;
        if (fits != (r >= 0) || (fits && std::string((char*)buf.data(), r) != b))
            return out.fail("hex", "hex_2_bin(" + show(h) + strf(", %d) = %d", size, r));
    }
}

// ---- enumeration ----------------------------------------------------------
static const std::vector<std::string> CHARS = { "b", "i", "n", "(", ")", "h", "e", "x", "0", "1", "a", "'", "\"" };
static const std::vector<std::string> TOKENS = { "bin(", "hex(", ")", "'", "\"", "''", "'41'", "\"b'\"", "0x", "0x41", "4", "0XaF", "0", "z", " ", "'0x6162'", "'\xff\x01'", "bin", "in(", "hexex(", "'4'", "g" };
static const std::vector<std::string> ARGS = { "'k'", "\"a b\"", " ", ":", "bin(0x00fF)", "hex('z')", "0x1", "'", ")", "(", "':'", "''", ".hex()", "'bin('", "bin(" };
struct Part {
    int kind; // 0 characters, 1 tokens, 2 commands, 3 hexbin, 4 shown, 5 long
    int len;
    uint64_t from, to;
    int x;
};
static std::vector<Part> parts;
static std::string make(const std::vector<std::string>& a, int len, uint64_t n)
{
    std::string s;
    for (int i = 0; i < len; i++, n /= a.size())
        s += a[n % a.size()];
    return s;
}
static uint64_t ipow(uint64_t b, int e)
{
    uint64_t r = 1;
    while (e-- > 0)
        r *= b;
    return r;
}
static void add_parts(int kind, int len, uint64_t total, int x = 0)
{
    const uint64_t step = 50000;
    for (uint64_t i = 0; i < total; i += step)
        parts.push_back({ kind, len, i, std::min(total, i + step), x });
}
static const char* HEXA = "0123456789abcdefABCDEFgG/:@`xX -+\xff\x80";
static void one(const Part& p, uint64_t n, CaseOut& o)
{
    switch (p.kind) {
    case 0: check_expr(make(CHARS, p.len, n), o); break;
    case 1: check_expr(make(TOKENS, p.len, n), o); break;
    case 2:
        for (int tail = 0; tail < 3; tail++)
            check_cmd(CMDS[p.x], make(ARGS, p.len, n), tail, o);
        break;
    case 3:
        if (p.x == 0) {
            std::string b;
            for (int i = 0; i < p.len; i++, n >>= 8)
                b += (char)(n & 255);
            check_hexbin(b, o);
            check_unhex(b, o);
            if (b.size() <= 2) {
                check_expr("hex('" + b + "')", o);
                check_expr("bin(hex('" + b + "'))", o);
                check_expr("bin('" + b + "')", o);
                check_expr("\"" + b + "\"", o);
            }
        } else {
            std::string h;
            size_t A = strlen(HEXA);
            for (int i = 0; i < p.len; i++, n /= A)
                h += HEXA[n % A];
            check_unhex(h, o);
            check_expr("bin(0x" + h + ")", o);
            check_expr("bin('" + h + "')", o);
            check_expr("0x" + h, o);
        }
        break;
    case 4: {
        std::string b;
        for (int i = 0; i < p.len; i++, n >>= 8)
            b += (char)(n & 255);
        if (b.find('\'') != std::string::npos || b.find('"') != std::string::npos)
            return; // the client does not support quotation marks inside of quotations
        if (b.empty() && p.x != 2)
            return;
        switch (p.x) {
        case 0: check_shown(b, "v", o); break;
        case 1: check_shown(b + "k", b, o); break;
        case 2: check_shown("a:b" + b, "x)" + b + ".hex()", o); break;
        case 3: check_shown("\n" + b, b + "\t", o); break;
        }
        break;
    }
    case 5: { // long operands around the parser's buffer of 1 kB
        int m = 1 + (int)n;
        std::string a(m, 'A');
        std::string want, got;
        for (std::string s : { "'" + a + "'", "bin(hex('" + a + "'))", "hex('" + a + "')", "bin('" + std::string(m, '4') + "')" }) {
            bool ok = reference(s, want);
            ExprParser ep(s);
            int r = ep.Evaluate(got);
            count(C_EVAL);
            if (r >= 0 ? !ok || got != want : ok && m <= 256)
                o.fail("long", strf("%.20s... with an operand of %d bytes evaluates wrongly (%d)", s.c_str(), m, r));
        }
        break;
    }
    }
}

int main(int argc, char** argv)
{
    parse_args(argc, argv);
    noise_off();
    std::cout.setstate(std::ios::failbit);
    bool T = opt.tier == "thorough";
    for (int l = 0; l <= (T ? 8 : 6); l++)
        add_parts(0, l, ipow(CHARS.size(), l));
    for (int l = 0; l <= (T ? 6 : 5); l++)
        add_parts(1, l, ipow(TOKENS.size(), l));
    for (size_t c = 0; c < sizeof(CMDS) / sizeof(CMDS[0]); c++)
        for (int l = 0; l <= (T ? 5 : 4); l++)
            add_parts(2, l, ipow(ARGS.size(), l), c);
    for (int l = 0; l <= (T ? 3 : 2); l++)
        add_parts(3, l, ipow(256, l));
    for (int l = 0; l <= 4; l++)
        add_parts(3, l, ipow(strlen(HEXA), l), 1);
    for (int x = 0; x < 4; x++)
        for (int l = 0; l <= 2; l++)
            add_parts(4, l, ipow(256, l), x);
    add_parts(5, 0, 1100);
    auto desc = [&](uint64_t i) { return strf("%d|%d|%llu|%llu|%d", parts[i].kind, parts[i].len, (unsigned long long)parts[i].from, (unsigned long long)parts[i].to, parts[i].x); };
    if (!opt.replay.empty()) {
        Part p;
        unsigned long long a, b;
        if (sscanf(opt.replay.c_str(), "%d|%d|%llu|%llu|%d", &p.kind, &p.len, &a, &b, &p.x) != 5)
            return 2;
        p.from = a;
        p.to = b;
        parts = { p };
    }
    PoolResult r = run_pool("expr", parts.size(), [&](uint64_t i, CaseOut& o) {
        for (uint64_t n = parts[i].from; n < parts[i].to && !o.failed; n++)
            one(parts[i], n, o); }, desc, false, 120);
    for (const char* s : { "bin(0x41)'b'", "hex(bin('00ff'))\"c\"", "bin(hex('x'", "find(bin(0x00fF)'k').hex()", "insert('a':hex('z'))" })
        sample(s);
    Report rep;
    rep.num["evaluations"] = shared->ctr[C_EVAL];
    rep.num["distinct_nontrivial"] = shared->ctr[C_VALID];
    rep.num["malformed_expressions"] = shared->ctr[C_MALFORMED];
    rep.num["hex_conversions"] = shared->ctr[C_HEX];
    rep.num["commands"] = shared->ctr[C_CMD];
    rep.num["wellformed_commands"] = shared->ctr[C_CMDOK];
    rep.num["displayed_entries_read_back"] = shared->ctr[C_SHOWN];
    rep.num["cut"] = r.cut;
    return finish(rep);
}
