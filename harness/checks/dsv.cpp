/* C08: DSV import.  Enumerates all files over small alphabets (bytes and tokens) for every column type, column count and
 * configuration, imports each with the real reader, reads the table back and compares with an independent reference parser
 * that works on the whole text at once. */
#include "common/refquery.hpp"
#include "common/mc.hpp"
#include "common/heapguard.hpp"
#include "backend/Interpreter.hpp"
#include "backend/StackMachine.hpp"
#include <mutable/io/Reader.hpp>
#include <fstream>
#include <unistd.h>
using namespace ref; using namespace sqlkit;
using u64 = uint64_t;
static Engine &E_() { static Engine e; return e; }
using Cfg = m::DSVReader::Config;

/*----- reference ----------------------------------------------------------------------------------------------------*/
struct ColD { std::string name; Ty ty; bool not_null = false; };

static bool leap(int64_t y) { return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0; }

/** The value of a field that is no string; `ok` tells whether the field is well-formed. */
static V field_value(const std::string &f, const Ty &t, char quote, bool &ok)
{
    ok = true;
    auto bad = [&] { ok = false; return V::N(); };
    size_t p = 0;
    auto digits = [&](size_t n, int64_t &out) { out = 0; for (size_t i = 0; i != n; ++i, ++p) { if (p >= f.size() or f[p] < '0' or f[p] > '9') return false; out = out * 10 + (f[p] - '0'); } return true; };
    auto ch = [&](char c) { if (p < f.size() and f[p] == c) { ++p; return true; } return false; };
    switch (t.k) {
        case BOOL: return f == "TRUE" ? V::B(true) : f == "FALSE" ? V::B(false) : bad();
        case INT: case DEC: {
            bool neg = ch('-'); if (not neg) ch('+');
            __int128 x = 0; unsigned n = 0; bool big = false;
            auto add = [&](char c) { x = x * 10 + (c - '0'); if (x > (__int128(1) << 90)) { big = true; x = __int128(1) << 90; } };
            for (; p < f.size() and isdigit(f[p]); ++p, ++n) add(f[p]);
            if (t.k == DEC) {
                int rest = t.scale;
                if (ch('.')) for (; p < f.size() and isdigit(f[p]); ++p, ++n) if (rest > 0) { add(f[p]); --rest; }
                while (rest-- > 0) add('0');
            }
            if (p != f.size() or n == 0) return bad();
            if (neg) x = -x;
            int bits = t.k == INT ? 8 * t.n : t.n <= 2 ? 8 : t.n <= 4 ? 16 : t.n <= 9 ? 32 : 64;
            __int128 lim = __int128(1) << (bits - 1);
            if (big or x >= lim or x < -lim) return bad();
            return V::I(int64_t(x));
        }
        case FLT: case DBL: {
            bool neg = ch('-'); if (not neg) ch('+');
            unsigned n = 0, start = unsigned(p);
            for (; p < f.size() and isdigit(f[p]); ++p) ++n;
            if (ch('.')) for (; p < f.size() and isdigit(f[p]); ++p) ++n;
            if (n == 0) return bad();
            if (ch('e')) { if (not ch('-')) ch('+'); unsigned k = 0; for (; p < f.size() and isdigit(f[p]); ++p) ++k; if (k == 0) return bad(); }
            if (p != f.size()) return bad();
            long double x = strtold(f.c_str() + start, nullptr);
            double d = strtod(f.c_str() + start, nullptr);
            const double top = t.k == FLT ? double(std::numeric_limits<float>::max()) : std::numeric_limits<double>::max();
            if (std::isinf(d) or x > top) d = top;
            return V::D(neg ? -round_to(t, d) : round_to(t, d));
        }
        case DATE: case DT: {
            bool q = ch(quote), bc = ch('-'); int64_t y, mo, da, h = 0, mi = 0, s = 0;
            if (not digits(4, y) or not ch('-') or not digits(2, mo) or not ch('-') or not digits(2, da)) return bad();
            if (t.k == DT and (not ch(' ') or not digits(2, h) or not ch(':') or not digits(2, mi) or not ch(':') or not digits(2, s))) return bad();
            if (q and not ch(quote)) return bad();
            if (bc) y = -y;
            static const int len[] = { 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
            if (y == 0 or mo < 1 or mo > 12 or da < 1 or da > len[mo - 1] or h > 23 or mi > 59 or s > 59) return bad();
            if (t.k == DT and mo == 2 and da == 29 and not leap(y)) return bad();
            return t.k == DATE ? mkdate(y, mo, da) : mkdt(y, mo, da, h, mi, s);
        }
        default: return bad();
    }
}

struct Expect { std::vector<Row> rows; bool errors = false; };

/** Parses the whole text. */
static Expect reference(const std::string &text, const std::vector<ColD> &cols, const Cfg &cfg)
{
    Expect X;
    size_t p = 0; const size_t n = text.size();
    std::vector<int> map; // column of the file -> attribute, or -1
    if (cfg.skip_header or cfg.has_header) {
        auto e = text.find('\n'); std::string line = text.substr(0, e);
        p = e == std::string::npos ? n : e + 1;
        if (cfg.has_header and not cfg.skip_header) {
            size_t q = 0;
            if (not line.empty()) for (;;) {
                auto d = line.find(cfg.delimiter, q); std::string name = line.substr(q, d == std::string::npos ? d : d - q); int a = -1;
                for (size_t i = 0; i != cols.size(); ++i) if (cols[i].name == name) a = int(i);
                map.push_back(a);
                if (d == std::string::npos) break;
                q = d + 1;
            }
        } else for (size_t i = 0; i != cols.size(); ++i) map.push_back(int(i));
    } else for (size_t i = 0; i != cols.size(); ++i) map.push_back(int(i));

    auto at_end = [&] { return p == n or text[p] == '\n' or text[p] == cfg.delimiter; };
    while (p < n and X.rows.size() < cfg.num_rows) {
        Row r(cols.size(), V::N()); bool drop = false;
        for (size_t i = 0; i != map.size(); ++i) {
            if (i) { if (p < n and text[p] == cfg.delimiter) ++p; else { drop = true; break; } }
            const int a = map[i]; const bool str = a < 0 or cols[a].ty.k == STR;
            const size_t start = p;
            if (str and p < n and text[p] == cfg.quote) { // quoted
                std::string v; ++p;
                while (p < n) {
                    if (cfg.escape != cfg.quote and text[p] == cfg.escape) { ++p; if (p < n) v += text[p++]; continue; }
                    if (text[p] == cfg.quote) {
                        ++p;
                        if (cfg.escape == cfg.quote and p < n and text[p] == cfg.quote) { v += text[p++]; continue; }
                        break;
                    }
                    v += text[p++];
                }
                while (not at_end()) ++p;
                if (a >= 0) r[a] = V::S(v.substr(0, cols[a].ty.n));
            } else {
                while (not at_end()) ++p;
                std::string f = text.substr(start, p - start);
                if (a < 0) { }
                else if (f.empty()) r[a] = V::N();
                else if (str) { if (f.find(cfg.quote) != std::string::npos) { X.errors = true; r[a] = V::N(); } else r[a] = V::S(f.substr(0, cols[a].ty.n)); }
                else { bool ok; r[a] = field_value(f, cols[a].ty, cfg.quote, ok); if (not ok) X.errors = true; }
            }
        }
        if (p < n and text[p] != '\n') drop = true;
        while (p < n and text[p] != '\n') ++p;
        if (p < n) ++p;
        if (not drop) for (size_t i = 0; i != cols.size(); ++i) if (cols[i].not_null and r[i].null) drop = true;
        if (drop) X.errors = true; else X.rows.push_back(r);
    }
    return X;
}

/*----- the system ---------------------------------------------------------------------------------------------------*/
struct Sys
{
    std::vector<ColD> cols; std::string layout;
    m::Table *T = nullptr;
    void create(const std::vector<ColD> &c, const char *lay) {
        cols = c; layout = lay;
        auto &C = m::Catalog::Get(); E_().use_fresh_db(); C.default_data_layout(C.pool(lay));
        std::string s = "CREATE TABLE t ("; for (size_t i = 0; i != c.size(); ++i) s += (i ? ", " : "") + c[i].name + " " + c[i].ty.sql() + (c[i].not_null ? " NOT NULL" : ""); s += ");";
        auto r = E_().run(s); if (not r.ok) throw std::runtime_error(s + r.error);
        T = &C.get_database_in_use().get_table(C.pool("t"));
    }
    void clear() { while (T->store().num_rows()) T->store().drop(); }
    /** Returns whether errors were reported. */
    bool import(const std::string &text, const Cfg &cfg) {
        std::ostringstream out, err; m::Diagnostic diag(false, out, err);
        m::DSVReader R(*T, cfg, diag);
        std::istringstream in(text);
        R(in, "file");
        return diag.num_errors() != 0;
    }
    std::vector<std::string> read() {
        std::vector<std::string> rows; const auto n = T->store().num_rows(); if (n == 0) return rows;
        m::Schema S = T->schema(); auto SM = m::Interpreter::compile_load(S, T->store().memory().addr(), T->layout(), S, 0); m::Tuple tup(S);
        std::vector<Ty> tys; for (auto &c : cols) tys.push_back(c.ty);
        for (size_t r = 0; r != n; ++r) {
            m::Tuple *args[] = { &tup }; SM(args);
            Row row;
            for (size_t i = 0; i != cols.size(); ++i) {
                if (tup.is_null(i)) { row.push_back(V::N()); continue; }
                auto v = tup.get(i);
                switch (cols[i].ty.k) {
                    case BOOL: row.push_back(V::B(v.as<bool>())); break;
                    case FLT: row.push_back(V::D(v.as<float>())); break;
                    case DBL: row.push_back(V::D(v.as<double>())); break;
                    case STR: row.push_back(V::S(std::string(v.as<const char*>(), strnlen(v.as<const char*>(), cols[i].ty.n)))); break;
                    default: row.push_back(V::I(v.as<int64_t>()));
                }
            }
            rows.push_back(show_row(row, tys));
        }
        return rows;
    }
};
static std::string vis(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '\n') o += "\\n"; else if (c == '\\') o += "\\\\"; else if (c < 32 or c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += char(c); } return o; }
static std::string cfgs(const Cfg &c) {
    std::string s = std::string("d=") + c.delimiter + " q=" + c.quote + " e=" + c.escape + (c.has_header ? " header" : "") + (c.skip_header ? " skip" : "");
    if (c.num_rows != std::numeric_limits<size_t>::max()) s += " rows=" + std::to_string(c.num_rows); return s;
}
static std::string colss(const std::vector<ColD> &c) { std::string s; for (auto &x : c) s += (s.empty() ? "" : ",") + x.ty.sql() + (x.not_null ? " NOT NULL" : ""); return s; }

int main(int argc, char **argv)
{
    mc::Check C("C08", "model_checking", argc, argv);
    C.rule = "one outcome per distinct table content and error flag that an import produced; every import equals the reference parse of its file";
    const bool TH = C.thorough;
    Cfg rfc = Cfg::CSV(), dfl, pipe; pipe.delimiter = '|'; pipe.quote = '\''; pipe.escape = '^';
    auto with = [](Cfg c, bool has, bool skip, size_t rows = std::numeric_limits<size_t>::max()) { c.has_header = has; c.skip_header = skip; c.num_rows = rows; return c; };

    auto check = [](Sys &S, const std::string &text, const Cfg &cfg, mc::Worker &W, const std::string &what) {
        auto e = reference(text, S.cols, cfg);
        S.clear();
        bool err = S.import(text, cfg); W.transitions();
        auto got = S.read(); W.evals(); W.states();
        std::vector<Ty> tys; for (auto &c : S.cols) tys.push_back(c.ty);
        std::vector<std::string> exp; for (auto &r : e.rows) exp.push_back(show_row(r, tys));
        const std::string key = what + " [" + colss(S.cols) + "] " + cfgs(cfg) + " \"" + vis(text) + "\"";
        if (got != exp) W.fail(key, "imports " + joined(got) + " instead of " + joined(exp));
        else if (err != e.errors) W.fail(key, err ? "reports an error for a well-formed file" : "reports no error for a malformed file");
        W.outcome(joined(got) + (err ? "!" : ""));
    };

    /*----- all texts over an alphabet of tokens, up to a length -----------------------------------------------------------*/
    struct Gram { const char *name; std::vector<ColD> cols; std::vector<Cfg> cfgs; std::vector<std::string> tok; unsigned len; };
    std::vector<Gram> G;
    auto one = [](Ty t) { return std::vector<ColD>{ { "a", t } }; };
    const unsigned X = TH ? 1 : 0;
    G.push_back({ "string", one(ts(3)), { rfc, dfl, pipe }, { "a", ",", "\"", "\n", "\\", "|", "'", "^" }, 5 + X });
    G.push_back({ "rfc string", one(ts(8)), { rfc }, { "a", ",", "\"", "\n" }, 9 + X });
    G.push_back({ "escaped string", one(ts(8, true)), { dfl }, { "a", ",", "\"", "\n", "\\" }, 8 + X });
    G.push_back({ "odd bytes", one(ts(8, true)), { rfc }, { "a", "\xff", "\x80", "\r", "\t", " ", "\n", "\"" }, 5 + X });
    G.push_back({ "two strings", { { "a", ts(4) }, { "b", ts(4, true) } }, { rfc, dfl }, { "a", ",", "\"", "\n", "\\" }, 7 + X });
    G.push_back({ "three columns", { { "a", ti(4) }, { "b", ts(4) }, { "c", tb() } }, { dfl }, { "1", ",", "\"", "\n", "TRUE" }, 8 + X });
    G.push_back({ "bool", one(tb()), { rfc }, { "TRUE", "FALSE", "T", "\"", ",", "\n", " " }, 6 + X });
    for (int b : { 1, 2, 4, 8 }) G.push_back({ "int", one(ti(b)), { rfc }, { "0", "9", "-", "+", ",", "\n", " ", b == 1 ? "128" : b == 2 ? "32768" : b == 4 ? "2147483648" : "9223372036854775808", b == 1 ? "127" : b == 2 ? "32767" : b == 4 ? "2147483647" : "922337203685477580" }, 5 + X });
    for (auto d : { tdec(2, 1), tdec(9, 2), tdec(18, 4), tdec(5, 0), tdec(19, 6) }) G.push_back({ "decimal", one(d), { rfc }, { "0", "7", "-", "+", ".", ",", "\n", "12345", "9223372036854775807" }, 5 + X });
    for (auto d : { tf(), td() }) G.push_back({ "float", one(d), { rfc }, { "0", "7", "-", "+", ".", "e", ",", "\n", "309", "1e38" }, 4 + X });
    G.push_back({ "date", one(tdate()), { rfc, pipe }, { "2000", "-", "1900", "02", "29", "\"", ",", "\n", "x" }, 6 + X });
    G.push_back({ "date2", one(tdate()), { dfl }, { "2024-", "-0044-", "00-", "12-", "30", "31", "0000-", "\"", "\n" }, 5 + X });
    G.push_back({ "datetime", one(tdt()), { rfc }, { "2023-02-", "2024-02-", "28", "29", " ", "23:59:59", "24:00:00", "12:60:00", "1:00:00", "\"", "\n" }, 4 + X });
    G.push_back({ "not null", { { "a", ti(4), true }, { "b", ts(4), true }, { "c", ti(4) } }, { rfc }, { "1", ",", "\"", "\n", "x" }, 7 + X });
    G.push_back({ "int and string", { { "a", ti(4) }, { "b", ts(4) } }, { rfc, dfl }, { "1", "-", "a", ",", "\"", "\n" }, 6 + X });
    G.push_back({ "skipped line", { { "a", ti(4) }, { "b", ts(4) } }, { with(rfc, false, true), with(dfl, true, true) }, { "1", "a", ",", "\"", "\n" }, 7 + X });
    for (auto &g : G) {
        u64 total = 0, p = 1; for (unsigned l = 0; l <= g.len; ++l) { total += p; p *= g.tok.size(); }
        const u64 chunk = 256, nc = (total + chunk - 1) / chunk;
        C.explore(std::string(g.name) + (g.cols.size() == 1 ? " " + g.cols[0].ty.sql() : ""), nc * g.cfgs.size(), [&, total](u64 i, mc::Worker &W) {
            const Cfg &cfg = g.cfgs[i / nc]; u64 lo = (i % nc) * chunk, hi = std::min(total, lo + chunk);
            thread_local Sys S; thread_local const Gram *cur = nullptr;
            if (cur != &g) { S.create(g.cols, "PAX16Tup"); cur = &g; }
            for (u64 k = lo; k != hi; ++k) {
                u64 r = k; unsigned l = 0; u64 c = 1; while (r >= c) { r -= c; c *= g.tok.size(); ++l; }
                std::string text; for (unsigned j = 0; j != l; ++j) { text += g.tok[r % g.tok.size()]; r /= g.tok.size(); }
                W.describe(std::string(g.name) + " :: \"" + vis(text) + "\"");
                check(S, text, cfg, W, g.name);
            }
        });
    }

    /*----- headers: every sequence of names, known and unknown, in every order ---------------------------------------------*/
    {
        const std::vector<ColD> cols{ { "a", ti(4) }, { "bb", ts(4) }, { "c", tb() } };
        std::vector<std::vector<std::string>> heads;
        const std::vector<std::string> names{ "a", "bb", "c", "x", "A", "b", "" };
        std::function<void(std::vector<std::string>)> rec = [&](std::vector<std::string> h) {
            if (not h.empty() and not h.back().empty()) heads.push_back(h);
            if (h.size() == 4) return;
            for (auto &n : names) { if (std::find(h.begin(), h.end(), n) != h.end()) continue; auto k = h; k.push_back(n); rec(k); }
        };
        rec({});
        auto vals = [](const std::string &n) -> std::vector<std::string> {
            if (n == "a") return { "1", "", "z" }; if (n == "bb") return { "v", "", "\"q,\"\"r\n\"" }; if (n == "c") return { "TRUE", "", "1" };
            return { "u", "", "\"s,\"\"\n,t\"" };
        };
        C.explore("headers", heads.size() * 3, [&](u64 i, mc::Worker &W) {
            auto &h = heads[i / 3]; unsigned mode = i % 3; // header, skipped header, header and trailing data
            thread_local Sys S; thread_local bool ready = false; if (not ready) { S.create(cols, "PAX4M"); ready = true; }
            std::string head; for (size_t k = 0; k != h.size(); ++k) head += (k ? "," : "") + h[k];
            u64 n = 1; for (size_t k = 0; k != h.size(); ++k) n *= 3;
            for (u64 v = 0; v != n; ++v) for (unsigned extra = 0; extra != 3; ++extra) {
                u64 r = v; std::string row; for (size_t k = 0; k != h.size(); ++k) { row += (k ? "," : "") + vals(h[k])[r % 3]; r /= 3; }
                if (extra == 1) row += ","; 
                std::string text = head + "\n" + row + (extra == 2 ? "" : "\n" + row + "\n");
                W.describe("headers :: \"" + vis(text) + "\"");
                check(S, text, with(rfc, true, mode == 1, mode == 2 ? 1 : std::numeric_limits<size_t>::max()), W, "header");
                if (mode == 1) check(S, text, with(rfc, false, true), W, "skip");
            }
        });
    }

    /*----- limits, appending to what is stored, every layout ----------------------------------------------------------------*/
    {
        const char *layouts[] = { "PAX4M", "PAX4K", "PAX16Tup", "PAX128Tup", "Row" };
        const std::vector<ColD> cols{ { "a", ti(4) }, { "b", ts(5) }, { "c", tb() }, { "d", tdec(9, 2) }, { "e", tdate() }, { "f", td() }, { "g", ts(70, true) } };
        const std::vector<std::string> lines{ "1,x,TRUE,1.5,2000-01-31,2.5,\"a\nb\"", ",,,,,,", "-7,\"\",FALSE,-.25,-0044-03-15,-1e3,ccc", "1,2", "9,y,maybe,0,2001-02-03,0,z", "1,x,TRUE,1.5,2000-01-31,2.5,q,r" };
        C.explore("limits and layouts", 5 * 7 * 6 * 6 * 6, [&](u64 i, mc::Worker &W) {
            mc::Digits d(i); unsigned lay = d.next(5); u64 limit = d.next(7); std::string text;
            for (int k = 0; k != 3; ++k) text += lines[d.next(6)] + "\n";
            thread_local Sys S; thread_local int cur = -1; if (cur != int(lay)) { S.create(cols, layouts[lay]); cur = lay; }
            W.describe("limits :: \"" + vis(text) + "\"");
            check(S, text + text, with(rfc, false, false, limit), W, "limit");
            check(S, (text + text).substr(0, 2 * text.size() - 1), with(rfc, false, true, limit), W, "limit, no final newline");
            /* a second import appends */
            auto e1 = reference(text, cols, rfc), e2 = reference(text, cols, with(rfc, false, true, limit));
            S.clear(); S.import(text, rfc); S.import(text, with(rfc, false, true, limit)); W.transitions(2);
            std::vector<Ty> tys; for (auto &c : cols) tys.push_back(c.ty);
            std::vector<std::string> exp; for (auto &x : { e1, e2 }) for (auto &r : x.rows) exp.push_back(show_row(r, tys));
            auto got = S.read(); W.evals();
            if (got != exp) W.fail(std::string("append ") + layouts[lay] + " \"" + vis(text) + "\" rows=" + std::to_string(limit), "two imports store " + joined(got) + " instead of " + joined(exp));
        });
        C.explore("long files", 5 * 8 * (TH ? 12 : 4), [&](u64 i, mc::Worker &W) {
            mc::Digits d(i); unsigned lay = d.next(5); const u64 sizes[] = { 15, 16, 17, 33, 127, 129, 400, 1500 }; u64 n = sizes[d.next(8)]; unsigned pat = d.next(12);
            std::string text; for (u64 k = 0; k != n; ++k) text += k == n / 2 and pat == 1 ? "broken\n" : std::to_string(k * 37) + ",s" + std::to_string(k % 10) + "," + ((k + pat) % 2 ? "TRUE" : "FALSE") + "," + std::to_string(k) + ".5,20" + std::to_string(10 + k % 80) + "-0" + std::to_string(1 + k % 9) + "-1" + std::to_string(k % 10) + "," + std::to_string(k) + "e-1,\"" + std::string((k * 7 + pat) % 90, char('a' + k % 26)) + "\"\"\"\n";
            thread_local Sys S; thread_local int cur = -1; if (cur != int(lay)) { S.create(cols, layouts[lay]); cur = lay; }
            W.describe("long :: " + std::to_string(n) + " rows, pattern " + std::to_string(pat));
            check(S, text, rfc, W, "long");
        });
        C.explore("statement", 5 * 4 * 4 * 4, [&](u64 i, mc::Worker &W) {
            mc::Digits d(i); unsigned lay = d.next(5), chars = d.next(4), head = d.next(4), rows = d.next(4);
            Cfg cfg; std::string opt; const char *dl[] = { ",", ";", "|", "," }, *qt[] = { "\"", "'", "'", "'" }, *es[] = { "\\", "'", "^", "\\" };
            if (rows) { cfg.num_rows = rows == 1 ? 2 : rows == 2 ? 10 : 1000000000; opt += " ROWS " + std::to_string(cfg.num_rows); }
            if (chars) {
                cfg.delimiter = *dl[chars]; cfg.escape = *es[chars]; cfg.quote = *qt[chars];
                opt += std::string(" DELIMITER \"") + dl[chars] + "\" ESCAPE \"" + (*es[chars] == '\\' ? "\\\\" : es[chars]) + "\" QUOTE \"" + qt[chars] + "\"";
            }
            if (head & 1) { cfg.has_header = true; opt += " HAS HEADER"; }
            if (head & 2) { cfg.skip_header = true; opt += " SKIP HEADER"; }
            std::string D(1, cfg.delimiter), Q(1, cfg.quote), e(1, cfg.escape);
            std::string text = "b" + D + "a" + D + "nix" + D + "c\n";
            if (head != 1) text = (head ? text : "") + "1" + D + "x" + D + "TRUE" + D + "1.5" + D + "2000-01-31" + D + "2.5" + D + Q + "a" + D + e + Q + "\nb" + Q + "\n" + "2" + D + D + "FALSE" + D + D + D + D + "\n3" + D + "z" + D + "TRUE\n4" + D + D + D + D + D + D + "end";
            else text += "x" + D + "1" + D + Q + "\n" + e + Q + D + Q + D + "TRUE\n" + D + D + D + "\ny" + D + "2" + D + D + "FALSE";
            Sys S; S.create(cols, layouts[lay]);
            std::string path = "/tmp/verif_dsv_" + std::to_string(getpid()) + "_" + std::to_string(i) + ".csv";
            { std::ofstream f(path, std::ios::binary); f << text; }
            std::string sql = "IMPORT INTO t DSV \"" + path + "\"" + opt + ";";
            W.describe("statement :: " + opt);
            auto r = E_().run(sql); W.transitions(); ::unlink(path.c_str());
            auto ex = reference(text, cols, cfg); std::vector<Ty> tys; for (auto &c : cols) tys.push_back(c.ty);
            std::vector<std::string> exp; for (auto &x : ex.rows) exp.push_back(show_row(x, tys));
            auto q = E_().run("SELECT * FROM t;"); W.evals(); W.states();
            auto lines = [](const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x + "\n"; return s; }; // strings may contain newlines
            if (lines(q.rows) != lines(exp)) W.fail("statement" + opt + " " + layouts[lay], "SELECT yields " + joined(q.rows) + " instead of " + joined(exp) + " " + r.error);
            if (r.ok == ex.errors) W.fail("statement status" + opt, r.error);
        });
    }
    return C.finish();
}
