/* refsql.hpp -- an independent reference evaluator: typed values, three-valued expressions, and SQL text generation.
 *
 * An expression is built together with its SQL text, its static type (by the typing rules of the documentation) and a
 * closure evaluating it on a row.  The builders return null for ill-typed combinations. */
#pragma once

#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iomanip>
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>

namespace ref {

enum K { BOOL, INT, FLT, DBL, DEC, STR, DATE, DT };

struct Ty
{
    K k = INT;
    int n = 4;      ///< bytes of an INT, digits of a DEC, length of a STR
    int scale = 0;
    bool varchar = false;
    bool numeric() const { return k == INT or k == FLT or k == DBL or k == DEC; }
    bool floating() const { return k == FLT or k == DBL; }
    std::string sql() const {
        switch (k) {
            case BOOL: return "BOOL";
            case INT: return "INT(" + std::to_string(n) + ")";
            case FLT: return "FLOAT";
            case DBL: return "DOUBLE";
            case DEC: return "DECIMAL(" + std::to_string(n) + (scale ? "," + std::to_string(scale) : "") + ")";
            case STR: return (varchar ? "VARCHAR(" : "CHAR(") + std::to_string(n) + ")";
            case DATE: return "DATE";
            default: return "DATETIME";
        }
    }
};
inline Ty tb() { return Ty{ BOOL, 1 }; }
inline Ty ti(int n) { return Ty{ INT, n }; }
inline Ty tf() { return Ty{ FLT, 32 }; }
inline Ty td() { return Ty{ DBL, 64 }; }
inline Ty tdec(int p, int s) { return Ty{ DEC, p, s }; }
inline Ty ts(int n, bool var = false) { return Ty{ STR, n, 0, var }; }
inline Ty tdate() { return Ty{ DATE, 0 }; }
inline Ty tdt() { return Ty{ DT, 0 }; }

struct V
{
    bool null = true;
    int64_t i = 0; ///< BOOL, INT, DEC (scaled), DATE (y*512+m*32+d), DT (seconds since epoch)
    double d = 0;  ///< FLT (exactly representable as float), DBL
    std::string s;
    static V N() { return V{}; }
    static V I(int64_t x) { V v; v.null = false; v.i = x; return v; }
    static V D(double x) { V v; v.null = false; v.d = x; return v; }
    static V S(std::string x) { V v; v.null = false; v.s = std::move(x); return v; }
    static V B(bool b) { return I(b); }
};
using Row = std::vector<V>;

inline int64_t pow10i(int e) { int64_t r = 1; while (e-- > 0) r *= 10; return r; }

inline int64_t days_from_civil(int64_t y, unsigned m, unsigned d) {
    y -= m <= 2; const int64_t era = (y >= 0 ? y : y - 399) / 400; const unsigned yoe = unsigned(y - era * 400);
    const unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; const unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + int64_t(doe) - 719468;
}
inline void civil_from_days(int64_t z, int64_t &y, unsigned &m, unsigned &d) {
    z += 719468; const int64_t era = (z >= 0 ? z : z - 146096) / 146097; const unsigned doe = unsigned(z - era * 146097);
    const unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = int64_t(yoe) + era * 400;
    const unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100); const unsigned mp = (5 * doy + 2) / 153;
    d = doy - (153 * mp + 2) / 5 + 1; m = mp + (mp < 10 ? 3 : -9); y += m <= 2;
}
inline V mkdate(int y, int m, int d) { return V::I((int64_t(y) * 512) + m * 32 + d); }
inline V mkdt(int y, int m, int d, int H, int M, int S) { return V::I(days_from_civil(y, m, d) * 86400 + H * 3600 + M * 60 + S); }

inline std::string show_date(int64_t y, unsigned m, unsigned d) {
    char b[64]; snprintf(b, sizeof b, "%s%04lld-%02u-%02u", y < 0 ? "-" : "", (long long)(y < 0 ? -y : y), m, d); return b;
}
inline std::string show_dt(int64_t t) {
    int64_t days = t / 86400, s = t % 86400; if (s < 0) { s += 86400; --days; }
    int64_t y; unsigned m, d; civil_from_days(days, y, m, d);
    char b[32]; snprintf(b, sizeof b, " %02d:%02d:%02d", int(s / 3600), int(s / 60 % 60), int(s % 60)); return show_date(y, m, d) + b;
}
inline std::string show_dec(int64_t v, int scale) {
    std::string s = v < 0 ? "-" : ""; uint64_t a = v < 0 ? -uint64_t(v) : v, p = pow10i(scale);
    s += std::to_string(a / p);
    if (scale) { std::string f = std::to_string(a % p); s += "." + std::string(scale - f.size(), '0') + f; }
    return s;
}

/** The text by which a value appears in a printed result. */
inline std::string show(const V &v, const Ty &t) {
    if (v.null) return "NULL";
    switch (t.k) {
        case BOOL: return v.i ? "TRUE" : "FALSE";
        case INT: return std::to_string(v.i);
        case FLT: { std::ostringstream o; o << std::setprecision(std::numeric_limits<float>::max_digits10 - 1) << float(v.d); return o.str(); }
        case DBL: { std::ostringstream o; o << std::setprecision(std::numeric_limits<double>::max_digits10 - 1) << v.d; return o.str(); }
        case DEC: return show_dec(v.i, t.scale);
        case STR: return '"' + v.s + '"';
        case DATE: return show_date(v.i >> 9, v.i >> 5 & 15, v.i & 31);
        default: return show_dt(v.i);
    }
}
inline std::string quote(const std::string &s) {
    std::string o = "\"";
    for (char c : s) { if (c == '"' or c == '\\') o += '\\'; if (c == '\n') o += "\\n"; else o += c; }
    return o + '"';
}
/** A literal denoting the value in SQL text. */
inline std::string lit(const V &v, const Ty &t) {
    if (v.null) return "NULL";
    switch (t.k) {
        case FLT: case DBL: { std::ostringstream o; o << std::setprecision(17) << v.d; auto s = o.str(); if (s.find_first_of(".e") == std::string::npos) s += ".0"; return s; }
        case STR: return quote(v.s);
        case DATE: case DT: return "d'" + show(v, t) + "'";
        default: return show(v, t);
    }
}

/** Total order for sorting: NULL first; returns -1/0/1. */
inline int cmp(const V &a, const V &b, const Ty &t) {
    if (a.null or b.null) return int(b.null) - int(a.null);
    if (t.k == STR) { int c = a.s.compare(b.s); return c < 0 ? -1 : c > 0; }
    if (t.floating()) return a.d < b.d ? -1 : a.d > b.d;
    return a.i < b.i ? -1 : a.i > b.i;
}

/*----- typing -------------------------------------------------------------------------------------------------------*/
inline Ty join(const Ty &a, const Ty &b) {
    auto rank = [](const Ty &t) { return t.k == INT ? 0 : t.k == DEC ? 2 : 1; };
    auto bits = [](const Ty &t) { return t.k == INT ? 8 * t.n : t.k == FLT ? 32 : t.k == DBL ? 64 : int(std::ceil(3.321928094887362 * t.n)); };
    int r = std::max(rank(a), rank(b)), p = std::max(bits(a), bits(b)), sc = std::max(a.scale, b.scale);
    if (r == 0) return ti(p / 8);
    if (r == 1) return p == 32 ? tf() : td();
    return tdec(int(p / 3.321928094887362), sc);
}
inline double round_to(const Ty &t, double d) { return t.k == FLT ? double(float(d)) : d; }

/** Set when the exact result of a decimal operation does not fit: such results are outside the reference. */
inline bool overflow = false;
inline int64_t fit(__int128 x) { if (x > INT64_MAX or x < INT64_MIN) overflow = true; return int64_t(x); }

/** Converts to the joined type `to` of an arithmetic operation or comparison. */
inline V conv(const V &v, const Ty &from, const Ty &to) {
    if (v.null) return v;
    if (to.k == INT) return v;
    if (to.floating()) return V::D(round_to(to, from.floating() ? v.d : double(v.i)));
    if (from.floating()) {
        if (from.k == FLT) return V::I(int64_t(std::round(float(v.d) * float(pow10i(to.scale)))));
        return V::I(int64_t(std::round(v.d * double(pow10i(to.scale)))));
    }
    return V::I(fit(__int128(v.i) * pow10i(to.scale - from.scale)));
}

inline bool like_ref(const char *s, const char *p) {
    if (not *p) return not *s;
    if (*p == '\\') return *s == p[1] and *s and like_ref(s + 1, p + 2);
    if (*p == '%') { for (const char *q = s; ; ++q) { if (like_ref(q, p + 1)) return true; if (not *q) return false; } }
    if (not *s) return false;
    return (*p == '_' or *p == *s) and like_ref(s + 1, p + 1);
}

struct Node
{
    std::string text;
    Ty ty;
    std::function<V(const Row&)> ev;
    bool constant = false;
};
using E = std::shared_ptr<const Node>;

inline E mk(std::string t, Ty ty, std::function<V(const Row&)> f, bool c = false) { return std::make_shared<const Node>(Node{ std::move(t), ty, std::move(f), c }); }
inline E col(std::string name, unsigned idx, Ty ty) { return mk(std::move(name), ty, [idx](const Row &r) { return r[idx]; }); }
inline E cst(V v, Ty ty) {
    std::string t = lit(v, ty); if (t[0] == '-') t = "(" + t + ")";
    return mk(std::move(t), ty, [v](const Row&) { return v; }, true);
}

inline E isnull(E e) { return mk("ISNULL(" + e->text + ")", tb(), [e](const Row &r) { return V::B(e->ev(r).null); }, e->constant); }
inline E fint(E e) {
    if (e->ty.k == STR or e->ty.k == DEC or e->ty.k == DATE or e->ty.k == DT) return nullptr;
    Ty ty = ti(4); if (e->ty.k == INT) ty = ti(4);
    Ty from = e->ty;
    return mk("INT(" + e->text + ")", ty, [e, from](const Row &r) { V v = e->ev(r); if (v.null or not from.floating()) return v; return V::I(int64_t(v.d)); }, e->constant);
}

inline E un(const std::string &op, E e) {
    if (op == "NOT") {
        if (e->ty.k != BOOL) return nullptr;
        return mk("(NOT " + e->text + ")", tb(), [e](const Row &r) { V v = e->ev(r); if (v.null) return v; return V::B(not v.i); }, e->constant);
    }
    if (op == "~") {
        if (e->ty.k != INT) return nullptr;
        return mk("(~" + e->text + ")", e->ty, [e](const Row &r) { V v = e->ev(r); if (v.null) return v; return V::I(~v.i); }, e->constant);
    }
    if (not e->ty.numeric()) return nullptr;
    bool neg = op == "-";
    return mk("(" + op + e->text + ")", e->ty, [e, neg](const Row &r) { V v = e->ev(r); if (v.null or not neg) return v; v.i = int64_t(-uint64_t(v.i)); v.d = -v.d; return v; }, e->constant);
}

inline E bin(const std::string &op, E a, E b) {
    const std::string text = "(" + a->text + " " + op + " " + b->text + ")";
    const Ty ta = a->ty, tbb = b->ty;
    const bool c = a->constant and b->constant;
    if (op == "AND" or op == "OR") {
        if (ta.k != BOOL or tbb.k != BOOL) return nullptr;
        const bool neutral = op == "AND";
        return mk(text, tb(), [a, b, neutral](const Row &r) {
            V x = a->ev(r), y = b->ev(r);
            if (not x.null and bool(x.i) != neutral) return V::B(not neutral);
            if (not y.null and bool(y.i) != neutral) return V::B(not neutral);
            if (x.null or y.null) return V::N();
            return V::B(neutral);
        }, c);
    }
    if (op == "..") {
        if (ta.k != STR or tbb.k != STR) return nullptr;
        return mk(text, ts(ta.n + tbb.n), [a, b](const Row &r) {
            V x = a->ev(r), y = b->ev(r);
            if (x.null) return y; if (y.null) return x;
            return V::S(x.s + y.s);
        }, c);
    }
    if (op == "LIKE") {
        if (ta.k != STR or tbb.k != STR) return nullptr;
        return mk(text, tb(), [a, b](const Row &r) {
            V x = a->ev(r), y = b->ev(r);
            if (x.null or y.null) return V::N();
            return V::B(like_ref(x.s.c_str(), y.s.c_str()));
        }, c);
    }
    const bool eq = op == "=" or op == "!=", rel = op == "<" or op == "<=" or op == ">" or op == ">=";
    if (eq or rel) {
        Ty t = ta;
        if (ta.numeric()) { if (not tbb.numeric()) return nullptr; t = join(ta, tbb); }
        else { if (ta.k != tbb.k) return nullptr; if (ta.k == BOOL and rel) return nullptr; }
        const int o = op == "=" ? 0 : op == "!=" ? 1 : op == "<" ? 2 : op == "<=" ? 3 : op == ">" ? 4 : 5;
        return mk(text, tb(), [a, b, ta, tbb, t, o](const Row &r) {
            V x = a->ev(r), y = b->ev(r);
            if (x.null or y.null) return V::N();
            if (ta.numeric()) { x = conv(x, ta, t); y = conv(y, tbb, t); }
            int k = cmp(x, y, t);
            switch (o) { case 0: return V::B(k == 0); case 1: return V::B(k != 0); case 2: return V::B(k < 0); case 3: return V::B(k <= 0); case 4: return V::B(k > 0); default: return V::B(k >= 0); }
        }, c);
    }
    if (not ta.numeric() or not tbb.numeric()) return nullptr;
    const Ty t = join(ta, tbb);
    const char o = op[0];
    if (o == '%' and (ta.k != INT or tbb.k != INT)) return nullptr;
    return mk(text, t, [a, b, ta, tbb, t, o](const Row &r) {
        V x = a->ev(r), y = b->ev(r);
        if (x.null or y.null) return V::N();
        if (t.floating()) {
            x = conv(x, ta, t); y = conv(y, tbb, t);
            if (t.k == FLT) { float p = x.d, q = y.d; return V::D(o == '+' ? p + q : o == '-' ? p - q : o == '*' ? p * q : p / q); }
            return V::D(o == '+' ? x.d + y.d : o == '-' ? x.d - y.d : o == '*' ? x.d * y.d : x.d / y.d);
        }
        if (t.k == INT) {
            uint64_t p = x.i, q = y.i;
            switch (o) {
                case '+': return V::I(p + q); case '-': return V::I(p - q); case '*': return V::I(p * q);
                case '/': return V::I(x.i / y.i); default: return V::I(x.i % y.i);
            }
        }
        /* decimals: exact result, truncated towards zero to the scale of the result */
        V cx = conv(x, ta, t), cy = conv(y, tbb, t);
        switch (o) {
            case '+': return V::I(fit(__int128(cx.i) + cy.i)); case '-': return V::I(fit(__int128(cx.i) - cy.i));
            case '*': fit(__int128(cx.i) * cy.i); return V::I(int64_t((__int128(cx.i) * cy.i) / pow10i(t.scale)));
            default: fit(__int128(cx.i) * pow10i(t.scale)); return V::I(int64_t((__int128(cx.i) * pow10i(t.scale)) / cy.i));
        }
    }, c);
}

/*----- tables -------------------------------------------------------------------------------------------------------*/
struct Table
{
    std::string name;
    std::vector<std::pair<std::string, Ty>> cols;
    std::vector<Row> rows;
    E c(unsigned i, const std::string &prefix = "") const { return col(prefix + cols[i].first, i, cols[i].second); }
    E c(const std::string &n) const { for (unsigned i = 0; i != cols.size(); ++i) if (cols[i].first == n) return c(i); abort(); }
    std::string create() const {
        std::string s = "CREATE TABLE " + name + " (";
        for (unsigned i = 0; i != cols.size(); ++i) s += (i ? ", " : "") + cols[i].first + " " + cols[i].second.sql();
        return s + ");";
    }
    std::vector<std::string> inserts(std::size_t chunk = 100) const {
        std::vector<std::string> out; std::string s;
        for (std::size_t r = 0; r != rows.size(); ++r) {
            s += s.empty() ? "INSERT INTO " + name + " VALUES (" : ", (";
            for (unsigned i = 0; i != cols.size(); ++i) s += (i ? ", " : "") + lit(rows[r][i], cols[i].second);
            s += ")";
            if ((r + 1) % chunk == 0) { out.push_back(s + ";"); s.clear(); }
        }
        if (not s.empty()) out.push_back(s + ";");
        return out;
    }
    std::string dump() const {
        std::string s = name + "={";
        for (auto &r : rows) { s += "("; for (unsigned i = 0; i != cols.size(); ++i) s += (i ? "," : "") + show(r[i], cols[i].second); s += ")"; }
        return s + "}";
    }
};

inline std::string show_row(const Row &r, const std::vector<Ty> &t) {
    std::string s; for (std::size_t i = 0; i != t.size(); ++i) { if (i) s += ","; s += show(r[i], t[i]); } return s;
}
inline std::string joined(const std::vector<std::string> &v, std::size_t max = 40) {
    std::string s; std::size_t n = 0; for (auto &x : v) { if (n++ == max) { s += "... (" + std::to_string(v.size()) + " rows)"; break; } s += x; s += " | "; } return s;
}

}
