/* refquery.hpp -- reference semantics of whole queries: sources, filter, grouping, aggregates, having, projection,
 * ordering, limit.  A query knows its SQL text and evaluates itself naively; results compare modulo the order of ties. */
#pragma once

#include "common/refsql.hpp"
#include "common/sqlkit.hpp"
#include "common/mc.hpp"
#include <map>

namespace ref {

struct Rel { std::vector<std::pair<std::string, Ty>> cols; std::vector<Row> rows; };
struct Src { std::string text, name; Rel rel; };

inline Src src(const Table &T, const std::string &alias = "") {
    return Src{ alias.empty() ? T.name : T.name + " AS " + alias, alias.empty() ? T.name : alias, Rel{ T.cols, T.rows } };
}

struct Agg { std::string fn; E arg; std::string text() const { return fn + "(" + (arg ? arg->text : "") + ")"; } };

inline Ty agg_type(const Agg &a) {
    if (a.fn == "COUNT") return ti(8);
    if (a.fn == "AVG") return td();
    if (a.fn == "SUM") return a.arg->ty.k == INT ? ti(8) : a.arg->ty.floating() ? td() : a.arg->ty;
    return a.arg->ty;
}
inline V agg_eval(const Agg &a, const std::vector<const Row*> &rows) {
    if (a.fn == "COUNT") {
        int64_t n = 0; for (auto r : rows) if (not a.arg or not a.arg->ev(*r).null) ++n;
        return V::I(n);
    }
    const Ty &t = a.arg->ty; bool fl = t.floating();
    V acc = V::N(); int64_t n = 0; double sum = 0; int64_t isum = 0;
    for (auto r : rows) {
        V v = a.arg->ev(*r); if (v.null) continue;
        ++n; sum += fl ? v.d : t.k == DEC ? double(v.i) / pow10i(t.scale) : double(v.i); isum = int64_t(uint64_t(isum) + uint64_t(v.i));
        if (acc.null) acc = v;
        else if (a.fn == "MIN" ? cmp(v, acc, t) < 0 : cmp(v, acc, t) > 0) acc = v;
    }
    if (n == 0) return V::N();
    if (a.fn == "AVG") return V::D(sum / double(n));
    if (a.fn == "SUM") return fl ? V::D(sum) : V::I(isum);
    return acc;
}

struct Q
{
    std::vector<Src> from;
    E where;
    bool grouped = false;
    std::vector<E> keys;
    std::map<unsigned, std::string> key_alias;
    std::vector<Agg> aggs;
    E having;
    struct Sel { E e; std::string alias; };
    std::vector<Sel> sel;
    bool star = false;
    struct Ord { E e; int dir; }; ///< dir: 0 no keyword (ascending), 1 ASC, 2 DESC
    std::vector<Ord> order;
    int64_t limit = -1, offset = 0;
    bool huge = false; ///< write the limit as 2^64-1 instead

    /** Column `c` of source `s`, written qualified. */
    E c(const std::string &s, const std::string &c, bool qualified = true) const {
        unsigned idx = 0;
        for (auto &f : from) for (auto &x : f.rel.cols) { if (f.name == s and x.first == c) return col(qualified ? s + "." + c : c, idx, x.second); ++idx; }
        fprintf(stderr, "refquery: no column %s.%s\n", s.c_str(), c.c_str()); abort();
    }
    /** Grouping key i / aggregate j, to be used in HAVING, SELECT and ORDER BY of a grouped query. */
    std::string alias(unsigned i) const { auto it = key_alias.find(i); return it == key_alias.end() ? "" : it->second; }
    E key(unsigned i) const { return col(alias(i).empty() ? keys[i]->text : alias(i), i, keys[i]->ty); }
    E agg(unsigned j) const { return col(aggs[j].text(), unsigned(keys.size()) + j, agg_type(aggs[j])); }

    std::string sql(bool semicolon = true) const {
        std::string s = "SELECT ";
        if (star) s += "*";
        else for (std::size_t i = 0; i != sel.size(); ++i) s += (i ? ", " : "") + sel[i].e->text + (sel[i].alias.empty() ? "" : " AS " + sel[i].alias);
        s += " FROM "; for (std::size_t i = 0; i != from.size(); ++i) s += (i ? ", " : "") + from[i].text;
        if (where) s += " WHERE " + where->text;
        if (not keys.empty()) { s += " GROUP BY "; for (std::size_t i = 0; i != keys.size(); ++i) s += (i ? ", " : "") + keys[i]->text + (alias(i).empty() ? "" : " AS " + alias(i)); }
        if (having) s += " HAVING " + having->text;
        if (not order.empty()) { s += " ORDER BY "; for (std::size_t i = 0; i != order.size(); ++i) s += (i ? ", " : "") + order[i].e->text + (order[i].dir == 2 ? " DESC" : order[i].dir == 1 ? " ASC" : ""); }
        if (limit >= 0) { s += " LIMIT " + (huge ? std::string("18446744073709551615") : std::to_string(limit)); if (offset) s += " OFFSET " + std::to_string(offset); }
        return s + (semicolon ? ";" : "");
    }

    struct Result { Rel rel; std::vector<unsigned> cls; /**< tie class of every row */ std::vector<Ty> tys; };

    /** The complete result before LIMIT; rows of the same class may come in any order. */
    Result eval() const {
        std::vector<Row> in{ Row{} };
        for (auto &f : from) {
            std::vector<Row> nx;
            for (auto &a : in) for (auto &b : f.rel.rows) { Row r = a; r.insert(r.end(), b.begin(), b.end()); nx.push_back(std::move(r)); }
            in = std::move(nx);
        }
        if (where) { std::vector<Row> nx; for (auto &r : in) { V v = where->ev(r); if (not v.null and v.i) nx.push_back(std::move(r)); } in = std::move(nx); }
        if (grouped) {
            std::vector<std::pair<Row, std::vector<const Row*>>> groups;
            if (keys.empty()) groups.emplace_back();
            for (auto &r : in) {
                Row k; for (auto &e : keys) k.push_back(e->ev(r));
                std::vector<const Row*> *g = nullptr;
                for (auto &x : groups) { bool eq = true; for (std::size_t i = 0; eq and i != keys.size(); ++i) eq = cmp(x.first[i], k[i], keys[i]->ty) == 0; if (eq) { g = &x.second; break; } }
                if (not g) { groups.emplace_back(k, std::vector<const Row*>{}); g = &groups.back().second; }
                g->push_back(&r);
            }
            std::vector<Row> nx;
            for (auto &x : groups) { Row r = x.first; for (auto &a : aggs) r.push_back(agg_eval(a, x.second)); nx.push_back(std::move(r)); }
            in = std::move(nx);
            if (having) { std::vector<Row> n2; for (auto &r : in) { V v = having->ev(r); if (not v.null and v.i) n2.push_back(std::move(r)); } in = std::move(n2); }
        }
        auto ocmp = [&](const Row &a, const Row &b) { for (auto &o : order) { int k = cmp(o.e->ev(a), o.e->ev(b), o.e->ty); if (o.dir == 2) k = -k; if (k) return k; } return 0; };
        if (not order.empty()) std::stable_sort(in.begin(), in.end(), [&](const Row &a, const Row &b) { return ocmp(a, b) < 0; });
        Result R;
        unsigned cls = 0;
        for (std::size_t i = 0; i != in.size(); ++i) { if (i and ocmp(in[i - 1], in[i]) != 0) ++cls; R.cls.push_back(cls); }
        if (star) {
            for (auto &f : from) for (auto &x : f.rel.cols) { R.rel.cols.push_back(x); R.tys.push_back(x.second); }
            R.rel.rows = std::move(in);
        } else {
            for (auto &s : sel) {
                std::string n = s.alias; if (n.empty()) { n = s.e->text; if (auto p = n.rfind('.'); p != std::string::npos and n.find_first_of("(+ ") == std::string::npos) n = n.substr(p + 1); }
                R.rel.cols.emplace_back(n, s.e->ty); R.tys.push_back(s.e->ty);
            }
            for (auto &r : in) { Row o; for (auto &s : sel) o.push_back(s.e->ev(r)); R.rel.rows.push_back(std::move(o)); }
        }
        return R;
    }

    /** Rows in the window of LIMIT/OFFSET (only meaningful as *the* result if no tie class is cut). */
    Rel window(const Result &R, bool *cut = nullptr) const {
        std::size_t n = R.rel.rows.size(), b = limit < 0 ? 0 : std::min<uint64_t>(n, offset), e = limit < 0 ? n : std::min<uint64_t>(n, uint64_t(b) + limit);
        Rel o; o.cols = R.rel.cols; o.rows.assign(R.rel.rows.begin() + b, R.rel.rows.begin() + e);
        if (cut) *cut = (b > 0 and b < n and R.cls[b - 1] == R.cls[b]) or (e > 0 and e < n and R.cls[e - 1] == R.cls[e]);
        return o;
    }
    /** This query as a source of another one. */
    Src nest(const std::string &alias) const { auto R = eval(); return Src{ "(" + sql(false) + ") AS " + alias, alias, window(R) }; }

    /** Inexact results (averages) are compared to 12 significant digits. */
    static std::string canon(const std::string &row) {
        std::string o; std::size_t p = 0;
        for (;;) {
            auto e = row.find(',', p); std::string c = row.substr(p, e == std::string::npos ? e : e - p);
            auto dot = c.find('.');
            if (dot != std::string::npos and c.size() - dot > 10 and c.find_first_not_of("-0123456789.e") == std::string::npos) { char b[40]; snprintf(b, sizeof b, "%.12g", strtod(c.c_str(), nullptr)); c = b; }
            o += c; if (e == std::string::npos) return o;
            o += ','; p = e + 1;
        }
    }
    /** Compares printed rows with the reference; returns a description of the difference or the empty string. */
    std::string compare(std::vector<std::string> got) const {
        for (auto &g : got) g = canon(g);
        auto R = eval(); std::size_t n = R.rel.rows.size(), b = limit < 0 ? 0 : std::min<uint64_t>(n, offset), e = limit < 0 ? n : std::min<uint64_t>(n, uint64_t(b) + uint64_t(limit));
        std::vector<std::string> exp; for (auto &r : R.rel.rows) exp.push_back(canon(show_row(r, R.tys)));
        auto describe = [&](const std::string &why) {
            std::vector<std::string> w(exp.begin() + b, exp.begin() + e);
            if (order.empty()) { auto g = got; std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); return why + ": got [" + joined(g, 12) + "] expected " + (limit >= 0 ? "a selection like [" : "[") + joined(w, 12) + "]"; }
            return why + ": got [" + joined(got, 12) + "] expected (up to ties) [" + joined(w, 12) + "]";
        };
        if (got.size() != e - b) return describe(std::to_string(got.size()) + " rows instead of " + std::to_string(e - b));
        for (std::size_t i = b; i < e; ) {
            std::size_t cb = i; while (cb and R.cls[cb - 1] == R.cls[i]) --cb;
            std::size_t ce = i; while (ce < n and R.cls[ce] == R.cls[i]) ++ce;
            std::size_t we = std::min(ce, e);
            std::vector<std::string> have(got.begin() + (i - b), got.begin() + (we - b)), pool(exp.begin() + cb, exp.begin() + ce);
            std::sort(have.begin(), have.end()); std::sort(pool.begin(), pool.end());
            if (not std::includes(pool.begin(), pool.end(), have.begin(), have.end())) return describe("wrong rows");
            i = we;
        }
        return "";
    }
};

/** Runs the query on the engine and compares. */
inline void check_query(sqlkit::Engine &eng, const Q &q, mc::Worker &W, const std::string &key, const std::string &context) {
    auto s = q.sql();
    W.describe(key + " :: " + s + " on " + context);
    auto r = eng.run(s);
    W.transitions(); W.evals();
    if (not r.ok) { W.fail(key, "rejected: " + s + " " + r.error + " on " + context); return; }
    auto d = q.compare(r.rows);
    if (not d.empty()) W.fail(key, s + " on " + context + " -> " + d);
}

inline void load(sqlkit::Engine &eng, const std::vector<const Table*> &ts, mc::Worker &W) {
    eng.use_fresh_db();
    for (auto t : ts) {
        W.describe("loading " + t->name);
        auto r = eng.run(t->create()); if (not r.ok) W.fail("create", "rejected: " + t->create() + " " + r.error);
        for (auto &s : t->inserts()) { r = eng.run(s); if (not r.ok) W.fail("insert", "rejected: " + s + " " + r.error); }
    }
}

/** The index-th sequence of length <= max over an alphabet of size k, shortest first. */
inline std::vector<unsigned> nth_seq(uint64_t idx, unsigned k) {
    unsigned len = 0; uint64_t cnt = 1;
    while (idx >= cnt) { idx -= cnt; cnt *= k; ++len; }
    std::vector<unsigned> s; for (unsigned i = 0; i != len; ++i) { s.push_back(idx % k); idx /= k; }
    return s;
}
inline uint64_t num_seqs(unsigned k, unsigned max) { uint64_t n = 0, c = 1; for (unsigned l = 0; l <= max; ++l) { n += c; c *= k; } return n; }

}
