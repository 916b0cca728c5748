/* ArrayIndex and RecursiveModelIndex: every small multiset of keys, with every probe, against a sorted sequence; indexes
 * of tables through bulkload() and CREATE INDEX. */
#include "common/mc.hpp"
#include "common/heapguard.hpp"
#include "common/sqlkit.hpp"
#include <mutable/storage/Index.hpp>
#include <mutable/util/ArgParser.hpp>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <unistd.h>

using namespace m; using u64 = uint64_t;
using idx::ArrayIndex; using idx::RecursiveModelIndex;

template<typename K> std::string show(K k) { std::ostringstream o; if constexpr (std::is_same_v<K, const char*>) o << '"' << k << '"'; else if constexpr (std::is_floating_point_v<K>) { o.precision(17); o << k; } else o << int64_t(k); return o.str(); }
template<typename K> bool lt(K a, K b) { if constexpr (std::is_same_v<K, const char*>) return strcmp(a, b) < 0; else return a < b; }
template<typename K> bool eq(K a, K b) { return not lt(a, b) and not lt(b, a); }

/** The memory of the catalog's allocator is a file that forked workers would share: every worker starts a new one. */
static void own_memory() {
    static pid_t owner = 0; if (owner == getpid()) return; owner = getpid();
    auto &a = dynamic_cast<memory::LinearAllocator&>(Catalog::Get().allocator()); a.~LinearAllocator(); new (&a) memory::LinearAllocator();
}
/** Gives access to start over; the memory is what a new index of so many entries has. */
template<typename I> struct Reset : I {
    void reset() { memset((void*) I::begin(), 0, sizeof(typename I::entry_type) * (I::num_entries_ + 2)); I::num_entries_ = 0; I::finalized_ = false; if constexpr (requires { I::models_; }) I::models_.clear(); }
};
template<typename I> Reset<I> & instance() {
    own_memory();
    static auto p = std::make_unique<Reset<I>>(); p->reset(); return *p;
}

/** Compares a finalized index with the entries. */
template<typename I, typename K> std::string compare(I &x, std::vector<std::pair<K, size_t>> E, const std::vector<K> &probes) {
    std::stable_sort(E.begin(), E.end(), [](auto &a, auto &b) { return lt(a.first, b.first); });
    const I &c = x;
    if (not x.finalized()) return "not finalized after finalize()";
    if (x.num_entries() != E.size()) return "has " + std::to_string(x.num_entries()) + " entries instead of " + std::to_string(E.size());
    if (size_t(c.end() - c.begin()) != E.size() or c.cbegin() != c.begin() or c.cend() != c.end()) return "iteration covers " + std::to_string(c.end() - c.begin()) + " entries instead of " + std::to_string(E.size());
    for (size_t i = 0; i < E.size();) { // entries of one key, in any order
        size_t j = i; std::multiset<size_t> a, b;
        for (; j != E.size() and eq(E[i].first, E[j].first); ++j) { a.insert(E[j].second); b.insert(c.begin()[j].second); if (not eq(c.begin()[j].first, E[j].first)) return "entry " + std::to_string(j) + " has key " + show(c.begin()[j].first) + " instead of " + show(E[j].first); }
        if (a != b) return "the entries of key " + show(E[i].first) + " are wrong";
        i = j;
    }
    for (auto p : probes) {
        const auto lo = std::lower_bound(E.begin(), E.end(), p, [](auto &e, K k) { return lt(e.first, k); }) - E.begin(), up = std::upper_bound(E.begin(), E.end(), p, [](K k, auto &e) { return lt(k, e.first); }) - E.begin();
        if (auto r = x.lower_bound(p) - c.begin(); r != lo) return "lower_bound(" + show(p) + ") is " + std::to_string(r) + " instead of " + std::to_string(lo);
        if (auto r = x.upper_bound(p) - c.begin(); r != up) return "upper_bound(" + show(p) + ") is " + std::to_string(r) + " instead of " + std::to_string(up);
    }
    return "";
}
template<typename I, typename K> std::string unfinished(I &x, K p) {
    try { x.lower_bound(p); return "lower_bound() on an index that is not finalized does not throw"; } catch (m::exception&) { }
    try { x.upper_bound(p); return "upper_bound() on an index that is not finalized does not throw"; } catch (m::exception&) { }
    return x.finalized() ? "an index with new entries is finalized" : "";
}
/** One history: keys, finalize, more keys, finalize. */
template<typename I, typename K> void history(const char *name, const std::vector<K> &keys, size_t cut, const std::vector<K> &probes, mc::Worker &W) {
    std::string text; for (size_t i = 0; i != keys.size() and i < 40; ++i) text += (i ? i == cut ? " | " : "," : "") + show(keys[i]);
    if (keys.size() > 40) text += ",... (" + std::to_string(keys.size()) + " keys)";
    text = std::string(name) + " of " + text;
    W.describe("index :: " + text); W.states();
    auto &x = instance<I>(); std::vector<std::pair<K, size_t>> E; std::string e;
    auto put = [&](size_t a, size_t b) { for (; a != b; ++a) { x.add(keys[a], a * 7 + 1); E.push_back({ keys[a], a * 7 + 1 }); } };
    if (cut and cut < keys.size()) {
        put(0, cut); e = unfinished<I, K>(x, probes[0]); if (e.empty()) { x.finalize(); e = compare<I, K>(x, E, probes); W.transitions(); }
        if (e.empty()) { put(cut, keys.size()); }
    } else put(0, keys.size());
    if (e.empty()) e = unfinished<I, K>(x, probes[0]);
    if (e.empty()) { x.finalize(); e = compare<I, K>(x, E, probes); W.transitions(); }
    if (e.empty()) { x.finalize(); e = compare<I, K>(x, E, probes); } // finalizing twice changes nothing
    W.evals(probes.size() * 4); if (keys.size() < 5) W.outcome(text);
    if (not e.empty()) W.fail(std::string(name) + ": " + e.substr(0, e.find('(')) + " of " + std::to_string(keys.size()) + " keys", text + ": " + e);
}
static void ratio(const char *r) { auto &P = Catalog::Get().arg_parser(); const char *argv[] = { "x", "--rmi-model-entry-ratio", r, nullptr }; P(3, argv); }
static const char *RATIOS[] = { "0.01", "0.5", "1", "3" };

template<typename K> std::vector<K> domain(int which) {
    using L = std::numeric_limits<K>;
    if constexpr (std::is_same_v<K, bool>) return { false, true };
    else if constexpr (std::is_same_v<K, const char*>) return { "", "a", "aa", "ab", "b", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaay", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaz", "\x80" };
    else if constexpr (std::is_floating_point_v<K>) { if (which == 0) return { K(-1.5), K(0), K(0.25), K(0.5), K(1), K(100), K(1e6) }; return { L::lowest(), K(-1e-30), -L::denorm_min(), K(0), L::min(), K(1e30), L::max() }; }
    else { if (which == 0) return { K(-3), K(0), K(1), K(2), K(3), K(10), K(100) }; return { L::min(), K(L::min() + 1), K(-1), K(0), K(1), K(L::max() - 1), L::max() }; }
}
template<typename K> std::vector<K> around(const std::vector<K> &d) {
    std::vector<K> p = d;
    if constexpr (std::is_floating_point_v<K>) { for (auto k : d) { p.push_back(std::nextafter(k, -std::numeric_limits<K>::infinity())); p.push_back(std::nextafter(k, std::numeric_limits<K>::infinity())); } }
    else if constexpr (std::is_integral_v<K> and not std::is_same_v<K, bool>) { for (auto k : d) { if (k != std::numeric_limits<K>::min()) p.push_back(k - 1); if (k != std::numeric_limits<K>::max()) p.push_back(k + 1); } }
    else if constexpr (std::is_same_v<K, const char*>) { for (auto k : { "a ", "aaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaax", "~", "\xff" }) p.push_back(k); }
    return p;
}
template<typename I, typename K> void small(mc::Check &C, const char *name, bool rmi, unsigned T) {
    for (int which = 0; which != 2; ++which) {
        static std::map<int, std::vector<K>> dom; dom[which] = domain<K>(which); const auto D = dom[which]; if (which and D.size() < 7) continue;
        const unsigned maxl = D.size() == 2 ? 10 : (rmi ? 5 : 4) + T * 2; const unsigned R = rmi ? 4 : 1;
        for (unsigned l = 0; l <= maxl; ++l) {
            u64 n = 1; for (unsigned k = 0; k != l; ++k) n *= D.size();
            // all sequences up to length 4, longer ones in ascending order only (together with a position to cut at)
            C.explore((std::string(name) + (which ? " extreme" : "") + " of " + std::to_string(l)).c_str(), n * R, [=](u64 i, mc::Worker &W) {
                mc::Digits d(i); const unsigned r = d.next(R); std::vector<K> keys; for (unsigned k = 0; k != l; ++k) keys.push_back(D[d.next(D.size())]);
                if (l > 3) for (unsigned k = 1; k < l; ++k) if (lt(keys[k], keys[k - 1])) return;
                if (rmi) ratio(RATIOS[r]);
                const auto P = around<K>(D);
                history<I, K>(name, keys, 0, P, W);
                for (size_t c = 1; c < l; ++c) { history<I, K>(name, keys, c, P, W); if (l > 3) { auto b = keys; std::rotate(b.begin(), b.begin() + c, b.end()); history<I, K>(name, b, c, P, W); } }
            });
        }
    }
}
/** Longer key sets: families of distributions. */
template<typename K> std::vector<K> family(unsigned f, unsigned n) {
    std::vector<K> k;
    auto put = [&](double v) { using L = std::numeric_limits<K>; const double lo = double(L::lowest()), hi = double(L::max()); k.push_back(v <= lo ? L::lowest() : v >= hi ? L::max() : K(v)); };
    for (unsigned i = 0; i != n; ++i) {
        switch (f) {
            case 0: put(i); break;                                  // dense
            case 1: put(double(i) * i); break;                      // convex
            case 2: put(-double(i) * i * i); break;                 // negative
            case 3: put(ldexp(1, int(i % 60))); break;              // exponential, repeated
            case 4: put(i / 7); break;                              // duplicates
            case 5: put(i < n / 2 ? i : 100000 + i); break;         // a gap
            case 6: put(i == n - 1 ? 1e9 : double(i)); break;       // outlier above
            case 7: put(i == 0 ? -1e9 : double(i)); break;          // outlier below
            case 8: put(42); break;                                 // all equal
            case 9: put(sqrt(double(i)) * 16); break;               // concave
            case 10: put(i % 2 ? 1e15 + i : -1e15 - i); break;      // two ends
            case 11: put((i * 7919u) % (n + 1)); break;             // a permutation
            case 12: put(i < n / 10 ? double(i) : n / 10 + (i - n / 10) * 1000.0); break;
            default: put(i < 9 * n / 10 ? 5 : double(i)); break;    // heavy duplicate, then distinct
        }
    }
    return k;
}
constexpr unsigned NFAM = 14;
template<typename I, typename K> void large(mc::Check &C, const char *name, unsigned limit, unsigned step) {
    C.explore((std::string(name) + " distributions").c_str(), u64(limit / step + 1) * NFAM * 4, [=](u64 i, mc::Worker &W) {
        mc::Digits d(i); const unsigned r = d.next(4), f = d.next(NFAM), n = d.next(limit / step + 1) * step;
        ratio(RATIOS[r]); auto k = family<K>(f, n); auto P = k; if (P.empty()) P.push_back(K(0)); std::sort(P.begin(), P.end()); P.erase(std::unique(P.begin(), P.end()), P.end()); P = around<K>(P); for (double z : { 0.0, 1e12, -1e12 }) if (z >= double(std::numeric_limits<K>::lowest()) and z < double(std::numeric_limits<K>::max())) P.push_back(K(z));
        history<I, K>((std::string(name) + " family " + std::to_string(f) + " ratio " + RATIOS[r]).c_str(), k, n / 3, P, W);
    }, 4);
}

/*----- tables ----------------------------------------------------------------------------------------------------------*/
struct Col { std::string sql; int key; std::vector<std::string> lits; }; // which key type an index needs
static const char *KEYS[] = { "bool", "int8", "int16", "int32", "int64", "float", "double", "string" };
static std::unique_ptr<idx::IndexBase> make(int key, bool rmi) {
    switch (key) {
        case 0: return rmi ? nullptr : std::make_unique<ArrayIndex<bool>>();
#define X(N, T) case N: if (rmi) return std::make_unique<RecursiveModelIndex<T>>(); return std::make_unique<ArrayIndex<T>>();
        X(1, int8_t) X(2, int16_t) X(3, int32_t) X(4, int64_t) X(5, float) X(6, double)
#undef X
        default: return rmi ? nullptr : std::make_unique<ArrayIndex<const char*>>();
    }
}
/** Entries as (key as text, row); ascending. */
template<typename K> static std::vector<std::pair<std::string, size_t>> entries_(const idx::IndexBase &b, std::string &err) {
    auto &x = dynamic_cast<const ArrayIndex<K>&>(b); std::vector<std::pair<std::string, size_t>> v;
    if (not x.finalized()) err = "not finalized";
    for (auto it = x.begin(); it != x.end(); ++it) {
        v.push_back({ show(it->first), it->second }); if (it != x.begin() and lt(it->first, (it - 1)->first)) err = "not sorted";
        const auto lo = x.lower_bound(it->first), up = x.upper_bound(it->first); // every key finds its entries
        if (not (lo <= it and it < up) or not eq(lo->first, it->first) or not eq((up - 1)->first, it->first) or (lo != x.begin() and not lt((lo - 1)->first, it->first)) or (up != x.end() and not lt(it->first, up->first))) err = "bounds of " + show(it->first);
    }
    return v;
}
static std::vector<std::pair<std::string, size_t>> entries(int key, const idx::IndexBase &b, std::string &err) {
    switch (key) { case 0: return entries_<bool>(b, err); case 1: return entries_<int8_t>(b, err); case 2: return entries_<int16_t>(b, err); case 3: return entries_<int32_t>(b, err); case 4: return entries_<int64_t>(b, err); case 5: return entries_<float>(b, err); case 6: return entries_<double>(b, err); default: return entries_<const char*>(b, err); }
}
/** The key an index must have for a literal. */
static std::string key_of(const Col &c, const std::string &lit) {
    switch (c.key) {
        case 0: return lit == "TRUE" ? "1" : "0";
        case 7: return lit;
        case 5: return show(float(atof(lit.c_str())));
        case 6: return show(atof(lit.c_str()));
        default:
            if (lit[0] == 'd') { int y, mo, da, h = 0, mi = 0, s = 0; const int n = sscanf(lit.c_str(), "d'%d-%d-%d %d:%d:%d'", &y, &mo, &da, &h, &mi, &s); if (n < 6) return std::to_string(y << 9 | mo << 5 | da); struct tm t{}; t.tm_year = y - 1900; t.tm_mon = mo - 1; t.tm_mday = da; t.tm_hour = h; t.tm_min = mi; t.tm_sec = s; return std::to_string(timegm(&t)); }
            if (c.sql.rfind("DECIMAL", 0) == 0) return std::to_string(llround(atof(lit.c_str()) * 100));
            return lit;
    }
}
static sqlkit::Engine &E_() { static sqlkit::Engine e; return e; }

int main(int argc, char **argv)
{
    mc::Check C("C22", "model_checking", argc, argv);
    const unsigned T = C.thorough ? 1 : 0;
    C.rule = "one outcome per history (keys added, finalize, more keys, finalize) with all probes at, between and beyond the keys: all sequences up to 3 keys and all ascending ones up to 5 of 7 keys (ordinary and extreme) per key type, for four ratios of models; 14 families of distributions for many sizes; tables of every column type with all sequences of 4 values, with every index, by bulkload() and CREATE INDEX";
#define A(T_, n) small<ArrayIndex<T_>, T_>(C, n, false, T);
    A(bool, "array bool") A(int8_t, "array int8") A(int16_t, "array int16") A(int32_t, "array int32") A(int64_t, "array int64") A(float, "array float") A(double, "array double") A(const char*, "array string")
#define R(T_, n) small<RecursiveModelIndex<T_>, T_>(C, n, true, T);
    R(int8_t, "rmi int8") R(int16_t, "rmi int16") R(int32_t, "rmi int32") R(int64_t, "rmi int64") R(float, "rmi float") R(double, "rmi double")
    const unsigned lim = T ? 1500 : 400, step = T ? 1 : 1;
    large<RecursiveModelIndex<int8_t>, int8_t>(C, "rmi int8", lim, step); large<RecursiveModelIndex<int16_t>, int16_t>(C, "rmi int16", lim, step); large<RecursiveModelIndex<int32_t>, int32_t>(C, "rmi int32", lim, step); large<RecursiveModelIndex<int64_t>, int64_t>(C, "rmi int64", lim, step);
    large<RecursiveModelIndex<float>, float>(C, "rmi float", lim, step); large<RecursiveModelIndex<double>, double>(C, "rmi double", lim, step);

    static const std::vector<Col> COLS = {
        { "BOOL", 0, { "TRUE", "FALSE" } }, { "INT(1)", 1, { "-128", "0", "127" } }, { "INT(2)", 2, { "-32768", "5", "32767" } }, { "INT(4)", 3, { "-2147483648", "7", "2147483647" } }, { "INT(8)", 4, { "-9223372036854775807", "8", "9223372036854775807" } },
        { "FLOAT", 5, { "-0.5", "1.5", "100.25" } }, { "DOUBLE", 6, { "-0.1", "2.5", "1000000.5" } }, { "CHAR(3)", 7, { "\"\"", "\"a\"", "\"abc\"" } }, { "CHAR(80)", 7, { "\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaay\"", "\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaz\"", "\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaax\"" } }, { "VARCHAR(8)", 7, { "\"abcdefgh\"", "\"a\"", "\"abcdefg\"" } },
        { "DATE", 3, { "d'2020-01-31'", "d'1969-12-31'", "d'2020-02-01'" } }, { "DATETIME", 4, { "d'2020-01-31 00:00:01'", "d'1969-12-31 23:59:59'", "d'2020-02-01 12:00:00'" } }, { "DECIMAL(9,2)", 3, { "-1.25", "0.5", "99.75" } }, { "DECIMAL(15,2)", 4, { "-1.25", "0.5", "99.75" } }, { "DECIMAL(4,2)", 2, { "-1.25", "0.5", "99.75" } } };
    auto fill = [&](const Col &c, const std::vector<int> &v, std::vector<std::pair<std::string, size_t>> &want, std::string &text) -> std::string {
        own_memory(); E_().use_fresh_db();
        if (auto r = E_().run("CREATE TABLE T (x INT(2), a " + c.sql + ", y CHAR(2));"); not r.ok) return "harness: " + r.error;
        for (size_t k = 0; k != v.size(); ++k) {
            const std::string l = v[k] == 0 ? "NULL" : c.lits[v[k] - 1]; text += (k ? ", " : "") + l;
            if (auto r = E_().run("INSERT INTO T VALUES (1, " + l + ", \"q\");"); not r.ok) return "harness: " + r.error;
            if (v[k]) want.push_back({ c.key == 7 ? key_of(c, l) : key_of(c, l), k });
        }
        std::stable_sort(want.begin(), want.end());
        return "";
    };
    auto same = [](std::vector<std::pair<std::string, size_t>> a, const std::vector<std::pair<std::string, size_t>> &b) { std::sort(a.begin(), a.end()); return a == b; };
    for (unsigned l = 0; l <= 4 + T; ++l) {
        u64 n = 1; for (unsigned k = 0; k != l; ++k) n *= 4;
        C.explore(("bulkload of " + std::to_string(l)).c_str(), n * COLS.size(), [=](u64 i, mc::Worker &W) {
            mc::Digits d(i); auto &c = COLS[d.next(COLS.size())]; std::vector<int> v; for (unsigned k = 0; k != l; ++k) { v.push_back(int(d.next(4))); if (v.back() > int(c.lits.size())) return; }
            std::vector<std::pair<std::string, size_t>> want; std::string text; auto e = fill(c, v, want, text); const std::string name = c.sql + " with " + text;
            W.describe("bulkload " + c.sql + " :: " + name); W.states();
            if (not e.empty()) return W.fail("bulkload " + c.sql, name + ": " + e);
            auto &Cat = Catalog::Get(); auto &DB = Cat.get_database_in_use(); auto &tab = DB.get_table(Cat.pool("T"));
            Schema S; for (auto &x : tab.schema()) if (x.id.name == Cat.pool("a")) S.add(x);
            for (int rmi = 0; rmi != 2; ++rmi) for (int key = 0; key != 8; ++key) {
                auto x = make(key, rmi); if (not x) continue; W.transitions();
                if (l > 1 and key != c.key) continue;
                bool refused = false; try { x->bulkload(tab, S); } catch (m::invalid_argument&) { refused = true; }
                if (refused != (key != c.key)) return W.fail("bulkload " + c.sql, name + ": an index of " + KEYS[key] + (refused ? " refuses the column" : " accepts the column"));
                if (refused) continue;
                std::string err; auto got = entries(key, *x, err);
                if (not err.empty()) return W.fail("bulkload " + c.sql, name + ": " + err);
                if (not same(got, want)) return W.fail("bulkload " + c.sql, name + ": the entries of the index are not those of the table");
                Schema none; try { x->bulkload(tab, none); return W.fail("bulkload schema", name + ": an empty key schema is accepted"); } catch (m::invalid_argument&) { }
                Schema both = S; both.add(tab.schema()[0]); try { x->bulkload(tab, both); return W.fail("bulkload schema", name + ": a key schema of two entries is accepted"); } catch (m::invalid_argument&) { }
            }
            W.evals(); W.outcome(name);
        }, 8);
        C.explore(("CREATE INDEX of " + std::to_string(l)).c_str(), n * COLS.size() * 3, [=](u64 i, mc::Worker &W) {
            mc::Digits d(i); auto &c = COLS[d.next(COLS.size())]; const char *use[] = { "", "USING array ", "USING rmi " }; const unsigned u = d.next(3); std::vector<int> v; for (unsigned k = 0; k != l; ++k) { v.push_back(int(d.next(4))); if (v.back() > int(c.lits.size())) return; }
            std::vector<std::pair<std::string, size_t>> want; std::string text; auto e = fill(c, v, want, text); const std::string name = std::string("CREATE INDEX i ON T ") + use[u] + "(a); on " + c.sql + " with " + text;
            W.describe("create " + c.sql + " :: " + name); W.states(); W.evals();
            auto bad = [&](const std::string &w) { W.fail(std::string("create index ") + use[u] + c.sql, name + ": " + w); };
            if (not e.empty()) return bad(e);
            auto &Cat = Catalog::Get(); auto &DB = Cat.get_database_in_use();
            const auto method = u == 2 ? idx::IndexMethod::Rmi : idx::IndexMethod::Array, other = u == 2 ? idx::IndexMethod::Array : idx::IndexMethod::Rmi;
            auto r = E_().run(std::string("CREATE INDEX i ON T ") + use[u] + "(a);");
            const bool possible = u != 2 or (c.key != 0 and c.key != 7);
            if (r.ok != possible) return bad(possible ? "fails: " + r.error : "succeeds although the method is not available for this type");
            if (not possible) { if (DB.has_index(Cat.pool("i"))) bad("the index exists although the statement failed"); else if (r.error.empty()) bad("fails without a diagnostic"); return; }
            auto offered = [&](idx::IndexMethod me) { return DB.has_index(Cat.pool("T"), Cat.pool("a"), me); };
            if (not DB.has_index(Cat.pool("i")) or not offered(method) or offered(other) or DB.has_index(Cat.pool("T"), Cat.pool("x"), method)) return bad("the catalog does not offer the index");
            if (&DB.get_index(Cat.pool("i")) != &DB.get_index(Cat.pool("T"), Cat.pool("a"), method)) return bad("two different indexes");
            std::string err; auto got = entries(c.key, DB.get_index(Cat.pool("i")), err);
            if (not err.empty()) return bad(err);
            if (not same(got, want)) return bad("the entries of the index are not those of the table");
            /* a change of the table outdates the index */
            const unsigned how = l % 2; 
            if (how == 0) { if (not E_().run("INSERT INTO T VALUES (2, " + c.lits[0] + ", \"r\");").ok) return bad("harness: insert"); }
            else { char f[] = "/tmp/verif_idx_XXXXXX"; const int fd = mkstemp(f); if (fd < 0) return bad("harness: file"); const char *line = "2,,z\n"; if (write(fd, line, strlen(line))) { } close(fd); auto r2 = E_().run(std::string("IMPORT INTO T DSV \"") + f + "\";"); unlink(f); if (not r2.ok) return bad("harness: import " + r2.error); }
            if (offered(method)) return bad(how ? "the index is still offered to queries after an import" : "the index is still offered to queries after an insertion");
            W.transitions(2);
        }, 8);
    }
    return C.finish();
}
