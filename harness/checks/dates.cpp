/* DATE and DATETIME: every day of a span of years, every month/day combination, every time of day at its limits --
 * accepted exactly when valid, printed as written, compared, sorted and stored in chronological order. */
#include "common/mc.hpp"
#include "common/sqlkit.hpp"
#include "backend/Interpreter.hpp"
#include <mutable/IR/Tuple.hpp>
#include <mutable/util/fn.hpp>
#include <array>
#include <fstream>
#include <regex>
#include <unistd.h>

using namespace m; using u64 = uint64_t;
static sqlkit::Engine &E() { static sqlkit::Engine e; if (not Catalog::Get().has_database_in_use()) e.use_fresh_db(); return e; }

struct DT { int y, mo, d, h = 0, mi = 0, s = 0; auto key() const { return std::array<int, 6>{ y, mo, d, h, mi, s }; } bool operator<(const DT &o) const { return key() < o.key(); } bool operator==(const DT &o) const { return key() == o.key(); } };
static std::string date_text(const DT &t) { char b[64]; snprintf(b, sizeof b, "%s%04d-%02d-%02d", t.y < 0 ? "-" : "", abs(t.y), t.mo, t.d); return b; }
static std::string time_text(const DT &t) { char b[64]; snprintf(b, sizeof b, "%s %02d:%02d:%02d", date_text(t).c_str(), t.h, t.mi, t.s); return b; }
static std::string text(const DT &t, bool time) { return time ? time_text(t) : date_text(t); }
static std::string lit(const DT &t, bool time) { return "d'" + text(t, time) + "'"; }
static bool leap(int y) { return y % 400 == 0 or (y % 4 == 0 and y % 100 != 0); }
/* February has up to 29 days in a DATE of any year; only a DATETIME abides by leap years. */
static bool valid(const DT &t, bool time) {
    if (t.y == 0 or t.mo < 1 or t.mo > 12 or t.d < 1) return false;
    const int days[] = { 31, not time or leap(t.y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    return t.d <= days[t.mo - 1] and (not time or (t.h <= 23 and t.mi <= 59 and t.s <= 59));
}

static std::vector<int> years(bool T) {
    std::vector<int> y;
    if (T) { for (int k = -9999; k <= 9999; k += (k > -420 and k < 420) or (k > 1500 and k < 2500) ? 1 : 37) y.push_back(k); y.push_back(9999); y.push_back(10); }
    else { for (int k = -9999; k <= 9999; k += (k > -110 and k < 110) or (k > 1890 and k < 2110) ? 1 : 101) y.push_back(k); for (int k : { 9999, -400, -401, 400, 1582, 1600, 1752, 1800, 1500, 4000, 9600, 999, 1000 }) y.push_back(k); }
    return y;
}
static int32_t stored(const DT &t) { return int32_t(Interpreter::eval(ast::Constant(ast::Token(Position("x"), Catalog::Get().pool(lit(t, false).c_str()), TK_DATE))).as_i()); }
static int64_t stored_time(const DT &t) { return Interpreter::eval(ast::Constant(ast::Token(Position("x"), Catalog::Get().pool(lit(t, true).c_str()), TK_DATE_TIME))).as_i(); }

int main(int argc, char **argv)
{
    mc::Check C("C24", "model_checking", argc, argv);
    const bool T = C.thorough;
    C.rule = "one outcome per literal (accepted with its printed value, or rejected): every month 0..13 and day 0..32 of every year of the span as DATE and as DATETIME at several times of day; every pair of boundary values with every comparison; every single edit of valid literals; every day of the span through get_tm/put_tm, a table and a DSV file";
    C.assumptions = { "February has up to 29 days in a DATE of any year (an existing test requires d'9999-02-29'); leap years are decided by the written number of the year" };
    static const auto Y = years(T);

    /* one SELECT per (year, month): all days */
    C.explore("literals", Y.size() * 14 * 2, [&](u64 i, mc::Worker &W) {
        mc::Digits d(i); const bool time = d.next(2); const int mo = int(d.next(14)), y = Y[d.next(Y.size())];
        std::vector<DT> good;
        static const int TIMES[][3] = { { 0, 0, 0 }, { 23, 59, 59 }, { 12, 30, 1 } };
        for (int day = 0; day != 33; ++day) {
            DT t{ y, mo, day }; if (time) { auto &x = TIMES[day % 3]; t.h = x[0]; t.mi = x[1]; t.s = x[2]; }
            W.describe("literal :: SELECT " + lit(t, time) + ";"); W.states();
            auto r = E().run("SELECT " + lit(t, time) + ";"); const bool ok = valid(t, time);
            if (r.ok != ok) return W.fail(std::string("validity of a ") + (time ? "datetime" : "date"), lit(t, time) + (ok ? " is rejected: " + r.error : " is accepted"));
            if (not ok and r.error.empty()) return W.fail("no diagnostic", lit(t, time));
            if (ok and (r.rows.size() != 1 or r.rows[0] != text(t, time))) return W.fail("printing", lit(t, time) + " is printed as " + (r.rows.size() ? r.rows[0] : "nothing"));
            if (ok) good.push_back(t);
        }
        W.evals(); W.transitions(33); W.outcome(mc::hash_mix(u64(y + 20000) * 14 + mo, good.size()));
        /* the stored values */
        for (size_t k = 0; k != good.size(); ++k) {
            std::ostringstream o;
            if (time) { o << Value(stored_time(good[k])).as_i(); } else { Value(stored(good[k])).print(o, *Type::Get_Date(Type::TY_Vector)); if (o.str() != date_text(good[k])) return W.fail("printing of a stored date", lit(good[k], false) + " reads back as " + o.str()); }
            if (time) { o.str(""); Value(stored_time(good[k])).print(o, *Type::Get_Datetime(Type::TY_Vector)); if (o.str() != time_text(good[k])) return W.fail("printing of a stored datetime", lit(good[k], true) + " reads back as " + o.str()); }
            if (k and (time ? stored_time(good[k - 1]) >= stored_time(good[k]) : stored(good[k - 1]) >= stored(good[k]))) return W.fail("order of stored values", lit(good[k - 1], time) + " is not stored below " + lit(good[k], time));
        }
    }, 4);
    C.explore("times of day", 7 * 100, [&](u64 i, mc::Worker &W) { // each of hour, minute, second 00..99 with the others at their limits
        mc::Digits d(i); const int v = int(d.next(100)), k = int(d.next(7)); const DT day = k % 2 ? DT{ -1, 12, 31 } : DT{ 1969, 12, 31 };
        for (int which = 0; which != 3; ++which) for (int other : { 0, 1, 59 }) {
            DT t = day; t.h = which == 0 ? v : std::min(other, 23); t.mi = which == 1 ? v : other; t.s = which == 2 ? v : other; if (k > 1) { t.y = Y[(u64(k) * 17 + v) % Y.size()]; if (t.y == 0) t.y = 4; t.mo = 1 + v % 12; t.d = 28; }
            W.describe("literal :: SELECT " + lit(t, true) + ";"); W.states(); W.evals(); auto r = E().run("SELECT " + lit(t, true) + ";");
            if (r.ok != valid(t, true)) return W.fail("validity of a datetime", lit(t, true) + (valid(t, true) ? " is rejected: " + r.error : " is accepted"));
            if (r.ok and (r.rows.size() != 1 or r.rows[0] != time_text(t))) return W.fail("printing", lit(t, true) + " is printed as " + (r.rows.size() ? r.rows[0] : "nothing"));
            W.transitions(); W.outcome(lit(t, true));
        }
    });
    /* seconds around every boundary are consecutive: the time passes without gaps */
    C.explore("consecutive", Y.size() * 12, [&](u64 i, mc::Worker &W) {
        mc::Digits d(i); const int mo = int(d.next(12)) + 1, y = Y[d.next(Y.size())]; if (y == 0) return;
        const int days[] = { 31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; int64_t prev = 0;
        for (int day = 1; day <= days[mo - 1]; ++day) {
            W.describe("consecutive :: " + lit({ y, mo, day }, true)); W.states();
            const int64_t a = stored_time({ y, mo, day, 0, 0, 0 }), b = stored_time({ y, mo, day, 23, 59, 59 }), n = stored_time({ y, mo, day, 12, 0, 0 });
            if (b - a != 86399 or n - a != 43200 or (day > 1 and a != prev + 1)) return W.fail("distance of datetimes", lit({ y, mo, day }, true) + " and its neighbours have a wrong distance");
            prev = b;
        }
        if (mo < 12) { if (stored_time({ y, mo + 1, 1 }) != prev + 1) return W.fail("distance of datetimes", lit({ y, mo + 1, 1 }, true) + " does not follow"); }
        else if (y != 9999 and y != -1 and stored_time({ y + 1, 1, 1 }) != prev + 1) return W.fail("distance of datetimes", lit({ y + 1, 1, 1 }, true) + " does not follow");
        if (mo == 1 and y == 1970 and stored_time({ 1970, 1, 1 }) != 0) return W.fail("distance of datetimes", "the epoch is not 0");
        W.evals(); W.transitions(days[mo - 1]);
    });
    C.explore("get_tm and put_tm", Y.size() * 12, [&](u64 i, mc::Worker &W) {
        mc::Digits d(i); const int mo = int(d.next(12)) + 1, y = Y[d.next(Y.size())];
        for (int day = 1; day <= 31; ++day) for (int k = 0; k != 3; ++k) {
            DT t{ y, mo, day, k * 11, k * 29 + 1, 59 - k }; W.describe("tm :: " + time_text(t));
            std::tm tm{}; std::istringstream is(time_text(t)); is >> get_tm(tm);
            if (is.fail() or tm.tm_year != y - 1900 or tm.tm_mon != mo - 1 or tm.tm_mday != day or tm.tm_hour != t.h or tm.tm_min != t.mi or tm.tm_sec != t.s) return W.fail("get_tm", time_text(t) + " is read wrongly");
            std::ostringstream o; o << std::hex << std::left << put_tm(tm) << ' ' << 255; if (o.str() != time_text(t) + " ff") { std::ostringstream p; p << put_tm(tm); if (p.str() != time_text(t)) return W.fail("put_tm", time_text(t) + " is printed as " + p.str()); }
            std::ostringstream o2; o2.fill('*'); o2 << put_tm(tm) << std::setw(3) << 7; if (o2.str() != time_text(t) + "**7") return W.fail("put_tm", "printing " + time_text(t) + " changes the state of the stream: " + o2.str());
            W.states(); W.evals();
        }
    });
    /* every pair of boundary values, every comparison, over literals and over a table */
    std::vector<DT> B; for (int y : { -9999, -400, -5, -4, -2, -1, 1, 2, 4, 100, 999, 1000, 1969, 1970, 2000, 9999 }) { for (auto [mo, d] : { std::pair{ 1, 1 }, { 1, 31 }, { 2, 1 }, { 2, 28 }, { 3, 1 }, { 12, 31 } }) B.push_back({ y, mo, d }); }
    static const char *OPS[] = { "<", "<=", ">", ">=", "=", "!=" };
    auto holds = [](int op, const DT &a, const DT &b) { switch (op) { case 0: return a < b; case 1: return not (b < a); case 2: return b < a; case 3: return not (a < b); case 4: return a == b; default: return not (a == b); } };
    C.explore("comparisons", B.size() * B.size() * 2, [=](u64 i, mc::Worker &W) {
        mc::Digits d(i); const bool time = d.next(2); DT a = B[d.next(B.size())], b = B[d.next(B.size())];
        for (int k = 0; k != (time ? 3 : 1); ++k) {
            if (time) { static const int X[3][6] = { { 0, 0, 0, 0, 0, 1 }, { 23, 59, 59, 0, 0, 0 }, { 1, 2, 3, 1, 2, 3 } }; a.h = X[k][0]; a.mi = X[k][1]; a.s = X[k][2]; b.h = X[k][3]; b.mi = X[k][4]; b.s = X[k][5]; }
            std::string q = "SELECT ", want; for (int op = 0; op != 6; ++op) { q += (op ? ", " : "") + lit(a, time) + " " + OPS[op] + " " + lit(b, time); want += std::string(op ? "," : "") + (holds(op, a, b) ? "TRUE" : "FALSE"); }
            W.describe("comparison :: " + q); W.states(); W.transitions(6); W.evals();
            auto r = E().run(q + ";"); if (not r.ok or r.rows.size() != 1 or r.rows[0] != want) return W.fail(std::string("comparison of ") + (time ? "datetimes" : "dates"), q + " gives " + (r.rows.size() ? r.rows[0] : r.error) + " instead of " + want);
        }
    }, 16);
    C.explore("tables", Y.size() * 2 * 3, [=](u64 i, mc::Worker &W) { // a table of dates from different years, inserted in some order
        mc::Digits d(i); const bool time = d.next(2); const int perm = int(d.next(3)); const size_t yi = d.next(Y.size());
        std::vector<DT> v; for (int k = 0; k != 10; ++k) { DT t{ Y[(yi + (k % 3)) % Y.size()], 1 + int(yi * 5 + k * 7) % 12, 1 + int(k * 11 + yi) % 28 }; if (t.y == 0) t.y = -1; if (time) { t.h = (k * 5) % 24; t.mi = (k * 13) % 60; t.s = (k * 17) % 60; } v.push_back(t); }
        if (perm == 1) std::reverse(v.begin(), v.end()); else if (perm == 2) std::rotate(v.begin(), v.begin() + 5, v.end());
        E().use_fresh_db(); if (auto r = E().run(std::string("CREATE TABLE t (k INT(4), d ") + (time ? "DATETIME" : "DATE") + ", c CHAR(3));"); not r.ok) return W.fail("harness", r.error);
        std::string ins = "INSERT INTO t VALUES "; for (size_t k = 0; k != v.size(); ++k) ins += (k ? ", (" : "(") + std::to_string(k) + ", " + lit(v[k], time) + ", \"ab\")"; ins += ", (99, NULL, \"zz\");";
        W.describe("table :: " + ins); W.states(); W.evals(); if (auto r = E().run(ins); not r.ok) return W.fail("insertion", ins + ": " + r.error);
        auto s = v; std::stable_sort(s.begin(), s.end());
        for (int desc = 0; desc != 2; ++desc) {
            std::vector<std::string> want; if (not desc) want.push_back("NULL"); for (auto &t : s) want.push_back(text(t, time)); if (desc) { std::reverse(want.begin(), want.end()); want.push_back("NULL"); }
            auto r = E().run(std::string("SELECT d FROM t ORDER BY d") + (desc ? " DESC;" : ";")); W.transitions();
            if (not r.ok or r.rows != want) return W.fail(std::string("ordering by ") + (time ? "a datetime" : "a date"), ins + " ordered gives " + sqlkit::join_rows(r.rows) + r.error + " instead of " + sqlkit::join_rows(want));
        }
        for (size_t p = 0; p < v.size(); p += 3) for (int op = 0; op != 6; ++op) {
            std::vector<std::string> want; for (size_t k = 0; k != v.size(); ++k) if (holds(op, v[k], v[p])) want.push_back(std::to_string(k) + "," + text(v[k], time));
            auto q = std::string("SELECT k, d FROM t WHERE d ") + OPS[op] + " " + lit(v[p], time) + ";"; auto r = E().run(q); W.transitions(); std::sort(r.rows.begin(), r.rows.end()); std::sort(want.begin(), want.end());
            if (not r.ok or r.rows != want) return W.fail(std::string("filter on ") + (time ? "a datetime" : "a date"), ins + " " + q + " gives " + sqlkit::join_rows(r.rows) + r.error + " instead of " + sqlkit::join_rows(want));
        }
        auto r = E().run("SELECT a.k, b.k FROM t AS a, t AS b WHERE a.d = b.d;"); size_t want = 0; for (auto &a : v) for (auto &b : v) want += a == b;
        if (not r.ok or r.rows.size() != want) return W.fail("join on dates", ins + ": " + std::to_string(r.rows.size()) + " rows instead of " + std::to_string(want));
        auto g = E().run("SELECT d, COUNT() FROM t GROUP BY d;"); std::set<std::string> ds; for (auto &a : v) ds.insert(text(a, time)); if (not g.ok or g.rows.size() != ds.size() + 1) return W.fail("grouping by dates", ins + ": " + std::to_string(g.rows.size()) + " groups instead of " + std::to_string(ds.size() + 1));
    }, 4);
    /* DSV files hold the same dates */
    C.explore("files", Y.size() * 14, [=](u64 i, mc::Worker &W) {
        mc::Digits d(i); const int mo = int(d.next(14)), y = Y[d.next(Y.size())]; std::vector<std::string> want; std::string file;
        for (int day = 0; day != 33; ++day) { DT t{ y, mo, day, day % 24, 59, 30 }; 
            file += date_text(t) + "," + time_text(t) + "\n"; want.push_back((valid(t, false) ? date_text(t) : "NULL") + "," + (valid(t, true) ? time_text(t) : "NULL")); }
        char f[] = "/tmp/verif_date_XXXXXX"; const int fd = mkstemp(f); if (fd < 0 or write(fd, file.data(), file.size()) != ssize_t(file.size())) return W.fail("harness", "file"); close(fd);
        E().use_fresh_db(); E().run("CREATE TABLE t (d DATE, e DATETIME);"); W.describe("file :: " + file.substr(0, 60)); E().run(std::string("IMPORT INTO t DSV \"") + f + "\";"); unlink(f);
        auto r = E().run("SELECT d, e FROM t;"); W.states(33); W.evals(); W.transitions(33);
        if (r.rows.size() != want.size()) return W.fail("file", file.substr(0, 40) + ": " + std::to_string(r.rows.size()) + " rows");
        for (size_t k = 0; k != want.size(); ++k) if (r.rows[k] != want[k]) return W.fail("file", "a line of " + std::to_string(y) + "-" + std::to_string(mo) + "-" + std::to_string(k) + " reads as " + r.rows[k] + " instead of " + want[k]);
    }, 4);
    /* every single edit of a valid literal */
    std::vector<std::string> base = { "d'2020-02-28'", "d'-0400-12-31'", "d'1999-10-09 08:07:06'", "d'-0001-01-01 23:59:59'" };
    const std::string alpha = "019-: 'a.+\"x"; const size_t NA = alpha.size();
    C.explore("edits", base.size() * 26 * (2 * NA + 1), [=](u64 i, mc::Worker &W) {
        mc::Digits d(i); const size_t e = d.next(2 * NA + 1), p = d.next(26); std::string s = base[d.next(base.size())]; if (p > s.size()) return;
        if (e == 0) { if (p == s.size()) return; s.erase(p, 1); } else if (e <= NA) { if (p == s.size()) return; s[p] = alpha[e - 1]; } else s.insert(p, 1, alpha[e - 1 - NA]);
        static const std::regex RX("d'(-?)(\\d{4})-(\\d\\d)-(\\d\\d)( (\\d\\d):(\\d\\d):(\\d\\d))?'"); std::smatch mt; 
        W.describe("edit :: SELECT " + s + ";"); W.states(); W.evals(); W.transitions();
        auto r = E().run("SELECT " + s + ";");
        if (std::regex_match(s, mt, RX)) {
            DT t{ atoi(mt[2].str().c_str()), atoi(mt[3].str().c_str()), atoi(mt[4].str().c_str()) }; const bool time = mt[5].matched; if (mt[1].length()) t.y = -t.y; if (time) { t.h = atoi(mt[6].str().c_str()); t.mi = atoi(mt[7].str().c_str()); t.s = atoi(mt[8].str().c_str()); }
            if (r.ok != valid(t, time)) return W.fail("edit", s + (valid(t, time) ? " is rejected: " + r.error : " is accepted"));
            if (r.ok and (r.rows.size() != 1 or r.rows[0] != text(t, time))) return W.fail("edit", s + " is printed as " + (r.rows.empty() ? "nothing" : r.rows[0]));
        } else if (r.ok and s.rfind("d'", 0) == 0 and not std::regex_search(s, std::regex("^d'(-?)(\\d{4})-(\\d\\d)-(\\d\\d)( (\\d\\d):(\\d\\d):(\\d\\d))?'"))) return W.fail("edit", s + " is accepted and gives " + (r.rows.empty() ? "nothing" : r.rows[0])); // a literal may be followed by other tokens
    });
    return C.finish();
}
