/* String, character and integer utilities: all small inputs against independent definitions. */
#include "common/mc.hpp"
#include <mutable/util/fn.hpp>
#include <bit>
#include <cfloat>
#include <climits>
#include <optional>
#include <set>

using namespace m;
using u64 = uint64_t;
using u128 = unsigned __int128;

/** The `i`-th string over `A` with up to `L` letters. */
struct Strings
{
    std::string A; unsigned L; std::vector<u64> start;
    Strings(std::string A, unsigned L) : A(A), L(L) { u64 s = 0, n = 1; for (unsigned l = 0; l <= L + 1; ++l) { start.push_back(s); s += n; n *= A.size(); } }
    u64 size() const { return start.back(); }
    std::string operator[](u64 i) const {
        unsigned l = 0; while (i >= start[l + 1]) ++l;
        i -= start[l];
        std::string s; for (unsigned k = 0; k != l; ++k) { s += A[i % A.size()]; i /= A.size(); }
        return s;
    }
};
static std::string show(const std::string &s) {
    std::string o = "'";
    for (unsigned char c : s) if (c < 32 or c >= 127) { char b[8]; snprintf(b, sizeof b, "<%02x>", c); o += b; } else o += char(c);
    return o + "'";
}

/*----- LIKE -----*/
struct Tok { char kind; char c; }; // 'L'iteral, 'O'ne, 'M'any
static std::optional<std::vector<Tok>> tokenize(const std::string &p, char esc) {
    std::vector<Tok> T;
    for (std::size_t i = 0; i < p.size(); ++i) {
        if (p[i] == esc) {
            if (i + 1 == p.size() or (p[i + 1] != '%' and p[i + 1] != '_' and p[i + 1] != esc)) return std::nullopt;
            T.push_back({ 'L', p[++i] });
        } else if (p[i] == '%') T.push_back({ 'M', 0 });
        else if (p[i] == '_') T.push_back({ 'O', 0 });
        else T.push_back({ 'L', p[i] });
    }
    return T;
}
static bool matches(const std::vector<Tok> &T, std::size_t t, const std::string &s, std::size_t i) {
    if (t == T.size()) return i == s.size();
    if (T[t].kind == 'M') { for (std::size_t k = i; k <= s.size(); ++k) if (matches(T, t + 1, s, k)) return true; return false; }
    return i < s.size() and (T[t].kind == 'O' or T[t].c == s[i]) and matches(T, t + 1, s, i + 1);
}
static int real_like(const std::string &s, const std::string &p, char esc) { try { return like(s, p, esc); } catch (m::runtime_error&) { return -1; } }
static const char *RES[] = { "invalid", "no match", "match" };

/*----- escaping -----*/
static std::string ref_unescape(const std::string &s, char esc, char q) {
    std::string r;
    for (std::size_t i = 0; i != s.size(); ++i) {
        if (s[i] == esc and i + 1 != s.size() and (s[i + 1] == esc or s[i + 1] == q or s[i + 1] == 'n')) { ++i; r += s[i] == esc or s[i] == q ? s[i] : '\n'; }
        else r += s[i];
    }
    return r;
}

/*----- integers -----*/
/** All values for narrow types, all values around the powers of two and their multiples for wide ones. */
template<typename T> std::vector<T> values() {
    std::set<T> V;
    if constexpr (sizeof(T) <= 2) { for (unsigned v = 0; v <= std::numeric_limits<T>::max(); ++v) V.insert(T(v)); }
    else for (unsigned b = 0; b < 8 * sizeof(T); ++b) for (int d = -9; d <= 9; ++d) for (int m : { 1, 3 }) V.insert(T((T(m) << b) + T(d)));
    return { V.begin(), V.end() };
}
template<typename T> std::string num(T v) { return std::to_string(sizeof(T) * 8) + "-bit " + std::to_string(u64(v)); }

template<typename T> void ints(mc::Check &C, const char *name) {
    const auto V = values<T>();
    const u128 MAX = std::numeric_limits<T>::max();
    C.explore(std::string("integers ") + name, V.size(), [&](u64 i, mc::Worker &W) {
        const T n = V[i];
        auto bad = [&](const std::string &f, const std::string &d) { W.fail(f + "(" + num(n) + ")", f + "(" + num(n) + "): " + d); };
        W.states(); W.evals(6);
        unsigned bits = 0; int hi = -1;
        for (unsigned b = 0; b != 8 * sizeof(T); ++b) if ((u128(n) >> b) & 1) ++bits, hi = b;
        W.describe("is_pow_2 " + num(n));
        if (is_pow_2(n) != (bits == 1)) bad("is_pow_2", "wrong");
        if (n <= MAX / 2 + 1) {
            u128 e = 1; while (e < n) e *= 2;
            W.describe("ceil_to_pow_2 " + num(n));
            if (ceil_to_pow_2(n) != T(e)) bad("ceil_to_pow_2", std::to_string(u64(ceil_to_pow_2(n))));
        }
        if (n) { W.describe("log2_floor " + num(n)); if (log2_floor(n) != T(hi)) bad("log2_floor", std::to_string(u64(log2_floor(n)))); }
        W.describe("log2_ceil " + num(n));
        { const unsigned e = n <= 1 ? 0 : bits == 1 ? hi : hi + 1; if (log2_ceil(n) != T(e)) bad("log2_ceil", std::to_string(u64(log2_ceil(n)))); }
        for (unsigned b = 0; b != 8 * sizeof(T); ++b) {
            const u128 p = u128(1) << b, e = (u128(n) + p - 1) / p * p;
            W.evals();
            if (e <= MAX and ceil_to_multiple_of_pow_2(n, T(p)) != T(e)) bad("ceil_to_multiple_of_pow_2", "2^" + std::to_string(b));
            for (bool val : { false, true }) {
                T x = n; setbit(&x, val, b);
                const T e = val ? T(u128(n) | p) : T(u128(n) & ~p);
                if (x != e) bad("setbit", std::to_string(b) + " := " + std::to_string(val));
            }
        }
        for (u64 j = 0; j < V.size(); j += sizeof(T) == 2 and not C.thorough ? 127 : 1) {
            const T k = V[j];
            W.evals(3);
            if (k == 0) {
                bool thrown = false;
                try { if (round_up_to_multiple(n, k) != 0) bad("round_up_to_multiple", "of 0"); } catch (m::invalid_argument&) { thrown = true; }
                if (thrown != (n != 0)) bad("round_up_to_multiple", "multiple of 0 accepted");
            } else {
                const u128 e = (u128(n) + k - 1) / k * k;
                if (e <= MAX and round_up_to_multiple(n, k) != T(e)) bad("round_up_to_multiple", num(k) + ": " + std::to_string(u64(round_up_to_multiple(n, k))));
            }
            const u128 s = u128(n) + k, p = u128(n) * k;
            if (add_wo_overflow(n, k) != T(std::min(s, MAX)) or sum_wo_overflow(n, k) != T(std::min(s, MAX))) bad("add_wo_overflow", num(k));
            if (mul_wo_overflow(n, k) != T(std::min(p, MAX)) or prod_wo_overflow(n, k) != T(std::min(p, MAX))) bad("mul_wo_overflow", num(k));
            if (j % 16 == 0 or sizeof(T) == 1) for (T l : { T(0), T(1), T(2), T(MAX / 2), T(MAX) }) {
                W.evals(2);
                if (sum_wo_overflow(n, k, l) != T(std::min(s + l, MAX))) bad("sum_wo_overflow", num(k) + ", " + num(l));
                if (prod_wo_overflow(n, k, l) != T(std::min(std::min(p, MAX) * l, MAX))) bad("prod_wo_overflow", num(k) + ", " + num(l));
                if (sum_wo_overflow(n, k, l, T(3)) != T(std::min(s + l + 3, MAX))) bad("sum_wo_overflow", num(k) + ", " + num(l) + ", 3");
            }
        }
    }, sizeof(T) <= 1 ? 16 : 256);
}

/** Exact number of integers in [a, b] against is_range_wide_enough. */
template<typename T> void range(T a, T b, std::size_t n, mc::Worker &W) {
    const __int128 lo = std::min(a, b), hi = std::max(a, b);
    W.evals();
    if (is_range_wide_enough(a, b, n) != (hi - lo + 1 >= __int128(n)))
        W.fail("is_range_wide_enough " + std::to_string(sizeof(T)) + " " + std::to_string((long long)(a)) + " " + std::to_string((long long)(b)) + " " + std::to_string(n), "is_range_wide_enough(" + std::to_string((long long)(a)) + ", " + std::to_string((long long)(b)) + ", " + std::to_string(n) + ")");
}

/** The next larger value, by its representation. */
template<typename F, typename I> F next_up(F x) { I u; memcpy(&u, &x, sizeof u); const I sign = I(1) << (8 * sizeof(I) - 1); if (u & sign) u = u == sign ? 1 : u - 1; else ++u; memcpy(&x, &u, sizeof u); return x; }
template<typename F, typename I> void seqno(F x, mc::Worker &W) {
    if (std::isnan(x) or x == std::numeric_limits<F>::infinity()) return;
    const F y = next_up<F, I>(x);
    const bool minus_zero = x == 0 or y == 0; // both zeros are one value
    if (I(sequence_number(y) - sequence_number(x)) != 1 or sequence_number(y) < sequence_number(x) or (minus_zero and sequence_number(F(0)) != sequence_number(-F(0)))) { char b[64]; snprintf(b, sizeof b, "%a", double(x)); W.fail(std::string("sequence_number ") + b, std::string("sequence_number(") + b + ") is not followed by that of the next value"); }
}

int main(int argc, char **argv) {
    mc::Check C("C23", "model_checking", argc, argv);
    C.rule = "like and pattern_to_regex: all strings of up to 4 and patterns of up to 4 letters, of up to 3 and 5 letters (thorough: 4 and 6) over {a, %, _, \\, newline, .} and, per escape character, over reduced alphabets, all single bytes as literals; escape/unescape/unquote/interpret/html_escape: all strings of up to 7 over the special characters; replace_all: all triples over {a,b}; hashing and equality of C strings: all pairs of up to 4 letters; integer helpers: all 8 and 16 bit values and all values around multiples of powers of two for 32 and 64 bit; add/mul with clamping for all 8 bit pairs and boundary pairs; sequence numbers of all floats with boundary low byte (thorough: all floats) and all double exponents with boundary mantissas. Arguments violating a stated precondition (result not representable, logarithm of 0, empty search text) are excluded.";

    { // LIKE over special characters
        const Strings P("a%_\\\n.", C.thorough ? 6 : 5), S("a%_\\\n.", 4);
        C.explore("LIKE", P.size(), [&](u64 i, mc::Worker &W) {
            const std::string p = P[i];
            W.describe("LIKE " + show(p));
            W.states();
            const auto T = tokenize(p, '\\');
            std::optional<std::regex> re[2];
            for (int o = 0; o != 2; ++o) { try { re[o].emplace(pattern_to_regex(p.c_str(), o)); } catch (m::runtime_error&) { } catch (std::regex_error &e) { W.fail("regex " + show(p), "pattern " + show(p) + ": invalid regular expression: " + e.what()); return; } }
            const u64 N = C.thorough or p.size() < 5 ? S.size() : S.start[4]; // quick: texts of up to 3 letters for the longest patterns
            for (u64 j = 0; j != N; ++j) {
                const std::string s = S[j];
                const int expected = T ? matches(*T, 0, s, 0) : -1;
                if (j == 0) W.evals(2 * N);
                if (j < 50) W.outcome(RES[expected + 1]);
                const int got = real_like(s, p, '\\');
                if (got != expected) W.fail("like " + show(s) + " " + show(p), "like(" + show(s) + ", " + show(p) + ") = " + RES[got + 1] + ", expected " + RES[expected + 1]);
                if (C.thorough and P.L == 6 and j % 3) continue;
                for (int o = 0; o != 2; ++o) {
                    const int g = re[o] ? std::regex_match(s, *re[o]) : -1;
                    if (g != expected) W.fail("regex " + show(s) + " " + show(p), "pattern_to_regex(" + show(p) + ") on " + show(s) + " = " + RES[g + 1] + ", expected " + RES[expected + 1]);
                }
            }
        }, 16);
        const std::string ESC = "#a$[^(.*n";
        const unsigned LP = C.thorough ? 5 : 4;
        const u64 NP = Strings("b\\%_e", LP).size();
        C.explore("LIKE with other escape characters", ESC.size() * NP, [&](u64 i, mc::Worker &W) {
            const char e = ESC[i / NP];
            const Strings P(std::string("b\\%_") + e, LP), S(std::string("b\\%_") + e, LP - 1);
            {
                const std::string p = P[i % NP]; const auto T = tokenize(p, e);
                W.describe(std::string("LIKE ESCAPE ") + e + " " + show(p));
                W.states();
                std::optional<std::regex> re;
                try { re.emplace(pattern_to_regex(p.c_str(), false, e)); } catch (m::runtime_error&) { }
                for (u64 j = 0; j != S.size(); ++j) {
                    const std::string s = S[j];
                    const int expected = T ? matches(*T, 0, s, 0) : -1;
                    if (j == 0) W.evals(2 * S.size());
                    if (real_like(s, p, e) != expected) W.fail("like " + show(s) + " " + show(p) + " escape " + e, "like(" + show(s) + ", " + show(p) + ", '" + e + "') expected " + RES[expected + 1]);
                    const int g = re ? std::regex_match(s, *re) : -1;
                    if (g != expected) W.fail("regex " + show(s) + " " + show(p) + " escape " + e, "pattern_to_regex(" + show(p) + ", '" + e + "') on " + show(s) + " expected " + RES[expected + 1]);
                }
            }
        }, 16);
        C.explore("LIKE with every byte", 255, [&](u64 i, mc::Worker &W) {
            const char c = char(i + 1);
            if (c == '%' or c == '_' or c == '\\') return;
            W.describe("LIKE byte " + std::to_string(i + 1));
            for (const std::string &p : { std::string(1, c), std::string("a") + c + "b", std::string("%") + c, std::string(1, c) + "_", std::string(2, c) }) {
                const auto T = tokenize(p, '\\');
                std::optional<std::regex> re;
                try { re.emplace(pattern_to_regex(p.c_str(), true)); } catch (std::exception &e) { W.fail("regex byte " + std::to_string(i + 1), "pattern " + show(p) + ": " + e.what()); continue; }
                for (unsigned d = 1; d != 256; ++d) for (const std::string &s : { std::string(1, char(d)), std::string("a") + char(d) + "b", std::string(1, char(d)) + "x", std::string(2, char(d)), std::string() }) {
                    W.evals(2);
                    const bool e = matches(*T, 0, s, 0);
                    if (real_like(s, p, '\\') != e) W.fail("like " + show(s) + " " + show(p), "like(" + show(s) + ", " + show(p) + ") expected " + RES[e + 1]);
                    if (std::regex_match(s, *re) != e) W.fail("regex " + show(s) + " " + show(p), "pattern_to_regex(" + show(p) + ") on " + show(s) + " expected " + RES[e + 1]);
                }
            }
        }, 8);
        C.explore("LIKE on long texts", 24, [&](u64 i, mc::Worker &W) {
            mc::Digits d(i); const unsigned n = 1 << (2 + 2 * d.next(6)); const unsigned kind = d.next(4); // up to 4096
            W.describe("LIKE long " + std::to_string(n));
            const std::string s(n, 'a'), p = kind == 0 ? std::string(n, 'a') : kind == 1 ? std::string(n, '_') : kind == 2 ? std::string(n, '%') + "b" : "%" + std::string(n - 1, 'a') + "%";
            W.evals(); W.states();
            if (real_like(s, p, '\\') != (kind != 2)) W.fail("long like " + std::to_string(n) + " " + std::to_string(kind), "like on a text of " + std::to_string(n) + " letters");
            if (n > 2 and real_like(s + "b", p, '\\') != (kind == 2 or (kind == 3))) W.fail("long like " + std::to_string(n) + " " + std::to_string(kind), "like on a text of " + std::to_string(n) + "+1 letters");
        }, 1);
        C.explore("LIKE regular expressions on long texts", 24, [&](u64 i, mc::Worker &W) {
            mc::Digits d(i); const unsigned n = 1 << (2 + 3 * d.next(6)); const unsigned kind = d.next(4); // up to 2^17
            W.describe("regex long " + std::to_string(n));
            const std::string s(n, 'a'), p = kind == 0 ? "%b" : kind == 1 ? "a%a" : kind == 2 ? "%_a" : "%a%a%a%a%a%a%b%";
            W.evals(); W.states();
            for (int o = 0; o != 2; ++o) {
                const std::regex re = pattern_to_regex(p.c_str(), o);
                if (std::regex_match(s, re) != (kind == 1 or kind == 2)) W.fail("long regex " + std::to_string(n) + " " + std::to_string(kind), "pattern " + p + " on a text of " + std::to_string(n) + " letters");
                if (kind != 3 and std::regex_match(s + "b", re) != (kind == 0)) W.fail("long regex " + std::to_string(n) + " " + std::to_string(kind), "pattern " + p + " on a text of " + std::to_string(n) + "+1 letters");
            }
        }, 1);
        C.explore("illegal escape characters", 2, [&](u64 i, mc::Worker &W) {
            W.describe("escape character"); W.evals();
            bool thrown = false;
            try { pattern_to_regex("a", false, i ? '%' : '_'); } catch (m::invalid_argument&) { thrown = true; }
            if (not thrown) W.fail("illegal escape character", "wildcard accepted as escape character");
        });
    }

    { // escaping and quoting
        struct EQ { char e, q; };
        const EQ E[] = { { '\\', '"' }, { '\\', '\'' }, { '"', '"' }, { '#', 'q' }, { '\\', '\n' } };
        const Strings S("an\\\"\n'#q", C.thorough ? 7 : 6);
        C.explore("escape and quote", S.size(), [&](u64 i, mc::Worker &W) {
            const std::string s = S[i];
            W.describe("escape " + show(s));
            W.states();
            for (auto [e, q] : E) {
                W.evals(4);
                const std::string who = std::string(" ") + e + q + " " + show(s);
                if (q != '\n') {
                    const std::string x = escape(s, e, q);
                    if (unescape(x, e, q) != s) W.fail("escape" + who, "unescape(escape(" + show(s) + ")) = " + show(unescape(x, e, q)) + " via " + show(x));
                    if (x.find('\n') != std::string::npos) W.fail("escape" + who, "escape leaves a newline in " + show(x));
                    const std::string quoted = std::string(1, q) + x + q;
                    if (interpret(quoted, e, q) != s) W.fail("interpret" + who, "interpret(" + show(quoted) + ") = " + show(interpret(quoted, e, q)));
                    if (e != q) for (std::size_t k = 0; k < x.size(); ++k) { if (x[k] == e) ++k; else if (x[k] == q) W.fail("escape" + who, "unescaped quote in " + show(x)); }
                    if (e == '\\' and q == '"' and interpret(quote(escape(s))) != s) W.fail("quote" + who, "interpret(quote(escape(" + show(s) + ")))");
                }
                if (unescape(s, e, q) != ref_unescape(s, e, q)) W.fail("unescape" + who, "unescape(" + show(s) + ") = " + show(unescape(s, e, q)) + ", expected " + show(ref_unescape(s, e, q)));
                std::optional<std::string> eu, gu, gi;
                if (s.size() >= 2) { if (s[0] != q) eu = s; else if (s.back() == q) eu = s.substr(1, s.size() - 2); }
                try { gu = unquote(s, q); } catch (m::invalid_argument&) { }
                try { gi = interpret(s, e, q); } catch (m::invalid_argument&) { }
                if (gu != eu) W.fail("unquote" + who, "unquote(" + show(s) + ") = " + (gu ? show(*gu) : "invalid"));
                if (gi.has_value() != eu.has_value() or (gi and *gi != ref_unescape(*eu, e, q))) W.fail("interpret" + who, "interpret(" + show(s) + ")");
            }
        });
        const Strings H("&<>a;\"", C.thorough ? 7 : 6);
        C.explore("html_escape", H.size(), [&](u64 i, mc::Worker &W) {
            const std::string s = H[i]; std::string e;
            W.describe("html_escape " + show(s)); W.evals(); W.states();
            for (char c : s) e += c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : std::string(1, c);
            if (html_escape(s) != e) W.fail("html_escape " + show(s), "html_escape(" + show(s) + ") = " + show(html_escape(s)));
        });
        const Strings R("ab", C.thorough ? 9 : 8), F("ab", 3), T("abc", 2);
        C.explore("replace_all", R.size(), [&](u64 i, mc::Worker &W) {
            const std::string s = R[i];
            W.describe("replace_all " + show(s)); W.states();
            for (u64 j = 1; j != F.size(); ++j) for (u64 k = 0; k != T.size(); ++k) {
                const std::string from = F[j], to = T[k]; std::string e;
                for (std::size_t p = 0; p < s.size();) if (s.compare(p, from.size(), from) == 0) e += to, p += from.size(); else e += s[p++];
                W.evals();
                if (replace_all(s, from, to) != e) W.fail("replace_all " + show(s) + show(from) + show(to), "replace_all(" + show(s) + ", " + show(from) + ", " + show(to) + ") = " + show(replace_all(s, from, to)));
            }
        });
        C.explore("characters", 257, [&](u64 i, mc::Worker &W) {
            const int c = int(i) - 1;
            W.describe("character " + std::to_string(c)); W.evals(9); W.states();
            auto in = [&](const char *set) { return c > 0 and strchr(set, c); };
            auto bad = [&](const char *f) { W.fail(std::string(f) + std::to_string(c), std::string(f) + "(" + std::to_string(c) + ") is wrong"); };
            const char *lo = "abcdefghijklmnopqrstuvwxyz", *up = "ABCDEFGHIJKLMNOPQRSTUVWXYZ", *de = "0123456789";
            if (is_oct(c) != bool(in("01234567"))) bad("is_oct");
            if (is_dec(c) != bool(in(de))) bad("is_dec");
            if (is_hex(c) != bool(in("0123456789abcdefABCDEF"))) bad("is_hex");
            if (is_lower(c) != bool(in(lo))) bad("is_lower");
            if (is_upper(c) != bool(in(up))) bad("is_upper");
            if (is_alpha(c) != bool(in(lo) or in(up))) bad("is_alpha");
            if (is_alnum(c) != bool(in(lo) or in(up) or in(de))) bad("is_alnum");
            if (c > 0 and c < 128) {
                const std::string x(1, char(c));
                if (m::isspace(x.c_str()) != bool(in(" \t\n\v\f\r"))) bad("isspace");
                if (m::isspace((" " + x + "\t").c_str()) != bool(in(" \t\n\v\f\r"))) bad("isspace");
                if (m::isspace((" " + x).c_str(), 1) != true) bad("isspace with length");
                const std::string e = c == '\\' ? "\\\\" : c == '"' ? "\\\"" : c == '\n' ? "\\n" : x;
                if (escape(char(c)) != e) bad("escape");
            }
        });
        const Strings A("ab%\xc3", 4);
        C.explore("C strings", A.size(), [&](u64 i, mc::Worker &W) {
            const std::string s = A[i];
            W.describe("C string " + show(s)); W.states();
            StrHash h; StrEqual eq; StrEqualWithNull eqn;
            const std::string padded = s + "b"; // a view that is not terminated
            const std::string_view v(padded.data(), s.size());
            const u64 H = h(s.c_str());
            if (h(s) != H or h(v) != H or h(padded.c_str(), s.size()) != H or h(std::string_view(s)) != H) W.fail("StrHash " + show(s), "different hashes of " + show(s));
            if (eqn(s.c_str(), nullptr) or eqn(nullptr, s.c_str()) or not eqn(nullptr, nullptr)) W.fail("StrEqualWithNull " + show(s), "null");
            for (u64 j = 0; j != A.size(); ++j) {
                const std::string t = A[j];
                W.evals(6);
                const bool e = s == t;
                auto bad = [&](const char *f) { W.fail(std::string(f) + show(s) + show(t), std::string(f) + " of " + show(s) + " and " + show(t)); };
                if (streq(s.c_str(), t.c_str()) != e) bad("streq");
                if (eq(s.c_str(), t.c_str()) != e or eq(v, std::string_view(t)) != e or eq(v, t.c_str()) != e or eq(t, v) != e) bad("StrEqual");
                if (eqn(s.c_str(), t.c_str()) != e) bad("StrEqualWithNull");
                for (std::size_t n = 0; n != 6; ++n) if (strneq(s.c_str(), t.c_str(), n) != (s.substr(0, n) == t.substr(0, n))) bad("strneq");
                if (e != (h(t) == H)) bad("StrHash (collision of short strings)");
                if (m::contains(s, 'a') != (s.find('a') != std::string::npos)) bad("contains");
                const std::set<char> x(s.begin(), s.end()), y(t.begin(), t.end());
                bool sub = true, inter = false; for (char c : x) if (y.count(c)) inter = true; else sub = false;
                if (m::subset(s, y) != sub) bad("subset");
                if (m::intersect(s, y) != inter) bad("intersect");
                if (m::equal(s, t) != (x == y)) bad("equal");
            }
        });
    }

    ints<uint8_t>(C, "8 bit");
    ints<uint16_t>(C, "16 bit");
    ints<uint32_t>(C, "32 bit");
    ints<uint64_t>(C, "64 bit");
    C.explore("powers", 41, [&](u64 i, mc::Worker &W) {
        const int64_t b = int64_t(i) - 20;
        W.describe("powi " + std::to_string(b)); W.states();
        __int128 e = 1;
        for (unsigned x = 0; x != 64; ++x, e *= b) {
            if (e > INT64_MAX or e < INT64_MIN) break;
            W.evals(2);
            if (powi(b, x) != int64_t(e)) W.fail("powi " + std::to_string(b) + " " + std::to_string(x), "powi(" + std::to_string(b) + ", " + std::to_string(x) + ") = " + std::to_string(powi(b, x)));
            if (b >= 0 and powi(u64(b), u64(x)) != u64(e)) W.fail("powi unsigned " + std::to_string(b) + " " + std::to_string(x), "powi");
        }
    });
    C.explore("ceil_to_pow_2 of floating point", 4096, [&](u64 i, mc::Worker &W) {
        const double f = double(i) / 8;
        W.describe("ceil_to_pow_2 " + std::to_string(f)); W.states(); W.evals(2);
        double e = 1; while (e < f) e *= 2;
        if (ceil_to_pow_2(f) != e or ceil_to_pow_2(float(f)) != float(e)) W.fail("ceil_to_pow_2 " + std::to_string(f), "ceil_to_pow_2(" + std::to_string(f) + ") = " + std::to_string(ceil_to_pow_2(f)));
    });
    C.explore("pages", 2048, [&](u64 i, mc::Worker &W) {
        const std::size_t ps = get_pagesize(), n = (i >> 4) * ps + (i & 15) - 7; // around all multiples (wraps below 0)
        W.describe("pages " + std::to_string(n)); W.states(); W.evals(2);
        if (ps != std::size_t(sysconf(_SC_PAGESIZE))) W.fail("page size", std::to_string(ps));
        if (Is_Page_Aligned(n) != (n % ps == 0)) W.fail("Is_Page_Aligned " + std::to_string(n), "Is_Page_Aligned(" + std::to_string(n) + ")");
        const u128 e = (u128(n) + ps - 1) / ps * ps;
        if (e <= SIZE_MAX and Ceil_To_Next_Page(n) != std::size_t(e)) W.fail("Ceil_To_Next_Page " + std::to_string(n), "Ceil_To_Next_Page(" + std::to_string(n) + ") = " + std::to_string(Ceil_To_Next_Page(n)));
    });
    C.explore("ranges 8 bit", 65536, [&](u64 i, mc::Worker &W) {
        W.describe("range " + std::to_string(i)); W.states();
        for (std::size_t n : { 0ul, 1ul, 2ul, 3ul, 127ul, 128ul, 129ul, 254ul, 255ul, 256ul, 257ul, SIZE_MAX }) { range<int8_t>(int8_t(i), int8_t(i >> 8), n, W); range<uint8_t>(uint8_t(i), uint8_t(i >> 8), n, W); }
        const __int128 w = std::abs(int(int8_t(i)) - int(int8_t(i >> 8))), v = std::abs(int(uint8_t(i)) - int(uint8_t(i >> 8)));
        for (int d = 0; d != 3; ++d) { range<int8_t>(int8_t(i), int8_t(i >> 8), w + d, W); range<uint8_t>(uint8_t(i), uint8_t(i >> 8), v + d, W); }
    }, 512);
    { std::vector<int64_t> V; for (int64_t b : { INT64_MIN, int64_t(INT32_MIN), int64_t(-3), int64_t(0), int64_t(INT32_MAX), INT64_MAX }) for (int d = -4; d <= 4; ++d) { int64_t r; if (not __builtin_add_overflow(b, d, &r)) V.push_back(r); }
      C.explore("ranges 32 and 64 bit", V.size() * V.size(), [&](u64 i, mc::Worker &W) {
        const int64_t a = V[i % V.size()], b = V[i / V.size()];
        W.describe("range " + std::to_string(a) + " " + std::to_string(b)); W.states();
        const __int128 w = std::max(a, b) - __int128(std::min(a, b));
        for (__int128 d = -3; d <= 4; ++d) {
            if (w + d < 0 or w + d > __int128(SIZE_MAX)) continue;
            range<int64_t>(a, b, w + d, W);
            const u64 ua = a, ub = b; const u128 uw = std::max(ua, ub) - std::min(ua, ub);
            if (__int128(uw) + d >= 0 and __int128(uw) + d <= __int128(SIZE_MAX)) range<uint64_t>(ua, ub, uw + d, W);
            if (int32_t(a) == a and int32_t(b) == b) range<int32_t>(a, b, w + d, W);
        }
        for (std::size_t n : { std::size_t(0), std::size_t(1), std::size_t(2), SIZE_MAX }) { range<int64_t>(a, b, n, W); range<uint64_t>(a, b, n, W); if (int32_t(a) == a and int32_t(b) == b) range<int32_t>(a, b, n, W); }
      }); }
    C.explore("ranges of floating point", 41 * 41, [&](u64 i, mc::Worker &W) {
        const int x = int(i % 41) - 20, y = int(i / 41) - 20; // positions around 0 and around 1
        W.describe("float range " + std::to_string(x) + " " + std::to_string(y)); W.states();
        for (double base : { 0.0, 1.0, -1.0, 1e300 }) {
            auto step = [&](auto v, int k) { using F = decltype(v); for (; k > 0; --k) v = std::nextafter(v, F(INFINITY)); for (; k < 0; ++k) v = std::nextafter(v, F(-INFINITY)); return v; };
            for (int n = 0; n != 45; ++n) {
                W.evals(2);
                const bool e = std::abs(x - y) + 1 >= n;
                if (is_range_wide_enough(step(base, x), step(base, y), std::size_t(n)) != e) W.fail("float range " + std::to_string(base) + " " + std::to_string(x) + " " + std::to_string(y) + " " + std::to_string(n), "is_range_wide_enough between steps " + std::to_string(x) + " and " + std::to_string(y) + " around " + std::to_string(base));
                if (base < 1e30 and is_range_wide_enough(step(float(base), x), step(float(base), y), std::size_t(n)) != e) W.fail("float range 32 " + std::to_string(base) + " " + std::to_string(x) + " " + std::to_string(y) + " " + std::to_string(n), "is_range_wide_enough between steps " + std::to_string(x) + " and " + std::to_string(y) + " around " + std::to_string(base));
            }
        }
    });
    C.explore("sequence numbers of floats", u64(1) << 16, [&](u64 i, mc::Worker &W) {
        W.describe("float sequence " + std::to_string(i)); W.states(); W.evals(C.thorough ? 65536 : 52 * 6);
        auto one = [&](uint32_t u) { float x; memcpy(&x, &u, 4); seqno<float, uint32_t>(x, W); };
        if (C.thorough) for (uint32_t l = 0; l != 65536; ++l) one(uint32_t(i) << 16 | l);
        else for (uint32_t m = 0; m < 256; m += 5) for (uint32_t l : { 0u, 1u, 0x7fu, 0x80u, 0xfeu, 0xffu }) one(uint32_t(i) << 16 | m << 8 | l);
    }, 256);
    C.explore("sequence numbers of doubles", u64(4096), [&](u64 i, mc::Worker &W) {
        W.describe("double sequence " + std::to_string(i)); W.states(); W.evals(260);
        for (unsigned b = 0; b != 52; ++b) for (int64_t d = -2; d <= 2; ++d) { const u64 mant = ((u64(1) << b) + d) & ((u64(1) << 52) - 1), u = i << 52 | mant; double x; memcpy(&x, &u, 8); seqno<double, u64>(x, W); }
    }, 64);
    C.explore("binomials and square roots", 62, [&](u64 n, mc::Worker &W) {
        W.describe("n choose k " + std::to_string(n)); W.states();
        std::vector<double> row(n + 1, 0); row[0] = 1; for (unsigned r = 1; r <= n; ++r) for (unsigned k = r; k; --k) row[k] += row[k - 1];
        for (unsigned k = 0; k <= n; ++k) {
            W.evals();
            const double g = double(n_choose_k_approx(unsigned(n), k));
            if (std::abs(g - row[k]) > 1 + 1e-9 * row[k]) W.fail("n_choose_k_approx " + std::to_string(n) + " " + std::to_string(k), "n_choose_k_approx = " + std::to_string(g));
        }
        for (double m : { 1.0, 1.1, 1.3, 1.5, 1.7, 1.9, 1.999 }) for (double x : { std::ldexp(m, int(n)), std::ldexp(m, -int(n)) }) {
            W.evals(4);
            if (std::abs(fast_reciprocal_sqrt(x) * std::sqrt(x) - 1) > 0.002 or std::abs(fast_sqrt(x) / std::sqrt(x) - 1) > 0.002 or std::abs(fast_reciprocal_sqrt(float(x)) * std::sqrt(x) - 1) > 0.002 or std::abs(fast_sqrt(float(x)) / std::sqrt(x) - 1) > 0.002) W.fail("fast_sqrt " + std::to_string(x), "fast square root of " + std::to_string(x));
        }
    });
    return C.finish();
}
