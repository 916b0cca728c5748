/* Command-line parsing: all argument vectors over a vocabulary, against a reference that predicts the calls. */
#include "common/mc.hpp"
#include "common/heapguard.hpp"
#include <mutable/util/ArgParser.hpp>
#include <sys/mman.h>
#include <sys/wait.h>

using namespace m;
using u64 = uint64_t;

/** What a run shows: calls in order, positional arguments, and whether the process exits. */
struct Shared { char buf[4096]; unsigned len; bool done; };
static Shared *sh;
static void note(const std::string &s) { for (char c : s + " ") if (sh->len < sizeof(sh->buf)) sh->buf[sh->len++] = c; }
template<typename T> static std::string num(T v) { std::ostringstream o; if constexpr (std::floating_point<T>) o << std::hexfloat << v; else o << v; return o.str(); }

enum Ty { TB, TI, TL, TLL, TU, TUL, TULL, TF, TD, TLD, TS, TV };
static const char *NAMES[] = { "bool", "int", "long", "llong", "uint", "ulong", "ullong", "float", "double", "ldouble", "str", "list" };
struct Opt { const char *s, *l; Ty ty; const char *group; };
/* Names that are prefixes of each other, that look like numbers, only short or only long names, options of groups. */
static const Opt OPTS[] = {
    { "-b", "--bool", TB, nullptr }, { "-i", "--int", TI, nullptr }, { nullptr, "--long", TL, "G" }, { "-L", nullptr, TLL, "G" }, { "-u", "--unsigned", TU, "H" },
    { "-ul", "--ulong", TUL, nullptr }, { "-ull", nullptr, TULL, nullptr }, { "-f", "--float", TF, "G" }, { nullptr, "--double", TD, nullptr }, { "-D", "--ldouble", TLD, nullptr },
    { "-s", "--string", TS, nullptr }, { "-v", "--vec", TV, "H" }, { "-1", "--b", TB, nullptr }, { "word", nullptr, TB, nullptr },
};
static void setup(ArgParser &AP) {
    for (auto &o : OPTS) {
        const std::string n = o.s ? o.s : o.l;
        switch (o.ty) {
#define NUM(TAG, T) case TAG: AP.add<T>(o.group, o.s, o.l, "d", [n](T v) { note(n + "=" + num(v)); }); break;
            case TB: AP.add<bool>(o.group, o.s, o.l, "d", [n](bool v) { note(n + "=" + (v ? "true" : "false")); }); break;
            NUM(TI, int) NUM(TL, long) NUM(TLL, long long) NUM(TU, unsigned) NUM(TUL, unsigned long) NUM(TULL, unsigned long long) NUM(TF, float) NUM(TD, double) NUM(TLD, long double)
            case TS: AP.add<const char*>(o.group, o.s, o.l, "d", [n](const char *v) { note(n + "=\"" + v + "\""); }); break;
            case TV: AP.add<std::vector<std::string_view>>(o.group, o.s, o.l, "d", [n](std::vector<std::string_view> v) { std::string s = n + "=["; for (auto x : v) s += "<" + std::string(x) + ">"; note(s + "]"); }); break;
        }
    }
}

/*----- Reference ----------------------------------------------------------------------------------------------------*/
/** Exact value of a decimal integer `[+-]?[0-9]+`. */
static bool integer(const std::string &w, bool &neg, unsigned __int128 &mag) {
    size_t i = 0; neg = false;
    if (i < w.size() and (w[i] == '-' or w[i] == '+')) neg = w[i++] == '-';
    if (i == w.size()) return false;
    mag = 0;
    for (; i < w.size(); ++i) { if (w[i] < '0' or w[i] > '9') return false; if (mag < (unsigned __int128)(1) << 100) mag = mag * 10 + (w[i] - '0'); }
    return true;
}
static bool fp_syntax(const std::string &w) {
    size_t i = 0, digits = 0;
    if (i < w.size() and (w[i] == '-' or w[i] == '+')) ++i;
    while (i < w.size() and isdigit(w[i])) ++i, ++digits;
    if (i < w.size() and w[i] == '.') { ++i; while (i < w.size() and isdigit(w[i])) ++i, ++digits; }
    if (not digits) return false;
    if (i < w.size() and (w[i] == 'e' or w[i] == 'E')) {
        ++i; if (i < w.size() and (w[i] == '-' or w[i] == '+')) ++i;
        size_t e = 0; while (i < w.size() and isdigit(w[i])) ++i, ++e;
        if (not e) return false;
    }
    return i == w.size();
}
/** The text a value of type `ty` is reported with; nothing if the word must be refused. */
static std::optional<std::string> convert(Ty ty, const std::string &w) {
    auto in = [&](__int128 lo, unsigned __int128 hi, bool uns) -> std::optional<std::string> {
        bool neg; unsigned __int128 mag;
        if (not integer(w, neg, mag)) return {};
        if (uns and neg) return {};
        if (neg ? mag > (unsigned __int128)(-lo) : mag > hi) return {};
        std::string s; auto x = mag; do s.insert(s.begin(), char('0' + int(x % 10))), x /= 10; while (x);
        return (neg and mag ? "-" : "") + s;
    };
    switch (ty) {
        case TI: return in(-(__int128(1) << 31), (__int128(1) << 31) - 1, false);
        case TL: case TLL: return in(-(__int128(1) << 63), (__int128(1) << 63) - 1, false);
        case TU: return in(0, (__int128(1) << 32) - 1, true);
        case TUL: case TULL: return in(0, ((unsigned __int128)(1) << 64) - 1, true);
        case TF: if (not fp_syntax(w)) return {}; { float v = strtof(w.c_str(), nullptr); if (std::isinf(v)) return {}; return num(v); }
        case TD: if (not fp_syntax(w)) return {}; { double v = strtod(w.c_str(), nullptr); if (std::isinf(v)) return {}; return num(v); }
        case TLD: if (not fp_syntax(w)) return {}; { long double v = strtold(w.c_str(), nullptr); if (std::isinf(v)) return {}; return num(v); }
        case TS: return "\"" + w + "\"";
        case TV: { std::string s = "["; if (not w.empty()) { s += "<"; for (char c : w) if (c == ',') s += "><"; else s += c; s += ">"; } return s + "]"; }
        default: return {};
    }
}
struct Expect { std::string log; bool exits = false; };
static Expect expect(const std::vector<std::string> &a) {
    Expect E; std::vector<std::string> pos;
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i] == "--") { pos.insert(pos.end(), a.begin() + i + 1, a.end()); break; }
        const Opt *o = nullptr;
        for (auto &x : OPTS) if ((x.s and a[i] == x.s) or (x.l and a[i] == x.l)) o = &x;
        if (not o) { if (a[i].substr(0, 2) != "--") pos.push_back(a[i]); continue; }
        const std::string n = o->s ? o->s : o->l;
        if (o->ty == TB) { E.log += n + "=true "; continue; }
        if (++i == a.size()) { E.exits = true; return E; }
        auto v = convert(o->ty, a[i]);
        if (not v) { E.exits = true; return E; }
        E.log += n + "=" + *v + " ";
    }
    for (auto &p : pos) E.log += "pos<" + p + "> ";
    return E;
}

static void run(const std::vector<std::string> &a) {
    ArgParser AP; setup(AP);
    std::vector<const char*> v{ "prog" };
    for (auto &s : a) v.push_back(s.c_str());
    v.push_back(nullptr);
    AP(v.size() - 1, v.data());
    for (auto p : AP.args()) note("pos<" + std::string(p) + ">");
    sh->done = true;
}
static void check(const std::vector<std::string> &a, mc::Worker &W) {
    std::string t; for (auto &s : a) t += (t.empty() ? "" : " ") + ("'" + s + "'");
    const Expect E = expect(a);
    W.describe("arguments " + t + (E.exits ? "" : " (all valid)"));
    sh->len = 0; sh->done = false;
    bool refused = false;
    if (E.exits) {
        const pid_t p = fork();
        if (p == 0) {
            if (not freopen("/dev/null", "w", stderr)) _exit(9);
            on_exit([](int st, void*) { _exit(st == EXIT_FAILURE and not sh->done ? 55 : 56); }, nullptr);
            run(a); _exit(57);
        }
        int st; waitpid(p, &st, 0);
        if (not WIFEXITED(st)) { W.fail(t, t + ": crash (signal " + std::to_string(WTERMSIG(st)) + ") instead of an exit with failure"); return; }
        refused = WEXITSTATUS(st) == 55;
    } else run(a);
    const std::string got(sh->buf, sh->len);
    if (E.exits != refused) W.fail(t, t + ": a malformed or missing value is not refused; delivered: " + got);
    else if (got != E.log) W.fail(t, t + ": delivered '" + got + "' instead of '" + E.log + "'");
}

int main(int argc, char **argv) {
    mc::Check C("C29", "model_checking", argc, argv);
    C.rule = "All argument vectors of up to 3 (thorough: 4) words over the names of 14 options of all value types (short, long, both, with groups, names that are prefixes of each other and that look like numbers), the end-of-options word, unknown words, and well-formed, malformed, out-of-range and empty values; for every numeric type every string of up to 4 (thorough: 5) characters over {0,1,9,-,+,.,e,x} and the neighbourhood of all range limits as value; predicted failures are run in a child process whose exit status is checked. Leading blanks, hexadecimal, infinite, NaN and subnormal numbers and the negative zero of unsigned types are not covered.";
    std::vector<std::string> vocab;
    for (auto &o : OPTS) { if (o.s) vocab.push_back(o.s); if (o.l and (not o.s or o.ty == TB or o.ty == TI)) vocab.push_back(o.l); }
    for (auto s : { "--", "--unknown", "-x", "", "pos", "0", "-5", "12abc", "2147483648", "4294967295", "99999999999999999999", "1.5", "1e400", "a,b,", "-bb", "-" }) vocab.push_back(s);
    auto reserve = [] { if (not sh) sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); };
    for (unsigned len = 0; len <= (C.thorough ? 4u : 3u); ++len) {
        u64 n = 1; for (unsigned i = 0; i != len; ++i) n *= vocab.size();
        C.explore("vectors of " + std::to_string(len) + " words", n, [&, len](u64 i, mc::Worker &W) {
            reserve();
            std::vector<std::string> a; for (unsigned j = 0; j != len; ++j) a.push_back(vocab[i % vocab.size()]), i /= vocab.size();
            W.states(); W.evals(); check(a, W);
        });
    }
    { /* values */
        static const char AL[] = "019-+.ex";
        std::vector<std::string> vals;
        const unsigned L = C.thorough ? 5 : 4;
        for (unsigned l = 1; l <= L; ++l) { u64 n = 1; for (unsigned i = 0; i != l; ++i) n *= 8; for (u64 c = 0; c != n; ++c) { std::string s; u64 d = c; for (unsigned i = 0; i != l; ++i) s += AL[d % 8], d /= 8; vals.push_back(s); } }
        for (unsigned bits : { 7u, 8u, 15u, 16u, 31u, 32u, 63u, 64u }) for (int sgn : { 1, -1 }) for (int d = -2; d <= 2; ++d) {
            __int128 v = ((__int128(1) << bits) + d); std::string s; while (v) s.insert(s.begin(), char('0' + int(v % 10))), v /= 10;
            vals.push_back((sgn < 0 ? "-" : "") + s); vals.push_back((sgn < 0 ? "-000" : "+00") + s); vals.push_back((sgn < 0 ? "-" : "") + s + "0");
        }
        for (auto s : { "3.4028234e38", "3.5e38", "-3.5e38", "1.7976931348623157e308", "1.8e308", "1e4932", "1e5000", "0.1", "-0.1", "123456789.123456789", "1e-30", "16777217", "9007199254740993", "0x10", "0X1F", "010", "1e5x", "1,5", "1'000", "--5", "+-5", "1 ", "1 2", "\xC2\xB2" }) vals.push_back(s);
        static const Ty TYS[] = { TI, TL, TLL, TU, TUL, TULL, TF, TD, TLD };
        C.explore("values", vals.size() * 9, [&](u64 i, mc::Worker &W) {
            reserve();
            const Ty ty = TYS[i % 9]; const std::string &w = vals[i / 9];
            const bool fp = ty == TF or ty == TD or ty == TLD;
            if (not fp and w[0] == '-' and (ty == TU or ty == TUL or ty == TULL)) { bool neg; unsigned __int128 mag; if (integer(w, neg, mag) and mag == 0) return; }
            if (fp) { const size_t x = w.find_first_of("xX"); if (x != std::string::npos and x > 0 and w[x - 1] == '0' and (x == 1 or (x == 2 and (w[0] == '-' or w[0] == '+')))) return; }
            for (auto &o : OPTS) if (o.ty == ty) { W.states(); W.evals(); check({ o.s ? o.s : o.l, w, "pos" }, W); break; }
        });
    }
    return C.finish();
}
