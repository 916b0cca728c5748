/* Lexer: all strings up to a length over lexically complete alphabets against an independent longest-match lexer. */
#include "common/mc.hpp"
#include "common/heapguard.hpp"
#include <mutable/util/Diagnostic.hpp>
#include "lex/Lexer.hpp"
#include <fstream>
#include <sys/mman.h>
#include <sstream>

using namespace m;
using u64 = uint64_t;

/*----- Reference ----------------------------------------------------------------------------------------------------*/
struct Tok { TokenType type; std::string text; unsigned line, col; size_t begin, end; };
struct KW { const char *text; TokenType type; };
static const KW KWS[] = {
    { "AND", TK_And }, { "AS", TK_As }, { "ASC", TK_Ascending }, { "BOOL", TK_Bool }, { "BY", TK_By }, { "CASCADE", TK_Cascade }, { "CHAR", TK_Char }, { "CHECK", TK_Check }, { "CREATE", TK_Create },
    { "DATABASE", TK_Database }, { "DATE", TK_Date }, { "DATETIME", TK_Datetime }, { "DECIMAL", TK_Decimal }, { "DEFAULT", TK_Default }, { "DELETE", TK_Delete }, { "DELIMITER", TK_Delimiter },
    { "DESC", TK_Descending }, { "DOUBLE", TK_Double }, { "DROP", TK_Drop }, { "DSV", TK_Dsv }, { "ESCAPE", TK_Escape }, { "EXISTS", TK_Exists }, { "FALSE", TK_False }, { "FLOAT", TK_Float },
    { "FROM", TK_From }, { "GROUP", TK_Group }, { "HAS", TK_Has }, { "HAVING", TK_Having }, { "HEADER", TK_Header }, { "IF", TK_If }, { "IMPORT", TK_Import }, { "INDEX", TK_Index },
    { "INSERT", TK_Insert }, { "INT", TK_Int }, { "INTO", TK_Into }, { "KEY", TK_Key }, { "LIKE", TK_Like }, { "LIMIT", TK_Limit }, { "NOT", TK_Not }, { "NULL", TK_Null }, { "OFFSET", TK_Offset },
    { "ON", TK_On }, { "OR", TK_Or }, { "ORDER", TK_Order }, { "PRIMARY", TK_Primary }, { "QUOTE", TK_Quote }, { "REFERENCES", TK_References }, { "RESTRICT", TK_Restrict }, { "ROWS", TK_Rows },
    { "SELECT", TK_Select }, { "SET", TK_Set }, { "SKIP", TK_Skip }, { "TABLE", TK_Table }, { "TRUE", TK_True }, { "UNIQUE", TK_Unique }, { "UPDATE", TK_Update }, { "USE", TK_Use },
    { "USING", TK_Using }, { "VALUES", TK_Values }, { "VARCHAR", TK_Varchar }, { "WHERE", TK_Where },
};
struct Ref
{
    const std::string &s; size_t i = 0; unsigned line = 1, col = 1;
    std::vector<Tok> toks; std::optional<std::pair<unsigned, unsigned>> error; // position of the first lexical error
    Ref(const std::string &s) : s(s) { while (not error and step()); }

    int at(size_t k) const { return k < s.size() ? (unsigned char)s[k] : -1; }
    static bool dec(int c) { return c >= '0' and c <= '9'; }
    static bool hex(int c) { return dec(c) or (c >= 'a' and c <= 'f') or (c >= 'A' and c <= 'F'); }
    static bool word(int c) { return dec(c) or c == '_' or (c >= 'a' and c <= 'z') or (c >= 'A' and c <= 'Z'); }
    void advance(size_t n) { while (n--) { if (s[i] == '\n') ++line, col = 1; else ++col; ++i; } }
    bool emit(TokenType t, size_t n) { toks.push_back({ t, s.substr(i, n), line, col, i, i + n }); advance(n); return true; }
    bool bad() { error = { line, col }; return true; }
    /** Next token; false at the end. */
    bool step() {
        for (;;) {
            int c = at(i);
            if (c == ' ' or c == '\t' or c == '\v' or c == '\f' or c == '\n' or c == '\r') advance(1);
            else if (c == '-' and at(i + 1) == '-') { size_t n = 0; while (at(i + n) != -1 and at(i + n) != '\n') ++n; advance(n); }
            else break;
        }
        const int c = at(i), d = at(i + 1);
        if (c == -1) { toks.push_back({ TK_EOF, "EOF", line, col, i, i }); return false; }
        if (dec(c) or (c == '.' and dec(d))) return number();
        if (c == '"') {
            size_t k = i + 1; bool ok = true;
            for (;;) {
                if (at(k) == -1) return bad();
                if (at(k) == '"') break;
                if (at(k) == 0) ok = false;
                if (at(k) == '\\') { ++k; if (at(k) == -1) return bad(); if (at(k) != '"' and at(k) != '\\' and at(k) != 'n' and at(k) != 't') ok = false; }
                ++k;
            }
            return ok ? emit(TK_STRING_LITERAL, k + 1 - i) : bad();
        }
        if (c == 'd' and d == '\'') {
            auto fits = [&](const char *p) -> size_t { size_t k = i; for (; *p; ++p, ++k) if (*p == '9' ? not dec(at(k)) : at(k) != *p) return 0; return k - i; };
            if (auto n = fits("d'9999-99-99'")) return emit(TK_DATE, n);
            if (auto n = fits("d'-9999-99-99'")) return emit(TK_DATE, n);
            if (auto n = fits("d'9999-99-99 99:99:99'")) return emit(TK_DATE_TIME, n);
            if (auto n = fits("d'-9999-99-99 99:99:99'")) return emit(TK_DATE_TIME, n);
            return bad();
        }
        if (c == '_' or (word(c) and not dec(c))) {
            size_t n = 1; while (word(at(i + n))) ++n;
            const std::string w = s.substr(i, n);
            for (auto &k : KWS) if (w == k.text) return emit(k.type, n);
            return emit(TK_IDENTIFIER, n);
        }
        if (c == '\\') {
            size_t n = 1; bool ok = true;
            while (at(i + n) != -1 and at(i + n) != ';') { if (at(i + n) == 0) ok = false; ++n; }
            return ok ? emit(TK_INSTRUCTION, n) : bad();
        }
        switch (c) {
            case '(': return emit(TK_LPAR, 1); case ')': return emit(TK_RPAR, 1); case '~': return emit(TK_TILDE, 1); case '+': return emit(TK_PLUS, 1); case '-': return emit(TK_MINUS, 1);
            case '*': return emit(TK_ASTERISK, 1); case '/': return emit(TK_SLASH, 1); case '%': return emit(TK_PERCENT, 1); case '=': return emit(TK_EQUAL, 1); case ',': return emit(TK_COMMA, 1);
            case ';': return emit(TK_SEMICOL, 1);
            case '!': return d == '=' ? emit(TK_BANG_EQUAL, 2) : bad();
            case '<': return d == '=' ? emit(TK_LESS_EQUAL, 2) : emit(TK_LESS, 1);
            case '>': return d == '=' ? emit(TK_GREATER_EQUAL, 2) : emit(TK_GREATER, 1);
            case '.': return d == '.' ? emit(TK_DOTDOT, 2) : emit(TK_DOT, 1);
        }
        return bad();
    }
    bool number() {
        size_t k = i, digits = 0;
        if (at(k) == '0' and (at(k + 1) == 'x' or at(k + 1) == 'X')) {
            k += 2; bool fp = false;
            while (hex(at(k))) ++k, ++digits;
            if (at(k) == '.') { fp = true; ++k; while (hex(at(k))) ++k, ++digits; }
            if (at(k) == 'p' or at(k) == 'P') { fp = true; ++k; if (at(k) == '+' or at(k) == '-') ++k; size_t e = 0; while (dec(at(k))) ++k, ++e; if (not e) return bad(); }
            if (not digits) return bad();
            return emit(fp ? TK_HEX_FLOAT : TK_HEX_INT, k - i);
        }
        bool fp = false;
        while (dec(at(k))) ++k, ++digits;
        if (at(k) == '.') { fp = true; ++k; while (dec(at(k))) ++k, ++digits; }
        if (at(k) == 'e' or at(k) == 'E') { fp = true; ++k; if (at(k) == '+' or at(k) == '-') ++k; size_t e = 0; while (dec(at(k))) ++k, ++e; if (not e) return bad(); }
        if (fp) return emit(TK_DEC_FLOAT, k - i);
        if (at(i) == '0') { for (size_t j = i; j != k; ++j) if (at(j) > '7') return bad(); return emit(TK_OCT_INT, k - i); }
        return emit(TK_DEC_INT, k - i);
    }
};

static std::string visible(const std::string &s) { std::string o; for (unsigned char c : s.size() > 200 ? s.substr(0, 200) : s) { if (c == '\n') o += "\\n"; else if (c < 32 or c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; } return o; }
static std::string show(const Tok &t) { return "'" + visible(t.text) + "' (" + std::to_string(t.type) + ") at " + std::to_string(t.line) + ":" + std::to_string(t.col); }

static ThreadSafeStringPool & pool() { // renewed now and then, since pooled strings stay
    static std::unique_ptr<ThreadSafeStringPool> P; static unsigned n = 0;
    if (not P or ++n % 20000 == 0) P = std::make_unique<ThreadSafeStringPool>();
    return *P;
}
/** All tokens the lexer yields, the end token last. Stops after too many. */
static std::vector<Tok> lex(std::istream &in, size_t limit, unsigned &errors, std::string &err) {
    std::ostringstream o, e; Diagnostic diag(false, o, e);
    ast::Lexer L(diag, pool(), "-", in);
    std::vector<Tok> v;
    do { ast::Token t = L.next(); v.push_back({ t.type, std::string(*t.text.assert_not_none()), t.pos.line, t.pos.column, 0, 0 }); } while (v.back().type != TK_EOF and v.size() <= limit);
    if (v.back().type == TK_EOF) { ast::Token t = L.next(); if (t.type != TK_EOF) err = "a token after the end token"; }
    errors = diag.num_errors();
    return v;
}
enum Stream { STR, RW, FILEBUF };
static void check(const std::string &s, mc::Worker &W, Stream st = STR) {
    W.describe("input " + visible(s));
    const Ref R(s);
    std::string name = visible(s) + (st == STR ? "" : st == RW ? " (stringstream)" : " (file)");
    auto fail = [&](const std::string &w) { W.fail(name, "input '" + name + "': " + w); };
    unsigned errors = 0; std::string err; std::vector<Tok> v;
    if (st == STR) { std::istringstream in(s); v = lex(in, s.size() + 2, errors, err); }
    else if (st == RW) { std::stringstream in(s); v = lex(in, s.size() + 2, errors, err); }
    else {
        static const std::string path = "/proc/self/fd/" + std::to_string(memfd_create("input", 0));
        { std::ofstream o(path, std::ios::binary); o << s; }
        std::ifstream in(path, std::ios::binary); v = lex(in, s.size() + 2, errors, err);
    }
    if (not err.empty()) return fail(err);
    if (v.back().type != TK_EOF) return fail("no end token");
    const size_t n = R.toks.size();
    for (size_t k = 0; k != n; ++k) {
        if (k >= v.size()) return fail("missing " + show(R.toks[k]));
        if (v[k].type != R.toks[k].type or v[k].text != R.toks[k].text or v[k].line != R.toks[k].line or v[k].col != R.toks[k].col) return fail("token " + show(v[k]) + " instead of " + show(R.toks[k]));
    }
    if (R.error) {
        if (not errors) return fail("no diagnostic");
        if (v.size() <= n or v[n].type != TK_ERROR) return fail("no error token");
        if (v[n].line != R.error->first or v[n].col != R.error->second) return fail("error token " + show(v[n]) + " instead of one at " + std::to_string(R.error->first) + ":" + std::to_string(R.error->second));
        return;
    }
    if (errors) return fail("a diagnostic for valid input");
    if (v.size() != n) return fail("further tokens");
    if (st != STR) return;
    /* joined again by blanks */
    std::string j;
    for (size_t k = 0; k + 1 < n; ++k) { if (k and not (R.toks[k - 1].type == TK_INSTRUCTION)) j += ' '; j += R.toks[k].text; }
    if (j == s) return;
    unsigned e2 = 0; std::istringstream in(j); auto w = lex(in, j.size() + 2, e2, err);
    if (e2 or w.size() != v.size()) return fail("different tokens when joined by blanks");
    for (size_t k = 0; k + 1 < n; ++k) if (w[k].type != v[k].type or w[k].text != v[k].text) return fail("token " + show(w[k]) + " when joined by blanks");
}

int main(int argc, char **argv) {
    mc::Check C("C10", "model_checking", argc, argv);
    C.rule = "All strings of up to 4 (thorough: 5) characters over an alphabet of 30 with a representative of every character class the lexer distinguishes, NUL and non-ASCII bytes included (up to 3 also through a read-write string stream and a file); all strings of up to 6 (thorough: 7) over number characters, up to 7 (8) over string-literal characters, up to 7 (8) over comment and line-break characters, up to 6 (7) over operator characters; all single and (thorough) double edits of date and datetime literals; every keyword with every single-character change; every byte in every context; very long tokens. Up to the first lexical error the tokens, their texts and positions must equal those of an independent lexer; an error must give an error token at its position and a diagnostic; what follows an error is only required to end.";
    auto all = [&](const std::string &name, const std::string &al, unsigned from, unsigned to, const std::string &pre = "", const std::string &post = "", Stream st = STR) {
        for (unsigned len = from; len <= to; ++len) {
            u64 n = 1; for (unsigned i = 0; i != len; ++i) n *= al.size();
            C.explore(name + " of length " + std::to_string(len), (n + 63) / 64, [&, n, len](u64 i, mc::Worker &W) {
                const u64 lo = i * 64, hi = std::min(n, lo + 64);
                W.states(hi - lo); W.evals(hi - lo);
                for (u64 j = lo; j != hi; ++j) { u64 d = j; std::string s = pre; for (unsigned k = 0; k != len; ++k) s += al[d % al.size()], d /= al.size(); check(s + post, W, st); }
            });
        }
    };
    const unsigned T = C.thorough ? 1 : 0;
    const std::string FULL = std::string(" \n\tda_B017xep.-+'\"\\n=<!;(*,#\xff", 29) + std::string(1, '\0');
    all("strings", FULL, 0, 4 + T);
    all("stringstream", FULL, 0, 3, "", "", RW);
    all("files", FULL, 0, 3, "", "", FILEBUF);
    all("numbers", "0189xXeEpP.-+a", 1, 5 + T);
    all("numbers (few characters)", "019xep.-a", 6, 6 + T);
    all("string literals", "\"\\nta\n ", 5, 7 + T);
    all("string literals with NUL", std::string("\"\\n", 3) + std::string(1, '\0'), 1, 7 + T);
    all("comments", "-\n d'a\r", 5, 7 + T);
    all("operators", "<>=!.-~+/%*;", 5, 5 + T);
    all("instructions", "\\; a\n\"-", 4, 6 + T);
    { /* dates */
        static const char *TEMPLATES[] = { "d'2024-02-29'", "d'-0044-03-15'", "d'2024-02-29 23:59:59'", "d'-0001-01-01 00:00:00'" };
        const std::string al = std::string("0-: '9a\nd", 9) + std::string(1, '\0');
        std::vector<std::string> v;
        auto edits = [&](const std::string &s, std::vector<std::string> &out) {
            for (size_t i = 0; i <= s.size(); ++i) {
                if (i < s.size()) { std::string t = s; t.erase(i, 1); out.push_back(t); for (char c : al) { t = s; t[i] = c; out.push_back(t); } }
                for (char c : al) { std::string t = s; t.insert(i, 1, c); out.push_back(t); }
                out.push_back(s.substr(0, i)); out.push_back(s.substr(i));
            }
        };
        for (auto t : TEMPLATES) { v.push_back(t); std::vector<std::string> e; edits(t, e); for (auto &x : e) v.push_back(x); if (C.thorough) { auto f = e; for (auto &x : f) { std::vector<std::string> g; edits(x, g); v.insert(v.end(), g.begin(), g.end()); } } for (auto &x : e) v.push_back(x + " x"), v.push_back("a " + x + ";"); }
        C.explore("dates", v.size(), [&, v](u64 i, mc::Worker &W) { W.states(); W.evals(); check(v[i], W); });
    }
    { /* keywords */
        std::vector<std::string> v;
        const std::string al = "ABCDEFGHIJKLMNOPQRSTUVWXYZ_0a .(";
        for (auto &k : KWS) {
            const std::string s = k.text; v.push_back(s); v.push_back(s + s); v.push_back(s + ";" + s);
            std::string l; for (char c : s) l += char(tolower(c)); v.push_back(l);
            for (size_t i = 0; i <= s.size(); ++i) { if (i < s.size()) { std::string t = s; t.erase(i, 1); v.push_back(t); t = s; t[i] = tolower(t[i]); v.push_back(t); for (char c : al) { t = s; t[i] = c; v.push_back(t); } } for (char c : al) { std::string t = s; t.insert(i, 1, c); v.push_back(t); } }
            for (auto &m : KWS) v.push_back(s + " " + m.text + "\n" + s), v.push_back(s + m.text);
        }
        C.explore("keywords", v.size(), [&, v](u64 i, mc::Worker &W) { W.states(); W.evals(); check(v[i], W); });
    }
    { /* every byte, and pairs of bytes, in every context */
        static const char *CTX[][2] = { { "", "" }, { "a", "" }, { "a", "a" }, { "1", "1" }, { "\"", "\"" }, { "--", "\na" }, { "\\", ";" }, { "d'", "" }, { "d", "" }, { "\n ", "\n" }, { "0x", "" }, { "1.", "" }, { "<", "=" }, { "\"\\", "\"" }, { "", "=" }, { ".", "." } };
        C.explore("bytes in context", 256 * 16, [&](u64 i, mc::Worker &W) { W.states(); W.evals(); auto &c = CTX[i % 16]; check(c[0] + std::string(1, char(i / 16)) + c[1], W); });
        C.explore("pairs of bytes", 256 * 256, [&](u64 i, mc::Worker &W) { W.states(); W.evals(); check({ char(i % 256), char(i / 256) }, W); });
    }
    { /* long tokens */
        static const unsigned LEN[] = { 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 4096, 65536, 100000 };
        C.explore("long tokens", 16 * 8, [&](u64 i, mc::Worker &W) {
            const unsigned n = LEN[i / 8]; std::string s;
            switch (i % 8) { case 0: s = std::string(n, 'a'); break; case 1: s = std::string(n, '1'); break; case 2: s = "\"" + std::string(n, 'x') + "\""; break; case 3: s = "--" + std::string(n, 'c') + "\na"; break; case 4: s = "\\" + std::string(n, 'i') + ";"; break; case 5: s = std::string(n, '\n') + "a"; break; case 6: s = "." + std::string(n, '7') + " \"" + std::string(n, '\\') + (n % 2 ? "\\\"" : "\""); break; default: s = std::string(n, ' ') + "."; }
            W.states(); W.evals(); check(s, W); check(s + " b", W);
        });
    }
    return C.finish();
}
