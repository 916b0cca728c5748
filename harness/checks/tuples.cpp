/* Values and tuples: all small tuples and all operation histories up to a depth, in lock-step with a model of plain fields. */
#include "common/mc.hpp"
#include "common/heapguard.hpp"
#include <mutable/catalog/Catalog.hpp>
#include <mutable/catalog/Schema.hpp>
#include <mutable/catalog/Type.hpp>
#include <mutable/IR/Tuple.hpp>
#include <cmath>
#include <memory>

using namespace m;
using u64 = uint64_t;

enum Kind { B, I, F, D, S };
/** The value of a field; strings by content. */
struct Field { Kind k; u64 bits = 0; std::string s; bool operator==(const Field &o) const { return k == o.k and bits == o.bits and s == o.s; } };
static u64 bits_of(float f) { u64 u = 0; memcpy(&u, &f, 4); return u; }
static u64 bits_of(double d) { u64 u; memcpy(&u, &d, 8); return u; }
static const char LETTERS[] = "ab\x01\xff";

static constexpr unsigned LEN = 3; // length of strings
static const Type * type_of(Kind k) {
    switch (k) {
        case B: return Type::Get_Boolean(Type::TY_Vector);
        case I: return Type::Get_Integer(Type::TY_Vector, 8);
        case F: return Type::Get_Float(Type::TY_Vector);
        case D: return Type::Get_Double(Type::TY_Vector);
        default: return Type::Get_Char(Type::TY_Vector, LEN);
    }
}
static constexpr unsigned NV = 4;
static Field field(Kind k, unsigned v) {
    switch (k) {
        case B: return { B, v & 1u, "" };
        case I: { static const int64_t x[] = { 0, -1, INT64_MIN, 0x100000001 }; return { I, u64(x[v]), "" }; }
        case F: { static const float x[] = { 0.f, 1.5f, -1.5f, INFINITY }; return { F, bits_of(x[v]), "" }; }
        case D: { static const double x[] = { 0., 1.5, -1e300, NAN }; return { D, bits_of(x[v]), "" }; }
        default: { static const char *x[] = { "", "abc", "ab", "\xff" }; return { S, 0, x[v] }; }
    }
}
static Value value(const Field &f) {
    switch (f.k) {
        case B: return Value(bool(f.bits));
        case I: return Value(int64_t(f.bits));
        case F: { float x; memcpy(&x, &f.bits, 4); return Value(x); }
        case D: { double x; memcpy(&x, &f.bits, 8); return Value(x); }
        default: M_unreachable("strings are written in place");
    }
}
/** Reads a field of the tuple, ignoring its NULL bit. */
static Field read(const Tuple &t, unsigned i, Kind k) {
    const Value &v = t[i];
    switch (k) {
        case B: return { B, v.as_b(), "" };
        case I: return { I, u64(v.as_i()), "" };
        case F: return { F, bits_of(v.as_f()), "" };
        case D: return { D, bits_of(v.as_d()), "" };
        default: return { S, 0, v.as<char*>() };
    }
}
static void write(Tuple &t, unsigned i, const Field &f, int null = -1) {
    if (f.k == S) { strcpy(t[i].as<char*>(), f.s.c_str()); if (null == 1) t.null(i); else t.not_null(i); }
    else if (null < 0) t.set(i, value(f));
    else t.set(i, value(f), null);
}

struct Model { std::vector<Kind> ty; std::vector<bool> null; std::vector<std::optional<Field>> val; // no value: never written
    Model(std::vector<Kind> ty = {}) : ty(ty), null(ty.size(), true), val(ty.size()) { } };
static std::string show(const Field &f) { return f.k == S ? "\"" + f.s + "\"" : std::to_string(f.bits); }
static std::string show(const Model &m) { std::string o = "("; for (unsigned i = 0; i != m.ty.size(); ++i) o += (i ? "," : "") + std::string(1, "BIFDS"[m.ty[i]]) + (m.null[i] ? "NULL" : m.val[i] ? show(*m.val[i]) : "?"); return o + ")"; }
/** Checks that the tuple holds what the model says; returns the first difference. */
static std::string compare(const Tuple &t, const Model &m, bool under_null = true) {
    for (unsigned i = 0; i != m.ty.size(); ++i) {
        if (t.is_null(i) != m.null[i]) return "field " + std::to_string(i) + (m.null[i] ? " is not NULL" : " is NULL");
        if (m.val[i] and (not m.null[i] or (under_null and m.ty[i] != S))) {
            Field f = read(t, i, m.ty[i]);
            if (not (f == *m.val[i])) return "field " + std::to_string(i) + " holds " + show(f) + " instead of " + show(*m.val[i]);
        }
    }
    return "";
}
static Schema schema(const std::vector<Kind> &ty) { Schema s; for (unsigned i = 0; i != ty.size(); ++i) s.add({ Catalog::Get().pool(std::to_string(i).c_str()) }, type_of(ty[i])); return s; }
static Tuple make(const std::vector<Kind> &ty, bool by_schema) { if (by_schema) return Tuple(schema(ty)); std::vector<const Type*> v; for (auto k : ty) v.push_back(type_of(k)); return Tuple(v); }
static std::vector<Kind> kinds(u64 &i, unsigned w) { std::vector<Kind> k; for (unsigned j = 0; j != w; ++j) k.push_back(Kind(i % 5)), i /= 5; return k; }
/** Tuple number `i` of these types: every field NULL or one of NV values; strings excluded if not `str`. */
static std::pair<Tuple, Model> tuple(const std::vector<Kind> &ty, u64 i, bool by_schema) {
    Tuple t = make(ty, by_schema); Model m(ty);
    for (unsigned j = 0; j != ty.size(); ++j) { const unsigned v = i % (NV + 1); i /= NV + 1; if (v == NV) continue; m.val[j] = field(ty[j], v); m.null[j] = false; write(t, j, *m.val[j]); }
    return { std::move(t), std::move(m) };
}

int main(int argc, char **argv) {
    mc::Check C("C28", "model_checking", argc, argv);
    Catalog::Get();
    C.rule = "Values constructed from boundary values of every fundamental type (conversion, equality and hash of all pairs); all tuples of 1 to 3 (thorough: 4) fields over {bool, int, float, double, char(3)} with 4 values and NULL per field: constructors, field access, clone, printing order; all pairs of such tuples of equal types of 1 to 2 (thorough: 3) fields: equality, hash, insertion at every position, swap, move construction and assignment; all histories of up to 4 (thorough: 5) operations set, set with NULL flag, null, not_null, clear, insert, clone, swap, move on two tuples of 3 fields; single-field operations on every field of tuples of 1 to 64 fields. Field values are compared by their stored representation; for equality of tuples, character strings are compared by the storage they refer to, as documented.";

    { // values
        struct Named { std::string n; Value v; Kind k; u64 bits; };
        std::vector<Named> V;
        auto add = [&](auto x, Kind k, u64 bits, const char *n) { V.push_back({ std::string(n) + std::to_string(bits), Value(x), k, bits }); };
        for (bool b : { false, true }) add(b, B, b, "bool");
#define INTS(T) for (T x : { std::numeric_limits<T>::min(), T(-1), T(0), T(1), T(77), std::numeric_limits<T>::max() }) add(x, I, u64(int64_t(x)), #T);
        INTS(int8_t) INTS(int16_t) INTS(int32_t) INTS(int64_t) INTS(uint8_t) INTS(uint16_t) INTS(uint32_t) INTS(uint64_t) INTS(char)
        for (float f : { 0.f, -0.f, 1.f, -1.f, 1e-45f, INFINITY, -INFINITY }) add(f, F, bits_of(f), "float");
        for (double d : { 0., -0., 1., -1., 5e-324, double(INFINITY), 0.1 }) add(d, D, bits_of(d), "double");
        static int x, y;
        for (void *p : { (void*) nullptr, (void*) &x, (void*) &y }) add(p, S, u64(p), "pointer");
        C.explore("values", V.size(), [&, V](u64 i, mc::Worker &W) {
            auto &a = V[i];
            W.describe("value " + a.n); W.states();
            auto bad = [&](const std::string &w) { W.fail("value " + a.n + " " + w, "Value of " + a.n + ": " + w); };
            const Value &v = a.v;
            switch (a.k) {
                case B: if (v.as_b() != bool(a.bits) or v.as<bool>() != bool(a.bits) or bool(v) != bool(a.bits)) bad("read"); break;
                case I: if (u64(v.as_i()) != a.bits or u64(v.as<int64_t>()) != a.bits or u64(int64_t(v)) != a.bits or int32_t(v) != int32_t(a.bits)) bad("read"); break;
                case F: if (bits_of(v.as_f()) != a.bits or bits_of(float(v)) != a.bits) bad("read"); break;
                case D: if (bits_of(v.as_d()) != a.bits or bits_of(double(v)) != a.bits) bad("read"); break;
                case S: if (u64(v.as_p()) != a.bits or u64(v.as<char*>()) != a.bits or u64(static_cast<int*>(v)) != a.bits) bad("read"); break;
            }
            for (auto &b : V) if (b.k == a.k) {
                W.evals(3);
                const bool e = a.bits == b.bits;
                if ((a.v == b.v) != e or (a.v != b.v) == e) bad("equality with " + b.n);
                if (e and std::hash<Value>{}(a.v) != std::hash<Value>{}(b.v)) bad("hash differs from equal " + b.n);
                Value c = a.v; c = b.v; if (c != b.v) bad("assignment of " + b.n);
                Value z; z = a.v; if (z != a.v) bad("assignment to empty value");
                /* write through a reference */
                Value r = a.v;
                switch (a.k) { case B: r.as_b() = bool(b.bits); break; case I: r.as_i() = int64_t(b.bits); break; case F: { float f; memcpy(&f, &b.bits, 4); r.as_f() = f; break; } case D: { double d; memcpy(&d, &b.bits, 8); r.as_d() = d; break; } default: r = b.v; }
                if (r != b.v) bad("write of " + b.n);
            }
        });
    }
    auto pw = [](u64 b, unsigned e) { u64 r = 1; while (e--) r *= b; return r; };
    for (unsigned w = 1; w <= (C.thorough ? 4u : 3u); ++w) {
        const u64 n = pw(NV + 1, w), nk = pw(5, w);
        C.explore("tuples of " + std::to_string(w) + " fields", nk * n * 2, [&, w, n](u64 i, mc::Worker &W) {
            const bool by_schema = i & 1; i /= 2;
            u64 k = i / n; const auto ty = kinds(k, w);
            auto [t, m] = tuple(ty, i % n, by_schema);
            W.describe("tuple " + show(m)); W.states(); W.evals(6);
            auto bad = [&](const std::string &op, const std::string &d) { W.fail(op + " " + show(m) + (by_schema ? "" : "v"), op + " of " + show(m) + ": " + d); };
            std::string d;
            if (not (d = compare(t, m)).empty()) bad("construction", d);
            const Schema s = schema(ty);
            Tuple c = t.clone(s);
            if (not (d = compare(c, m, false)).empty()) bad("clone", d);
            if (not (d = compare(t, m)).empty()) bad("source of clone", d);
            for (unsigned j = 0; j != w; ++j) if (ty[j] == S and c[j].as_p() == t[j].as_p()) bad("clone", "shares the string");
            { Model e = m; for (unsigned j = 0; j != w; ++j) if (ty[j] == S) write(c, j, Field{ S, 0, "zzz" }), e.val[j] = Field{ S, 0, "zzz" }, e.null[j] = false;
              if (not (d = compare(c, e, false)).empty()) bad("write to clone", d);
              if (not (d = compare(t, m)).empty()) bad("write to clone changed source", d); }
            for (unsigned j = 0; j != w; ++j) if (not m.null[j]) { if (&t.get(j) != &t[j]) bad("get", "differs from []"); }
            Tuple u = t.clone(s); u.clear(); { Model e(ty); if (not (d = compare(u, e)).empty()) bad("clear", d); }
            if (not (u == u.clone(s))) bad("all-NULL tuples", "not equal");
            std::ostringstream o; t.print(o, s);
            std::string e; for (unsigned j = 0; j != w; ++j) { std::ostringstream f; if (m.null[j]) f << "NULL"; else t[j].print(f, *s[j].type); e += (j ? "," : "") + f.str(); }
            if (o.str().substr(0, 0) != "" or (o.str() != e)) bad("print", o.str());
            W.outcome(std::to_string(w) + show(m).substr(0, 12));
        });
    }
    for (unsigned w = 1; w <= (C.thorough ? 3u : 2u); ++w) {
        const u64 n = pw(NV + 1, w), nk = pw(5, w);
        C.explore("pairs of tuples of " + std::to_string(w) + " fields", nk * n, [&, w, n](u64 i, mc::Worker &W) {
            u64 k = i / n; const auto ty = kinds(k, w); const Schema s = schema(ty);
            bool strings = false; for (auto k : ty) strings |= k == S;
            auto [a, ma] = tuple(ty, i % n, true);
            for (u64 j = 0; j != n; ++j) {
                auto [b, mb] = tuple(ty, j, j & 1);
                W.describe("tuples " + show(ma) + show(mb)); W.states(); W.evals(6);
                auto bad = [&](const std::string &op, const std::string &d) { W.fail(op + " " + show(ma) + show(mb), op + " of " + show(ma) + " and " + show(mb) + ": " + d); };
                std::string d;
                if (not strings) {
                    bool e = true; for (unsigned f = 0; f != w; ++f) if (ma.null[f] != mb.null[f] or (not ma.null[f] and not (*ma.val[f] == *mb.val[f]))) e = false;
                    if ((a == b) != e or (b == a) != e or (a != b) == e) bad("equality", e ? "equal tuples differ" : "different tuples are equal");
                    if (e and std::hash<Tuple>{}(a) != std::hash<Tuple>{}(b)) bad("hash", "equal tuples hash differently");
                    W.outcome(e ? "equal" : "different");
                }
                /* insert b into a larger tuple at every position */
                for (unsigned pos = 0; pos <= 2; ++pos) for (unsigned len = 0; len <= w; ++len) {
                    std::vector<Kind> big; for (unsigned x = 0; x != pos; ++x) big.push_back(I); big.insert(big.end(), ty.begin(), ty.end()); big.push_back(B);
                    Tuple t = make(big, true); Model m(big);
                    write(t, w + pos, field(B, 1)); m.val[w + pos] = field(B, 1); m.null[w + pos] = false;
                    if (pos) { write(t, 0, field(I, 1)); m.val[0] = field(I, 1); m.null[0] = false; }
                    t.insert(b, pos, len);
                    for (unsigned x = 0; x != len; ++x) { m.null[pos + x] = mb.null[x]; m.val[pos + x] = mb.val[x]; }
                    if (not (d = compare(t, m, false)).empty()) bad("insert at " + std::to_string(pos) + "," + std::to_string(len), d);
                }
                { Tuple x = a.clone(s); swap(x, b); if (not (d = compare(x, mb, false)).empty() or not (d = compare(b, ma, false)).empty()) bad("swap", d);
                  Tuple y(std::move(x)); if (not (d = compare(y, mb, false)).empty()) bad("move construction", d);
                  Tuple z; z = std::move(y); if (not (d = compare(z, mb, false)).empty()) bad("move", d);
                  b = std::move(z); if (not (d = compare(b, mb, false)).empty()) bad("move assignment", d); }
                if (not (d = compare(a, ma)).empty()) bad("untouched tuple", d);
            }
        }, 16);
    }
    { // histories
        static const std::vector<Kind> ty = { I, S, D };
        /* operations: on tuple 0 or 1 */
        const unsigned NOPS = 2 * (3 * 2 + 3 * 2 + 3 + 3 + 1) + 8;
        const unsigned DEPTH = C.thorough ? 5 : 4;
        C.explore("histories", pw(NOPS, DEPTH), [&](u64 i, mc::Worker &W) {
            const Schema s = schema(ty);
            Tuple t[2] = { Tuple(s), Tuple(s) }; Model m[2] = { Model(ty), Model(ty) };
            std::string log;
            for (unsigned k = 0; k != DEPTH; ++k) {
                unsigned op = i % NOPS; i /= NOPS;
                W.transitions();
                const unsigned per = 19;
                if (op < 2 * per) {
                    const unsigned x = op / per; op %= per;
                    Tuple &T = t[x]; Model &M = m[x];
                    const std::string who = " t" + std::to_string(x);
                    if (op < 6) { const unsigned f = op / 2; const Field v = field(ty[f], 1 + op % 2); log += who + "[" + std::to_string(f) + "]=" + show(v); write(T, f, v); M.val[f] = v; M.null[f] = false; }
                    else if (op < 12) { op -= 6; const unsigned f = op / 2, n = op % 2; const Field v = field(ty[f], 1); log += who + "[" + std::to_string(f) + "]=" + show(v) + (n ? "/NULL" : "/set"); write(T, f, v, n); M.val[f] = v; M.null[f] = n; }
                    else if (op < 15) { const unsigned f = op - 12; log += who + ".null" + std::to_string(f); T.null(f); M.null[f] = true; }
                    else if (op < 18) { const unsigned f = op - 15; log += who + ".not_null" + std::to_string(f); T.not_null(f); M.null[f] = false; if (not M.val[f]) M.val[f] = ty[f] == S ? Field{ S, 0, "" } : Field{ ty[f], 0, "" }, M.val[f]->k = ty[f]; 
                        if (ty[f] != S and T[f].type == Value::VNone) { T.null(f); M.null[f] = true; M.val[f].reset(); } /* never written: nothing to read */ }
                    else { log += who + ".clear"; T.clear(); for (unsigned f = 0; f != 3; ++f) M.null[f] = true; }
                } else {
                    op -= 2 * per;
                    switch (op) {
                        case 0: log += " swap"; swap(t[0], t[1]); std::swap(m[0], m[1]); break;
                        case 1: log += " t0=clone(t1)"; t[0] = t[1].clone(s); m[0] = m[1]; for (unsigned f = 0; f != 3; ++f) if (m[0].null[f]) m[0].val[f].reset(); break;
                        case 2: log += " t1=clone(t0)"; t[1] = t[0].clone(s); m[1] = m[0]; for (unsigned f = 0; f != 3; ++f) if (m[1].null[f]) m[1].val[f].reset(); break;
                        case 3: { log += " t0=move(t0)"; Tuple x(std::move(t[0])); t[0] = std::move(x); break; }
                        case 4: { log += " t0.insert(int)"; Tuple x(std::vector<const Type*>{ type_of(I) }); x.set(0, int64_t(99)); t[0].insert(x, 0, 1); m[0].val[0] = Field{ I, 99, "" }; m[0].null[0] = false; break; }
                        case 5: { log += " t1.insert(NULL)"; Tuple x(std::vector<const Type*>{ type_of(Kind::D) }); t[1].insert(x, 2, 1); m[1].null[2] = true; m[1].val[2].reset(); break; }
                        case 6: { log += " t0[0]=t1[0]"; t[0].set(0, t[1][0], t[1].is_null(0)); m[0].val[0] = m[1].val[0]; m[0].null[0] = m[1].null[0]; break; }
                        case 7: { log += " t1=move(t0)"; t[1] = std::move(t[0]); m[1] = m[0]; t[0] = Tuple(s); m[0] = Model(ty); break; }
                    }
                }
                W.describe(log);
                for (unsigned x = 0; x != 2; ++x) if (auto d = compare(t[x], m[x]); not d.empty()) { W.fail("history" + log, "history" + log + ": tuple " + std::to_string(x) + ": " + d); return; }
            }
            W.states();
        }, 1024);
    }
    C.explore("wide tuples", 64 * 64, [&](u64 i, mc::Worker &W) {
        const unsigned w = i / 64 + 1, f = i % 64;
        if (f >= w) return;
        W.describe("wide tuple " + std::to_string(w) + "." + std::to_string(f)); W.states(); W.evals(5 * w);
        std::vector<Kind> ty; for (unsigned k = 0; k != w; ++k) ty.push_back(Kind((k * 3 + f) % 5));
        auto bad = [&](const char *op, const std::string &d) { W.fail(std::string(op) + std::to_string(w) + "." + std::to_string(f), std::string(op) + " of field " + std::to_string(f) + " of " + std::to_string(w) + ": " + d); };
        for (int full = 0; full != 2; ++full) {
            Tuple t = make(ty, true); Model m(ty);
            if (full) for (unsigned k = 0; k != w; ++k) { m.val[k] = field(ty[k], k % NV); m.null[k] = false; write(t, k, *m.val[k]); }
            std::string d;
            if (not (d = compare(t, m)).empty()) bad("construction", d);
            write(t, f, field(ty[f], 1)); m.val[f] = field(ty[f], 1); m.null[f] = false;
            if (not (d = compare(t, m)).empty()) bad("set", d);
            Tuple c = t.clone(schema(ty)); if (not (d = compare(c, m, false)).empty()) bad("clone", d);
            t.null(f); m.null[f] = true; if (not (d = compare(t, m)).empty()) bad("null", d);
            if (t == c) bad("equality", "NULL equals a value");
            t.not_null(f); m.null[f] = false; if (not (d = compare(t, m)).empty()) bad("not_null", d);
            write(t, f, field(ty[f], 2), 1); m.val[f] = field(ty[f], 2); m.null[f] = true; if (not (d = compare(t, m)).empty()) bad("set NULL", d);
        }
    });
    return C.finish();
}
