/* C07: data layouts.  (1) geometry: every attribute and NULL bit of every tuple of every layout lies at its own, aligned
 * place inside the region of its block; (2) round trips: every store/load code compiled by the interpreter, from any row,
 * for any subset of the attributes, against a model that only knows the geometry; (3) whole tables through SQL. */
#include "common/mc.hpp"
#include "common/heapguard.hpp"
#include "common/refquery.hpp"
#include "backend/Interpreter.hpp"
#include <mutable/storage/DataLayoutFactory.hpp>
#include <mutable/storage/DataLayout.hpp>
#include <memory>
using namespace m; using namespace m::storage;
using u64 = uint64_t; using u8 = uint8_t;

static constexpr u64 GUARD = 64;
struct TD { std::string name; const PrimitiveType *t; };
static std::vector<TD> all_types() {
    auto V = Type::TY_Vector;
    return { { "b", Type::Get_Boolean(V) }, { "i1", Type::Get_Integer(V, 1) }, { "i2", Type::Get_Integer(V, 2) }, { "i4", Type::Get_Integer(V, 4) }, { "i8", Type::Get_Integer(V, 8) },
        { "f", Type::Get_Float(V) }, { "d", Type::Get_Double(V) }, { "m9", Type::Get_Decimal(V, 9, 2) }, { "m18", Type::Get_Decimal(V, 18, 2) }, { "c1", Type::Get_Char(V, 1) },
        { "c3", Type::Get_Char(V, 3) }, { "v2", Type::Get_Varchar(V, 2) }, { "dt", Type::Get_Date(V) }, { "ts", Type::Get_Datetime(V) } };
}
struct FD { std::string name; std::function<DataLayout(std::vector<const Type*>, u64)> make; };
static FD pax_t(u64 n) { return { "PAX(" + std::to_string(n) + " tuples)", [n](auto ts, u64 N) { return PAXLayoutFactory(PAXLayoutFactory::NTuples, n).make(ts, N); } }; }
static FD pax_b(u64 n) { return { "PAX(" + std::to_string(n) + " bytes)", [n](auto ts, u64 N) { return PAXLayoutFactory(PAXLayoutFactory::NBytes, n).make(ts, N); } }; }
static FD row() { return { "Row", [](auto ts, u64 N) { return RowLayoutFactory().make(ts, N); } }; }

/*----- geometry -------------------------------------------------------------------------------------------------------*/
/** Bit position of leaf `idx` for tuple `t`, by the definition of offsets and strides; -1 if there is no such leaf. */
static int64_t position(const DataLayout::INode &node, u64 idx, u64 t) {
    for (u64 c = 0; c != node.num_children(); ++c) {
        auto &ch = node[c];
        if (auto leaf = cast<const DataLayout::Leaf>(ch.ptr.get())) {
            if (leaf->index() == idx) return int64_t(ch.offset_in_bits + t * ch.stride_in_bits);
        } else {
            auto in = as<const DataLayout::INode>(ch.ptr.get());
            auto p = position(*in, idx, t % in->num_tuples());
            if (p >= 0) return int64_t(ch.offset_in_bits + t / in->num_tuples() * ch.stride_in_bits) + p;
        }
    }
    return -1;
}
static int64_t position(const DataLayout &L, u64 idx, u64 t) { return position(static_cast<const DataLayout::INode&>(L), idx, t); }
static u64 block_tuples(const DataLayout &L) { return L.child().num_tuples(); }
static u64 block_bits(const DataLayout &L) { return L.stride_in_bits(); }
static u64 region_bytes(const DataLayout &L, u64 n) { return ((n + block_tuples(L) - 1) / block_tuples(L)) * (block_bits(L) / 8); }

static std::string names(const std::vector<TD> &ts) { std::string s; for (auto &t : ts) s += (s.empty() ? "" : ",") + t.name; return "(" + s + ")"; }
static std::vector<const Type*> raw(const std::vector<TD> &ts) { std::vector<const Type*> r; for (auto &t : ts) r.push_back(t.t); return r; }

/** Returns an empty string or what is wrong.  Checks tuples [0, 2n] and around further block boundaries. */
static std::string check_geometry(const std::vector<TD> &ts, const DataLayout &L, u64 &examined) {
    const u64 n = block_tuples(L), S = block_bits(L), A = ts.size();
    if (n == 0 or S == 0 or S % 8) return "block of " + std::to_string(n) + " tuples in " + std::to_string(S) + " bits";
    std::vector<u64> tuples;
    for (u64 t = 0; t <= std::min<u64>(2 * n, 40); ++t) tuples.push_back(t);
    for (u64 b = 1; b <= 3; ++b) for (int k = -9; k <= 9; ++k) if (int64_t(b * n) + k > int64_t(tuples.back())) tuples.push_back(b * n + k);
    struct Iv { u64 lo, hi, t, a; };
    std::vector<Iv> iv; iv.reserve(tuples.size() * (A + 1));
    for (u64 t : tuples) {
        const u64 blk = t / n;
        for (u64 a = 0; a <= A; ++a) {
            int64_t p = position(L, a, t);
            if (p < 0) return "no place for " + (a == A ? std::string("the NULL bitmap") : "attribute " + std::to_string(a));
            u64 sz = a == A ? A : ts[a].t->size();
            if (a != A and p % ts[a].t->alignment()) return "attribute " + std::to_string(a) + " of tuple " + std::to_string(t) + " at bit " + std::to_string(p) + " is not aligned";
            if (u64(p) < blk * S or p + sz > (blk + 1) * S) return (a == A ? "NULL bitmap" : "attribute " + std::to_string(a)) + std::string(" of tuple ") + std::to_string(t) + " leaves its block";
            iv.push_back({ u64(p), p + sz, t, a });
        }
    }
    examined += iv.size();
    std::sort(iv.begin(), iv.end(), [](auto &x, auto &y) { return x.lo < y.lo; });
    for (u64 i = 1; i < iv.size(); ++i)
        if (iv[i - 1].hi > iv[i].lo)
            return "attribute " + std::to_string(iv[i - 1].a) + " of tuple " + std::to_string(iv[i - 1].t) + " overlaps attribute " + std::to_string(iv[i].a) + " of tuple " + std::to_string(iv[i].t);
    return "";
}

/*----- values ---------------------------------------------------------------------------------------------------------*/
struct Val { bool null = false; std::string bytes; }; ///< bytes as stored (bool: one byte 0/1; strings zero padded)
static Val value(const TD &td, u64 k) { ///< k-th value of the type
    Val v; auto put = [&](auto x) { v.bytes.assign(reinterpret_cast<char*>(&x), sizeof x); };
    auto &t = *td.t;
    if (t.is_boolean()) put(u8(k & 1));
    else if (t.is_date()) put(int32_t(k % 3 == 0 ? 0 : k % 3 == 1 ? 0x7FFF1234 : -17 - int(k)));
    else if (t.is_date_time()) put(int64_t(k % 3 == 0 ? -1 : int64_t(k) * 0x0123456789LL));
    else if (auto c = cast<const CharacterSequence>(&t)) {
        u64 len = k % (c->length + 1); std::string s; for (u64 i = 0; i != len; ++i) s += char('a' + (k + i) % 26); if (k % 7 == 6 and len) s[0] = char(0xFF);
        s.resize(c->size() / 8, '\0'); v.bytes = s;
    } else {
        auto &n = as<const Numeric>(t);
        if (n.kind == Numeric::N_Float) { if (n.size() == 32) put(float(k % 4 == 3 ? -0.f : 1.5f * k - 7)); else put(double(k % 4 == 3 ? 1e300 : -2.25 * k)); }
        else { int64_t x = k % 4 == 0 ? -1 : k % 4 == 1 ? int64_t(0x8081828384858687ULL) : k % 4 == 2 ? 0 : int64_t(k * 0x9E3779B97F4A7C15ULL);
            switch (n.size()) { case 8: put(int8_t(x)); break; case 16: put(int16_t(x)); break; case 32: put(int32_t(x)); break; default: put(x); } }
    }
    return v;
}
static void set(Tuple &T, u64 i, const TD &td, const Val &v) {
    auto &t = *td.t;
    if (t.is_character_sequence()) { char *p = reinterpret_cast<char*>(T[i].as_p()); memcpy(p, v.bytes.data(), v.bytes.size()); if (as<const CharacterSequence>(t).is_varying) {} else p[v.bytes.size()] = 0; T.not_null(i); if (v.null) T.null(i); return; }
    auto rd = [&](auto x) { memcpy(&x, v.bytes.data(), sizeof x); return x; };
    Value val;
    if (t.is_boolean()) val = bool(rd(u8()));
    else if (t.is_date()) val = int64_t(rd(int32_t()));
    else if (t.is_date_time()) val = rd(int64_t());
    else { auto &n = as<const Numeric>(t);
        if (n.kind == Numeric::N_Float) { if (n.size() == 32) val = rd(float()); else val = rd(double()); }
        else switch (n.size()) { case 8: val = int64_t(rd(int8_t())); break; case 16: val = int64_t(rd(int16_t())); break; case 32: val = int64_t(rd(int32_t())); break; default: val = rd(int64_t()); } }
    T.set(i, val, v.null);
}
/** The field as bytes of the same form. */
static Val get(const Tuple &T, u64 i, const TD &td) {
    Val v; auto put = [&](auto x) { v.bytes.assign(reinterpret_cast<char*>(&x), sizeof x); };
    if (T.is_null(i)) { v.null = true; return v; }
    auto &t = *td.t;
    if (auto c = cast<const CharacterSequence>(&t)) { const char *p = reinterpret_cast<const char*>(T.get(i).as_p()); v.bytes.assign(p, strnlen(p, c->size() / 8)); v.bytes.resize(c->size() / 8, '\0'); }
    else if (t.is_boolean()) put(u8(T.get(i).as_b()));
    else if (t.is_date()) put(int32_t(T.get(i).as_i()));
    else if (t.is_date_time()) put(T.get(i).as_i());
    else { auto &n = as<const Numeric>(t);
        if (n.kind == Numeric::N_Float) { if (n.size() == 32) put(T.get(i).as_f()); else put(T.get(i).as_d()); }
        else switch (n.size()) { case 8: put(int8_t(T.get(i).as_i())); break; case 16: put(int16_t(T.get(i).as_i())); break; case 32: put(int32_t(T.get(i).as_i())); break; default: put(T.get(i).as_i()); } }
    return v;
}
static std::string hexs(const std::string &s) { std::string o; char b[4]; for (u8 c : s) { snprintf(b, 4, "%02x", c); o += b; } return o; }
static std::string showv(const Val &v) { return v.null ? "NULL" : hexs(v.bytes); }

/*----- a region of memory in which tuples are stored -------------------------------------------------------------------*/
struct Case {
    std::vector<TD> ts; Schema S; std::vector<bool> nn; DataLayout L; u64 N, bytes;
    std::vector<u8> mem; u8 *base;
    std::vector<std::vector<Val>> model; ///< what each stored row holds
    Case(std::vector<TD> ts_, u64 nnmask, const FD &F, u64 N) : ts(ts_), L(F.make(raw(ts_), 0)), N(N) {
        auto &C = Catalog::Get();
        for (u64 a = 0; a != ts.size(); ++a) {
            nn.push_back(nnmask >> a & 1);
            S.add(Schema::Identifier(C.pool("T"), C.pool(("a" + std::to_string(a)).c_str())), ts[a].t, nn[a] ? Schema::entry_type::NOT_NULLABLE : Schema::entry_type::constraints_t{0});
        }
        bytes = region_bytes(L, N);
        mem.assign(bytes + 2 * GUARD + 64, 0xA5);
        base = mem.data() + GUARD; base += (64 - uintptr_t(base) % 64) % 64;
        memset(base, 0, bytes); // stores deliver fresh, zeroed memory
        model.assign(N, std::vector<Val>(ts.size()));
    }
    Schema sub(u64 mask) const { Schema R; for (u64 a = 0; a != ts.size(); ++a) if (mask >> a & 1) R.add(S[a]); return R; }
    /** Stores rows [from, to) for the attributes in `mask` with one machine. */
    void store(u64 mask, u64 from, u64 to, const std::function<Val(u64,u64)> &gen) {
        Schema R = sub(mask);
        auto SM = Interpreter::compile_store(R, base, L, S, from);
        Tuple T(R);
        for (u64 r = from; r != to; ++r) {
            u64 i = 0;
            for (u64 a = 0; a != ts.size(); ++a) if (mask >> a & 1) { Val v = gen(r, a); if (nn[a]) v.null = false; set(T, i++, ts[a], v); model[r][a] = v; }
            Tuple *args[] = { &T }; SM(args);
        }
    }
    /** Loads rows [from, to) of the attributes in `mask` with one machine and compares. */
    std::string load(u64 mask, u64 from, u64 to, u64 &ev) {
        Schema R = sub(mask);
        auto SM = Interpreter::compile_load(R, base, L, S, from);
        Tuple T(R);
        for (u64 r = from; r != to; ++r) {
            Tuple *args[] = { &T }; SM(args);
            u64 i = 0;
            for (u64 a = 0; a != ts.size(); ++a) if (mask >> a & 1) {
                Val g = get(T, i++, ts[a]); auto &e = model[r][a]; ++ev;
                if (g.null != e.null or (not g.null and g.bytes != e.bytes)) return "row " + std::to_string(r) + " attribute " + std::to_string(a) + " (" + ts[a].name + ") reads " + showv(g) + " instead of " + showv(e) + " (machine started at row " + std::to_string(from) + ", attributes " + std::to_string(mask) + ")";
            }
        }
        return "";
    }
    /** The bytes themselves, decoded by position, and the guards around the region. */
    std::string raw_check(u64 &ev) {
        for (u64 r = 0; r != N; ++r) for (u64 a = 0; a != ts.size(); ++a) {
            auto &e = model[r][a]; if (e.bytes.empty()) continue; // never stored
            u64 nb = position(L, ts.size(), r) + a; bool isn = base[nb / 8] >> (nb % 8) & 1; ++ev;
            if (not nn[a] and isn != e.null) return "row " + std::to_string(r) + " attribute " + std::to_string(a) + ": NULL bit " + std::to_string(isn) + " in memory instead of " + std::to_string(e.null);
            if (e.null) continue;
            u64 p = position(L, a, r); std::string g;
            if (ts[a].t->is_boolean()) g = std::string(1, char(base[p / 8] >> (p % 8) & 1)); else g.assign(reinterpret_cast<char*>(base + p / 8), ts[a].t->size() / 8);
            if (ts[a].t->is_character_sequence()) { auto z = g.find('\0'); if (z != std::string::npos) std::fill(g.begin() + z, g.end(), '\0'); }
            if (g != e.bytes) return "row " + std::to_string(r) + " attribute " + std::to_string(a) + " (" + ts[a].name + ") holds " + hexs(g) + " in memory instead of " + hexs(e.bytes);
        }
        for (u8 *p = mem.data(); p != base; ++p) if (*p != 0xA5) return "wrote before the region";
        for (u8 *p = base + bytes; p != mem.data() + mem.size(); ++p) if (*p != 0xA5) return "wrote behind the region";
        return "";
    }
};

int main(int argc, char **argv)
{
    mc::Check C("C07", "model_checking", argc, argv);
    C.rule = "one outcome per (schema, layout, rows, NULL pattern, operation order): memory and values read back equal the model";
    Catalog::Get();
    const auto T = all_types();
    const u64 NT = T.size();
    const char *regs[] = { "PAX4M", "PAX4K", "PAX64K", "PAX512K", "PAX64M", "PAX16Tup", "PAX128Tup", "PAX1024Tup", "Row" };

    /*----- (1) geometry ------------------------------------------------------------------------------------------------*/
    std::vector<FD> geo{ row(), pax_t(1), pax_t(2), pax_t(3), pax_t(7), pax_t(8), pax_t(9), pax_t(15), pax_t(16), pax_t(17), pax_t(100), pax_t(128), pax_t(1024), pax_b(64), pax_b(128), pax_b(192), pax_b(512), pax_b(4096), pax_b(1 << 16), pax_b(1 << 19), pax_b(1 << 22), pax_b(1 << 26) };
    unsigned maxw = C.thorough ? 4 : 3;
    u64 nseq = 0, pw = 1; for (unsigned w = 1; w <= maxw; ++w) { pw *= NT; nseq += pw; }
    auto seq = [&](u64 i, u64 K, std::vector<u64> pick = {}) { u64 p = K, w = 1; while (i >= p) { i -= p; p *= K; ++w; } std::vector<TD> r; for (u64 k = 0; k != w; ++k, i /= K) r.push_back(T[pick.empty() ? i % K : pick[i % K]]); return r; };
    auto geometry = [&](const std::vector<TD> &ts, const FD &F, mc::Worker &W) {
        W.describe("crash geometry :: " + F.name + names(ts));
        auto L = F.make(raw(ts), 0); u64 ex = 0;
        auto e = check_geometry(ts, L, ex); W.evals(ex); W.states();
        if (not e.empty()) W.fail("geometry " + F.name, F.name + " " + names(ts) + ": " + e);
    };
    C.explore("geometry", nseq, [&](u64 i, mc::Worker &W) { auto ts = seq(i, NT); for (auto &F : geo) geometry(ts, F, W); W.outcome(names(ts)); });
    /* wide schemas: the NULL bitmap grows over bytes and words; rows wider than a block */
    std::vector<std::vector<TD>> wide;
    for (u64 w : { 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64 }) for (u64 a = 0; a != NT; ++a) for (u64 b = 0; b != NT; ++b) { std::vector<TD> v; for (u64 k = 0; k != w; ++k) v.push_back(T[k % 3 == 2 ? b : a]); wide.push_back(v); }
    C.explore("geometry wide", wide.size(), [&](u64 i, mc::Worker &W) { for (auto &F : geo) geometry(wide[i], F, W); W.outcome(std::to_string(i)); });
    /* finite layouts (result sets) have the same geometry */
    C.explore("geometry finite", nseq < 3000 ? nseq : 3000, [&](u64 i, mc::Worker &W) {
        auto ts = seq(i, NT);
        for (auto &F : geo) for (u64 N : { 2, 16, 1000 }) {
            W.describe("crash geometry finite :: " + F.name + names(ts)); auto L = F.make(raw(ts), N), L0 = F.make(raw(ts), 0); W.states();
            if (not L.is_finite() or L.num_tuples() != N) W.fail("finite", F.name + names(ts) + ": not a layout of " + std::to_string(N) + " tuples");
            for (u64 t = 0; t < N; t += 1 + N / 16) for (u64 a = 0; a <= ts.size(); ++a) { W.evals(); if (position(L, a, t) != position(L0, a, t)) W.fail("finite", F.name + names(ts) + ": position differs between finite and infinite layout"); }
        }
        W.outcome(names(ts));
    });

    /*----- (2) round trips ---------------------------------------------------------------------------------------------*/
    std::vector<u64> pick{ 0, 1, 4, 5, 10, 11 }; // bool, i1, i8, f, c3, v2
    if (C.thorough) pick = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13 };
    const u64 K = pick.size();
    u64 nrt = 0; pw = 1; for (unsigned w = 1; w <= 3; ++w) { pw *= K; nrt += pw; }
    std::vector<FD> rt{ row(), pax_t(1), pax_t(2), pax_t(3), pax_t(5), pax_t(8), pax_t(9), pax_t(16), pax_b(64) };
    auto gen0 = [](u64 salt, u64 pattern, u64 w, const std::vector<TD> &ts) { return [=, &ts](u64 r, u64 a) { Val v = value(ts[a], salt * 5 + r * 3 + a); u64 bit = (r * w + a) % 12; v.null = pattern >> bit & 1; return v; }; };
    /* all rows at once, then read from every row; all NULL patterns of 2 rows; every constraint combination */
    C.explore("sequential", nrt * rt.size(), [&](u64 i, mc::Worker &W) {
        auto &F = rt[i % rt.size()]; auto ts = seq(i / rt.size(), K, pick); const u64 w = ts.size();
        W.describe("crash store/load :: " + F.name + names(ts));
        u64 ev = 0;
        for (u64 nn = 0; nn < (1u << w); nn = nn == 0 and not C.thorough ? (1u << w) - 1 : nn + 1) for (u64 pat = 0; pat < (1u << (2 * w)); ++pat) {
            if (nn == (1u << w) - 1 and pat) break;
            u64 p = pat | pat << (2 * w) | pat << (4 * w);
            Case c(ts, nn, F, std::max<u64>(9, 2 * block_tuples(F.make(raw(ts), 0)) + 3) > 40 ? 40 : std::max<u64>(9, 2 * block_tuples(F.make(raw(ts), 0)) + 3));
            c.store((1u << w) - 1, 0, c.N, gen0(pat, p, w, ts)); W.transitions(c.N); W.states();
            auto e = c.raw_check(ev);
            if (e.empty()) e = c.load((1u << w) - 1, 0, c.N, ev);
            if (pat % 5 == 0) for (u64 from = 1; from < c.N and e.empty(); ++from) e = c.load((1u << w) - 1, from, c.N, ev);
            for (u64 m = 1; m + 1 < (1u << w) and e.empty(); ++m) e = c.load(m, pat % c.N, c.N, ev);
            if (not e.empty()) { W.fail("round trip", F.name + " " + names(ts) + " not-null=" + std::to_string(nn) + " pattern=" + std::to_string(pat) + ": " + e); return; }
        }
        W.evals(ev); W.outcome(F.name + names(ts));
    });
    /* overwrite one row or one attribute: nothing else changes; machines started at any row */
    C.explore("overwrite", nrt * rt.size(), [&](u64 i, mc::Worker &W) {
        auto &F = rt[i % rt.size()]; auto ts = seq(i / rt.size(), K, pick); const u64 w = ts.size(), full = (1u << w) - 1;
        W.describe("crash overwrite :: " + F.name + names(ts));
        u64 ev = 0; const u64 N = std::min<u64>(24, std::max<u64>(6, block_tuples(F.make(raw(ts), 0)) + 3));
        for (u64 pat : { u64(0), u64(0xFFF), u64(0xA5A), u64(0x36D) }) for (u64 m = 1; m <= full; ++m) for (u64 r = 0; r != N; ++r) for (u64 len : { 1, 3 }) for (u64 p2 : { u64(0), u64(0xFFF) }) {
            if (r + len > N) continue;
            Case c(ts, pat == 0x36D ? 2 : 0, F, N);
            c.store(full, 0, N, gen0(1, pat, w, ts));
            c.store(m, r, r + len, gen0(2, p2, w, ts)); W.transitions(N + len); W.states();
            auto e = c.raw_check(ev); if (e.empty()) e = c.load(full, 0, N, ev);
            if (not e.empty()) { W.fail("overwrite", F.name + " " + names(ts) + " attributes " + std::to_string(m) + " of rows [" + std::to_string(r) + "," + std::to_string(r + len) + ") pattern=" + std::to_string(pat) + "/" + std::to_string(p2) + ": " + e); return; }
        }
        W.evals(ev); W.outcome(F.name + names(ts));
    });
    /* wide schemas: NULL bits beyond the first byte and word; each single attribute NULL and each single one not NULL */
    C.explore("wide round trips", wide.size(), [&](u64 i, mc::Worker &W) {
        auto &ts = wide[i]; const u64 w = ts.size(); if (w > 64) return;
        if (not C.thorough and i % 196 % 14 % 3) return; // every third second type in the quick tier
        u64 ev = 0;
        for (auto &F : { row(), pax_t(3), pax_t(16), pax_b(4096) }) {
            W.describe("crash wide store/load :: " + F.name + names(ts));
            Case c(ts, 0, F, std::min<u64>(2 * w, 2 * block_tuples(F.make(raw(ts), 0)) + 20));
            const u64 full = w == 64 ? ~0UL : (1UL << w) - 1;
            c.store(full, 0, c.N, [&](u64 r, u64 a) { Val v = value(ts[a], r + a); v.null = (r % w == a) != (r / w % 2 == 1); return v; }); W.transitions(c.N); W.states();
            auto e = c.raw_check(ev); if (e.empty()) e = c.load(full, 0, c.N, ev);
            for (u64 a = 0; a != w and e.empty(); ++a) { e = c.load(1UL << a, a % c.N, c.N, ev); }
            for (u64 a = 0; a != w and e.empty(); ++a) { u64 r = (a * 7) % c.N; c.store(1UL << a, r, r + 1, [&](u64, u64 b) { Val v = value(ts[b], 99 + a); v.null = a % 2; return v; }); }
            if (e.empty()) e = c.raw_check(ev); if (e.empty()) e = c.load(full, 0, c.N, ev);
            if (not e.empty()) { W.fail("wide", F.name + " " + std::to_string(w) + " attributes " + names(ts) + ": " + e); return; }
        }
        W.evals(ev); W.outcome(std::to_string(i));
    });
    /* nested layouts: PAX blocks of PAX blocks and of rows (the load/store compiler accepts any nesting) */
    {
        struct Shape { u64 outer, inner; };
        std::vector<Shape> sh; for (u64 o : { 2, 4, 6, 16 }) for (u64 in : { 1, 2, 3, 8 }) if (o % in == 0) sh.push_back({ o, in });
        C.explore("nested", nrt * sh.size(), [&](u64 i, mc::Worker &W) {
            auto s = sh[i % sh.size()]; auto ts = seq(i / sh.size(), K, pick); const u64 w = ts.size(), full = (1u << w) - 1;
            FD F{ "nested " + std::to_string(s.outer) + "x" + std::to_string(s.inner), [s](std::vector<const Type*> t, u64 N) {
                DataLayout L(N); auto inner = s.inner == 1 ? RowLayoutFactory().make(t, 0) : PAXLayoutFactory(PAXLayoutFactory::NTuples, s.inner).make(t, 0);
                auto &in = as<const DataLayout::INode>(inner.child());
                u64 n = in.num_tuples(), S = inner.stride_in_bits(), per = s.outer / n * n; if (per == 0) per = n;
                auto &o = L.add_inode(per, per / n * S + 128);
                auto &x = o.add_inode(n, 64, per == 1 ? 0 : S);
                for (u64 c = 0; c != in.num_children(); ++c) x.add_leaf(as<const DataLayout::Leaf>(*in[c].ptr).type(), as<const DataLayout::Leaf>(*in[c].ptr).index(), in[c].offset_in_bits, in[c].stride_in_bits);
                return L; } };
            W.describe("crash nested :: " + F.name + names(ts));
            u64 ev = 0;
            for (u64 pat : { u64(0), u64(0xFFF), u64(0xA5A), u64(0x36D), u64(0x5C3) }) {
                Case c(ts, 0, F, 2 * s.outer + 5);
                c.store(full, 0, c.N, gen0(1, pat, w, ts)); W.transitions(c.N); W.states();
                auto e = c.raw_check(ev);
                for (u64 from = 0; from < c.N and e.empty(); ++from) e = c.load(full, from, c.N, ev);
                for (u64 m = 1; m <= full and e.empty(); ++m) for (u64 r = 0; r + 2 <= c.N; ++r) { c.store(m, r, r + 2, gen0(2 + r, pat >> 1, w, ts)); }
                if (e.empty()) e = c.raw_check(ev); if (e.empty()) e = c.load(full, 0, c.N, ev);
                if (not e.empty()) { W.fail("nested", F.name + " " + names(ts) + " pattern=" + std::to_string(pat) + ": " + e); return; }
            }
            W.evals(ev); W.outcome(F.name + names(ts));
        });
    }

    /*----- (3) whole tables through the front door ------------------------------------------------------------------------*/
    {
        using namespace sqlkit;
        std::vector<u64> counts{ 1, 15, 16, 17, 63, 64, 65, 127, 128, 129, 193, 256, 1023, 1024, 1025, 2100 };
        struct TableShape { std::string cols; std::vector<std::string> (*vals)(u64 r); };
        auto mk = [](u64 shape, u64 r) {
            auto n = [](bool b, std::string s) { return b ? std::string("NULL") : s; };
            std::vector<std::string> v; std::string str(r % 5, char('a' + r % 26));
            switch (shape) {
                case 0: v = { std::to_string(r), n(r % 3 == 0, r % 2 ? "TRUE" : "FALSE"), n(r % 5 == 1, "\"" + str + "\"") }; break;
                case 1: v = { n(r % 2, r % 3 ? "TRUE" : "FALSE"), n(r % 7 == 3, std::to_string(int(r % 200) - 100)), n(r % 4 == 0, r % 3 == 1 ? "TRUE" : "FALSE") }; break;
                case 2: for (u64 k = 0; k != 10; ++k) v.push_back(n((r + k) % 9 == 0, std::to_string(r * 10 + k))); break;
                case 3: for (u64 k = 0; k != 40; ++k) v.push_back(k % 3 == 0 ? n((r + k) % 5 == 0, std::to_string(r + k)) : k % 3 == 1 ? n((r + k) % 4 == 0, (r * k) % 3 ? "TRUE" : "FALSE") : n((r * 7 + k) % 3 == 0, "\"" + std::string((r + k) % 4, char('a' + k % 26)) + "\"")); break;
                case 4: v = { "\"" + std::string(2500 + r % 400, char('a' + r % 26)) + "\"", n(r % 3 == 0, "\"" + std::string(4700 + r % 300, char('A' + r % 26)) + "\""), n(r % 2, std::to_string(r)) }; break;
                default: v = { "\"" + std::string(200, char('a' + r % 26)) + std::to_string(r) + "\"", n(r % 2, std::to_string(r)) };
            }
            return v;
        };
        std::string wide40; for (u64 k = 0; k != 40; ++k) wide40 += (k ? ", c" : "c") + std::to_string(k) + (k % 3 == 0 ? " INT(4)" : k % 3 == 1 ? " BOOL" : " VARCHAR(3)");
        const char *cols[] = { "a INT(4) NOT NULL, b BOOL, c VARCHAR(4)", "a BOOL, b INT(1), c BOOL", "a INT(8), b INT(4), c INT(8), d INT(2), e INT(8), f INT(8), g INT(4), h INT(8), i INT(8), j INT(8)", wide40.c_str(), "a CHAR(3000), b VARCHAR(5000), c INT(4)", "a CHAR(3000), b INT(4)" };
        C.explore("tables", 9 * 6 * counts.size(), [&](u64 i, mc::Worker &W) {
            mc::Digits d(i); u64 lay = d.next(9), shape = d.next(6), n = counts[d.next(counts.size())];
            if (shape >= 2 and n > 1025) return;
            if (shape == 4 and n > 129) return;
            static Engine E; E.use_fresh_db(); auto &Cat = Catalog::Get(); Cat.default_data_layout(Cat.pool(regs[lay]));
            W.describe(std::string("crash table :: ") + regs[lay] + " (" + cols[shape] + ") " + std::to_string(n) + " rows");
            auto r0 = E.run(std::string("CREATE TABLE T (") + cols[shape] + ");");
            if (not r0.ok) { W.fail("tables", "CREATE TABLE failed: " + r0.error); return; }
            std::vector<std::string> expect;
            for (u64 r = 0; r < n;) {
                std::string sql = "INSERT INTO T VALUES "; u64 e = std::min(n, r + (r % 3 ? 50 : 7));
                for (bool first = true; r != e; ++r, first = false) { auto v = mk(shape, r); std::string row, out; for (auto &x : v) { row += (row.empty() ? "" : ", ") + x; out += (out.empty() ? "" : ",") + x; } sql += (first ? "(" : ", (") + row + ")"; expect.push_back(out); }
                auto R = E.run(sql + ";"); W.transitions();
                if (not R.ok) { W.fail("tables", "INSERT failed: " + R.error); return; }
            }
            auto R = E.run("SELECT * FROM T;"); W.states(); W.evals(n);
            if (not R.ok or R.rows != expect) {
                u64 k = 0; while (k < R.rows.size() and k < expect.size() and R.rows[k] == expect[k]) ++k;
                W.fail("tables", std::string(regs[lay]) + " (" + cols[shape] + ") " + std::to_string(n) + " rows: " + (R.ok ? "" : R.error) + "row " + std::to_string(k) + " is " + (k < R.rows.size() ? R.rows[k] : "missing") + " expected " + (k < expect.size() ? expect[k] : "no row"));
            }
            W.outcome(std::to_string(i));
        });
    }
    return C.finish();
}
