/* SerialScheduler: every schedule of small client programs. */
#include "common/mc.hpp"
#include "common/mc_rt.hpp"
#include "catalog/SerialScheduler.hpp"
#include <mutable/catalog/Catalog.hpp>
#include <mutable/catalog/DatabaseCommand.hpp>
#include <mutable/parse/AST.hpp>
#include <memory>
#include <sstream>
#include <thread>

using namespace m;

#define NOINSTR __attribute__((no_sanitize("thread"), noinline))

namespace {
/** One command of a client program. */
struct Cmd { int client, tx, seq; const Scheduler::Transaction *t = nullptr; int runs = 0; bool fails = false; };
/* What happened, kept by uninstrumented code: it is not part of the program under test. */
struct History
{
    Cmd cmds[32]; int n = 0;
    int inside = 0;                     // commands being executed
    int order[64]; int len = 0;         // executed commands
    bool open[32] = {};                 // transactions that executed a command and whose end was not requested yet
    int64_t start[32]; int nstart = 0;  // start times in the order of first execution
} *H;

NOINSTR void enter(int c) {
    Cmd &x = H->cmds[c];
    if (H->inside++) rt::fail("two commands are executed at the same time");
    if (x.runs++) rt::fail("a command is executed twice");
    const int key = x.client * 4 + x.tx;
    for (int k = 0; k != 32; ++k) if (H->open[k] and k != key) rt::fail("a command is executed while another transaction is unfinished");
    for (int k = 0; k != H->n; ++k) {
        const Cmd &y = H->cmds[k];
        if (y.client == x.client and y.tx == x.tx and (y.seq < x.seq ? not y.runs : y.runs and k != c) and not y.fails) rt::fail("commands of a transaction are not executed in the order issued");
    }
    if (not H->open[key]) {
        const int64_t s = x.t->start_time();
        if (s < 0) rt::fail("a transaction executes without a start time");
        for (int k = 0; k != H->nstart; ++k) if (H->start[k] >= s) rt::fail("start times do not increase with the order of execution");
        H->start[H->nstart++] = s;
    }
    H->open[key] = true;
    H->order[H->len++] = c;
}
NOINSTR void leave(int) { --H->inside; }
NOINSTR void finished(int client, int tx) { H->open[client * 4 + tx] = false; }

struct probe : DatabaseInstruction
{
    probe(std::vector<std::string> args) : DatabaseInstruction(std::move(args)) { }
    void accept(DatabaseCommandVisitor&) override { }
    void accept(ConstDatabaseCommandVisitor&) const override { }
    void execute(Diagnostic &diag) override {
        const int c = atoi(args()[0].c_str());
        if (transaction() != H->cmds[c].t) rt::fail("a command is executed in a transaction it does not belong to");
        enter(c); rt::point();
        if (args().size() > 1) diag.err() << "fails\n";
        leave(c);
    }
};

/*  Client programs, as sequences of transactions, separated by blanks:
 *    "a"  autocommit of a command            "e" of one that Sema rejects
 *    "f"  of one whose execution fails       "p" of one with earlier (syntax) errors
 *    "(...)" / "[...]" explicit transaction, then commit / abort, of:
 *        c: schedule, do not wait     w: schedule and wait     e: schedule a rejected command and wait
 *    all futures are waited for before the transaction ends.
 *    "<cc" schedules commands and leaves them pending: the scheduler is shut down meanwhile. */
struct Pending { std::future<bool> f; int cmd; };
struct Client
{
    std::string prog; int id = 0;
    std::vector<std::vector<std::unique_ptr<ast::Command>>> ast; std::vector<std::vector<int>> ids;
    std::ostringstream out, err; std::vector<std::unique_ptr<Diagnostic>> diags;
    std::vector<Pending> pending; std::vector<std::unique_ptr<Scheduler::Transaction>> held;
    std::string obs;
};

std::unique_ptr<ast::Command> make_ast(const char *name, std::vector<std::string> args) {
    auto &C = Catalog::Get();
    return std::make_unique<ast::Instruction>(ast::Token(Position("-"), C.pool("\\probe"), m::TK_INSTRUCTION), C.pool(name), std::move(args));
}
NOINSTR void set_tx(int cmd, const Scheduler::Transaction *t) { H->cmds[cmd].t = t; }
NOINSTR int runs(int cmd) { return H->cmds[cmd].runs; }
NOINSTR bool fails(int cmd) { return H->cmds[cmd].fails; }

void check_result(int cmd, bool r) {
    if (r != not fails(cmd)) rt::fail(r ? "a failing command is reported as executed" : "a command is reported as failed");
    if (r and runs(cmd) != 1) rt::fail("a command is reported as executed but was not");
}
void run_client(Scheduler &S, Client &c) {
    std::istringstream in(c.prog); std::string x; int tx = 0;
    while (in >> x) {
        auto &ast = c.ast[tx]; auto &ids = c.ids[tx]; size_t dg = 0; for (int k = 0; k != tx; ++k) dg += c.ids[k].size(); // one diagnostic per command
        if (x[0] == '(' or x[0] == '[' or x[0] == '<') {
            auto t = S.begin_transaction(); std::vector<Pending> fs; size_t k = 0;
            for (char o : x) switch (o) {
                case 'c': case 'w': case 'e':
                    set_tx(ids[k], t.get());
                    fs.push_back({ S.schedule_command(*t, std::move(ast[k]), *c.diags[dg + k]), ids[k] }); ++k;
                    if (o != 'c') { check_result(fs.back().cmd, fs.back().f.get()); fs.pop_back(); }
                    break;
                default: break;
            }
            if (x[0] == '<') { for (auto &f : fs) c.pending.push_back(std::move(f)); c.held.push_back(std::move(t)); return; }
            for (auto &f : fs) check_result(f.cmd, f.f.get());
            finished(c.id, tx);
            if (x[0] == '(') { if (not S.commit(std::move(t))) rt::fail("commit fails"); } else if (not S.abort(std::move(t))) rt::fail("abort fails");
        } else {
            auto t = S.begin_transaction(); set_tx(ids[0], t.get()); // as Scheduler::autocommit does it, to know the transaction
            auto f = S.schedule_command(*t, std::move(ast[0]), *c.diags[dg]);
            const bool r = f.get(); check_result(ids[0], r);
            finished(c.id, tx);
            if (r) S.commit(std::move(t)); else S.abort(std::move(t));
        }
        ++tx;
    }
}
/** Scheduler::autocommit itself; the transaction is then not known in advance. */
struct AutoProbe : probe { AutoProbe(std::vector<std::string> a) : probe(std::move(a)) { } void execute(Diagnostic &diag) override { const int c = atoi(args()[0].c_str()); set_tx(c, transaction()); probe::execute(diag); finished(H->cmds[c].client, H->cmds[c].tx); } };

void scenario(mc::Worker &W, const std::vector<std::string> &progs, unsigned bound) {
    std::string name; bool shutdown = false, automatic = false;
    for (auto &p : progs) { name += (name.empty() ? "" : " | ") + p; shutdown |= p.find('<') != p.npos; automatic |= p.find('A') != p.npos; }
    W.describe(name);
    rt::Options o; o.bound = bound;
    auto st = rt::explore(W, name, [&]() {
        H = new History();
        std::vector<std::unique_ptr<Client>> cs;
        for (size_t i = 0; i != progs.size(); ++i) { // the commands are made beforehand
            cs.push_back(std::make_unique<Client>()); auto &c = *cs.back(); c.prog = progs[i]; c.id = int(i);
            std::istringstream in(c.prog); std::string x; int tx = 0;
            while (in >> x) {
                c.ast.emplace_back(); c.ids.emplace_back(); int seq = 0;
                for (char ch : x) {
                    if (not strchr("aefpcwA", ch)) continue;
                    const int id = H->n++; H->cmds[id] = { int(i), tx, seq++, nullptr, 0, ch == 'e' or ch == 'p' or ch == 'f' };
                    std::vector<std::string> args{ std::to_string(id) }; if (ch == 'f') args.push_back("fails");
                    c.ast.back().push_back(make_ast(ch == 'e' ? "nosuch" : ch == 'A' ? "autoprobe" : "probe", args)); c.ids.back().push_back(id);
                }
                for (size_t k = 0; k != c.ids.back().size(); ++k) c.diags.push_back(std::make_unique<Diagnostic>(false, c.out, c.err));
                if (x == "p") c.diags.back()->err() << "syntax error\n";
                ++tx;
            }
        }
        auto S = std::make_unique<SerialScheduler>();
        {
            std::vector<std::thread> ts;
            for (auto &c : cs) ts.emplace_back([&S, &c, automatic]() {
                if (automatic) { for (size_t k = 0; k != c->ast.size(); ++k) { const bool r = S->autocommit(std::move(c->ast[k][0]), *c->diags[k]); check_result(c->ids[k][0], r); } }
                else run_client(*S, *c);
            });
            for (auto &t : ts) t.join();
        }
        S.reset();
        if (H->inside) rt::fail("a command is still being executed after the scheduler was shut down");
        for (auto &c : cs) for (auto &p : c->pending) { // each of them was either executed or reported as not executed
            if (p.f.wait_for(std::chrono::seconds(0)) != std::future_status::ready) rt::fail("a client waits forever for a command that was pending at the shutdown");
            const bool r = p.f.get(); if (r != (runs(p.cmd) == 1)) rt::fail(r ? "a command is reported as executed but was not" : "a command is reported as not executed but was");
        }
        if (not shutdown) for (int k = 0; k != H->n; ++k) if (H->cmds[k].runs != (H->cmds[k].fails and H->cmds[k].runs == 0 ? 0 : 1)) rt::fail("a command was not executed");
        std::string obs; for (int k = 0; k != H->len; ++k) obs += char('a' + H->order[k]);
        rt::observe(obs);
    }, o);
    W.evals(st.execs);
    if (st.capped) W.count(0);
    W.count(1, st.outcomes);
    if (W.index() % 13 == 3) W.sample(name + ": " + std::to_string(st.execs) + " schedules, " + std::to_string(st.outcomes) + " outcomes, bound " + std::to_string(bound));
}
}

int main(int argc, char **argv)
{
    mc::Check C("C18", "model_checking", argc, argv);
    auto &Cat = Catalog::Get();
    Cat.register_instruction<probe>(Cat.pool("probe")); Cat.register_instruction<AutoProbe>(Cat.pool("autoprobe"));
    make_ast("nosuch", {}); // fill the pools
    C.rule = "all schedules with at most the stated number of deviations of every multiset of two or three client programs (autocommitted, rejected and failing commands; explicit transactions with one to three commands, waited for at once or at the end, committed or aborted; empty transactions; commands pending at the shutdown); a schedule is non-trivial by the order of execution";
    C.counter_names = { "capped_scenarios", "outcomes" };
    C.case_limit = 400;
    C.assumptions = { "interleavings are sequentially consistent; weaker memory orders are covered by the race detector only",
                      "at most the stated number of preemptions / spurious wake-ups per schedule",
                      "clients wait for the results of a transaction before ending it" };
    const bool T = C.thorough;
    const std::vector<std::string> P1 = { "a", "e", "f", "p", "A", "a a", "()", "[]", "(c)", "[c]", "(cc)", "(ww)", "(cw)", "(ce)", "[ec]", "[cc]", "(ccc)", "() a", "(w) (w)", "<c", "<cc", "a <cc" };
    std::vector<std::vector<std::string>> S1, S2, S3;
    for (auto &a : P1) S1.push_back({ a });
    for (size_t a = 0; a != P1.size(); ++a) for (size_t b = a; b != P1.size(); ++b) if (P1[a] != "a <cc" and P1[b] != "a <cc" and (P1[a] == "A") == (P1[b] == "A") and (P1[a].find('<') == std::string::npos) == (P1[b].find('<') == std::string::npos)) S2.push_back({ P1[a], P1[b] });
    std::vector<std::string> P3 = { "a", "()", "(cc)", "[c]" }; if (T) P3.insert(P3.end(), { "e", "(ww)" });
    for (size_t a = 0; a != P3.size(); ++a) for (size_t b = a; b != P3.size(); ++b) for (size_t c = b; c != P3.size(); ++c) S3.push_back({ P3[a], P3[b], P3[c] });
    S3.push_back({ "A", "A", "A" }); S3.push_back({ "<c", "<cc", "<c" });
    auto phase = [&](const char *n, auto &S, unsigned bound) { C.explore(n, S.size(), [&, bound](uint64_t i, mc::Worker &W) { scenario(W, S[i], bound); }, 1); };
    phase("one client", S1, T ? 4 : 2);
    std::vector<std::vector<std::string>> S2b;
    for (auto &p : std::vector<std::pair<const char*, const char*>>{ { "a", "a" }, { "a", "()" }, { "()", "()" }, { "A", "A" }, { "(cc)", "a" }, { "(cc)", "[cc]" }, { "(ww)", "()" }, { "e", "a" }, { "<c", "<c" }, { "<cc", "<c" } }) S2b.push_back({ p.first, p.second });
    phase("two clients", S2, T ? 2 : 0);
    if (not T) phase("two clients, one deviation", S2b, 1);
    phase("three clients", S3, T ? 1 : 0);
    return C.finish();
}
