/* sqlkit.hpp -- drives the real system through its SQL front door: text in, printed rows out. */
#pragma once

#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>

namespace sqlkit {

using namespace m;

struct Result
{
    bool ok = false;               ///< the statement was accepted and executed
    std::string error;             ///< diagnostics
    std::vector<std::string> rows; ///< printed rows, in order
};

/** Redirects std::cout for the lifetime of the object. */
struct CaptureCout
{
    std::ostringstream oss;
    std::streambuf *old;
    CaptureCout() : old(std::cout.rdbuf(oss.rdbuf())) { }
    ~CaptureCout() { std::cout.rdbuf(old); }
};

struct Engine
{
    std::ostringstream out, err;
    Diagnostic diag;

    Engine() : diag(false, out, err) {
        Options::Get().quiet = true; // do not print "n rows" and confirmations
        auto &C = Catalog::Get();
        (void) C;
    }

    /** Runs one statement.  For a SELECT, collects the printed rows. */
    Result run(const std::string &sql) {
        Result R;
        out.str(""); err.str("");
        diag.clear();
        try {
            auto cmd = command_from_string(diag, sql);
            if (not cmd or diag.num_errors()) { R.error = err.str(); Catalog::Get().timer().clear(); return R; }
            CaptureCout cap;
            cmd->execute(diag);
            R.error = err.str();
            R.ok = diag.num_errors() == 0 and R.error.empty();
            std::string s = cap.oss.str();
            std::size_t p = 0;
            while (p < s.size()) {
                auto e = s.find('\n', p);
                if (e == std::string::npos) e = s.size();
                R.rows.push_back(s.substr(p, e - p));
                p = e + 1;
            }
        } catch (const m::frontend_exception &e) {
            R.error = err.str();
            if (R.error.empty()) R.error = std::string("frontend_exception: ") + e.what();
        } catch (const std::exception &e) {
            R.error = std::string("EXCEPTION: ") + e.what() + " | " + err.str();
        }
        Catalog::Get().timer().clear();
        return R;
    }

    void use_fresh_db(const std::string &name = "db") {
        auto &C = Catalog::Get();
        Catalog::Clear();
        auto &DB = C.add_database(C.pool(name.c_str()));
        C.set_database_in_use(DB);
    }
};

inline std::string join_rows(const std::vector<std::string> &rows) {
    std::string s; for (auto &r : rows) { s += r; s += " | "; } return s;
}

}
