#include "common/sqlkit.hpp"
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>
int main(int argc, char **argv) {
    sqlkit::Engine E; E.use_fresh_db();
    auto &C = m::Catalog::Get();
    if (argc > 1) C.default_data_layout(C.pool(argv[1]));
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        std::cout << "> " << line << std::endl;
        bool f = line.rfind("SELECT", 0) == 0 and not getenv("NOFORK");
        if (f) { fflush(stdout); int p = fork(); if (p) { int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) std::cout << "  ** signal " << WTERMSIG(st) << std::endl; continue; } }
        auto R = E.run(line);
        if (not R.ok) std::cout << "  !! " << R.error << std::endl;
        for (auto &r : R.rows) std::cout << "  " << r << std::endl;
        if (f) _exit(0);
    }
}
