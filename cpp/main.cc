#include "driver.hh"
#include <iostream>
#include <fcntl.h>
#include <unistd.h>

namespace drv {
std::map<std::string, Command>& commands() { static std::map<std::string, Command> c; return c; }
std::vector<std::function<void()> >& resets() { static std::vector<std::function<void()> > r; return r; }
}

CMD(HAS) { out.num(drv::commands().count(a.raw())); }
CMD(ECHO) { out.str(a.str()); }

int main() {
    // Results go to the original stdout; anything the library prints goes to stderr.
    const int fd = dup(1);
    dup2(2, 1);
    FILE* res = fdopen(fd, "w");
    std::vector<std::string> script;
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line != "END") { script.push_back(line); continue; }
        for (size_t i = 0; i < script.size(); ++i) {
            drv::Args a;
            size_t start = 0;
            const std::string& l = script[i];
            for (;;) {
                size_t t = l.find('\t', start);
                a.tok.push_back(l.substr(start, t == std::string::npos ? t : t-start));
                if (t == std::string::npos) { break; }
                start = t+1;
            }
            auto it = drv::commands().find(a.tok[0]);
            if (it == drv::commands().end()) { fprintf(stderr, "DRIVER: unknown command %s\n", a.tok[0].c_str()); _exit(97); }
            drv::Out out;
            drv::guarded(out, [&] { it->second(a, out); });
            fputs(out.s.c_str(), res);
            fputc('\n', res);
            fflush(res);
        }
        script.clear();
        for (auto& r : drv::resets()) { r(); }
        fputs("DONE\n", res);
        fflush(res);
    }
    return 0;
}
