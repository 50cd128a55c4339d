// Calls compiled functions: "uid so function ny prefill nx x..." per line -> "uid y..." | "uid CRASH" | "uid DL msg"
#include <dlfcn.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
#include <vector>
struct Atomic { void* a; void* b; void* c; };
typedef void (*F)(double const* const*, double* const*, struct Atomic);
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string uid, so, fn; size_t ny, nx; double pre;
        is >> uid >> so >> fn >> ny >> pre >> nx;
        std::vector<double> x(nx);
        for (auto& d : x) is >> d;
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            alarm(20);
            void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
            F f = h ? (F) dlsym(h, fn.c_str()) : nullptr;
            if (!f) { printf("%s DL %s\n", uid.c_str(), dlerror()); fflush(stdout); _exit(0); }
            std::vector<double> y(ny + 2, pre);
            const double* in[1] = {x.data()}; double* out[1] = {y.data() + 1};
            f(in, out, Atomic());
            if (y[0] != pre || y[ny + 1] != pre) printf("%s BOUNDS\n", uid.c_str());
            else { printf("%s", uid.c_str()); for (size_t i = 0; i < ny; i++) printf(" %.17g", y[i + 1]); printf("\n"); }
            fflush(stdout);
            _exit(0);
        }
        int st; waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { printf("%s CRASH\n", uid.c_str()); fflush(stdout); }
    }
}
