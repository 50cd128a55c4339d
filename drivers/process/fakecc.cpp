// A compiler, linker and archiver which fails as told: $FAKE_DIR/plan holds "position of the faulty call, fault";
// otherwise it does what it is asked to, with objects of sources seen before taken from $FAKE_CACHE.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <fstream>
#include <iostream>
#include <iterator>
#include <sstream>
#include <string>
#include <vector>
#include <functional>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
static std::string slurp(const std::string& f) {
    struct stat st;
    if (stat(f.c_str(), &st) != 0) { std::cerr << "no file " << f << "\n"; exit(1); }
    if (!S_ISREG(st.st_mode)) return ""; // nothing was stored there
    std::ifstream i(f); return std::string(std::istreambuf_iterator<char>(i), {});
}
static int run(std::vector<std::string> a) {
    pid_t p = fork();
    if (p == 0) {
        std::vector<char*> v;
        for (auto& s : a) v.push_back(&s[0]);
        v.push_back(nullptr);
        execv(v[0], v.data());
        _exit(127);
    }
    int st; waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1;
}
int main(int argc, char** argv) {
    std::string dir = getenv("FAKE_DIR"), cache = getenv("FAKE_CACHE");
    std::vector<std::string> a(argv + 1, argv + argc);
    if (a.size() == 1 && a[0] == "--version") {
        long kb = 1; std::ifstream(dir + "/kb") >> kb;
        std::string s = "stand-in version 18.1.3 (x)\n";
        std::string line(99, '.'); line += "\n";
        while ((long) s.size() < kb * 1000) s += line;
        size_t k = 0; ssize_t n;
        while (k < s.size() && (n = write(1, s.data() + k, s.size() - k)) > 0) k += n;
        return 0;
    }
    long pos = -1, n = 0; std::string how;
    { std::ifstream i(dir + "/plan"); i >> pos >> how; }
    { std::ifstream i(dir + "/count"); i >> n; }
    std::ofstream(dir + "/count") << n + 1;
    bool ar = !a.empty() && a[0] == "rcs", link = false, bc = false;
    std::string out, in;
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i] == "-o") out = a[i + 1];
        if (a[i] == "-shared") link = true;
        if (a[i] == "-emit-llvm") bc = true;
        if (a[i] == "-c") in = a[i + 1];
    }
    if (ar) out = a[1];
    bool compile = !ar && !link;
    bool fault = n == pos;
    if (fault) std::ofstream(dir + "/fired") << how;
    if (fault && how == "early") return 3;
    std::string src;
    if (compile) src = in == "-" ? std::string(std::istreambuf_iterator<char>(std::cin), {}) : slurp(in);
    if (fault && how == "exit") { std::cerr << "as told\n"; return 1; }
    if (fault && how == "kill") { raise(SIGKILL); }
    if (fault && how == "partial") { std::ofstream(out) << "half"; return 1; }
    if (fault && how == "noout") return 0;
    if (ar) { std::vector<std::string> c = a; c.insert(c.begin(), "/usr/bin/ar"); return run(c); }
    if (link) { std::vector<std::string> c = a; c.insert(c.begin(), "/usr/bin/gcc"); return run(c); }
    if (bc) { std::ofstream o(out); o << "BC" << src.size(); return o ? 0 : 1; }
    std::string flags;
    for (size_t i = 0; i < a.size(); i++) if (a[i] != out && a[i] != in) flags += a[i] + " ";
    std::ostringstream h; h << std::hash<std::string>()(src) << "_" << src.size() << "_" << std::hash<std::string>()(flags);
    std::string o = cache + "/" + h.str() + ".o";
    struct stat st;
    if (stat(o.c_str(), &st) != 0) {
        std::string t = o + "." + std::to_string(getpid());
        std::ofstream(t + ".c") << src;
        std::vector<std::string> c = {"/usr/bin/gcc", "-w", "-c", t + ".c", "-o", t, "-O0"};
        for (auto& f : a) if (f == "-fPIC") c.push_back(f);
        int rc = run(c);
        unlink((t + ".c").c_str());
        if (rc) return rc;
        rename(t.c_str(), o.c_str());
    }
    std::ifstream i(o, std::ios::binary);
    std::ofstream f(out, std::ios::binary);
    f << i.rdbuf();
    f.close();
    return f ? 0 : 1;
}
