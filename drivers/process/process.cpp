// Histories of building and saving libraries (spec/Build.tla), performed with a compiler that fails as told.
#include <cppad/cg/cppadcg.hpp>
#include <atomic>
#include <thread>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sys/wait.h>
using namespace CppAD::cg;
typedef CppAD::cg::CG<double> CGD;
typedef CppAD::AD<CGD> ADCG;

static std::string exists(const std::string& p) {
    struct stat st;
    return lstat(p.c_str(), &st) != 0 ? "none" : S_ISDIR(st.st_mode) ? "dir" : S_ISREG(st.st_mode) ? "file" : "other";
}
static std::vector<std::string> list(const std::string& d) {
    std::vector<std::string> r;
    if (DIR* p = opendir(d.c_str())) {
        while (dirent* e = readdir(p)) if (e->d_name[0] != '.') r.push_back(e->d_name);
        closedir(p);
    }
    std::sort(r.begin(), r.end());
    return r;
}
static std::string slurp(const std::string& f) { std::ifstream i(f); return std::string(std::istreambuf_iterator<char>(i), {}); }
static size_t fds() { return list("/proc/self/fd").size(); }
static void wipe(const std::string& d) { // scratch folders of this history only
    for (auto& f : list(d)) { std::string p = d + "/" + f; if (exists(p) == "dir") rmdir(p.c_str()); else unlink(p.c_str()); }
    if (exists(d) == "dir") rmdir(d.c_str()); else unlink(d.c_str());
}

struct Thrower : public JobListener {
    long at = -1, n = 0; bool fired = false;
    void event() { if (at > 0 && ++n == at) { fired = true; throw std::runtime_error("told to stop"); } }
    void jobStarted(const std::vector<Job>&) override { event(); }
    void jobEndended(const std::vector<Job>&, duration) override { event(); }
};
template<class P> struct Sources : public P { // access to what is going to be compiled
    using P::P;
    std::map<std::string, std::string> all() {
        std::map<std::string, std::string> r;
        for (auto& p : this->modelLibraryHelper_->getModels()) for (auto& s : this->getSources(*p.second)) r.insert(s);
        for (auto& s : this->getLibrarySources()) r.insert(s);
        for (auto& s : this->modelLibraryHelper_->getCustomSources()) r.insert(s);
        return r;
    }
    // the order in which they are compiled
    std::vector<std::string> order() {
        std::vector<std::string> r;
        for (auto& p : this->modelLibraryHelper_->getModels()) for (auto& s : this->getSources(*p.second)) r.push_back(s.first);
        for (auto& s : this->getLibrarySources()) r.push_back(s.first);
        for (auto& s : this->modelLibraryHelper_->getCustomSources()) r.push_back(s.first);
        return r;
    }
};
struct Gen {
    std::vector<std::unique_ptr<CppAD::ADFun<CGD>>> funs;
    std::vector<std::unique_ptr<ModelCSourceGen<double>>> models;
    std::unique_ptr<ModelLibraryCSourceGen<double>> lib;
    void model(int m, const std::set<std::string>& r) {
        std::vector<ADCG> x(2), y(4);
        x[0] = 1.; x[1] = 1.;
        CppAD::Independent(x);
        y[0] = double(m + 1) * x[0] * x[1];
        y[1] = x[0] + double(m);
        y[2] = x[0] * x[0] * double(m);
        y[3] = x[1] * x[1] * double(m);
        funs.emplace_back(new CppAD::ADFun<CGD>(x, y));
        models.emplace_back(new ModelCSourceGen<double>(*funs.back(), "model" + std::to_string(m)));
        auto& g = *models.back();
        g.setCreateForwardZero(r.count("for0")); g.setCreateJacobian(r.count("jac")); g.setCreateHessian(r.count("hess"));
        g.setCreateForwardOne(r.count("for1")); g.setCreateReverseOne(r.count("rev1")); g.setCreateReverseTwo(r.count("rev2"));
        g.setCreateSparseJacobian(r.count("spjac")); g.setCreateSparseHessian(r.count("sphess"));
        if (r.count("loops")) g.setRelatedDependents({{2, 3}});
        if (!lib) lib.reset(new ModelLibraryCSourceGen<double>(g)); else lib->addModel(g);
    }
    void custom(int k, bool big) {
        std::string s = "int verif_custom_" + std::to_string(k) + "(void) { return " + std::to_string(40 + k) + "; }\n";
        if (big) s = "/*" + std::string(200000, '-') + "*/\n" + s;
        lib->addCustomFunctionSource("verif_custom_" + std::to_string(k) + ".c", s);
    }
};

struct Compilers {
    GccCompiler<double> gcc;
    ClangCompiler<double> clang;
    explicit Compilers(const std::string& path) : gcc(path), clang(path) {}
    AbstractCCompiler<double>& get(const std::string& n) { return n == "gcc" ? static_cast<AbstractCCompiler<double>&>(gcc) : clang; }
};

static std::string fakecc, here;
static std::string contents(const std::string& file) { // what a library offers and answers
    std::ostringstream o;
    try {
        LinuxDynamicLib<double> lib(file);
        for (auto& n : lib.getModelNames()) {
            auto m = lib.model(n);
            o << " model " << n;
            if (m->isForwardZeroAvailable()) o << " for0"; if (m->isJacobianAvailable()) o << " jac"; if (m->isHessianAvailable()) o << " hess";
            if (m->isForwardOneAvailable()) o << " for1"; if (m->isReverseOneAvailable()) o << " rev1"; if (m->isReverseTwoAvailable()) o << " rev2";
            if (m->isSparseForwardOneAvailable()) o << " spfor1"; if (m->isSparseReverseOneAvailable()) o << " sprev1"; if (m->isSparseReverseTwoAvailable()) o << " sprev2";
            if (m->isSparseJacobianAvailable()) o << " spjac"; if (m->isSparseHessianAvailable()) o << " sphess";
            for (std::vector<double> x : {std::vector<double>{2, 3}, std::vector<double>{-1, 4}}) {
                if (m->isForwardZeroAvailable()) for (double v : m->ForwardZero(x)) o << " " << v;
                if (m->isJacobianAvailable()) { o << " J"; for (double v : m->Jacobian(x)) o << " " << v; }
                if (m->isSparseJacobianAvailable()) { o << " S"; for (double v : m->SparseJacobian(x)) o << " " << v; }
            }
        }
        for (int k = 1; k <= 3; k++) {
            auto f = reinterpret_cast<int (*)()>(lib.loadFunction("verif_custom_" + std::to_string(k), false));
            if (f) o << " custom " << f();
        }
    } catch (const std::exception& e) { std::string w = e.what(); std::replace(w.begin(), w.end(), '\n', ' '); o << " exception " << w.substr(0, 200); }
    return o.str();
}
static int spawn(const std::vector<std::string>& a) {
    pid_t p = fork();
    if (p == 0) {
        std::vector<char*> v; for (auto& s : a) v.push_back(const_cast<char*>(s.c_str())); v.push_back(nullptr);
        int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
        execv(v[0], v.data()); _exit(127);
    }
    int st; waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1;
}
static void plan(long pos, const std::string& how) {
    unlink("fake/fired");
    std::ofstream("fake/plan") << pos << " " << how;
    std::ofstream("fake/count") << 0;
}
// the folder of saved sources, compiled
static std::string compileFolder(const std::string& folder, const std::string& lib) {
    plan(-1, "none");
    std::vector<std::string> link = {"/usr/bin/gcc", "-shared", "-o", lib};
    for (auto& f : list(folder)) {
        std::string o = "ref/" + f + ".o";
        if (spawn({fakecc, "-x", "c", "-fPIC", "-c", folder + "/" + f, "-o", o})) return " uncompilable " + f;
        link.push_back(o);
    }
    std::string r = spawn(link) ? " unlinkable" : contents(lib);
    for (auto& f : list("ref")) unlink(("ref/" + f).c_str());
    return r;
}

static void history(std::vector<std::string> lines, FILE* out) {
    Gen g;
    Compilers cc(fakecc);
    cc.gcc.setCompileFlags({"-O0"}); cc.clang.setCompileFlags({"-O0"});
    mkdir("fake", 0755); mkdir("ref", 0755);
    setenv("FAKE_DIR", (here + "/fake").c_str(), 1);
    plan(-1, "none");
    size_t nfd = fds(); int uniq = 0, op = 0;
    for (auto& l : lines) {
        std::istringstream w(l);
        std::string q; w >> q;
        std::string res, extra;
        op++;
        auto guarded = [&](const std::function<void()>& f) {
            try { f(); return std::string("ok"); } catch (const std::exception& e) { std::string m = e.what(); std::replace(m.begin(), m.end(), '\n', ' '); extra += " what{" + m.substr(0, 80) + "}"; return std::string("throw"); }
        };
        auto state = [&]() {
            std::ostringstream s;
            if (waitpid(-1, nullptr, WNOHANG) != -1) s << " zombie";
            if (fds() > nfd) s << " fds+" << fds() - nfd;
            return s.str();
        };
        if (q == "model") { int m; w >> m; std::set<std::string> r; std::string t; while (w >> t) r.insert(t); g.model(m, r); continue; }
        if (q == "custom") { int k, big; w >> k >> big; g.custom(k, big); continue; }
        if (q == "version") {
            std::string kb; w >> kb; std::ofstream("fake/kb") << kb;
            ClangCompiler<double> c(fakecc);
            res = guarded([&] { if (c.getVersion() != "18.1.3") throw std::runtime_error("wrong version " + c.getVersion()); });
        } else if (q == "bitcode") {
            std::string how; long pos; w >> how >> pos;
            std::map<std::string, std::string> src;
            for (int k = 0; k < 5; k++) src["b" + std::to_string(k) + ".c"] = "/*" + std::string(k == 3 ? 200000 : 10, 'x') + "*/ int b" + std::to_string(k) + ";\n";
            plan(how == "none" ? -1 : std::min(pos, 4l), how);
            auto flags = cc.clang.getCompileFlags();
            res = guarded([&] { cc.clang.generateLLVMBitCode(src); });
            if (res == "ok") {
                size_t n = 0;
                for (auto& f : cc.clang.getBitCodeFiles()) n += slurp(f).substr(0, 2) == "BC";
                if (n != 5) extra += " bitcode files: " + std::to_string(n);
            }
            cc.clang.cleanup();
            if (cc.clang.getCompileFlags() != flags) extra += " compile flags changed";
            if (exists("cppadcg_tmp") != "none") extra += " temporary folder left";
        } else {
            std::string how, c, name, api; long pos; int ext = 0, load = 0, pic = 1, disk = 0;
            w >> how >> pos;
            bool save = q == "save", dyn = q == "dyn";
            if (save) w >> api; else w >> c >> name >> ext >> load >> pic >> disk;
            // sources, which are often generated by the operation itself
            Sources<DynamicModelLibraryProcessor<double>> rp(*g.lib, "ref");
            std::vector<std::string> order;
            long k = 0;
            if (how != "listener" && how != "none" && how != "signals") {
                order = rp.order();
                long N = order.size();
                k = pos >= 8 ? N : pos * N / 8;
            }
            std::string tmp = "cppadcg_tmp", srcs = save ? "saved" : "cppadcg_sources";
            wipe(srcs);
            bool proc = how == "exit" || how == "early" || how == "partial" || how == "kill" || how == "noout";
            plan(proc ? k : -1, how);
            Thrower t; if (how == "listener") t.at = pos;
            std::string libname = name;
            if (how == "tmpfile") { std::ofstream(tmp) << "mine"; }
            if (how == "nolibdir") libname = "nowhere/" + name;
            if (how == "srcdirfile") { std::ofstream(srcs) << "mine"; }
            if (how == "srcfiledir") { mkdir(srcs.c_str(), 0755); mkdir((srcs + "/" + order[k]).c_str(), 0755); }
            if (how == "srcfull") { mkdir(srcs.c_str(), 0755); if (symlink("/dev/full", (srcs + "/" + order[k]).c_str())) abort(); }
            std::string suffix = ext ? ".xyz" : dyn ? ".so" : ".a";
            if (how == "libdir") mkdir((name + suffix).c_str(), 0755);
            g.lib->addListener(t);
            std::string answers;
            struct Pester { // signals, which are handled
                std::atomic<bool> stop{false}; std::thread th;
                explicit Pester(bool on) {
                    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = [](int) {}; sigaction(SIGUSR1, &sa, nullptr);
                    pthread_t me = pthread_self();
                    if (on) th = std::thread([this, me] { while (!stop) { pthread_kill(me, SIGUSR1); usleep(700); } });
                }
                void end() { stop = true; if (th.joinable()) th.join(); }
            } pester(how == "signals");
            if (save) {
                res = guarded([&] {
                    if (api == "proc") SaveFilesModelLibraryProcessor<double>(*g.lib).saveSourcesTo(srcs);
                    else if (api == "gen") g.lib->saveSources(srcs);
                    else SaveFilesModelLibraryProcessor<double>::saveLibrarySourcesTo(*g.lib, srcs);
                });
            } else {
                auto& comp = cc.get(c);
                comp.setSaveToDiskFirst(disk);
                comp.setCompilerPath(how == "noexec" ? "/nonexistent/compiler" : fakecc);
                res = guarded([&] {
                    DynamicModelLibraryProcessor<double> p(*g.lib, libname);
                    if (ext) p.setCustomLibraryExtension(".xyz");
                    if (dyn) {
                        auto lib = p.createDynamicLibrary(comp, load);
                        if (load) {
                            if (!lib) throw std::logic_error("no library"); 
                            std::ostringstream o; for (auto& n : lib->getModelNames()) o << " " << n;
                            extra += " loaded{" + o.str() + " }";
                        } else if (lib) extra += " unasked library";
                    } else { ArArchiver ar(how == "noexec" ? "/nonexistent/ar" : fakecc); p.createStaticLibrary(comp, ar, pic); }
                });
                comp.setCompilerPath(fakecc);
                pester.end();
                // what is left behind
                if (how == "tmpfile") { if (slurp(tmp) != "mine") extra += " lost the file in place of the temporary folder"; unlink(tmp.c_str()); }
                else if (exists(tmp) != "none") { extra += " left{"; for (auto& f : list(tmp)) extra += " " + f; extra += " }"; wipe(tmp); }
                if (!comp.getObjectFiles().empty()) extra += " objects remembered";
                if (how == "libdir") rmdir((name + suffix).c_str());
                if (res == "ok") {
                    std::string f = name + suffix, u = "lib" + std::to_string(++uniq) + ".so";
                    if (dyn) { rename(f.c_str(), u.c_str()); answers = contents(u); }
                    else answers = spawn({"/usr/bin/gcc", "-shared", "-o", u, "-Wl,--whole-archive", f, "-Wl,--no-whole-archive"}) ? " unlinkable" : contents(u);
                    unlink(u.c_str());
                }
                for (auto e : {".so", ".xyz", ".a"}) unlink((name + e).c_str());
            }
            g.lib->removeListener(t);
            if (how == "srcdirfile" && slurp(srcs) != "mine") extra += " lost the file in place of the sources folder";
            bool fired = how == "listener" ? t.fired : proc ? exists("fake/fired") != "none" : how != "none" && how != "signals";
            // sources that were kept are complete
            if ((save || disk) && how != "srcdirfile") {
                std::map<std::string, std::string> all;
                if (how != "listener" || res == "ok") all = rp.all();
                if (!all.empty()) for (auto& f : list(srcs)) {
                    if ((how == "srcfiledir" || how == "srcfull") && f == order[k]) continue;
                    if (!all.count(f)) extra += " unknown source " + f; else if (slurp(srcs + "/" + f) != all[f]) extra += " source differs: " + f;
                }
                if (res == "ok") extra += " kept{" + compileFolder(srcs, "lib" + std::to_string(++uniq) + "k.so") + " }";
            } else if (!save && exists(srcs) != "none" && !disk) extra += " sources kept";
            wipe(srcs);
            for (int u = 1; u <= uniq; u++) unlink(("lib" + std::to_string(u) + "k.so").c_str());
            res += fired ? " fired" : " quiet";
            extra += " answers{" + answers + " }";
        }
        fprintf(out, "R %d %s%s%s\n", op, res.c_str(), state().c_str(), extra.c_str());
        fflush(out);
    }
    fprintf(out, "E\n");
    fflush(out);
}

int main(int, char** argv) { // fakecc, cache, scratch; histories on stdin
    CppAD::ErrorHandler eh([](bool, int line, const char* file, const char* exp, const char* msg) { throw std::runtime_error(std::string(file) + ":" + std::to_string(line) + " " + exp + " " + msg); });
    fakecc = argv[1];
    setenv("FAKE_CACHE", argv[2], 1);
    std::string scratch = argv[3], line, id;
    std::vector<std::string> lines;
    while (std::getline(std::cin, line)) {
        if (line.compare(0, 5, "hist ") == 0) { id = line.substr(5); lines.clear(); continue; }
        if (line != "end") { lines.push_back(line); continue; }
        here = scratch + "/h" + id;
        mkdir(here.c_str(), 0755);
        std::cout << "H " << id << std::endl;
        fflush(stdout);
        int fd[2]; if (pipe(fd)) abort();
        pid_t p = fork();
        if (p == 0) {
            close(fd[0]);
            if (chdir(here.c_str())) _exit(9);
            signal(SIGPIPE, SIG_DFL);
            alarm(30);
            int nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1); dup2(nul, 2); close(nul);
            fcntl(fd[1], F_SETFD, FD_CLOEXEC);
            FILE* o = fdopen(fd[1], "w");
            try { history(lines, o); } catch (const std::exception& e) { fprintf(o, "X %s\n", e.what()); fflush(o); }
            _exit(0);
        }
        close(fd[1]);
        char buf[4096]; ssize_t n;
        while ((n = read(fd[0], buf, sizeof buf)) > 0) std::cout.write(buf, n);
        close(fd[0]);
        int st; waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) std::cout << "D " << (WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st)) << "\n";
        std::cout.flush();
    }
}
