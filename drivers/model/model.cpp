// Builds the models of spec/Model.tla and performs their histories of calls.
#include "users.hpp"
#include "fastcc.hpp"
#include <sys/stat.h>
#include <cstdlib>
#include <cstring>
#include <new>
using namespace CppAD;
using namespace CppAD::cg;

typedef std::vector<double> V;
struct Query { std::string uid, name; int form; std::vector<V> a; };
struct Spec {
    std::string id; size_t n = 0; int form = 0; Program prog; V x0; std::vector<size_t> deps;
    std::map<std::string, std::string> opt;
    std::vector<size_t> cj[2], ch[2]; bool hasCj = false, hasCh = false;
    std::vector<std::set<size_t>> rel;
    std::vector<Query> qs;
    long o(const std::string& k) const { auto i = opt.find(k); return i == opt.end() ? 0 : atol(i->second.c_str()); }
    std::string s(const std::string& k) const { auto i = opt.find(k); return i == opt.end() ? "" : i->second; }
};
static std::string outDir;

// Every allocated block starts and is surrounded with not-a-numbers, so that an answer
// which uses memory it was not given cannot be right by chance.
void* operator new(size_t n) {
    char* p = static_cast<char*>(malloc(n + 128));
    if (!p) throw std::bad_alloc();
    memset(p, 0xFF, n + 128);
    return p + 64;
}
void operator delete(void* p) noexcept { if (p) free(static_cast<char*>(p) - 64); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }

static const double JUNK = 7.77e77;

// an output array with guard elements behind it
struct Out {
    V v; size_t n;
    explicit Out(size_t n) : v(n + 4, JUNK), n(n) {}
    ArrayView<double> view() { return ArrayView<double>(v.data(), n); }
    void done() { for (size_t i = n; i < v.size(); i++) if (v[i] != JUNK) throw std::runtime_error("OVERRUN"); }
};
static ArrayView<const double> in(const V& v) { return ArrayView<const double>(v.data(), v.size()); }
static void print(const char* tag, const std::string& uid, const double* v, size_t n) {
    printf("%s %s", tag, uid.c_str()); for (size_t i = 0; i < n; i++) printf(" %.17g", v[i]); printf("\n");
}
static void print(const char* tag, const std::string& uid, const V& v) { print(tag, uid, v.data(), v.size()); }
static void print(const char* tag, const std::string& uid, Out& o) { o.done(); print(tag, uid, o.v.data(), o.n); }
template<class A, class B> static void pattern(const char* tag, const std::string& uid, const A& r, const B& c, size_t n) {
    printf("%s %s", tag, uid.c_str()); for (size_t i = 0; i < n; i++) printf(" %lu:%lu", (unsigned long) r[i], (unsigned long) c[i]); printf("\n");
}
static void pattern(const char* tag, const std::string& uid, const std::vector<std::set<size_t>>& s) {
    printf("%s %s", tag, uid.c_str()); for (size_t i = 0; i < s.size(); i++) for (size_t j : s[i]) printf(" %lu:%lu", (unsigned long) i, (unsigned long) j); printf("\n");
}
static void pattern(const char* tag, const std::string& uid, const std::vector<bool>& s, size_t n) {
    printf("%s %s", tag, uid.c_str()); for (size_t i = 0; i < s.size(); i++) if (s[i]) printf(" %lu:%lu", (unsigned long) (i / n), (unsigned long) (i % n)); printf("\n");
}

struct Model {
    const Spec& s; size_t n, m;
    std::unique_ptr<DynamicLib<double>> lib;
    std::unique_ptr<GenericModel<double>> mod;
    explicit Model(const Spec& s) : s(s), n(s.n), m(s.deps.size()) {}

    void build() {
        std::vector<ADCG> ax(n), av, ay;
        for (size_t i = 0; i < n; i++) ax[i] = CGD(s.x0[i]);
        CppAD::Independent(ax);
        try {
            Extra<ADCG> ex = callAD;
            interpret<ADCG>(s.prog, s.prog.size(), ax, av, s.form, ex);
        } catch (...) { ADCG::abort_recording(); throw; }
        for (size_t d : s.deps) ay.push_back(av[d - 1]);
        ADFun<CGD> fun(ax, ay);
        if (s.o("optimize")) fun.optimize();
        ModelCSourceGen<double> g(fun, "m");
        g.setCreateForwardZero(s.o("zero")); g.setCreateJacobian(s.o("jac")); g.setCreateHessian(s.o("hess"));
        g.setCreateForwardOne(s.o("for1")); g.setCreateReverseOne(s.o("rev1")); g.setCreateReverseTwo(s.o("rev2"));
        g.setCreateSparseJacobian(s.o("spjac")); g.setCreateSparseHessian(s.o("sphess"));
        g.setSparseJacobianReuse1stOrderPasses(s.o("reuse1")); g.setSparseHessianReusesRev2(s.o("reuse2"));
        if (s.opt.count("mt")) g.setMultiThreading(s.o("mt"));
        g.setCreateHessianSparsityByEquation(s.o("heq"));
        if (s.s("mode") == "for") g.setJacobianADMode(JacobianADMode::Forward);
        else if (s.s("mode") == "rev") g.setJacobianADMode(JacobianADMode::Reverse);
        if (s.o("typical")) g.setTypicalIndependentValues(s.x0);
        if (s.o("maxAsg")) g.setMaxAssignmentsPerFunc(s.o("maxAsg"));
        if (s.o("maxOps")) g.setMaxOperationsPerAssignment(s.o("maxOps"));
        if (!s.rel.empty()) g.setRelatedDependents(s.rel);
        if (s.hasCj) {
            if (s.o("sets")) {
                std::vector<std::set<size_t>> e(m);
                for (size_t k = 0; k < s.cj[0].size(); k++) e[s.cj[0][k]].insert(s.cj[1][k]);
                g.setCustomSparseJacobianElements(e);
            } else g.setCustomSparseJacobianElements(s.cj[0], s.cj[1]);
        }
        if (s.hasCh) {
            if (s.o("sets")) {
                std::vector<std::set<size_t>> e(n);
                for (size_t k = 0; k < s.ch[0].size(); k++) e[s.ch[0][k]].insert(s.ch[1][k]);
                g.setCustomSparseHessianElements(e);
            } else g.setCustomSparseHessianElements(s.ch[0], s.ch[1]);
        }
        ModelLibraryCSourceGen<double> lg(g);
        std::string th = s.s("threads");
        if (th == "pthreads") lg.setMultiThreading(MultiThreadingType::PTHREADS);
        else if (th == "openmp") lg.setMultiThreading(MultiThreadingType::OPENMP);
        std::string d = outDir + "/" + s.id;
        mkdir(d.c_str(), 0777);
        DynamicModelLibraryProcessor<double> p(lg, d + "/lib" + s.id);
        if (s.o("real")) {
            GccCompiler<double> cc;
            cc.setTemporaryFolder(d + "/tmp");
            cc.addCompileFlag("-w");
            if (th == "pthreads") { cc.addCompileFlag("-pthread"); cc.addCompileLibFlag("-pthread"); }
            if (th == "openmp") { cc.addCompileFlag("-fopenmp"); cc.addCompileLibFlag("-fopenmp"); }
            lib = p.createDynamicLibrary(cc);
        } else {
            FastCompiler cc(d, th == "openmp" ? "-fopenmp" : th == "pthreads" ? "-pthread" : "");
            lib = p.createDynamicLibrary(cc);
        }
        mod = lib->model("m");
        if (!mod) throw std::runtime_error("no model");
        for (auto& nm : mod->getAtomicFunctionNames()) {
            bool found = false;
            for (auto& u : users) if (u.second->atomic_name() == nm) { found = true; if (!mod->addAtomicFunction(*u.second)) throw std::runtime_error("atomic refused"); }
            if (!found) throw std::runtime_error("unknown atomic " + nm);
        }
        if (mod->Domain() != n || mod->Range() != m) throw std::runtime_error("wrong size");
        if (lib->getModelNames() != std::set<std::string>{"m"}) throw std::runtime_error("wrong model names");
    }

    void call(const Query& q) {
        const std::string& r = q.name; const std::string& u = q.uid;
        auto A = [&](size_t i) -> const V& { return q.a[i]; };
        auto idx = [&](size_t i) { std::vector<size_t> k; for (double d : A(i)) k.push_back(size_t(d)); return k; };
        int f = q.form;
        if (r == "zero") {
            if (f == 0) print("A", u, mod->ForwardZero(A(0)));
            else if (f == 1) { Out y(m); mod->ForwardZero(in(A(0)), y.view()); print("A", u, y); }
            else if (f == 2) { Out y(m); std::vector<const double*> p{A(0).data()}; mod->ForwardZero(p, y.view()); print("A", u, y); }
            else {
                Out y(m);
                CppAD::vector<bool> vx(n), vy(m);
                for (size_t i = 0; i < n; i++) vx[i] = A(1)[i] != 0;
                for (size_t i = 0; i < m; i++) vy[i] = A(2)[i] != 0;
                mod->ForwardZero(vx, vy, in(A(0)), y.view());
                print("A", u, y);
                V b; for (size_t i = 0; i < m; i++) b.push_back(vy[i]); print("VY", u, b);
            }
        } else if (r == "jac") {
            if (f == 0) print("A", u, mod->Jacobian(A(0)));
            else { Out y(m * n); mod->Jacobian(in(A(0)), y.view()); print("A", u, y); }
        } else if (r == "hess") {
            if (f == 0) print("A", u, mod->Hessian(A(0), A(1)));
            else { Out y(n * n); mod->Hessian(in(A(0)), in(A(1)), y.view()); print("A", u, y); }
        } else if (r == "for1") {
            V tx; for (size_t j = 0; j < n; j++) { tx.push_back(A(0)[j]); tx.push_back(A(1)[j]); }
            if (f == 0) print("A", u, mod->ForwardOne(tx));
            else { Out ty(2 * m); mod->ForwardOne(in(tx), ty.view()); ty.done(); V y; for (size_t i = 0; i < m; i++) y.push_back(ty.v[2 * i + 1]); print("A", u, y); }
        } else if (r == "sfor1") {
            Out y(m); auto k = idx(1); mod->ForwardOne(in(A(0)), k.size(), k.data(), A(2).data(), y.view()); print("A", u, y);
        } else if (r == "rev1") {
            V ty(m, JUNK);
            if (f == 0) print("A", u, mod->ReverseOne(A(0), ty, A(1)));
            else { Out px(n); mod->ReverseOne(in(A(0)), in(ty), px.view(), in(A(1))); print("A", u, px); }
        } else if (r == "srev1") {
            Out px(n); auto k = idx(1); mod->ReverseOne(in(A(0)), px.view(), k.size(), k.data(), A(2).data()); print("A", u, px);
        } else if (r == "rev2") {
            V tx, py, ty(2 * m, JUNK);
            for (size_t j = 0; j < n; j++) { tx.push_back(A(0)[j]); tx.push_back(A(1)[j]); }
            for (size_t i = 0; i < m; i++) { py.push_back(0); py.push_back(A(2)[i]); }
            V px;
            if (f == 0) px = mod->ReverseTwo(tx, ty, py);
            else { Out o(2 * n); mod->ReverseTwo(in(tx), in(ty), o.view(), in(py)); o.done(); px = o.v; }
            V y; for (size_t j = 0; j < n; j++) y.push_back(px[2 * j]); print("A", u, y);
        } else if (r == "srev2") {
            Out px(n); auto k = idx(1); mod->ReverseTwo(in(A(0)), k.size(), k.data(), A(2).data(), px.view(), in(A(3))); print("A", u, px);
        } else if (r == "spjac" || r == "sphess") {
            bool J = r == "spjac";
            size_t rows = J ? m : n;
            std::vector<size_t> pr, pc;
            if (J) mod->JacobianSparsity(pr, pc); else mod->HessianSparsity(pr, pc);
            if (f == 0) {
                if (s.o("view")) { Out y(rows * n); if (J) mod->SparseJacobian(in(A(0)), y.view()); else mod->SparseHessian(in(A(0)), in(A(1)), y.view()); print("D", u, y); }
                else print("D", u, J ? mod->SparseJacobian(A(0)) : mod->SparseHessian(A(0), A(1)));
            } else if (f == 1) {
                V v{JUNK}; std::vector<size_t> rr{99}, cc{99};
                if (J) mod->SparseJacobian(A(0), v, rr, cc); else mod->SparseHessian(A(0), A(1), v, rr, cc);
                if (rr.size() != v.size() || cc.size() != v.size()) throw std::runtime_error("SIZES");
                print("A", u, v); pattern("E", u, rr, cc, v.size());
            } else {
                Out y(pr.size()); const size_t *rr = nullptr, *cc = nullptr;
                std::vector<const double*> p{A(0).data()};
                if (J) { if (f == 2) mod->SparseJacobian(in(A(0)), y.view(), &rr, &cc); else mod->SparseJacobian(p, y.view(), &rr, &cc); }
                else { if (f == 2) mod->SparseHessian(in(A(0)), in(A(1)), y.view(), &rr, &cc); else mod->SparseHessian(p, in(A(1)), y.view(), &rr, &cc); }
                print("A", u, y);
                if (pr.size() > 0 && (rr == nullptr || cc == nullptr)) throw std::runtime_error("NOROWS");
                pattern("E", u, rr, cc, pr.size());
            }
            pattern("P", u, pr, pc, pr.size());
        } else if (r == "jsp") {
            std::vector<size_t> pr, pc; mod->JacobianSparsity(pr, pc);
            pattern("P", u, pr, pc, pr.size()); pattern("S", u, mod->JacobianSparsitySet()); pattern("B", u, mod->JacobianSparsityBool(), n);
            if (mod->JacobianSparsitySet().size() != m || mod->JacobianSparsityBool().size() != m * n) throw std::runtime_error("SIZES");
        } else if (r == "hsp") {
            std::vector<size_t> pr, pc; mod->HessianSparsity(pr, pc);
            pattern("P", u, pr, pc, pr.size()); pattern("S", u, mod->HessianSparsitySet()); pattern("B", u, mod->HessianSparsityBool(), n);
            if (mod->HessianSparsitySet().size() != n || mod->HessianSparsityBool().size() != n * n) throw std::runtime_error("SIZES");
        } else if (r == "hspeq") {
            size_t i = size_t(A(0)[0]);
            std::vector<size_t> pr, pc; mod->HessianSparsity(i, pr, pc);
            pattern("P", u, pr, pc, pr.size()); pattern("S", u, mod->HessianSparsitySet(i)); pattern("B", u, mod->HessianSparsityBool(i), n);
            if (mod->HessianSparsitySet(i).size() != n || mod->HessianSparsityBool(i).size() != n * n) throw std::runtime_error("SIZES");
        } else if (r == "avail") {
            print("A", u, V{double(mod->isForwardZeroAvailable()), double(mod->isJacobianAvailable()), double(mod->isHessianAvailable()), double(mod->isForwardOneAvailable()),
                            double(mod->isSparseForwardOneAvailable()), double(mod->isReverseOneAvailable()), double(mod->isSparseReverseOneAvailable()),
                            double(mod->isReverseTwoAvailable()), double(mod->isSparseReverseTwoAvailable()), double(mod->isSparseJacobianAvailable()),
                            double(mod->isSparseHessianAvailable()), double(mod->isJacobianSparsityAvailable()), double(mod->isHessianSparsityAvailable()),
                            double(mod->isEquationHessianSparsityAvailable())});
        } else if (r == "config") { // library-level settings: threads, strategy, disabled, verbose, guided, measurements
            V c = A(0);
            if (c[0] >= 0) lib->setThreadNumber(unsigned(c[0]));
            if (c[1] >= 1) lib->setThreadPoolSchedulerStrategy(ThreadPoolScheduleStrategy(int(c[1])));
            if (c[2] >= 0) lib->setThreadPoolDisabled(c[2] != 0);
            if (c[3] >= 0) lib->setThreadPoolVerbose(c[3] != 0);
            if (c[4] >= 0) lib->setThreadPoolGuidedMaxWork(float(c[4]));
            if (c[5] >= 0) lib->setThreadPoolNumberOfTimeMeas(unsigned(c[5]));
            print("A", u, V{double(lib->getThreadNumber()), double(int(lib->getThreadPoolSchedulerStrategy())), double(lib->isThreadPoolDisabled()),
                            double(lib->isThreadPoolVerbose()), double(lib->getThreadPoolGuidedMaxWork()), double(lib->getThreadPoolNumberOfTimeMeas())});
        } else if (r.compare(0, 5, "tape_") == 0) tape(r.substr(5), q);
        else throw std::runtime_error("routine " + r);
    }

    // the model as a function in a recording (spec/Tape.tla)
    void tape(const std::string& r, const Query& q) {
        typedef AD<double> A;
        const V &x = q.a[0], &rec = q.a[1], &d = q.a[2], &w = q.a[3], &arg = q.a[4], &out = q.a[5];
        auto print = [&](const V& v) { ::print("A", q.uid, v); };
        CGAtomicGenericModel<double>& at = mod->asAtomic();
        size_t M = w.size();
        std::vector<A> ax(n), u(n), y(m), o(M);
        for (size_t j = 0; j < n; j++) ax[j] = rec[j];
        Independent(ax);
        try {
            for (size_t j = 0; j < n; j++) {
                double c = arg[3 * j]; size_t a = size_t(arg[3 * j + 1]), b = size_t(arg[3 * j + 2]);
                u[j] = ax[j];
                if (c == 9) u[j] = x[j];
                else if (c != 0) u[j] += c * (ax[a] * ax[b] - x[a] * x[b]);
            }
            at(u, y);
            for (size_t k = 0; k < M; k++) {
                const double* e = &out[5 * k]; size_t i = size_t(e[1]), l = size_t(e[2]), j = size_t(e[3]);
                o[k] = e[0] == 0 ? A(y[i] + e[4] * ax[j]) : e[0] == 1 ? A(y[i] * y[l] + e[4]) : e[0] == 2 ? A(e[4] * (y[i] * ax[j])) : A(y[i] + e[4] * y[l]);
            }
        } catch (...) { A::abort_recording(); throw; }
        ADFun<double> f;
        f.Dependent(ax, o);
        if (r == "zero") print(f.Forward(0, x));
        else if (r == "for1") { V a = f.Forward(0, x), b = f.Forward(1, d); a.insert(a.end(), b.begin(), b.end()); print(a); }
        else if (r == "both") {
            V t(2 * n), a(2 * M); for (size_t j = 0; j < n; j++) { t[2 * j] = x[j]; t[2 * j + 1] = d[j]; }
            V b = f.Forward(1, t); for (size_t k = 0; k < M; k++) { a[k] = b[2 * k]; a[M + k] = b[2 * k + 1]; }
            print(a);
        } else if (r == "rev1") { f.Forward(0, x); print(f.Reverse(1, w)); }
        else if (r == "rev2") {
            f.Forward(0, x); f.Forward(1, d);
            V b = f.Reverse(2, w), a(2 * n); for (size_t j = 0; j < n; j++) { a[j] = b[2 * j + 1]; a[n + j] = b[2 * j]; }
            print(a);
        } else if (r == "jac") print(f.Jacobian(x));
        else if (r == "hess") print(f.Hessian(x, w));
        else if (r == "spjac") print(f.SparseJacobian(x));
        else if (r == "sphess") print(f.SparseHessian(x, w));
        else if (r == "jsp") {
            std::vector<std::set<size_t>> id(n), s; for (size_t j = 0; j < n; j++) id[j].insert(j);
            s = f.ForSparseJac(n, id);
            std::vector<std::set<size_t>> im(M), t; for (size_t k = 0; k < M; k++) im[k].insert(k);
            t = f.RevSparseJac(M, im);
            V p(M * n); for (size_t k = 0; k < M; k++) for (size_t j = 0; j < n; j++) p[k * n + j] = s[k].count(j) && t[k].count(j);
            print(p);
        } else if (r == "hsp") {
            std::vector<std::set<size_t>> id(n), s(1); for (size_t j = 0; j < n; j++) id[j].insert(j);
            f.ForSparseJac(n, id);
            for (size_t k = 0; k < M; k++) if (w[k] != 0) s[0].insert(k);
            std::vector<std::set<size_t>> h = f.RevSparseHes(n, s);
            V p(n * n); for (size_t k = 0; k < n; k++) for (size_t j : h[k]) p[k * n + j] = 1;
            print(p);
        } else throw std::runtime_error("routine " + r);
    }
};

static void known(bool k, int line, const char* file, const char* exp, const char* msg) { throw CGException(*msg ? std::string(msg) : std::string("assertion ") + exp + " " + file + ":" + std::to_string(line)); }

int main(int argc, char** argv) {
    outDir = argv[1];
    ErrorHandler eh(known);
    makeUsers();
    Spec s;
    std::string line;
    auto perform = [&]() {
        { Model md(s);
          try { md.build(); printf("BUILT %s\n", s.id.c_str()); }
          catch (const std::exception& e) { printf("REC %s %s\n", s.id.c_str(), e.what()); fflush(stdout); goto end; }
          if (s.s("threads") == "pthreads" || s.s("threads") == "openmp") slow = 60;
        for (auto& q : s.qs) {
            try { md.call(q); printf("OK %s\n", q.uid.c_str()); }
            catch (const std::exception& e) { printf("EXC %s %s\n", q.uid.c_str(), e.what()); }
            fflush(stdout);
          } slow = 0; }
        end:
        printf("END %s\n", s.id.c_str()); fflush(stdout);
    };
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string c; is >> c;
        if (c == "model") { s = Spec(); is >> s.id >> s.n >> s.form; }
        else if (c == "pt") { double d; while (is >> d) s.x0.push_back(d); }
        else if (c == "node") { std::string r; std::getline(is, r); s.prog.push_back(readNode(r)); }
        else if (c == "deps") { size_t d; while (is >> d) s.deps.push_back(d); }
        else if (c == "opt") { std::string k, v; is >> k >> v; s.opt[k] = v; }
        else if (c == "cjac" || c == "chess") {
            size_t a, b; auto* p = c == "cjac" ? s.cj : s.ch; (c == "cjac" ? s.hasCj : s.hasCh) = true;
            while (is >> a >> b) { p[0].push_back(a); p[1].push_back(b); }
        }
        else if (c == "rel") { std::set<size_t> r; size_t d; while (is >> d) r.insert(d); s.rel.push_back(r); }
        else if (c == "q") {
            Query q; is >> q.uid >> q.name >> q.form;
            std::string t;
            while (is >> t) { if (t == "|") q.a.emplace_back(); else q.a.back().push_back(std::stod(t)); }
            s.qs.push_back(q);
        }
        else if (c == "end") perform();
    }
    fflush(stdout);
    _exit(0);
}
