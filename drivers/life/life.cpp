// Performs the histories of spec/Life.tla on real libraries: every scenario runs in a process of its own.
#include <cppad/cg/cppadcg.hpp>
#include "fastcc.hpp"
#include <sys/stat.h>
#include <iostream>
using namespace CppAD;
using namespace CppAD::cg;
typedef CG<double> CGD;
typedef AD<CGD> ADCG;
typedef std::vector<double> V;
typedef CppAD::vector<double> CV;
typedef std::set<size_t> S;
typedef CppAD::vector<S> VS;
typedef CppAD::vector<bool> VB;

// a function given by its values and first and second derivatives, every element of which may be nonzero
struct Fun : public atomic_base<double> {
    size_t n, m; double k;
    Fun(const char* name, size_t n, size_t m, double k) : atomic_base<double>(name, atomic_base<double>::set_sparsity_enum), n(n), m(m), k(k) {}
    double f(size_t i, const V& x) { return n == 1 ? x[0] * x[0] + k * x[0] : i == 0 ? x[0] * x[1] + k * x[0] : k * x[0] * x[0] - x[1]; }
    double g(size_t i, size_t j, const V& x) { return n == 1 ? 2 * x[0] + k : i == 0 ? (j == 0 ? x[1] + k : x[0]) : (j == 0 ? 2 * k * x[0] : -1); }
    double h(size_t i, size_t j, size_t l) { return n == 1 ? 2 : i == 0 ? j != l : (j == 0 && l == 0 ? 2 * k : 0); }
    bool forward(size_t q, size_t p, const VB& vx, VB& vy, const CV& tx, CV& ty) override {
        if (p > 1) return false;
        size_t p1 = p + 1;
        V x(n); for (size_t j = 0; j < n; j++) x[j] = tx[j * p1];
        for (size_t i = 0; i < m; i++) {
            if (q == 0) ty[i * p1] = f(i, x);
            if (p == 1) { double s = 0; for (size_t j = 0; j < n; j++) s += g(i, j, x) * tx[j * 2 + 1]; ty[i * 2 + 1] = s; }
        }
        if (vx.size() > 0) { bool any = false; for (size_t j = 0; j < n; j++) any |= vx[j]; for (size_t i = 0; i < m; i++) vy[i] = any; }
        return true;
    }
    bool reverse(size_t p, const CV& tx, const CV& ty, CV& px, const CV& py) override {
        if (p > 1) return false;
        size_t p1 = p + 1;
        V x(n); for (size_t j = 0; j < n; j++) x[j] = tx[j * p1];
        for (size_t j = 0; j < n; j++) for (size_t o = 0; o < p1; o++) px[j * p1 + o] = 0;
        for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) {
            px[j * p1] += g(i, j, x) * py[i * p1];
            if (p == 1) {
                px[j * 2 + 1] += g(i, j, x) * py[i * 2 + 1];
                for (size_t l = 0; l < n; l++) px[j * 2] += h(i, j, l) * tx[l * 2 + 1] * py[i * 2 + 1];
            }
        }
        return true;
    }
    bool for_sparse_jac(size_t q, const VS& r, VS& s, const CV&) override {
        for (size_t i = 0; i < m; i++) { s[i].clear(); for (size_t j = 0; j < n; j++) s[i].insert(r[j].begin(), r[j].end()); }
        return true;
    }
    bool rev_sparse_jac(size_t q, const VS& rt, VS& st, const CV&) override {
        for (size_t j = 0; j < n; j++) { st[j].clear(); for (size_t i = 0; i < m; i++) st[j].insert(rt[i].begin(), rt[i].end()); }
        return true;
    }
    bool rev_sparse_hes(const VB& vx, const VB& s, VB& t, size_t q, const VS& r, const VS& u, VS& v, const CV&) override {
        bool any = false; for (size_t i = 0; i < m; i++) any |= s[i];
        for (size_t j = 0; j < n; j++) {
            t[j] = any; v[j].clear();
            for (size_t i = 0; i < m; i++) v[j].insert(u[i].begin(), u[i].end());
            if (any) for (size_t l = 0; l < n; l++) v[j].insert(r[l].begin(), r[l].end());
        }
        return true;
    }
    bool for_sparse_jac(size_t q, const VS& r, VS& s) override { return for_sparse_jac(q, r, s, CV()); }
    bool rev_sparse_jac(size_t q, const VS& rt, VS& st) override { return rev_sparse_jac(q, rt, st, CV()); }
    bool rev_sparse_hes(const VB& vx, const VB& s, VB& t, size_t q, const VS& r, const VS& u, VS& v) override { return rev_sparse_hes(vx, s, t, q, r, u, v, CV()); }
};
static std::unique_ptr<Fun> uf3, uf5, ext1;
static std::unique_ptr<CGAtomicFun<double>> uf, ext;
static ADCG U(const ADCG& z) { std::vector<ADCG> a{z}, b(1); (*uf)(a, b); return b[0]; }
static std::vector<ADCG> E(const ADCG& p, const ADCG& q) { std::vector<ADCG> a{p, q}, b(2); (*ext)(a, b); return b; }

struct Def { std::string name, kind; int k; std::set<std::string> opts; };
struct File { std::string threads; std::vector<Def> defs; std::string path; };
static std::vector<File> files;
static std::string dir;

static std::unique_ptr<ADFun<CGD>> record(const Def& d) {
    std::vector<ADCG> x(2), y(2);
    x[0] = 1.25; x[1] = 0.75;
    Independent(x);
    CGD k = d.k;
    if (d.kind == "poly") { y[0] = x[0] * x[1] + k * x[0]; y[1] = k * x[0] * x[0] - x[1]; }
    else if (d.kind == "user") { y[0] = U(x[0]) + k * x[1]; y[1] = x[0] + k * U(x[1]); }
    else if (d.kind == "ext") { std::vector<ADCG> g = E(x[0], x[1]), h = E(x[1], x[0]); y[0] = g[0] + k * x[1]; y[1] = h[1] + k * x[0]; }
    else if (d.kind == "nonl") { std::vector<ADCG> g = E(x[0] * x[1], x[1]); y[0] = g[0] * g[1]; y[1] = k * (g[0] * x[0]); }
    else { std::vector<ADCG> g = E(x[0], x[1]); y[0] = g[0] + U(x[1]); y[1] = k * g[1]; }
    return std::unique_ptr<ADFun<CGD>>(new ADFun<CGD>(x, y));
}
static void make(File& f, size_t i) {
    std::vector<std::unique_ptr<ADFun<CGD>>> funs;
    std::vector<std::unique_ptr<ModelCSourceGen<double>>> gens;
    std::unique_ptr<ModelLibraryCSourceGen<double>> lib;
    for (auto& d : f.defs) {
        funs.push_back(record(d));
        gens.emplace_back(new ModelCSourceGen<double>(*funs.back(), d.name));
        auto& g = *gens.back();
        auto has = [&](const char* o) { return d.opts.count(o) > 0; };
        g.setCreateForwardZero(has("zero")); g.setCreateJacobian(has("jac")); g.setCreateHessian(has("hess"));
        g.setCreateForwardOne(has("for1")); g.setCreateReverseOne(has("rev1")); g.setCreateReverseTwo(has("rev2"));
        g.setCreateSparseJacobian(has("spjac")); g.setCreateSparseHessian(has("sphess"));
        if (f.threads != "none") g.setMultiThreading(true);
        if (!lib) lib.reset(new ModelLibraryCSourceGen<double>(g)); else lib->addModel(g);
    }
    if (f.threads == "pthreads") lib->setMultiThreading(MultiThreadingType::PTHREADS);
    if (f.threads == "openmp") lib->setMultiThreading(MultiThreadingType::OPENMP);
    std::string d = dir + "/f" + std::to_string(i);
    mkdir(d.c_str(), 0777);
    FastCompiler cc(d, f.threads == "openmp" ? "-fopenmp" : f.threads == "pthreads" ? "-pthread" : "");
    cc.joined = false;
    DynamicModelLibraryProcessor<double> p(*lib, d + "/lib");
    p.createDynamicLibrary(cc, false);
    f.path = d + "/lib.so";
}

static const double JUNK = 7.77e77;
typedef LinuxDynamicLib<double> Lib;
typedef LinuxDynamicLibModel<double> Mod;
struct Call { std::string r; int form, which = -1; V x, w, d; };
static ArrayView<const double> in(const V& v) { return ArrayView<const double>(v.data(), v.size()); }
static ArrayView<double> out(V& v) { return ArrayView<double>(v.data(), v.size()); }

// bad(k, v): argument k of this call gets a wrong size when it is the one that was chosen
static V perform(Mod& model, const Call& c) {
    GenericModel<double>& m = model;
    int args = 0, w = c.which;
    auto bad = [&](V v, int delta) { if (w == args++) { if (delta > 0) v.push_back(1); else v.pop_back(); } return v; };
    auto odd = [&](V v) { return bad(v, c.form & 1 ? 1 : -1); };
    auto shrt = [&](V v) { return bad(v, -1); };
    auto idx = [&](std::vector<size_t> k) { if (w == args++) k[c.form & 1 ? k.size() - 1 : 0] = c.form & 2 ? 2 : 100; return k; };
    auto unused = [&](int n) { if (w >= n) throw CGException("no such argument"); };
    const std::string& r = c.r;
    V tx2{c.x[0], c.d[0], c.x[1], c.d[1]}, py2{0, c.w[0], 0, c.w[1]};
    if (r == "zero") {
        if (c.form == 0) { V y = odd(V(2, JUNK)), x = odd(c.x); unused(2); m.ForwardZero(in(x), out(y)); return y; }
        if (c.form == 1) { V x = odd(c.x); unused(1); return m.ForwardZero(x); }
        if (c.form == 2) { V y = odd(V(2, JUNK)); std::vector<const double*> p{c.x.data()}; if (w == args++) p.push_back(c.x.data()); unused(2); m.ForwardZero(p, out(y)); return y; }
        V x = odd(c.x), y = odd(V(2, JUNK)); VB vx, vy; unused(2);
        m.ForwardZero(vx, vy, in(x), out(y));
        return y;
    }
    if (r == "jac") {
        V x = odd(c.x);
        if (c.form == 1) { unused(1); return m.Jacobian(x); }
        V y = odd(V(4, JUNK)); unused(2); m.Jacobian(in(x), out(y)); return y;
    }
    if (r == "hess") {
        V x = odd(c.x), wt = odd(c.w);
        if (c.form == 1) { unused(2); return m.Hessian(x, wt); }
        V y = odd(V(4, JUNK)); unused(3); m.Hessian(in(x), in(wt), out(y)); return y;
    }
    if (r == "for1") {
        V tx = shrt(tx2);
        if (c.form == 1) { unused(1); return m.ForwardOne(tx); }
        V ty = shrt(V(4, JUNK)); unused(2); m.ForwardOne(in(tx), out(ty)); return V{ty[1], ty[3]};
    }
    if (r == "sfor1") { V x = shrt(c.x), y = shrt(V(2, JUNK)); auto k = idx({0, 1}); unused(3); m.ForwardOne(in(x), 2, k.data(), c.d.data(), out(y)); return y; }
    if (r == "rev1") {
        V x = shrt(c.x), ty = shrt(V(2, JUNK)), py = shrt(c.w);
        if (c.form == 1) { unused(3); return m.ReverseOne(x, ty, py); }
        V px = shrt(V(2, JUNK)); unused(4); m.ReverseOne(in(x), in(ty), out(px), in(py)); return px;
    }
    if (r == "srev1") { V x = shrt(c.x), px = shrt(V(2, JUNK)); auto k = idx({0, 1}); unused(3); m.ReverseOne(in(x), out(px), 2, k.data(), c.w.data()); return px; }
    if (r == "rev2") {
        V tx = shrt(tx2), ty = shrt(V(4, JUNK)), py = shrt(py2), px;
        if (c.form == 1) { unused(3); px = m.ReverseTwo(tx, ty, py); }
        else { px = shrt(V(4, JUNK)); unused(4); m.ReverseTwo(in(tx), in(ty), out(px), in(py)); }
        return V{px[0], px[2]};
    }
    if (r == "srev2") { V x = shrt(c.x), px = shrt(V(2, JUNK)), py = shrt(c.w); auto k = idx({0, 1}); unused(4); m.ReverseTwo(in(x), 2, k.data(), c.d.data(), out(px), in(py)); return px; }
    if (r == "spjac" || r == "sphess") {
        bool J = r == "spjac";
        V x = c.form == 3 ? c.x : odd(c.x), wt = J ? c.w : odd(c.w), y;
        if (c.form == 0) {
            y = odd(V(4, JUNK)); unused(J ? 2 : 3);
            if (J) m.SparseJacobian(in(x), out(y)); else m.SparseHessian(in(x), in(wt), out(y));
            return y;
        }
        V dense(4, 0), v;
        if (c.form == 1) {
            std::vector<size_t> rows{9}, cols{9}; unused(J ? 1 : 2);
            if (J) m.SparseJacobian(x, v, rows, cols); else m.SparseHessian(x, wt, v, rows, cols);
            for (size_t e = 0; e < v.size(); e++) dense.at(rows.at(e) * 2 + cols.at(e)) = v[e];
            return dense;
        }
        std::vector<size_t> a, b;
        if (J) m.JacobianSparsity(a, b); else m.HessianSparsity(a, b);
        v = odd(V(a.size(), JUNK));
        const size_t *rows = nullptr, *cols = nullptr;
        if (c.form == 2) {
            unused(J ? 2 : 3);
            if (J) m.SparseJacobian(in(x), out(v), &rows, &cols); else m.SparseHessian(in(x), in(wt), out(v), &rows, &cols);
        } else {
            std::vector<const double*> p{c.x.data()}; if (w == args++) p.push_back(c.x.data());
            unused(J ? 2 : 3);
            if (J) m.SparseJacobian(p, out(v), &rows, &cols); else m.SparseHessian(p, in(wt), out(v), &rows, &cols);
        }
        for (size_t e = 0; e < v.size(); e++) dense.at(rows[e] * 2 + cols[e]) = v[e];
        return dense;
    }
    if (r == "jsp" || r == "hsp") {
        std::vector<size_t> a, b;
        if (r == "jsp") m.JacobianSparsity(a, b); else m.HessianSparsity(a, b);
        std::vector<bool> f = r == "jsp" ? m.JacobianSparsityBool() : m.HessianSparsityBool();
        std::vector<bool> g(4); for (size_t e = 0; e < a.size(); e++) g.at(a[e] * 2 + b[e]) = true;
        if (f != g) throw std::runtime_error("DIFFERENT");
        return V{};
    }
    if (r == "avail") {
        bool s[] = {m.isSparseForwardOneAvailable() == m.isForwardOneAvailable(), m.isSparseReverseOneAvailable() == m.isReverseOneAvailable(), m.isSparseReverseTwoAvailable() == m.isReverseTwoAvailable()};
        if (!s[0] || !s[1] || !s[2]) throw std::runtime_error("AVAIL");
        return V{double(m.isForwardZeroAvailable()), double(m.isJacobianAvailable()), double(m.isHessianAvailable()), double(m.isForwardOneAvailable()), double(m.isReverseOneAvailable()),
                 double(m.isReverseTwoAvailable()), double(m.isSparseJacobianAvailable()), double(m.isSparseHessianAvailable()), double(m.isJacobianSparsityAvailable()), double(m.isHessianSparsityAvailable())};
    }
    throw std::runtime_error("routine " + r);
}

static void known(bool k, int line, const char* file, const char* exp, const char* msg) { throw CGException(*msg ? std::string(msg) : std::string("assertion ") + exp + " " + file + ":" + std::to_string(line)); }

static void scenario(const std::string& id, const std::vector<std::string>& ops) {
    std::vector<std::unique_ptr<Lib>> libs, oldLibs;
    std::vector<std::unique_ptr<Mod>> objs;
    int no = 0;
    for (auto& line : ops) {
        std::istringstream is(line);
        std::string op; is >> op;
        std::string text;
        auto put = [&](const char* f, auto... a) { char buf[4000]; snprintf(buf, sizeof buf, f, a...); text += buf; };
        put("\nR %s %d", id.c_str(), no++);
        try {
            if (op == "open") { size_t f; is >> f; libs.emplace_back(new Lib(files[f - 1].path)); put("%s", " ok"); }
            else if (op == "openbad") {
                int k; is >> k;
                std::string p = k == 1 ? dir + "/missing.so" : k == 2 ? dir + "/text.so" : dir + "/other.so";
                Lib l(p); put("%s", " ok");
            } else if (op == "names") { size_t h; is >> h; put("%s", " ok"); for (auto& n : libs[h - 1]->getModelNames()) put(" %s", n.c_str()); }
            else if (op == "model") {
                size_t h; std::string n; is >> h >> n; if (n == "-") n = "";
                std::unique_ptr<GenericModel<double>> g = libs[h - 1]->model(n);
                put(" ok %d", g != nullptr);
                if (g) {
                    if (g->getName() != n || g->Domain() != 2 || g->Range() != 2) throw std::runtime_error("WRONG MODEL");
                    objs.emplace_back(dynamic_cast<Mod*>(g.release()));
                }
            } else if (op == "movelib") {
                size_t h; int now; is >> h >> now;
                libs.emplace_back(new Lib(std::move(*libs[h - 1])));
                if (now) libs[h - 1].reset();
                put("%s", " ok");
            } else if (op == "close") { size_t h; is >> h; libs[h - 1].reset(); put("%s", " ok"); }
            else if (op == "movemodel") { size_t o; int now; is >> o >> now; objs.emplace_back(new Mod(std::move(*objs[o - 1]))); if (now) objs[o - 1].reset(); put("%s", " ok"); }
            else if (op == "delmodel") { size_t o; is >> o; objs[o - 1].reset(); put("%s", " ok"); }
            else if (op == "adduser") { size_t o; int c; is >> o >> c; put(" ok %d", objs[o - 1]->addAtomicFunction(c == 3 ? *uf3 : *uf5)); }
            else if (op == "addext") {
                size_t o, e; std::string how; is >> o >> e >> how;
                bool r = how == "model" ? objs[o - 1]->addExternalModel(*objs[e - 1]) : objs[o - 1]->addAtomicFunction(objs[e - 1]->asAtomic());
                put(" ok %d", r);
            } else if (op == "call" || op == "badcall") {
                Call c; size_t o; c.x.resize(2); c.w.resize(2); c.d.resize(2);
                is >> o >> c.r >> c.form >> c.x[0] >> c.x[1] >> c.w[0] >> c.w[1] >> c.d[0] >> c.d[1];
                if (op == "badcall") is >> c.which;
                V y = perform(*objs[o - 1], c);
                put("%s", " ok"); for (double v : y) put(" %.17g", v);
            } else put("%s", " what");
        } catch (const std::exception& e) { std::string m = e.what(); for (auto& ch : m) if (ch == '\n') ch = ' '; put(" exc %s", m.c_str()); }
        printf("%s\n", text.c_str()); fflush(stdout);
    }
    if (ops.size() && (std::hash<std::string>()(ops.back()) & 1)) { libs.clear(); objs.clear(); } else { objs.clear(); libs.clear(); }
    printf("\nEND %s\n", id.c_str()); fflush(stdout);
}

int main(int argc, char** argv) {
    dir = argv[1];
    ErrorHandler eh(known);
    uf3.reset(new Fun("uf", 1, 1, 3)); uf5.reset(new Fun("uf", 1, 1, 5)); ext1.reset(new Fun("ext", 2, 2, 1));
    CV u1(1), e2(2); u1[0] = 1.25; e2[0] = 1.25; e2[1] = 0.75;
    uf.reset(new CGAtomicFun<double>(*uf3, u1, true)); ext.reset(new CGAtomicFun<double>(*ext1, e2, true));
    std::ofstream(dir + "/text.so") << "this is not a library\n";
    std::string line, id;
    std::vector<std::string> ops;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string c; is >> c;
        if (c == "file") { File f; is >> f.threads; files.push_back(f); }
        else if (c == "def") { Def d; is >> d.name >> d.kind >> d.k; std::string o; while (is >> o) d.opts.insert(o); files.back().defs.push_back(d); }
        else if (c == "build") {
            std::ofstream(dir + "/other.c") << "int something(void) { return 1; }\n";
            if (::system(("gcc -shared -fPIC -o '" + dir + "/other.so' '" + dir + "/other.c'").c_str()) != 0) return 3;
            for (size_t i = 0; i < files.size(); i++) {
                try { make(files[i], i); printf("BUILT %zu\n", i + 1); }
                catch (const std::exception& e) { printf("NOBUILD %zu %s\n", i + 1, e.what()); }
                fflush(stdout);
            }
        } else if (c == "scn") { is >> id; ops.clear(); }
        else if (c == "go") {
            fflush(stdout);
            pid_t p = fork();
            if (p == 0) { alarm(60); scenario(id, ops); _exit(0); }
            int st = 0; waitpid(p, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { printf("\nDIED %s %d\n", id.c_str(), st); fflush(stdout); }
        } else ops.push_back(line);
    }
    fflush(stdout);
    _exit(0);
}
