// Re-evaluates recordings (spec/Session.tla histories) with every scalar type; evaluators live as long as the recorder.
#include <cppad/cg/cppadcg.hpp>
#include <cppad/cg/lang/dot/dot.hpp>
#include <fstream>
#include <unistd.h>
#include "users.hpp"
#include "grapheval.hpp"
using namespace CppAD;
using namespace CppAD::cg;

struct Ev { std::string uid, kind; size_t upto; std::vector<size_t> deps; std::vector<std::vector<double>> pts; long fail; };
static std::string outDir;
static void print(const std::string& tag, const std::string& uid, const std::vector<double>& y) {
    printf("%s %s", tag.c_str(), uid.c_str());
    for (double d : y) printf(" %.17g", d);
    printf("\n");
}
template<class E> static void addAll(E& e) { for (auto& a : atoms) e.addAtomicFunction(a.second->getId(), *users[a.first]); }

static void dot(CodeHandler<double>& h, std::vector<CGD>& deps, const std::string& uid) {
    std::ostringstream code;
    LanguageDot<double> lang;
    LangCDefaultVariableNameGenerator<double> names;
    h.generateCode(code, lang, deps, names);
    std::ofstream(outDir + "/" + uid + ".dot") << code.str();
}

struct Evaluators { // in the order of destruction before the handler
    Evaluator<double, double, double> num;
    Evaluator<double, double> ad, adLate;
    Evaluator<double, double, CGD> cg;
    Evaluator<double, CGD> adcg;
    bool late = false;
    explicit Evaluators(CodeHandler<double>& h) : num(h), ad(h), adLate(h), cg(h), adcg(h) { addAll(ad); for (auto& a : atoms) adcg.addAtomicFunction(a.second->getId(), *a.second); }
};

static void graphValues(CodeHandler<double>& h, std::vector<CGD>& deps, const std::vector<double>& x, const std::string& uid) {
    GraphEval ge{h, x, [](size_t id) -> atomic_base<double>& { for (auto& a : atoms) if (a.second->getId() == id) return *users[a.first]; throw std::runtime_error("user function"); }};
    std::vector<double> r; for (auto& d : deps) r.push_back(ge.of(d));
    print("V", uid, r);
}
// meaning of a recording made in a handler of its own
static void evalNew(CodeHandler<double>& h2, std::vector<CGD>& deps, const Ev& e) {
    for (size_t k = 0; k < e.pts.size(); k++) graphValues(h2, deps, e.pts[k], e.uid + " " + std::to_string(k));
}

static void evaluate(CodeHandler<double>& h, Evaluators& E, const std::vector<CGD>& x, std::vector<CGD>& deps, size_t n, const Ev& e) {
    failAt = -1; calls = 0;
    if (e.kind == "badsize") { std::vector<ADD> xb(n + 1); E.ad.evaluate(xb, deps); return; }
    if (e.kind == "badsizecg") { std::vector<CGD> xb(n - 1); E.cg.evaluate(xb, deps); return; }
    if (e.kind == "num") {
        for (size_t k = 0; k < e.pts.size(); k++) print("V", e.uid + " " + std::to_string(k), E.num.evaluate(e.pts[k], deps));
    } else if (e.kind == "ad" || e.kind == "adlate") {
        auto& ev = e.kind == "ad" ? E.ad : E.adLate;
        for (size_t k = 0; k < e.pts.size(); k++) {
            std::vector<ADD> xx(e.pts[k].begin(), e.pts[k].end());
            std::vector<ADD> y;
            try { y = ev.evaluate(xx, deps); }
            catch (const CGException&) { if (e.kind == "ad" || E.late) throw; addAll(E.adLate); E.late = true; y = ev.evaluate(xx, deps); }
            std::vector<double> r; for (auto& a : y) r.push_back(Value(a));
            print("V", e.uid + " " + std::to_string(k), r);
        }
    } else if (e.kind == "adtape") {
        std::vector<ADD> xx(e.pts[0].begin(), e.pts[0].end());
        CppAD::Independent(xx);
        std::vector<ADD> y;
        try { y = E.ad.evaluate(xx, deps); } catch (...) { ADD::abort_recording(); throw; }
        ADFun<double> fun(xx, y);
        for (size_t k = 0; k < e.pts.size(); k++) {
            print("V", e.uid + " " + std::to_string(k), fun.Forward(0, e.pts[k]));
            print("J", e.uid + " " + std::to_string(k), fun.Jacobian(e.pts[k]));
        }
    } else if (e.kind == "cgpar") {
        for (size_t k = 0; k < e.pts.size(); k++) {
            std::vector<CGD> xx(e.pts[k].begin(), e.pts[k].end());
            std::vector<CGD> y = E.cg.evaluate(xx, deps);
            std::vector<double> r; for (auto& a : y) { if (!a.isParameter()) throw std::runtime_error("not a parameter"); r.push_back(a.getValue()); }
            print("V", e.uid + " " + std::to_string(k), r);
        }
    } else if (e.kind == "cgnew" || e.kind == "cgval" || e.kind == "cgfail") {
        CodeHandler<double> h2;
        std::vector<CGD> xx(n);
        h2.makeVariables(xx);
        if (e.kind != "cgnew") for (size_t i = 0; i < n; i++) xx[i].setValue(e.pts[0][i]);
        if (e.kind == "cgfail") failAt = e.fail;
        std::vector<CGD> y;
        try { y = E.cg.evaluate(xx, deps); } catch (...) { failAt = -1; throw; }
        failAt = -1;
        if (e.kind != "cgnew") {
            std::vector<double> r; bool all = true; for (auto& a : y) if (!a.isValueDefined()) all = false; else r.push_back(a.getValue());
            if (all) print("W", e.uid + " 0", r); else printf("L %s value lost\n", e.uid.c_str());
        }
        evalNew(h2, y, e);
        dot(h2, y, e.uid);
    } else if (e.kind == "cgself") { // the independents themselves, plus one
        std::vector<CGD> xx(n);
        for (size_t i = 0; i < n; i++) xx[i] = x[i] + 1.0;
        std::vector<CGD> y = E.cg.evaluate(xx, deps);
        dot(h, y, e.uid);
        for (size_t k = 0; k < e.pts.size(); k++) {
            std::vector<double> p(n); for (size_t i = 0; i < n; i++) p[i] = e.pts[k][i] - 1.0;
            graphValues(h, y, p, e.uid + " " + std::to_string(k));
        }
    } else if (e.kind == "adcg") {
        std::vector<ADCG> ax(n);
        for (size_t i = 0; i < n; i++) ax[i] = CGD(e.pts[0][i]);
        CppAD::Independent(ax);
        std::vector<ADCG> ay;
        try { ay = E.adcg.evaluate(ax, deps); } catch (...) { ADCG::abort_recording(); throw; }
        ADFun<CGD> fun(ax, ay);
        CodeHandler<double> h2;
        std::vector<CGD> xx(n);
        h2.makeVariables(xx);
        std::vector<CGD> y = fun.Forward(0, xx);
        evalNew(h2, y, e);
        dot(h2, y, e.uid);
        std::vector<CGD> xp(e.pts[0].begin(), e.pts[0].end());
        std::vector<CGD> J = fun.Jacobian(xp);
        std::vector<double> r; for (auto& a : J) r.push_back(a.getValue());
        print("J", e.uid + " 0", r);
    } else if (e.kind == "dot") dot(h, deps, e.uid);
    else throw std::runtime_error("kind");
}

int main(int argc, char** argv) {
    outDir = argv[1];
    std::string line, id, route;
    int form = 0, deriv = 0; size_t n = 0;
    makeUsers();
    std::unique_ptr<CodeHandler<double>> h;
    std::unique_ptr<Evaluators> E;
    Program prog; std::vector<double> pt; std::vector<Ev> evs;
    bool failed = false;
    auto perform = [&](const Ev& e, const std::vector<CGD>& x, std::vector<CGD>& deps) {
        size_t before = h->getManagedNodesCount();
        try { evaluate(*h, *E, x, deps, n, e); printf("OK %s\n", e.uid.c_str()); }
        catch (const std::exception& x) { printf("EXC %s %s\n", e.uid.c_str(), x.what()); }
        if (e.kind != "cgself" && h->getManagedNodesCount() != before) printf("M %s the recording was changed\n", e.uid.c_str());
        fflush(stdout);
    };
    auto endSeg = [&]() {
        if (failed) return;
        try {
            std::vector<CGD> x(n), v;
            if (route == "cg") {
                for (size_t i = 0; i < n; i++) { h->makeVariable(x[i]); if (form % 2) x[i].setValue(pt[i]); }
                Extra<CGD> ex = [&](const Node& nd, std::vector<CGD>& vv) { return callCG(nd, vv); };
                for (auto& e : evs) {
                    interpret<CGD>(prog, e.upto, x, v, form, ex);
                    std::vector<CGD> deps; for (size_t d : e.deps) deps.push_back(v[d - 1]);
                    perform(e, x, deps);
                }
            } else if (!evs.empty()) {
                std::vector<ADCG> ax(n), av;
                for (size_t i = 0; i < n; i++) ax[i] = CGD(pt[i]);
                CppAD::Independent(ax);
                Extra<ADCG> ex = callAD;
                interpret<ADCG>(prog, prog.size(), ax, av, form, ex);
                std::vector<ADCG> ay;
                for (auto& e : evs) for (size_t d : e.deps) ay.push_back(av[d - 1]);
                ADFun<CGD> fun(ax, ay);
                if (form % 3 == 2 && deriv == 0) fun.optimize(); // checkpoint functions do not support reverse mode after it
                h->makeVariables(x);
                if (form % 2) for (size_t i = 0; i < n; i++) x[i].setValue(pt[i]);
                size_t k = 0; std::vector<CGD> y;
                for (auto& e : evs) {
                    if (k == 0 || form % 2) y = fun.Forward(0, x);
                    std::vector<CGD> deps(y.begin() + k, y.begin() + k + e.deps.size());
                    if (deriv == 1) { // derivative along (1, 2, ...)
                        std::vector<CGD> dx(n); for (size_t i = 0; i < n; i++) dx[i] = double(i + 1);
                        std::vector<CGD> dy = fun.Forward(1, dx);
                        deps.assign(dy.begin() + k, dy.begin() + k + e.deps.size());
                    } else if (deriv == 2) {
                        for (size_t d = 0; d < e.deps.size(); d++) {
                            std::vector<CGD> w(y.size()); w[k + d] = 1.0;
                            std::vector<CGD> dw = fun.Reverse(1, w);
                            deps[d] = 0.0; for (size_t i = 0; i < n; i++) deps[d] += dw[i] * double(i + 1);
                        }
                    }
                    k += e.deps.size();
                    perform(e, x, deps);
                }
            }
        } catch (const std::exception& e) { printf("REC %s %s\n", id.c_str(), e.what()); fflush(stdout); failed = true; }
        evs.clear(); prog.clear(); pt.clear();
    };
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string c; is >> c;
        if (c == "session") { is >> id >> route >> form >> n >> deriv; E.reset(); h.reset(new CodeHandler<double>()); E.reset(new Evaluators(*h)); failed = false; prog.clear(); evs.clear(); }
        else if (c == "pt") { double d; while (is >> d) pt.push_back(d); }
        else if (c == "node") { std::string r; std::getline(is, r); prog.push_back(readNode(r)); }
        else if (c == "ev") {
            Ev e; size_t nd, np;
            is >> e.uid >> e.upto >> nd; e.deps.resize(nd); for (auto& d : e.deps) is >> d;
            is >> e.kind >> e.fail >> np;
            e.pts.resize(np); for (auto& p : e.pts) { p.resize(n); for (auto& d : p) is >> d; }
            evs.push_back(e);
        }
        else if (c == "endseg") endSeg();
        else if (c == "reset") h->reset();
        else if (c == "end") { E.reset(); h.reset(); printf("END %s\n", id.c_str()); fflush(stdout); }
    }
    E.reset(); h.reset();
    fflush(stdout);
    _exit(0); // the order in which CppAD and the user functions are deleted is not a matter of this program
}
