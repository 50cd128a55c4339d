// Systems of equations (spec/Dae.tla) reduced by the real algorithms; one process each.
#include <cppad/cg/cppadcg.hpp>
#include <cppad/cg/dae_index_reduction/pantelides.hpp>
#include <cppad/cg/dae_index_reduction/soares_secchi.hpp>
#include <iostream>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace CppAD::cg;
typedef CG<double> CGD;
typedef CppAD::AD<CGD> ADCG;
struct Slot { char k; int u, o; };
struct Sys {
    std::vector<Slot> slots;
    std::vector<std::vector<double>> val;      // of each unknown, by order
    std::vector<std::string> eqs;
};
static ADCG expr(std::istream& is, const std::vector<ADCG>& x) {
    std::string w;
    is >> w;
    if (w == "v") { size_t j; is >> j; return x.at(j); }
    if (w == "c") { double d; is >> d; return ADCG(CGD(d)); }
    ADCG a = expr(is, x), b = expr(is, x);
    return w == "+" ? a + b : w == "-" ? a - b : w == "*" ? a * b : a / b;
}
static double value(const Sys& s, const Slot& q) { return q.k == 'x' ? s.val.at(q.u).at(q.o) : double(q.o); }
template<class A>
static void reduce(const Sys& s, size_t flags) {
    size_t n = s.slots.size();
    std::vector<DaeVarInfo> vars(n);
    std::vector<double> x(n);
    for (size_t j = 0; j < n; j++) {
        const Slot& q = s.slots[j];
        x[j] = value(s, q);
        if (q.k == 'p') vars[j].makeConstant();
        else if (q.k == 't') vars[j].makeIntegratedVariable();
        else for (size_t a = 0; a < n; a++) if (s.slots[a].k == 'x' && s.slots[a].u == q.u && s.slots[a].o == q.o - 1) vars[j].setAntiDerivative(int(a));
        if (flags & 1) vars[j].setName("v" + std::to_string(j));
    }
    std::vector<ADCG> ax(n);
    for (size_t j = 0; j < n; j++) ax[j] = CGD(x[j]);
    CppAD::Independent(ax);
    std::vector<ADCG> ay;
    for (auto& e : s.eqs) { std::istringstream is(e); ay.push_back(expr(is, ax)); }
    CppAD::ADFun<CGD> fun(ax, ay);
    std::vector<std::string> names;
    if (flags & 2) for (size_t i = 0; i < s.eqs.size(); i++) names.push_back("e" + std::to_string(i));
    A alg(fun, vars, names, x);
    std::ostringstream log;
    alg.setLog(log);
    if (flags & 4) alg.setVerbosity(Verbosity::High);
    std::vector<DaeVarInfo> nv;
    std::vector<DaeEquationInfo> ne;
    auto r = alg.reduceIndex(nv, ne);
    size_t index = alg.getStructuralIndex();
    std::cout << "{\"res\":\"" << (r ? "reduced" : "same") << "\",\"index\":" << index;
    if (r) {
        std::cout << ",\"vars\":[";
        for (size_t j = 0; j < nv.size(); j++)
            std::cout << (j ? "," : "") << "[" << nv[j].getAntiDerivative() << "," << nv[j].getDerivative() << "," << nv[j].getOrder() << "," << nv[j].getOriginalAntiDerivative() << ","
                      << nv[j].getOriginalIndex() << "," << nv[j].isFunctionOfIntegrated() << "," << nv[j].isIntegratedVariable() << "," << nv[j].getId() << ",\"" << nv[j].getName() << "\"]";
        std::cout << "],\"eqs\":[";
        for (size_t i = 0; i < ne.size(); i++)
            std::cout << (i ? "," : "") << "[" << ne[i].getId() << "," << ne[i].getOriginalIndex() << "," << ne[i].getAntiDerivative() << "," << ne[i].getAssignedVarIndex() << "," << ne[i].isExplicit() << "]";
        std::cout << "],\"domain\":" << r->Domain() << ",\"range\":" << r->Range();
        std::vector<CGD> v(r->Domain());
        bool ok = nv.size() == r->Domain() && ne.size() == r->Range();
        for (size_t j = 0; ok && j < nv.size(); j++) {
            size_t b = j;
            int o = 0;
            while (b >= n && o < 40) { int a = nv[b].getAntiDerivative(); if (a < 0 || size_t(a) >= nv.size()) { ok = false; break; } b = size_t(a); o++; }
            if (!ok || b >= n || (o && s.slots[b].k != 'x')) { ok = false; break; }
            Slot q = s.slots[b];
            q.o += o;
            v[j] = value(s, o ? q : s.slots[b]);
        }
        if (ok) {
            std::cout << ",\"vals\":[";
            std::cout.precision(17);
            std::vector<CGD> y = r->Forward(0, v);
            for (size_t i = 0; i < y.size(); i++) {
                std::cout << (i ? "," : "");
                if (y[i].isParameter() && std::isfinite(y[i].getValue())) std::cout << y[i].getValue(); else std::cout << "\"?\"";
            }
            std::cout << "],\"pattern\":[";
            auto p = jacobianSparsitySet<std::vector<std::set<size_t>>, CGD>(*r);
            for (size_t i = 0; i < p.size(); i++) {
                std::cout << (i ? ",[" : "[");
                bool f = true;
                for (size_t j : p[i]) { std::cout << (f ? "" : ",") << j; f = false; }
                std::cout << "]";
            }
            std::cout << "]";
        }
    }
    std::cout << "}" << std::endl;
}
int main() {
    CppAD::ErrorHandler eh([](bool, int line, const char* file, const char* exp, const char* msg) { throw CGException(std::string(file) + ":" + std::to_string(line) + " " + exp + " " + msg); });
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string alg, w, id;
        size_t flags, n;
        is >> id >> alg >> flags >> n;
        Sys s;
        for (size_t j = 0; j < n; j++) { Slot q; is >> q.k >> q.u >> q.o; s.slots.push_back(q); }
        is >> n;
        s.val.resize(n);
        for (auto& v : s.val) { size_t k; is >> k; v.resize(k); for (auto& x : v) is >> x; }
        is >> n;
        std::getline(is, w);
        for (size_t i = 0; i < n; i++) { std::getline(std::cin, w); s.eqs.push_back(w); }
        std::cout << id << " " << std::flush;
        pid_t pid = fork();
        if (pid == 0) {
            rlimit l{2000000000, 2000000000};
            setrlimit(RLIMIT_AS, &l);
            alarm(60);
            rlimit t{10, 10};
            setrlimit(RLIMIT_CPU, &t);
            try {
                if (alg == "p") reduce<Pantelides<double>>(s, flags); else reduce<SoaresSecchi<double>>(s, flags);
            } catch (const CGException& e) { std::cout << "\nX " << e.what() << std::endl; _exit(0);
            } catch (const std::exception& e) { std::cout << "\nE " << e.what() << std::endl; }
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (st) std::cout << "\nDIED " << (WIFSIGNALED(st) ? WTERMSIG(st) : 0) << std::endl;
    }
}
