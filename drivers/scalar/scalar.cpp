// Histories of operations on the code-generation scalar (spec/Scalar.tla), performed on the real one.
// After every action: whether it was refused, its answer, and for every register: parameter?, value?, value, meaning at the points.
#include <cppad/cg/cppadcg.hpp>
#include "../common/grapheval.hpp"
#include <iostream>
#include <sstream>
using namespace CppAD::cg;
typedef CppAD::cg::CG<double> CGD;
static const int NP = 3;

struct World {
    CodeHandler<double> h[2];
    std::vector<std::vector<double>> x[2]; // [recording][point]
    std::vector<std::unique_ptr<GraphEval>> ge[2];
    std::vector<std::unique_ptr<CGD>> r;
    World(int n) {
        for (int k = 0; k < 2; k++) for (int p = 0; p < NP; p++) ge[k].emplace_back(new GraphEval{h[k], {}, nullptr, {}, {}});
        for (int i = 0; i < n; i++) r.emplace_back(new CGD());
    }
    CGD& at(int i) { return *r.at(i - 1); }
    double mean(const CGD& c, int p) {
        if (c.isParameter()) return c.getValue();
        for (int k = 0; k < 2; k++) if (c.getCodeHandler() == &h[k]) return ge[k][p]->of(c);
        throw std::runtime_error("unknown recording");
    }
};

template<class L, class R> CGD bin(const std::string& o, const L& a, const R& b) {
    if (o == "add") return a + b;
    if (o == "sub") return a - b;
    if (o == "mul") return a * b;
    return a / b;
}
template<class R> void asg(const std::string& o, CGD& a, const R& b) {
    if (o == "add") a += b;
    else if (o == "sub") a -= b;
    else if (o == "mul") a *= b;
    else a /= b;
}
static CGD un(const std::string& f, const CGD& a) {
    if (f == "neg") return -a;
    if (f == "pos") return +a;
#define F(n) if (f == #n) return CppAD::n(a);
    F(abs) F(fabs) F(sign) F(acos) F(asin) F(atan) F(cos) F(cosh) F(exp) F(log) F(sin) F(sinh) F(sqrt) F(tan) F(tanh)
    F(erf) F(erfc) F(asinh) F(acosh) F(atanh) F(expm1) F(log1p) F(log10)
    throw std::logic_error("function " + f);
}
template<class L, class R> bool cmpe(const std::string& c, const L& a, const R& b) { return c == "eq" ? a == b : a != b; }
static bool cmp(const std::string& c, const CGD& a, const CGD& b) {
    if (c == "lt") return a < b;
    if (c == "le") return a <= b;
    if (c == "ge") return a >= b;
    if (c == "gt") return a > b;
    return cmpe(c, a, b);
}
static CppAD::CompareOp cop(const std::string& c) {
    if (c == "lt") return CppAD::CompareLt;
    if (c == "le") return CppAD::CompareLe;
    if (c == "eq") return CppAD::CompareEq;
    if (c == "ge") return CppAD::CompareGe;
    if (c == "gt") return CppAD::CompareGt;
    return CppAD::CompareNe;
}

static std::string act(World& w, std::istringstream& in) {
    std::string op, s, t; int r, a, b, l, q; double c;
    in >> op >> r;
    if (op == "const") { in >> c; w.at(r) = CGD(c); }
    else if (op == "constasg") { in >> c; w.at(r) = c; }
    else if (op == "int") { in >> c; if (c == int(c)) w.at(r) = CGD(int(c)); else w.at(r) = CGD(float(c)); }
    else if (op == "default") w.r[r - 1].reset(new CGD());
    else if (op == "indep") {
        int h, d; in >> h >> d; std::vector<double> m(NP);
        for (auto& v : m) in >> v;
        CGD n; w.h[h - 1].makeVariable(n);
        for (int p = 0; p < NP; p++) w.ge[h - 1][p]->x.push_back(m[p]);
        if (d) n.setValue(m[0]);
        w.at(r) = n;
    }
    else if (op == "setvalue") { in >> c; w.at(r).setValue(c); }
    else if (op == "copy") { in >> a; w.at(r) = w.at(a); }
    else if (op == "construct") { in >> a; w.r[r - 1].reset(new CGD(w.at(a))); }
    else if (op == "move") { in >> a; CGD n(w.at(a)); w.at(r) = std::move(n); }
    else if (op == "movector") { in >> a; CGD n(w.at(a)); w.r[r - 1].reset(new CGD(std::move(n))); }
    else if (op == "bin") { in >> s >> a >> b; w.at(r) = bin(s, w.at(a), w.at(b)); }
    else if (op == "binc") { in >> s >> a >> c >> l; w.at(r) = l ? bin(s, c, w.at(a)) : bin(s, w.at(a), c); }
    else if (op == "bini") {
        in >> s >> a >> c >> l;
        if (c == int(c)) w.at(r) = l ? bin(s, int(c), w.at(a)) : bin(s, w.at(a), int(c));
        else w.at(r) = l ? bin(s, float(c), w.at(a)) : bin(s, w.at(a), float(c));
    }
    else if (op == "asg") { in >> s >> a >> b; asg(s, w.at(r), w.at(b)); }
    else if (op == "asgc") { in >> s >> a >> c; asg(s, w.at(r), c); }
    else if (op == "asgi") { in >> s >> a >> c; if (c == int(c)) asg(s, w.at(r), int(c)); else asg(s, w.at(r), float(c)); }
    else if (op == "un") { in >> s >> a; w.at(r) = un(s, w.at(a)); }
    else if (op == "pow") { in >> a >> b; w.at(r) = CppAD::pow(w.at(a), w.at(b)); }
    else if (op == "powc") { in >> a >> c >> l; w.at(r) = l ? CppAD::pow(c, w.at(a)) : CppAD::pow(w.at(a), c); }
    else if (op == "cond") { in >> s >> l >> q >> a >> b; w.at(r) = CppAD::CondExpOp(cop(s), w.at(l), w.at(q), w.at(a), w.at(b)); }
    else if (op == "cmp") { in >> s >> a >> b; return cmp(s, w.at(a), w.at(b)) ? "true" : "false"; }
    else if (op == "cmpc") { in >> s >> a >> c >> l; return (l ? cmpe(s, c, w.at(a)) : cmpe(s, w.at(a), c)) ? "true" : "false"; }
    else if (op == "absgeq") { in >> a >> b; return CppAD::abs_geq(w.at(a), w.at(b)) ? "true" : "false"; }
    else if (op == "pred") {
        in >> s >> a; const CGD& x = w.at(a);
        if (s == "int") return std::to_string(CppAD::Integer(x));
        bool v;
        if (s == "gtz") v = CppAD::GreaterThanZero(x); else if (s == "gez") v = CppAD::GreaterThanOrZero(x);
        else if (s == "ltz") v = CppAD::LessThanZero(x); else if (s == "lez") v = CppAD::LessThanOrZero(x);
        else if (s == "izero") v = x.isIdenticalZero(); else if (s == "ione") v = x.isIdenticalOne();
        else if (s == "idzero") v = CppAD::IdenticalZero(x); else if (s == "idone") v = CppAD::IdenticalOne(x);
        else if (s == "ident") v = CppAD::IdenticalCon(x); else v = CppAD::isnan(x);
        return v ? "true" : "false";
    }
    else throw std::logic_error("action " + op);
    return "-";
}

static void onError(bool, int, const char*, const char* e, const char* m) { throw CGException(e, " ", m); }

int main() {
    CppAD::ErrorHandler eh(onError);
    std::string line; int id = -1, n = 0, k = 0; std::unique_ptr<World> w;
    std::cout.precision(17);
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        if (line.compare(0, 4, "hist") == 0) { std::string s; in >> s >> id >> n; w.reset(new World(n)); k = 0; continue; }
        std::string st = "ok", ans = "-";
        try { ans = act(*w, in); }
        catch (const std::logic_error& e) { std::cerr << e.what() << "\n"; return 2; }
        catch (const std::exception& e) { st = "exc"; }
        std::cout << "R " << id << " " << k++ << " " << st << " " << ans;
        for (auto& r : w->r) {
            std::cout << " " << r->isParameter() << " " << r->isValueDefined() << " ";
            if (r->isValueDefined()) std::cout << r->getValue(); else std::cout << "-";
            for (int p = 0; p < NP; p++) { std::cout << " "; try { std::cout << w->mean(*r, p); } catch (const std::exception& e) { std::cout << "bad"; } }
        }
        std::cout << "\n";
    }
}
