// Histories of equations that are solved and substituted (spec/Solve.tla), performed on the real code handler.
#include <cppad/cg/cppadcg.hpp>
#include "../common/interp.hpp"
#include "../common/grapheval.hpp"
#include <fstream>
using namespace CppAD::cg;
typedef CppAD::cg::CG<double> CGD;
static Argument<double> condArg(const CGD& c) { return c.isParameter() ? Argument<double>(c.getValue()) : Argument<double>(*c.getOperationNode()); }
template<> CGD condNe<CGD>(const CGD& l, const CGD& r, const CGD& t, const CGD& f) {
    CodeHandler<double>* h = nullptr;
    for (const CGD* c : {&l, &r, &t, &f}) if (!c->isParameter()) h = c->getCodeHandler();
    if (h == nullptr) return l.getValue() != r.getValue() ? t : f;
    return CGD(*h->makeNode(CGOpCode::ComNe, {condArg(l), condArg(r), condArg(t), condArg(f)}));
}

int main(int, char** argv) {
    CppAD::ErrorHandler eh([](bool, int line, const char* file, const char* exp, const char* msg) { throw std::runtime_error(std::string(file) + ":" + std::to_string(line) + " " + exp + " " + msg); });
    std::ostringstream sink;
    auto* cerrbuf = std::cerr.rdbuf(sink.rdbuf());
    (void)cerrbuf;
    std::unique_ptr<CodeHandler<double>> h;
    Program prog;
    std::vector<CGD> x, v;
    std::vector<size_t> live; // independents of the handler
    std::vector<std::vector<double>> pts;
    std::string line, id;
    int k = 0, form = 0;
    auto evalAt = [&](const std::vector<double>& pt, long without) {
        std::vector<double> z;
        for (size_t i : live) z.push_back(long(i) == without ? std::numeric_limits<double>::quiet_NaN() : pt[i]);
        return z;
    };
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string w;
        is >> w;
        if (w == "session") {
            size_t n;
            is >> id >> n >> form;
            h.reset(new CodeHandler<double>());
            prog.clear(); v.clear(); pts.clear(); live.clear(); k = 0;
            x.assign(n, CGD());
            h->makeVariables(x);
            for (size_t i = 0; i < n; i++) live.push_back(i);
            std::cout << "S " << id << std::endl;
            continue;
        }
        if (w == "pt") { std::vector<double> p; double d; while (is >> d) p.push_back(d); pts.push_back(p); continue; }
        if (w == "node") { std::string rest; std::getline(is, rest); prog.push_back(readNode(rest)); continue; }
        std::cout << "A " << id << " " << k << " ";
        try {
            interpret<CGD>(prog, prog.size(), x, v, form);
            auto all = [&]() {
                for (auto& p : pts) {
                    std::cout << "| ";
                    GraphEval ge{*h, evalAt(p, -1), nullptr, {}, {}};
                    for (auto& n : v) std::cout << (n.isParameter() ? n.getValue() : ge.of(n)) << " ";
                }
            };
            std::cout.precision(17);
            if (w == "gen") {
                std::string fn, rest;
                is >> fn;
                std::vector<CGD> deps;
                size_t d;
                while (is >> d) deps.push_back(v.at(d - 1));
                LanguageC<double> lang("double");
                LangCDefaultVariableNameGenerator<double> names;
                lang.setGenerateFunction(fn);
                std::ostringstream code;
                h->generateCode(code, lang, deps, names);
                std::ofstream(std::string(argv[1]) + "/" + fn + ".c") << code.str();
                std::cout << "OK ";
                for (size_t i : live) std::cout << i << " ";
            } else {
                size_t r, xi;
                int gone;
                is >> r >> xi >> gone;
                OperationNode<double>& var = *x.at(xi - 1).getOperationNode();
                auto it = std::find(live.begin(), live.end(), xi - 1);
                if (w == "solve") {
                    if (v.at(r - 1).isParameter()) { std::cout << "SKIP" << std::endl; k++; continue; }
                    OperationNode<double>& e = *v.at(r - 1).getOperationNode();
                    bool can = h->isSolvable(e, var);
                    CGD s;
                    try { s = h->solveFor(e, var); } catch (const CGException& ex) { std::cout << "REFUSED " << can << " " << ex.what() << std::endl; k++; continue; }
                    std::cout << "OK " << can << " " << h->isSolvable(e, var) << " ";
                    for (auto& p : pts) { std::cout << "| "; GraphEval ge{*h, evalAt(p, xi - 1), nullptr, {}, {}}; std::cout << (s.isParameter() ? s.getValue() : ge.of(s)) << " "; }
                    all();
                } else {
                    if (w == "subst") {
                        if (v.at(r - 1).isParameter()) { std::cout << "SKIP" << std::endl; k++; continue; }
                        if (k % 2) h->substituteIndependent(x.at(xi - 1), v.at(r - 1), gone != 0);
                        else h->substituteIndependent(var, *v.at(r - 1).getOperationNode(), gone != 0);
                        if (gone) live.erase(it);
                    } else if (w == "undo") h->undoSubstituteIndependent(var);
                    else if (w == "remove") { h->removeIndependent(var); live.erase(it); }
                    std::cout << "OK ";
                    all();
                }
            }
        } catch (const CGException& ex) { std::cout << "REFUSED 0 " << ex.what();
        } catch (const std::exception& ex) { std::cout << "EXC " << ex.what(); }
        std::cout << std::endl;
        k++;
    }
    _exit(0);
}
