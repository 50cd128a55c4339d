// Searches of recorded graphs (spec/Paths.tla) asked from the real code handler.
#include <cppad/cg/cppadcg.hpp>
#include <iostream>
#include <sstream>
using namespace CppAD::cg;
typedef OperationNode<double> N;
static std::map<const N*, long> number;
static void print(const std::vector<OperationPathNode<double>>& p) {
    for (auto& e : p) std::cout << number.at(e.node) << ":" << long(e.argIndex) << " ";
    std::cout << ";";
}
int main() {
    CppAD::ErrorHandler eh([](bool, int line, const char* file, const char* exp, const char* msg) { throw CGException(std::string(file) + ":" + std::to_string(line) + " " + exp + " " + msg); });
    std::unique_ptr<CodeHandler<double>> h;
    std::vector<N*> v;
    std::string line, id;
    size_t q = 0;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string w;
        is >> w;
        if (w == "hist") { is >> id; v.clear(); number.clear(); h.reset(new CodeHandler<double>()); q = 0; std::cout << "H " << id << std::endl; continue; }
        if (w == "node") {
            std::vector<Argument<double>> a;
            long k;
            while (is >> k) if (k) a.emplace_back(*v.at(k - 1)); else a.emplace_back(1.5 + double(v.size()));
            if (a.empty()) { CG<double> x; h->makeVariable(x); v.push_back(x.getOperationNode()); }
            else v.push_back(h->makeNode(a.size() == 1 ? CGOpCode::Sin : a.size() == 2 ? CGOpCode::Mul : CGOpCode::ComLt, std::move(a)));
            number[v.back()] = v.size();
            continue;
        }
        size_t r, t, m;
        is >> r >> t >> m;
        std::cout << "Q " << id << " " << q++ << " " << w << " | ";
        try {
            N& root = *v.at(r - 1); N& target = *v.at(t - 1);
            if (w == "gen") {
                std::vector<CG<double>> d{CG<double>(root), CG<double>(target)};
                LanguageC<double> lang("double");
                LangCDefaultVariableNameGenerator<double> names;
                std::ostringstream code;
                h->generateCode(code, lang, d, names);
            }
            if (w == "paths") for (auto& p : h->findPaths(root, target, m)) print(p);
            if (w == "graph" || w == "limited") {
                size_t bif = 0;
                BidirGraph<double> g = w == "graph" ? h->findPathGraph(root, target, bif) : h->findPathGraph(root, target, bif, m);
                std::cout << bif << " | ";
                for (N* n : v) {
                    auto* e = g.find(*n);
                    if (e == nullptr) continue;
                    std::cout << number[n] << " /";
                    for (size_t a : e->arguments) std::cout << " " << a;
                    std::cout << " /";
                    for (auto& u : e->usage) std::cout << " " << number.at(u.node) << ":" << u.argIndex;
                    std::cout << " ;";
                }
                if (w == "graph") {
                    size_t at = 0;
                    auto ps = g.findSingleBifurcation(root, target, at);
                    std::cout << " | " << long(at) << " | ";
                    for (auto& p : ps) print(p);
                }
            }
        } catch (const std::exception& e) { std::cout << "EXC " << e.what(); }
        std::cout << std::endl;
    }
    std::cout.flush();
    _exit(0);
}
