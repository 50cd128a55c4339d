// Replays recorder histories (spec/Session.tla) on the real CodeHandler and writes every generated source.
#include <cppad/cg/cppadcg.hpp>
#include <cppad/cg/lang/dot/dot.hpp>
#include <cppad/cg/lang/latex/latex.hpp>
#include <cppad/cg/lang/mathml/mathml.hpp>
#include <fstream>
#include <sys/stat.h>
#include "interp.hpp"
using namespace CppAD;
using namespace CppAD::cg;
typedef CG<double> CGD;
typedef AD<CGD> ADCG;

static Argument<double> arg(const CGD& c) { return c.isParameter() ? Argument<double>(c.getValue()) : Argument<double>(*c.getOperationNode()); }
template<> CGD condNe<CGD>(const CGD& l, const CGD& r, const CGD& t, const CGD& f) {
    CodeHandler<double>* h = nullptr;
    for (const CGD* c : {&l, &r, &t, &f}) if (!c->isParameter()) h = c->getCodeHandler();
    if (h == nullptr) return l.getValue() != r.getValue() ? t : f;
    return CGD(*h->makeNode(CGOpCode::ComNe, {arg(l), arg(r), arg(t), arg(f)}));
}

struct ScalarNames : public LangCDefaultVariableNameGenerator<double> {
    ScalarNames() { this->_temporary[0].array = false; }
};

struct Gen {
    std::string uid, lang, naming;
    size_t upto, maxOps, maxAsg;
    bool zeroDep, reuse, ignoreZero, plusEq;
    std::vector<size_t> deps;
};

static std::string outDir;
static void writeFile(const std::string& f, const std::string& s) { std::ofstream(f) << s; }

static void generate(CodeHandler<double>& h, std::vector<CGD>& deps, size_t n, const Gen& g) {
    std::string dir = outDir + "/" + g.uid;
    mkdir(dir.c_str(), 0755);
    h.setReuseVariableIDs(g.reuse);
    std::ostringstream code;
    if (g.lang == "c") {
        h.setZeroDependents(g.zeroDep);
        LanguageC<double> lang("double");
        lang.setMaxOperationsPerAssignment(g.maxOps ? g.maxOps : std::numeric_limits<size_t>::max());
        lang.setIgnoreZeroDepAssign(g.ignoreZero);
        if (g.plusEq) lang.setDependentAssignOperation("+=");
        std::string fn = "f_" + g.uid;
        std::map<std::string, std::string> sources;
        if (g.naming == "custom") {
            std::vector<std::string> dn, in;
            for (size_t i = 0; i < deps.size(); i++) dn.push_back("d" + std::to_string(i));
            for (size_t i = 0; i < n; i++) in.push_back("q" + std::to_string(i));
            LangCCustomVariableNameGenerator<double> names(dn, in);
            h.generateCode(code, lang, deps, names);
            std::string decl = lang.generateTemporaryVariableDeclaration(false, g.zeroDep);
            std::ostringstream f;
            f << "#include <math.h>\n#include <stdio.h>\nstruct LangCAtomicFun { void* a; void* b; void* c; };\nvoid " << fn
              << "(double const*const* in, double*const* out, struct LangCAtomicFun atomicFun) {\n  double* y = out[0];\n";
            for (size_t i = 0; i < n; i++) f << "  const double " << in[i] << " = in[0][" << i << "];\n";
            for (size_t i = 0; i < deps.size(); i++) f << "  double " << dn[i] << " = y[" << i << "];\n";
            f << decl << code.str();
            for (size_t i = 0; i < deps.size(); i++) f << "  y[" << i << "] = " << dn[i] << ";\n";
            f << "}\n";
            writeFile(dir + "/" + fn + ".c", f.str());
        } else {
            ScalarNames sn;
            LangCDefaultVariableNameGenerator<double> an;
            LangCDefaultVariableNameGenerator<double>& names = g.naming == "scalar" ? sn : an;
            lang.setGenerateFunction(fn);
            lang.setMaxAssignmentsPerFunction(g.naming == "scalar" ? 0 : g.maxAsg, &sources);
            h.generateCode(code, lang, deps, names);
            if (sources.empty()) sources[fn + ".c"] = code.str();
            for (auto& s : sources) writeFile(dir + "/" + s.first, s.second);
        }
    } else {
        if (g.lang == "dot") {
            LanguageDot<double> lang;
            LangCDefaultVariableNameGenerator<double> names;
            lang.setCombineParameterNodes(g.ignoreZero);
            h.generateCode(code, lang, deps, names);
        } else if (g.lang == "latex") {
            LanguageLatex<double> lang;
            LangLatexDefaultVariableNameGenerator<double> names;
            h.generateCode(code, lang, deps, names);
        } else {
            LanguageMathML<double> lang;
            LangMathMLDefaultVariableNameGenerator<double> names;
            h.generateCode(code, lang, deps, names);
        }
        writeFile(dir + "/out." + g.lang, code.str());
    }
}

// the same value as an alias or as an operation which prints it
static void wrap(CodeHandler<double>& h, const Program& prog, size_t upto, const std::vector<CGD>& x, std::vector<CGD>& v, int form) {
    while (v.size() < upto) {
        size_t k = v.size();
        interpret<CGD>(prog, k + 1, x, v, form);
        if (form < 6 || v[k].isParameter()) continue;
        size_t r = (k * 5 + form) % 7;
        if (r == 1 || r == 4) { CGD a(*h.makeNode(CGOpCode::Alias, arg(v[k]))); if (v[k].isValueDefined()) a.setValue(v[k].getValue()); v[k] = a; }
        else if (r == 2) { CGD a(*h.makePrintNode("", *v[k].getOperationNode(), "")); if (v[k].isValueDefined()) a.setValue(v[k].getValue()); v[k] = a; }
    }
}

int main(int argc, char** argv) {
    outDir = argv[1];
    std::string line, id, route;
    int form = 0;
    size_t n = 0;
    std::unique_ptr<CodeHandler<double>> h;
    Program prog;
    std::vector<double> pt;
    std::vector<CGD> x, v;          // cg route
    std::vector<Gen> gens;
    bool failed = false;
    auto perform = [&](const Gen& g, std::vector<CGD>& deps) {
        try {
            generate(*h, deps, n, g);
            std::cout << "OK " << g.uid << "\n" << std::flush;
        } catch (const std::exception& e) {
            std::cout << "EXC " << g.uid << " " << e.what() << "\n" << std::flush;
        }
    };
    auto endSeg = [&]() {
        if (failed) return;
        try {
            if (route == "cg") {
                x.assign(n, CGD()); v.clear();
                for (size_t i = 0; i < n; i++) {
                    h->makeVariable(x[i]);
                    if (form % 2) x[i].setValue(pt[i]);
                }
                for (auto& g : gens) {
                    wrap(*h, prog, g.upto, x, v, form);
                    std::vector<CGD> deps;
                    for (size_t d : g.deps) deps.push_back(v[d - 1]);
                    perform(g, deps);
                }
                wrap(*h, prog, prog.size(), x, v, form);
                x.clear(); v.clear();
            } else if (!gens.empty()) {
                std::vector<ADCG> ax(n), av;
                for (size_t i = 0; i < n; i++) ax[i] = CGD(pt[i]);
                CppAD::Independent(ax);
                interpret<ADCG>(prog, prog.size(), ax, av, form);
                std::vector<size_t> out;
                for (auto& g : gens) for (size_t d : g.deps) out.push_back(d);
                std::vector<ADCG> ay;
                for (size_t d : out) ay.push_back(av[d - 1]);
                ADFun<CGD> fun(ax, ay);
                if (form % 3 == 2) fun.optimize();
                std::vector<CGD> xx(n);
                h->makeVariables(xx);
                size_t k = 0;
                std::vector<CGD> y;
                for (auto& g : gens) {
                    if (k == 0 || form % 2) y = fun.Forward(0, xx); // the same or another operation graph
                    std::vector<CGD> deps(y.begin() + k, y.begin() + k + g.deps.size());
                    k += g.deps.size();
                    perform(g, deps);
                }
            }
        } catch (const std::exception& e) {
            std::cout << "REC " << id << " " << e.what() << "\n" << std::flush;
            failed = true;
        }
        gens.clear(); prog.clear(); pt.clear();
    };
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string c; is >> c;
        if (c == "session") { is >> id >> route >> form >> n; h.reset(new CodeHandler<double>()); failed = false; prog.clear(); gens.clear(); }
        else if (c == "pt") { double d; while (is >> d) pt.push_back(d); }
        else if (c == "node") { std::string r; std::getline(is, r); prog.push_back(readNode(r)); }
        else if (c == "gen") {
            Gen g; size_t nd;
            is >> g.uid >> g.upto >> nd;
            g.deps.resize(nd); for (auto& d : g.deps) is >> d;
            is >> g.lang >> g.maxOps >> g.maxAsg >> g.zeroDep >> g.reuse >> g.ignoreZero >> g.plusEq >> g.naming;
            gens.push_back(g);
        }
        else if (c == "endseg") endSeg();
        else if (c == "reset") h->reset();
        else if (c == "end") { x.clear(); v.clear(); h.reset(); std::cout << "END " << id << "\n" << std::flush; }
    }
}
