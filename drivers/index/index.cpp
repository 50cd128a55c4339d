// Detects index patterns for the maps on stdin and reports what they are (as records of the specification) and
// the C and DOT text printed for them.
#include <cppad/cg/cppadcg.hpp>
#include <iostream>
#include <sstream>
using namespace CppAD;
using namespace CppAD::cg;

struct LC : public LanguageC<double> {
    using L = LanguageC<double>;
    LC() : L("double") {}
    static std::string code(const std::string& name, IndexPattern& ip, bool two) {
        std::set<IndexPattern*> all{&ip};
        ip.getSubIndexes(all);
        std::set<RandomIndexPattern*> rnd;
        for (auto* p : all)
            if (p->getType() == IndexPatternType::Random1D || p->getType() == IndexPatternType::Random2D) rnd.insert(static_cast<RandomIndexPattern*>(p));
        L::generateNames4RandomIndexPatterns(rnd);
        std::ostringstream os;
        os << "unsigned long " << name << "(unsigned long j, unsigned long i) {\n";
        L::printRandomIndexPatternDeclaration(os, "   ", rnd);
        std::string sj = "j", si = "i";
        os << "   return " << (two ? L::indexPattern2String(ip, std::vector<const std::string*>{&sj, &si}) : L::indexPattern2String(ip, sj)) << ";\n}\n";
        return os.str();
    }
    static bool off(const IndexPattern* q, const IndexPattern* p, long k) { return L::isOffsetBy(q, p, k); }
    static Plane2DIndexPattern* block(const IndexPattern* p, size_t k) {
        if (p->getType() == IndexPatternType::Linear) return L::encapsulateIndexPattern(*static_cast<const LinearIndexPattern*>(p), k);
        if (p->getType() == IndexPatternType::Sectioned) return L::encapsulateIndexPattern(*static_cast<const SectionedIndexPattern*>(p), k);
        return nullptr;
    }
};

static void put(std::ostream& o, const IndexPattern* p) {
    if (p == nullptr) { o << "{\"t\":\"none\"}"; return; }
    switch (p->getType()) {
        case IndexPatternType::Linear: {
            auto* l = static_cast<const LinearIndexPattern*>(p);
            o << "{\"t\":\"linear\",\"off\":" << l->getXOffset() << ",\"dy\":" << l->getLinearSlopeDy() << ",\"dx\":" << l->getLinearSlopeDx() << ",\"b\":" << l->getLinearConstantTerm() << "}";
            return;
        }
        case IndexPatternType::Sectioned: {
            o << "{\"t\":\"sectioned\",\"secs\":[";
            const char* s = "";
            for (auto& x : static_cast<const SectionedIndexPattern*>(p)->getLinearSections()) { o << s << "{\"start\":" << x.first << ",\"p\":"; put(o, x.second); o << "}"; s = ","; }
            o << "]}";
            return;
        }
        case IndexPatternType::Random1D: {
            o << "{\"t\":\"random1\",\"tab\":[";
            const char* s = "";
            for (auto& x : static_cast<const Random1DIndexPattern*>(p)->getValues()) { o << s << "[" << x.first << "," << x.second << "]"; s = ","; }
            o << "]}";
            return;
        }
        case IndexPatternType::Random2D: {
            o << "{\"t\":\"random2\",\"tab\":[";
            const char* s = "";
            for (auto& x : static_cast<const Random2DIndexPattern*>(p)->getValues()) for (auto& y : x.second) { o << s << "[" << x.first << "," << y.first << "," << y.second << "]"; s = ","; }
            o << "]}";
            return;
        }
        case IndexPatternType::Plane2D: {
            auto* l = static_cast<const Plane2DIndexPattern*>(p);
            o << "{\"t\":\"plane\",\"p1\":"; put(o, l->getPattern1()); o << ",\"p2\":"; put(o, l->getPattern2()); o << "}";
            return;
        }
    }
}
static void ctext(const std::string& s) { std::string x = s; for (size_t i = 0; i < x.size(); ++i) std::cout << (x[i] == '\n' ? '\1' : x[i]); std::cout << "\n"; }

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string kind, id; in >> kind >> id;
        if (kind == "2") {
            size_t n; in >> n;
            std::map<size_t, std::map<size_t, size_t> > m;
            for (size_t i = 0; i < n; ++i) { size_t x, y, z; in >> x >> y >> z; m[x][y] = z; }
            std::unique_ptr<IndexPattern> p(Plane2DIndexPattern::detectPlane2D(m));
            bool plane = p != nullptr;
            if (!plane) p.reset(new Random2DIndexPattern(m));      // what the generator does in this case
            std::cout << id << "\t2\t"; put(std::cout, p.get()); std::cout << "\t"; ctext(LC::code("f_" + id, *p, true));
            continue;
        }
        std::string form; in >> form;
        long k = 0;
        if (kind == "s") in >> k;
        size_t n; in >> n;
        std::map<size_t, size_t> m, mk;
        for (size_t i = 0; i < n; ++i) { size_t x, y; in >> x >> y; m[x] = y; }
        auto detect = [&](const std::map<size_t, size_t>& a) {
            if (form == "map") return IndexPattern::detect(a);
            std::vector<size_t> v; for (auto& e : a) v.push_back(e.second);
            return IndexPattern::detect(v);
        };
        std::unique_ptr<IndexPattern> p(detect(m));
        if (kind == "1") {
            std::cout << id << "\t1\t"; put(std::cout, p.get()); std::cout << "\t"; ctext(LC::code("f_" + id, *p, false));
            if (IndexPattern::isConstant(*p)) for (auto& e : m) if (e.second != m.begin()->second) std::cout << id << "\tnotconst\t\t\n";
            continue;
        }
        std::map<size_t, size_t> m2; for (size_t i = 0; i < n; ++i) { size_t x, y; in >> x >> y; m2[x] = y; }
        std::unique_ptr<IndexPattern> q(detect(m2));
        if (LC::off(q.get(), p.get(), k)) { std::cout << id << "\tshift\t"; put(std::cout, q.get()); std::cout << "\t"; put(std::cout, p.get()); std::cout << "\n"; }
        std::unique_ptr<IndexPattern> e(LC::block(p.get(), size_t(k)));
        if (e != nullptr) {
            std::cout << id << "\tblock\t"; put(std::cout, e.get()); std::cout << "\t"; put(std::cout, p.get()); std::cout << "\t"; ctext(LC::code("f_" + id, *e, true));
        }
    }
}
