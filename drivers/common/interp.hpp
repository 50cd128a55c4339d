// Interprets programs of spec/Graph.tla over any scalar type.
#pragma once
#include <cmath>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <functional>

struct Node {
    std::string op;
    std::string cmp;            // cond
    std::vector<long> a;        // node numbers (1-based) or indep number
    long num = 0, den = 1;      // const
    std::vector<std::string> raw; // anything else
};
typedef std::vector<Node> Program;

// one node per line: "op args..."
inline Node readNode(const std::string& line) {
    std::istringstream is(line);
    Node n;
    is >> n.op;
    if (n.op == "const") is >> n.num >> n.den;
    else {
        if (n.op == "cond") is >> n.cmp;
        std::string t;
        while (is >> t) {
            n.raw.push_back(t);
            char* e = nullptr;
            long v = strtol(t.c_str(), &e, 10);
            n.a.push_back(e && *e == 0 ? v : 0);
        }
    }
    return n;
}

template<class T> struct CondExp {
    static T call(const std::string& c, const T& l, const T& r, const T& t, const T& f) {
        using CppAD::CondExpLt; using CppAD::CondExpLe; using CppAD::CondExpEq; using CppAD::CondExpGe; using CppAD::CondExpGt;
        if (c == "lt") return CondExpLt(l, r, t, f);
        if (c == "le") return CondExpLe(l, r, t, f);
        if (c == "eq") return CondExpEq(l, r, t, f);
        if (c == "ge") return CondExpGe(l, r, t, f);
        if (c == "gt") return CondExpGt(l, r, t, f);
        throw std::runtime_error("cmp " + c);
    }
};
template<> struct CondExp<double> {
    static double call(const std::string& c, double l, double r, double t, double f) {
        if (c == "lt") return l < r ? t : f;
        if (c == "le") return l <= r ? t : f;
        if (c == "eq") return l == r ? t : f;
        if (c == "ge") return l >= r ? t : f;
        return l > r ? t : f;
    }
};

// the not-equal comparison exists as a node operation only
template<class T> inline T condNe(const T& l, const T& r, const T& t, const T& f) { return CondExp<T>::call("eq", l, r, f, t); }

// form selects among the ways of writing an operation (operators, compound assignment, plain numbers)
template<class T, class P> T binop(const std::string& op, const T& l, const T& r, bool lc, bool rc, const P& lp, const P& rp, int form) {
    if (rc && form % 3 == 1) {
        if (op == "add") return l + rp;
        if (op == "sub") return l - rp;
        if (op == "mul") return l * rp;
        return l / rp;
    }
    if (lc && form % 3 == 1) {
        if (op == "add") return lp + r;
        if (op == "sub") return lp - r;
        if (op == "mul") return lp * r;
        return lp / r;
    }
    if (form % 3 == 2) {
        T x = l;
        if (rc && form % 2) {
            if (op == "add") x += rp; else if (op == "sub") x -= rp; else if (op == "mul") x *= rp; else x /= rp;
        } else {
            if (op == "add") x += r; else if (op == "sub") x -= r; else if (op == "mul") x *= r; else x /= r;
        }
        return x;
    }
    if (op == "add") return l + r;
    if (op == "sub") return l - r;
    if (op == "mul") return l * r;
    return l / r;
}

template<class T> T unop(const std::string& op, const T& u) {
    using namespace std;
    using CppAD::sign;
    using CppAD::erf; using CppAD::erfc; using CppAD::asinh; using CppAD::acosh; using CppAD::atanh; using CppAD::expm1; using CppAD::log1p;
    if (op == "neg") return -u;
    if (op == "sin") return sin(u);
    if (op == "cos") return cos(u);
    if (op == "tan") return tan(u);
    if (op == "asin") return asin(u);
    if (op == "acos") return acos(u);
    if (op == "atan") return atan(u);
    if (op == "sinh") return sinh(u);
    if (op == "cosh") return cosh(u);
    if (op == "tanh") return tanh(u);
    if (op == "asinh") return asinh(u);
    if (op == "acosh") return acosh(u);
    if (op == "atanh") return atanh(u);
    if (op == "exp") return exp(u);
    if (op == "expm1") return expm1(u);
    if (op == "log") return log(u);
    if (op == "log1p") return log1p(u);
    if (op == "log10") return log10(u);
    if (op == "sqrt") return sqrt(u);
    if (op == "erf") return erf(u);
    if (op == "erfc") return erfc(u);
    if (op == "abs") return fabs(u);
    if (op == "sign") return sign(u);
    throw std::runtime_error("op " + op);
}

// the user-supplied functions of spec/Graph.tla
static const size_t callArity[] = {0, 2, 1, 3, 2}, callOuts[] = {0, 2, 1, 3, 1};
template<class V> void callFunction(int f, const V& a, V& y) {
    using std::sin; using CppAD::sin;
    switch (f) {
        case 1: y[0] = a[0] * a[1]; y[1] = a[0] + a[1]; break;
        case 2: y[0] = a[0] * a[0] + 1.0; break;
        case 3: y[0] = a[0] * a[1] * a[2]; y[1] = a[0] - a[2]; y[2] = a[1]; break;
        default: y[0] = sin(a[0]) * a[1];
    }
}

template<class T> using Extra = std::function<bool(const Node&, std::vector<T>&)>; // appends the results, false if unknown

// extends v by the nodes [v.size(), upto)
template<class T> void interpret(const Program& p, size_t upto, const std::vector<T>& x, std::vector<T>& v, int form = 0,
                                 const Extra<T>& extra = Extra<T>()) {
    for (size_t k = v.size(); k < upto; k++) {
        const Node& n = p[k];
        auto A = [&](size_t i) -> const T& { return v[n.a[i] - 1]; };
        auto isC = [&](size_t i) { return p[n.a[i] - 1].op == "const"; };
        auto cv = [&](size_t i) { const Node& m = p[n.a[i] - 1]; return isC(i) ? double(m.num) / m.den : 0.0; };
        int fm = form == 0 ? 0 : form + int(k);
        if (n.op == "indep") v.push_back(x[n.a[0] - 1]);
        else if (n.op == "const") v.push_back(T(double(n.num) / n.den));
        else if (n.op == "add" || n.op == "sub" || n.op == "mul" || n.op == "div")
            v.push_back(binop(n.op, A(0), A(1), isC(0), isC(1), cv(0), cv(1), fm));
        else if (n.op == "pow") {
            using std::pow; using CppAD::pow;
            if (isC(1) && fm % 3 == 1) v.push_back(pow(A(0), T(cv(1))));
            else v.push_back(pow(A(0), A(1)));
        } else if (n.op == "cond") {
            if (n.cmp == "ne") v.push_back(condNe(A(0), A(1), A(2), A(3)));
            else v.push_back(CondExp<T>::call(n.cmp, A(0), A(1), A(2), A(3)));
        } else if (extra && extra(n, v)) {
        } else v.push_back(unop(n.op, A(0)));
    }
}
