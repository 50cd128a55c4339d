// Meaning of a recorded operation graph with user functions, read from its nodes: the reference for re-recorded graphs.
#pragma once
#include <cppad/cg/cppadcg.hpp>
#include <functional>

struct GraphEval {
    typedef CppAD::cg::OperationNode<double> N;
    typedef CppAD::cg::Argument<double> A;
    CppAD::cg::CodeHandler<double>& h;
    std::vector<double> x;
    std::function<CppAD::atomic_base<double>&(size_t id)> user;
    std::map<const N*, double> val;
    std::map<const N*, std::vector<std::vector<double>>> calls; // results by order
    double of(const A& a) { return a.getOperation() ? of(*a.getOperation()) : *a.getParameter(); }
    double of(const CppAD::cg::CG<double>& c) { return c.isParameter() ? c.getValue() : of(*c.getOperationNode()); }
    std::vector<double> array(const N& n) {
        using CppAD::cg::CGOpCode;
        std::vector<double> r;
        if (n.getOperationType() == CGOpCode::ArrayCreation) for (auto& a : n.getArguments()) r.push_back(of(a));
        else if (n.getOperationType() == CGOpCode::SparseArrayCreation) {
            r.assign(n.getInfo().at(0), 0.0);
            for (size_t i = 0; i < n.getArguments().size(); i++) r.at(n.getInfo().at(1 + i)) = of(n.getArguments()[i]);
        } else throw std::runtime_error("not an array");
        return r;
    }
    const std::vector<std::vector<double>>& call(const N& n) {
        using CppAD::cg::CGOpCode;
        auto it = calls.find(&n);
        if (it != calls.end()) return it->second;
        const auto& info = n.getInfo(); const auto& args = n.getArguments();
        bool fwd = n.getOperationType() == CGOpCode::AtomicForward;
        if (!fwd && n.getOperationType() != CGOpCode::AtomicReverse) throw std::runtime_error("not a call");
        size_t p = fwd ? info.at(2) : info.at(1), p1 = p + 1;
        if (args.size() != (fwd ? 2 : 4) * p1) throw std::runtime_error("arguments of a call");
        auto join = [&](size_t g) {
            CppAD::vector<double> r;
            for (size_t k = 0; k < p1; k++) {
                std::vector<double> a = array(*args[g * p1 + k].getOperation());
                if (k == 0) r.resize(a.size() * p1);
                for (size_t i = 0; i < a.size(); i++) r[i * p1 + k] = a.at(i);
            }
            return r;
        };
        CppAD::vector<bool> none, none2;
        CppAD::vector<double> tx = join(0), ty = join(1), res;
        auto& f = user(info[0]);
        f.forward(0, p, none, none2, tx, ty);
        res = ty;
        if (!fwd) {
            CppAD::vector<double> px = join(2), py = join(3);
            f.reverse(p, tx, ty, px, py);
            res = px;
        }
        std::vector<std::vector<double>> r(p1);
        for (size_t k = 0; k < p1; k++) for (size_t i = 0; i < res.size() / p1; i++) r[k].push_back(res[i * p1 + k]);
        return calls[&n] = r;
    }
    double of(const N& n) {
        auto it = val.find(&n);
        if (it != val.end()) return it->second;
        return val[&n] = compute(n);
    }
    double compute(const N& n) {
        using CppAD::cg::CGOpCode;
        const auto& a = n.getArguments();
        auto v = [&](size_t i) { return of(a.at(i)); };
        switch (n.getOperationType()) {
            case CGOpCode::Inv: return x.at(h.getIndependentVariableIndex(n));
            case CGOpCode::Alias: case CGOpCode::Assign: return v(0);
            case CGOpCode::Add: return v(0) + v(1);
            case CGOpCode::Sub: return v(0) - v(1);
            case CGOpCode::Mul: return v(0) * v(1);
            case CGOpCode::Div: return v(0) / v(1);
            case CGOpCode::Pow: return std::pow(v(0), v(1));
            case CGOpCode::UnMinus: return -v(0);
            case CGOpCode::Abs: return std::fabs(v(0));
            case CGOpCode::Sign: { double d = v(0); return d > 0 ? 1.0 : d < 0 ? -1.0 : 0.0; }
            case CGOpCode::Sin: return std::sin(v(0));
            case CGOpCode::Cos: return std::cos(v(0));
            case CGOpCode::Tan: return std::tan(v(0));
            case CGOpCode::Asin: return std::asin(v(0));
            case CGOpCode::Acos: return std::acos(v(0));
            case CGOpCode::Atan: return std::atan(v(0));
            case CGOpCode::Sinh: return std::sinh(v(0));
            case CGOpCode::Cosh: return std::cosh(v(0));
            case CGOpCode::Tanh: return std::tanh(v(0));
            case CGOpCode::Asinh: return std::asinh(v(0));
            case CGOpCode::Acosh: return std::acosh(v(0));
            case CGOpCode::Atanh: return std::atanh(v(0));
            case CGOpCode::Exp: return std::exp(v(0));
            case CGOpCode::Expm1: return std::expm1(v(0));
            case CGOpCode::Log: return std::log(v(0));
            case CGOpCode::Log1p: return std::log1p(v(0));
            case CGOpCode::Sqrt: return std::sqrt(v(0));
            case CGOpCode::Erf: return std::erf(v(0));
            case CGOpCode::Erfc: return std::erfc(v(0));
            case CGOpCode::ComLt: return v(0) < v(1) ? v(2) : v(3);
            case CGOpCode::ComLe: return v(0) <= v(1) ? v(2) : v(3);
            case CGOpCode::ComEq: return v(0) == v(1) ? v(2) : v(3);
            case CGOpCode::ComGe: return v(0) >= v(1) ? v(2) : v(3);
            case CGOpCode::ComGt: return v(0) > v(1) ? v(2) : v(3);
            case CGOpCode::ComNe: return v(0) != v(1) ? v(2) : v(3);
            case CGOpCode::ArrayElement: {
                const N* arr = a.at(0).getOperation(); const N& c = *a.at(1).getOperation();
                const auto& r = call(c);
                size_t p1 = r.size(), g = c.getOperationType() == CGOpCode::AtomicForward ? 1 : 2;
                for (size_t k = 0; k < p1; k++)
                    if (c.getArguments()[g * p1 + k].getOperation() == arr) return r[k].at(n.getInfo().at(0));
                throw std::runtime_error("the array is not a result of the call");
            }
            default: { std::ostringstream os; os << "operation " << n.getOperationType(); throw std::runtime_error(os.str()); }
        }
    }
};
