// The user-supplied functions of spec/Graph.tla as CppAD atomics (checkpoints), for recordings with CG and AD<CG>.
#pragma once
#include <cppad/cg/cppadcg.hpp>
#include "interp.hpp"
#include <unistd.h>
typedef CppAD::cg::CG<double> CGD;
typedef CppAD::AD<CGD> ADCG;
typedef CppAD::AD<double> ADD;

inline CppAD::cg::Argument<double> arg(const CGD& c) {
    return c.isParameter() ? CppAD::cg::Argument<double>(c.getValue()) : CppAD::cg::Argument<double>(*c.getOperationNode());
}
template<> inline CGD condNe<CGD>(const CGD& l, const CGD& r, const CGD& t, const CGD& f) {
    CppAD::cg::CodeHandler<double>* h = nullptr;
    for (const CGD* c : {&l, &r, &t, &f}) if (!c->isParameter()) h = c->getCodeHandler();
    if (h == nullptr) return l.getValue() != r.getValue() ? t : f;
    return CGD(*h->makeNode(CppAD::cg::CGOpCode::ComNe, {arg(l), arg(r), arg(t), arg(f)}));
}

// user functions which can be made to fail; values and derivatives come from a recording of the function
static long failAt = -1, calls = 0;
static unsigned slow = 0;           // microseconds that a call takes at least
struct UserFun : public CppAD::atomic_base<double> {
    typedef std::set<size_t> S;
    typedef CppAD::vector<S> VS;
    typedef CppAD::vector<bool> VB;
    typedef CppAD::vector<double> VD;
    CppAD::ADFun<double> f;
    size_t n, m;
    std::vector<S> J;                   // dependents -> independents
    std::vector<std::vector<S>> H;      // Hessian of each dependent
    UserFun(const char* name, int id) : CppAD::atomic_base<double>(name, CppAD::atomic_base<double>::set_sparsity_enum), n(callArity[id]), m(callOuts[id]) {
        std::vector<ADD> ax(n), ay(m);
        for (size_t i = 0; i < n; i++) ax[i] = 1.5 + i;
        CppAD::Independent(ax);
        callFunction(id, ax, ay);
        f.Dependent(ax, ay);
        f.check_for_nan(false);
        if (id == 1) { J = {{0, 1}, {0, 1}}; H = {{{1}, {0}}, {{}, {}}}; }
        else if (id == 2) { J = {{0}}; H = {{{0}}}; }
        else if (id == 3) { J = {{0, 1, 2}, {0, 2}, {1}}; H = {{{1, 2}, {0, 2}, {0, 1}}, {{}, {}, {}}, {{}, {}, {}}}; }
        else { J = {{0, 1}}; H = {{{0, 1}, {0}}}; }
    }
    const std::string& atomic_name() const { return CppAD::atomic_base<double>::atomic_name(); }
    bool forward(size_t q, size_t p, const VB& vx, VB& vy, const VD& tx, VD& ty) override {
        if (failAt >= 0 && calls++ >= failAt) throw std::runtime_error("user function failed");
        if (slow) usleep(slow);
        if (tx.size() != n * (p + 1) || ty.size() != m * (p + 1)) throw std::runtime_error("user function: wrong sizes");
        if (vx.size() > 0) for (size_t i = 0; i < m; i++) { vy[i] = false; for (size_t j : J[i]) if (vx[j]) vy[i] = true; }
        VD y = f.Forward(p, tx);
        for (size_t i = 0; i < m; i++) for (size_t k = q; k <= p; k++) ty[i * (p + 1) + k] = y[i * (p + 1) + k];
        return true;
    }
    bool reverse(size_t p, const VD& tx, const VD& ty, VD& px, const VD& py) override {
        if (slow) usleep(slow);
        if (tx.size() != n * (p + 1) || py.size() != m * (p + 1) || px.size() != tx.size()) throw std::runtime_error("user function: wrong sizes");
        f.Forward(p, tx);
        px = f.Reverse(p + 1, py);
        return true;
    }
    bool for_sparse_jac(size_t q, const VS& r, VS& s, const VD& x) override {
        for (size_t i = 0; i < m; i++) { s[i].clear(); for (size_t j : J[i]) s[i].insert(r[j].begin(), r[j].end()); }
        return true;
    }
    bool rev_sparse_jac(size_t q, const VS& rt, VS& st, const VD& x) override {
        for (size_t j = 0; j < n; j++) st[j].clear();
        for (size_t i = 0; i < m; i++) for (size_t j : J[i]) st[j].insert(rt[i].begin(), rt[i].end());
        return true;
    }
    bool rev_sparse_hes(const VB& vx, const VB& s, VB& t, size_t q, const VS& r, const VS& u, VS& v, const VD& x) override {
        for (size_t j = 0; j < n; j++) { t[j] = false; v[j].clear(); }
        for (size_t i = 0; i < m; i++) for (size_t j : J[i]) {
            if (s[i]) t[j] = true;
            v[j].insert(u[i].begin(), u[i].end());
        }
        for (size_t i = 0; i < m; i++) if (s[i]) for (size_t j = 0; j < n; j++) for (size_t k : H[i][j]) v[j].insert(r[k].begin(), r[k].end());
        return true;
    }
    bool for_sparse_jac(size_t q, const VS& r, VS& s) override { return for_sparse_jac(q, r, s, VD()); }
    bool rev_sparse_jac(size_t q, const VS& rt, VS& st) override { return rev_sparse_jac(q, rt, st, VD()); }
    bool rev_sparse_hes(const VB& vx, const VB& s, VB& t, size_t q, const VS& r, const VS& u, VS& v) override { return rev_sparse_hes(vx, s, t, q, r, u, v, VD()); }
};
static std::map<int, std::unique_ptr<UserFun>> users;
static std::map<int, std::unique_ptr<CppAD::cg::CGAtomicFun<double>>> atoms;
inline void makeUsers() {
    for (int f = 1; f <= 4; f++) {
        users[f].reset(new UserFun(("user" + std::to_string(f)).c_str(), f));
        CppAD::vector<double> xs(callArity[f]);
        for (size_t i = 0; i < xs.size(); i++) xs[i] = 1.5 + i;
        atoms[f].reset(new CppAD::cg::CGAtomicFun<double>(*users[f], xs, true));
    }
}

// outputs of a call are recorded together
inline bool callCG(const Node& n, std::vector<CGD>& v) {
    if (n.op != "call") return false;
    int f = n.a[0], k = n.a[1];
    static std::vector<CGD> y;
    if (k == 1) {
        CppAD::vector<CGD> ax(callArity[f]), ay(callOuts[f]);
        CppAD::vector<bool> vx, vy;
        for (size_t i = 0; i < ax.size(); i++) ax[i] = v[n.a[2 + i] - 1];
        (*atoms[f]).forward(0, 0, vx, vy, ax, ay);
        y.assign(ay.data(), ay.data() + ay.size());
    }
    v.push_back(y[k - 1]);
    return true;
}
inline bool callAD(const Node& n, std::vector<ADCG>& v) {
    if (n.op != "call") return false;
    int f = n.a[0], k = n.a[1];
    static std::vector<ADCG> y;
    if (k == 1) {
        std::vector<ADCG> ax(callArity[f]);
        y.assign(callOuts[f], ADCG());
        for (size_t i = 0; i < ax.size(); i++) ax[i] = v[n.a[2 + i] - 1];
        (*atoms[f])(ax, y);
    }
    v.push_back(y[k - 1]);
    if (k == long(callOuts[f])) y.clear();
    return true;
}
