// Recording polynomials with fractional coefficients, rules and rulebooks.
#pragma once
#include "systems.h"
#include "symbolic/rules/moment_rule.h"
#include "symbolic/rules/moment_rulebook.h"

namespace vf {
    // a number as a fraction with a small denominator; denominator 0 if there is none
    inline std::string ratio(double x) {
        if (!(std::abs(x) < 1e6)) return "0,0";
        double y = x;
        long long p0 = 0, q0 = 1, p1 = 1, q1 = 0;
        for (int k = 0; k < 40; ++k) {
            const double f = std::floor(y);
            if (std::abs(f) > 1e9) break;
            const long long a = static_cast<long long>(f), p2 = a * p1 + p0, q2 = a * q1 + q0;
            if (q2 > 40000 || std::llabs(p2) > 2000000000ll) break;
            p0 = p1; q0 = q1; p1 = p2; q1 = q2;
            if (std::abs(x - static_cast<double>(p1) / static_cast<double>(q1)) < 1e-10) return std::to_string(p1) + "," + std::to_string(q1);
            y = 1.0 / (y - f);
        }
        return "0,0";
    }
    inline std::string term(const Monomial& m) { return "[" + std::to_string(m.id) + "," + ratio(m.factor.real()) + "," + ratio(m.factor.imag()) + "," + (m.conjugated ? "1" : "0") + "]"; }
    template<typename T> std::string terms(const T& p) { return arr(p, [](const Monomial& m) { return term(m); }); }
    inline std::string rule(const MomentRule& r) { return J().i("l", r.LHS()).b("part", r.is_partial()).raw("r", terms(r.RHS())).done(); }
    inline std::string cells(const SymbolicMatrix& m) {
        const size_t d = m.Dimension();
        std::string s = "[";
        for (size_t r = 0; r < d; ++r)
            for (size_t c = 0; c < d; ++c) {
                if (r || c) s += ",";
                if (m.is_monomial()) { const auto& x = dynamic_cast<const MonomialMatrix&>(m).SymbolMatrix(r, c); s += x.id == 0 ? "[]" : "[" + term(x) + "]"; }
                else s += terms(dynamic_cast<const PolynomialMatrix&>(m).SymbolMatrix(r, c));
            }
        return s + "]";
    }
}
