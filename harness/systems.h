// Matrix systems under test: building, inspecting and recording them.
#pragma once
#include "common.h"
#include "matrix_system/matrix_system.h"
#include "matrix/symbolic_matrix.h"
#include "matrix/monomial_matrix.h"
#include "matrix/polynomial_matrix.h"
#include "matrix/operator_matrix/operator_matrix.h"
#include "matrix/matrix_basis.h"
#include "multithreading/multithreading.h"
#include "symbolic/symbol_table.h"
#include "symbolic/polynomial.h"
#include "symbolic/polynomial_factory.h"
#include "symbolic/monomial_comparator_by_hash.h"
#include "dictionary/dictionary.h"
#include "scenarios/algebraic/algebraic_matrix_system.h"
#include "scenarios/locality/locality_matrix_system.h"
#include "scenarios/inflation/inflation_matrix_system.h"
#include "scenarios/pauli/pauli_matrix_system.h"
#include <cmath>

namespace vf {
    using MT = Multithreading::MultiThreadPolicy;

    // A system whose polynomials are sorted by word (1) or by symbol number (2), or as the system prefers (0).
    template<typename Base> struct Reordered : Base {
        using Base::Base;
        void order(int how, double tol) {
            if (how == 1) this->replace_polynomial_factory(std::make_unique<ByHashPolynomialFactory>(this->Symbols(), tol));
            if (how == 2) this->replace_polynomial_factory(std::make_unique<ByIDPolynomialFactory>(this->Symbols(), tol));
        }
    };
    template<typename Base, typename Ptr> std::unique_ptr<MatrixSystem> ordered_system(Ptr ctx, double tol, int how) {
        if (!how) return std::make_unique<Base>(std::move(ctx), tol);
        auto s = std::make_unique<Reordered<Base>>(std::move(ctx), tol);
        s->order(how, tol);
        return s;
    }
    inline std::unique_ptr<MatrixSystem> make_system(const Scenario& sc, double tol = 1.0, int how = 0) {
        auto ctx = sc.make();
        if (sc.kind == "locality") return ordered_system<Locality::LocalityMatrixSystem>(std::move(ctx), tol, how);
        if (sc.kind == "algebraic") return ordered_system<Algebraic::AlgebraicMatrixSystem>(std::move(ctx), tol, how);
        if (sc.kind == "inflation") return ordered_system<Inflation::InflationMatrixSystem>(std::move(ctx), tol, how);
        if (sc.kind == "pauli") {
            auto* p = dynamic_cast<Pauli::PauliContext*>(ctx.release());
            // its own index maps keep the ordering they were constructed with
            return std::make_unique<Pauli::PauliMatrixSystem>(std::unique_ptr<Pauli::PauliContext>(p), tol);
        }
        return ordered_system<MatrixSystem>(std::move(ctx), tol, how);
    }

    inline long long whole(double x) {
        double r = std::round(x);
        return (std::abs(x - r) < 1e-7 && std::abs(r) < 90000) ? static_cast<long long>(r) : 99999;
    }
    inline std::string coef(std::complex<double> c) {
        return std::to_string(whole(c.real())) + "," + std::to_string(whole(c.imag()));
    }
    inline std::string mono(const Monomial& m) {
        return "[" + std::to_string(m.id) + "," + coef(m.factor) + "," + (m.conjugated ? "1" : "0") + "]";
    }
    inline std::string poly(const Polynomial& p) { return arr(p, [](const Monomial& m) { return mono(m); }); }
    inline std::string raw_poly(const RawPolynomial& p) {
        return arr(p, [](const RawPolynomialElement& t) {
            return J().raw("q", el(t.sequence)).i("re", whole(t.weight.real())).i("im", whole(t.weight.imag())).done();
        });
    }

    // contents of a matrix, row by row; each element a list of monomials
    inline std::string contents(const SymbolicMatrix& m) {
        const size_t d = m.Dimension();
        std::string s = "[";
        for (size_t r = 0; r < d; ++r) {
            for (size_t c = 0; c < d; ++c) {
                if (r || c) s += ",";
                if (m.is_monomial()) s += "[" + mono(dynamic_cast<const MonomialMatrix&>(m).SymbolMatrix(r, c)) + "]";
                else s += poly(dynamic_cast<const PolynomialMatrix&>(m).SymbolMatrix(r, c));
            }
        }
        return s + "]";
    }
    inline std::string op_contents(const OperatorMatrix& m) {
        const size_t d = m.Dimension();
        std::string s = "[";
        for (size_t r = 0; r < d; ++r)
            for (size_t c = 0; c < d; ++c) {
                if (r || c) s += ",";
                s += el(m(std::array<size_t, 2>{r, c}));
            }
        return s + "]";
    }
    inline void describe(J& j, const SymbolicMatrix& m) {
        j.i("dim", static_cast<long long>(m.Dimension())).b("mono", m.is_monomial()).b("herm", m.Hermitian())
         .b("cb", m.HasComplexBasis()).b("cc", m.HasComplexCoefficients())
         .raw("inc", ints(m.IncludedSymbols())).raw("reb", ints(m.RealBasisIndices())).raw("imb", ints(m.ImaginaryBasisIndices()))
         .raw("key", arr(m.BasisKey(), [](const auto& kv) {
             return "[" + std::to_string(kv.first) + "," + std::to_string(kv.second.first) + "," + std::to_string(kv.second.second) + "]"; }))
         .raw("m", contents(m));
        j.raw("opm", m.has_unaliased_operator_matrix() ? op_contents(m.unaliased_operator_matrix()) : "[]");
        j.raw("alm", m.has_aliased_operator_matrix() ? op_contents(m.aliased_operator_matrix()) : "[]");
    }
    inline std::string symbols(const SymbolTable& t) {
        return arr(t, [](const Symbol& s) {
            J j;
            j.i("id", s.Id()).b("has", s.has_sequence()).raw("q", s.has_sequence() ? el(s.sequence()) : el(HashedSequence{true}))
             .raw("cq", s.has_sequence() ? el(s.sequence_conj()) : el(HashedSequence{true}))
             .b("h", s.is_hermitian()).b("ah", s.is_antihermitian())
             .i("re", s.basis_key().first).i("im", s.basis_key().second);
            return j.done();
        });
    }
    inline std::string symbol_event(const SymbolTable& t) {
        J j;
        j.str("e", "sym").raw("t", symbols(t));
        std::vector<long long> ir, ri;
        for (size_t k = 0; k < t.Basis.RealSymbolCount(); ++k) ir.push_back(t.Basis.imaginary_from_real(static_cast<ptrdiff_t>(k)));
        for (size_t k = 0; k < t.Basis.ImaginarySymbolCount(); ++k) ri.push_back(t.Basis.real_from_imaginary(static_cast<ptrdiff_t>(k)));
        j.raw("re", ints(t.Basis.RealSymbols())).raw("im", ints(t.Basis.ImaginarySymbols()))
         .raw("ir", ints(ir)).raw("ri", ints(ri));
        return j.done();
    }

    // nonzero entries of a numeric basis, as [basis element, row, col, re, im]
    struct Entries {
        std::string s = "[";
        bool first = true;
        void add(long long k, long long r, long long c, std::complex<double> v) {
            if (std::abs(v) < 1e-12) return;
            if (!first) s += ",";
            first = false;
            s += "[" + std::to_string(k) + "," + std::to_string(r) + "," + std::to_string(c) + "," + coef(v) + "]";
        }
        std::string done() const { return s + "]"; }
    };
    template<typename M> void entries(Entries& e, long long k, const M& m) {
        for (long long c = 0; c < m.cols(); ++c)
            for (long long r = 0; r < m.rows(); ++r) e.add(k, r, c, m.coeff(r, c));
    }
    template<typename List> std::string cellular(const List& l, bool& shape, size_t d) {
        Entries e;
        long long k = 0;
        for (const auto& m : l) {
            shape = shape && static_cast<size_t>(m.rows()) == d && static_cast<size_t>(m.cols()) == d;
            entries(e, k++, m);
        }
        return e.done();
    }
    template<typename M> std::string monolith(const M& m, bool& shape, size_t d, size_t count) {
        Entries e;
        shape = shape && static_cast<size_t>(m.rows()) == count && static_cast<size_t>(m.cols()) == d * d;
        for (long long c = 0; c < m.cols(); ++c)
            for (long long r = 0; r < m.rows(); ++r)
                e.add(r, c % static_cast<long long>(d), c / static_cast<long long>(d), m.coeff(r, c));
        return e.done();
    }
    template<typename Impl>
    std::string basis_event(const SymbolicMatrix& m, long long off, const char* form, bool rc, const Impl& impl, bool mono_) {
        J j;
        const size_t d = m.Dimension();
        j.str("e", "basis").i("off", off).str("form", form).b("rc", rc);
        try {
            auto bases = impl();
            bool shape = true;
            std::string re, im;
            size_t nre = 0, nim = 0;
            if constexpr (requires { bases.first.size(); bases.first.begin(); bases.first[0].rows(); }) {
                nre = bases.first.size(); nim = bases.second.size();
                re = cellular(bases.first, shape, d); im = cellular(bases.second, shape, d);
            } else {
                nre = bases.first.rows(); nim = bases.second.rows();
                re = monolith(bases.first, shape, d, m.RealBasisIndices().size() ? nre : nre);
                im = monolith(bases.second, shape, d, nim);
            }
            j.b("ok", true).b("shape", shape).i("nre", static_cast<long long>(nre)).i("nim", static_cast<long long>(nim)).raw("re", re).raw("im", im);
        } catch (const errors::bad_basis_error&) {
            j.b("ok", false).b("shape", true).i("nre", 0).i("nim", 0).raw("re", "[]").raw("im", "[]");
        }
        return j.done();
    }
    inline void record_bases(const SymbolicMatrix& m, long long off) {
        trace().ev(basis_event(m, off, "dense", true, m.Basis.Dense, false));
        trace().ev(basis_event(m, off, "densec", false, m.Basis.DenseComplex, false));
        trace().ev(basis_event(m, off, "sparse", true, m.Basis.Sparse, false));
        trace().ev(basis_event(m, off, "sparsec", false, m.Basis.SparseComplex, false));
        trace().ev(basis_event(m, off, "mdense", true, m.Basis.DenseMonolithic, true));
        trace().ev(basis_event(m, off, "mdensec", false, m.Basis.DenseMonolithicComplex, true));
        trace().ev(basis_event(m, off, "msparse", true, m.Basis.SparseMonolithic, true));
        trace().ev(basis_event(m, off, "msparsec", false, m.Basis.SparseMonolithicComplex, true));
    }
}
