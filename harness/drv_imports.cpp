// Systems of imported matrices.
#include "systems.h"
#include "scenarios/imported/imported_matrix_system.h"
#include "tensor/square_matrix.h"

using namespace vf;
using namespace Moment::Imported;

namespace {
    using C = std::complex<double>;
    struct Term { int id; int re, im; bool cc; };
    Monomial to_mono(const Term& t) { return t.id == 0 ? Monomial{0, 0.0} : Monomial{t.id, C{double(t.re), double(t.im)}, t.cc}; }
    std::string show(const Term& t) { return mono(to_mono(t)); }

    struct Session {
        std::unique_ptr<ImportedMatrixSystem> sys;
        bool real;
        explicit Session(bool real_) : sys{std::make_unique<ImportedMatrixSystem>(real_)}, real{real_} {
            trace().ev(J().str("e", "new").b("real", real).done());
        }
        // cells row by row
        bool import(const std::vector<Term>& c, int d, bool cplx, bool herm) {
            std::vector<Monomial> data;
            for (int col = 0; col < d; ++col) for (int row = 0; row < d; ++row) data.push_back(to_mono(c[row * d + col]));
            J j; j.str("e", "imp").b("cplx", cplx).b("herm", herm).i("d", d).raw("c", arr(c, [](const Term& t) { return show(t); }));
            long long off = -1; bool ok = false; std::string res = "ok";
            try {
                auto [o, m] = sys->import_matrix(std::make_unique<SquareMatrix<Monomial>>(d, std::move(data)), cplx, herm);
                off = static_cast<long long>(o); ok = true;
                if (&(*sys)[o] != &m) res = "another matrix than the one returned";
            } catch (const Imported::errors::bad_import_matrix&) { res = "refused"; }
            catch (const std::exception& e) { res = e.what(); }
            trace().ev(j.str("res", res).i("off", off).i("n", static_cast<long long>(sys->size())).done());
            return ok;
        }
        void table() { trace().ev(symbol_event(sys->Symbols())); }
        void matrix(size_t k) { J j; j.str("e", "mat").i("off", static_cast<long long>(k)); describe(j, (*sys)[k]); trace().ev(j.done()); }
        void bases(size_t k) { record_bases((*sys)[k], static_cast<long long>(k)); }
        void one_basis(size_t k, int which) {
            const auto& m = (*sys)[k]; const auto off = static_cast<long long>(k);
            switch (which) {
                case 0: trace().ev(basis_event(m, off, "dense", true, m.Basis.Dense, false)); break;
                case 1: trace().ev(basis_event(m, off, "densec", false, m.Basis.DenseComplex, false)); break;
                case 2: trace().ev(basis_event(m, off, "sparse", true, m.Basis.Sparse, false)); break;
                case 3: trace().ev(basis_event(m, off, "sparsec", false, m.Basis.SparseComplex, false)); break;
                case 4: trace().ev(basis_event(m, off, "mdense", true, m.Basis.DenseMonolithic, true)); break;
                case 5: trace().ev(basis_event(m, off, "mdensec", false, m.Basis.DenseMonolithicComplex, true)); break;
                case 6: trace().ev(basis_event(m, off, "msparse", true, m.Basis.SparseMonolithic, true)); break;
                default: trace().ev(basis_event(m, off, "msparsec", false, m.Basis.SparseMonolithicComplex, true));
            }
        }
        void all() { table(); for (size_t k = 0; k < sys->size(); ++k) matrix(k); }
        void keep(J& j, std::unique_ptr<SymbolicMatrix> m) {
            long long off;
            const bool mono_ = m->is_monomial();
            { auto lock = sys->get_write_lock(); off = sys->push_back(lock, std::move(m)); }
            trace().ev(j.b("mono", mono_).i("off", off).i("n", static_cast<long long>(sys->size())).done());
        }
    };

    const std::vector<std::pair<int, int>> factors{{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {2, 0}, {1, 1}};
    Term random_term(Rng& r, int top) {
        if (r.coin(1, 15)) return {0, 0, 0, false};
        auto [a, b] = r.coin() ? factors[0] : factors[r.below(static_cast<int>(factors.size()))];
        return {r.range(1, top), a, b, r.coin(1, 3)};
    }

    // every way one symbol (or constant) may appear in two opposite cells, or in one diagonal cell
    void exhaustive(const Options& o) {
        int n = 0, batch = 0;
        auto next = [&] { if (n++ % 24 == 0) trace().begin("pairs#" + std::to_string(++batch)); };
        std::vector<Term> forms;
        for (auto [a, b] : factors) for (bool cc : {false, true}) forms.push_back({2, a, b, cc});
        auto run = [&](bool real, const std::vector<Term>& c, int d, bool cplx, bool herm) {
            next();
            Session s{real};
            s.import(c, d, cplx, herm);
            s.all();
            if (s.sys->size()) s.one_basis(0, n % 8);
        };
        for (int id : {1, 2, 3})
            for (auto t : forms) {
                t.id = id;
                for (int f = 0; f < 8; ++f) run(f & 1, {t}, 1, f & 2, f & 4);
                for (auto v : forms) {
                    v.id = id;
                    if (id == 3) continue;
                    for (int f = 0; f < 4; ++f) {
                        if (id == 1 && !o.thorough() && f != 1 && t.cc) continue;
                        run(f == 3, {{1, 1, 0, false}, t, v, {1, 1, 0, false}}, 2, f == 0 || f == 1, f != 1);
                    }
                }
            }
    }

    // a matrix that an assignment of kinds of symbols (0 any, 1 real, 2 imaginary) permits
    std::vector<Term> consistent(Rng& r, const std::vector<int>& kind, int d, bool cplx, bool herm, int top) {
        std::vector<Term> c(d * d);
        auto real_cell = [&](Term t) {
            if (t.id <= 1) { t.im = 0; if (t.id == 1 && !t.re) t.re = 1; return t; }
            if (kind[t.id] == 2) { std::swap(t.re, t.im); t.re = 0; if (!t.im) t.im = 1; }
            else { t.im = 0; if (!t.re) t.re = 1; }
            return t;
        };
        auto pick = [&](bool line) {
            for (int k = 0; k < 30; ++k) { auto t = random_term(r, top); if (!line || t.id <= 1 || kind[t.id]) return t; }
            return Term{1, 1, 0, false};
        };
        for (int a = 0; a < d; ++a)
            for (int b = herm ? a : 0; b < d; ++b) {
                Term t = pick(!cplx || (herm && a == b));
                if (!cplx || (herm && a == b)) t = real_cell(t);
                c[a * d + b] = t;
                if (herm && a != b) {
                    Term u{t.id, t.re, -t.im, !t.cc};
                    if (t.id > 1 && kind[t.id] && r.coin()) { u.cc = t.cc; if (kind[t.id] == 2) { u.re = -u.re; u.im = -u.im; } }
                    c[b * d + a] = u;
                }
            }
        return c;
    }

    void random_session(const Options& o, int k) {
        Rng r{o.seed * 7919 + static_cast<uint64_t>(k)};
        const bool real = r.coin(1, 5);
        trace().begin(std::string(real ? "real" : "complex") + "#" + std::to_string(k));
        Session s{real};
        const int top = r.range(2, 7);
        std::vector<int> kind(top + 1);
        for (auto& x : kind) x = real ? 1 : r.coin(1, 3) ? 0 : r.coin(2, 3) ? 1 : 2;
        s.all();
        const int steps = o.thorough() ? 10 : 7;
        for (int t = 0; t < steps; ++t) {
            const int d = r.range(1, r.coin(1, 4) ? 4 : 3);
            const int what = s.sys->size() ? r.below(8) : 0;
            if (what < 5) {
                const bool cplx = real ? r.coin(1, 12) : r.coin(2, 3), herm = r.coin(3, 4);
                auto c = consistent(r, kind, d, cplx && !real, herm, r.range(2, top));
                if (r.coin(1, 4)) c[r.below(d * d)] = random_term(r, top);   // possibly nonsense
                s.import(c, d, cplx, herm);
            } else {
                const auto src = static_cast<size_t>(r.below(static_cast<int>(s.sys->size())));
                const auto& m = (*s.sys)[src];
                J j; j.str("e", "op").i("src", static_cast<long long>(src));
                try {
                    const auto& f = s.sys->polynomial_factory();
                    auto& tab = s.sys->Symbols();
                    const int have = static_cast<int>(tab.size());
                    auto proper = [&](Term t) { if (t.cc && (tab[t.id].is_hermitian() || tab[t.id].is_antihermitian())) t.cc = false; return t; };
                    switch (r.below(5)) {
                        case 0: { j.str("op", "clone"); s.keep(j, m.clone(MT::Never)); break; }
                        case 1: {
                            Term x{r.below(have), r.coin() ? 1 : -1, r.coin(1, 4) ? 1 : 0, r.coin()};
                            if (r.coin(1, 4)) x = {1, 2, 0, false};
                            x = proper(x);
                            j.str("op", "addp").raw("sp", "[" + show(x) + "]");
                            s.keep(j, m.add(to_mono(x), f, MT::Never)); break; }
                        case 2: {
                            Polynomial::storage_t d2;
                            for (int q = r.range(1, 3); q > 0; --q) d2.push_back(to_mono({r.range(1, have - 1), r.coin() ? 1 : -2, r.coin(1, 4) ? 1 : 0, r.coin()}));
                            Polynomial p = f(std::move(d2));
                            j.str("op", "addp").raw("sp", poly(p));
                            s.keep(j, m.add(p, f, MT::Never)); break; }
                        case 3: {
                            Monomial x{r.coin(3, 4) ? 1 : r.below(have), r.coin(2, 3) ? 1.0 : 2.0};
                            if (x.id == 0) x = Monomial{0, 0.0};
                            j.str("op", "mul").raw("sp", "[" + mono(x) + "]");
                            s.keep(j, r.coin() ? m.pre_multiply(x, f, tab, MT::Never) : m.post_multiply(x, f, tab, MT::Never)); break; }
                        default: {
                            auto rhs = static_cast<size_t>(r.below(static_cast<int>(s.sys->size())));
                            for (int q = 0; q < 6 && (*s.sys)[rhs].Dimension() != m.Dimension(); ++q) rhs = static_cast<size_t>(r.below(static_cast<int>(s.sys->size())));
                            j.str("op", "add").i("rhs", static_cast<long long>(rhs));
                            s.keep(j, m.add((*s.sys)[rhs], f, MT::Never)); }
                    }
                } catch (const std::exception& e) { trace().ev(j.str("threw", e.what()).done()); }
            }
            s.all();
            if (s.sys->size()) {
                if (r.coin()) s.bases(static_cast<size_t>(r.below(static_cast<int>(s.sys->size()))));
                else for (int q = 0; q < 3; ++q) s.one_basis(static_cast<size_t>(r.below(static_cast<int>(s.sys->size()))), r.below(8));
            }
        }
    }
}

int main(int argc, char** argv) {
    auto o = parse(argc, argv);
    install_handlers();
    trace().open(o);
    exhaustive(o);
    for (int k = 0; k < (o.thorough() ? 900 : 260); ++k) random_session(o, k);
    trace().close();
    return 0;
}
