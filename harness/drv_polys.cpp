// Drives polynomial factories, polynomial algebra and conversions between polynomials and basis vectors; records every result.
#include "systems.h"
#include "symbolic/polynomial_factory.h"
#include "symbolic/monomial_comparator_by_hash.h"
#include "symbolic/polynomial_ordering.h"
#include "symbolic/polynomial_to_basis.h"
#include "symbolic/polynomial_to_basis_mask.h"
using namespace vf;

namespace {
    using C = std::complex<double>;
    // coefficients are recorded in units of one quarter
    std::string co(C c) { return coef(c * 4.0); }
    std::string term(const Monomial& m) { return "[" + std::to_string(m.id) + "," + co(m.factor) + "," + (m.conjugated ? "1" : "0") + "]"; }
    template<typename T> std::string terms(const T& p) { return arr(p, [](const Monomial& m) { return term(m); }); }

    template<typename V> std::string sparse(const V& v) {
        std::string s = "[";
        bool first = true;
        for (typename V::InnerIterator it(v); it; ++it) {
            if (!first) s += ",";
            first = false;
            s += "[" + std::to_string(it.index()) + "," + co(C(it.value())) + "]";
        }
        return s + "]";
    }
    std::string rv(const RealBasisVector& v) { return J().raw("a", sparse(v.real)).raw("b", sparse(v.imaginary)).i("na", v.real.size()).i("nb", v.imaginary.size()).done(); }
    template<typename T> std::string trips(const std::vector<Eigen::Triplet<T>>& v) {
        return arr(v, [](const auto& t) { return "[" + std::to_string(t.row()) + "," + std::to_string(t.col()) + "," + co(C(t.value())) + "]"; });
    }
    std::string cmat(const Eigen::SparseMatrix<C>& m) {
        std::string s = "[";
        bool first = true;
        for (int k = 0; k < m.outerSize(); ++k)
            for (Eigen::SparseMatrix<C>::InnerIterator it(m, k); it; ++it) {
                if (!first) s += ",";
                first = false;
                s += "[" + std::to_string(it.row()) + "," + std::to_string(it.col()) + "," + co(it.value()) + "]";
            }
        return s + "]";
    }

    struct Session {
        const Scenario& sc;
        Rng& rng;
        std::unique_ptr<MatrixSystem> sys;
        std::unique_ptr<PolynomialFactory> fac;
        bool byhash;
        std::vector<Polynomial> pool;
        size_t seen = 0;

        Session(const Scenario& sc, Rng& rng, bool byhash) : sc{sc}, rng{rng}, sys{make_system(sc)}, byhash{byhash} {
            if (byhash) fac = std::make_unique<ByHashPolynomialFactory>(sys->Symbols());
            else fac = std::make_unique<ByIDPolynomialFactory>(sys->Symbols());
        }
        SymbolTable& t() { return sys->Symbols(); }
        void table() {
            if (t().size() == seen) return;
            seen = t().size();
            std::string s = "[";
            for (size_t k = 0; k < seen; ++k) {
                const auto& y = t()[static_cast<symbol_name_t>(k)];
                if (k) s += ",";
                s += J().b("h", y.is_hermitian()).b("ah", y.is_antihermitian()).i("re", y.basis_key().first).i("im", y.basis_key().second)
                    .b("has", y.has_sequence()).raw("q", y.has_sequence() ? el(y.sequence()) : el(HashedSequence{true}))
                    .raw("cq", y.has_sequence() ? el(y.sequence_conj()) : el(HashedSequence{true})).done();
            }
            trace().ev(J().str("e", "tab").raw("t", s + "]").i("nre", static_cast<long long>(t().Basis.RealSymbolCount())).i("nim", static_cast<long long>(t().Basis.ImaginarySymbolCount())).done());
        }
        C weight() {
            static const C c[] = {1.0, 1.0, -1.0, 2.0, {0, 1}, {0, -1}, {1, 1}, {3, -2}, {0, 2}, {1e-18, 0}, {1, 1e-18}, {1e-18, -1}, 0.0};
            return c[rng.below(13)];
        }
        symbol_name_t id() {      // a small set of symbols, so that terms meet
            if (favourites.empty() || rng.coin(1, 6)) return static_cast<symbol_name_t>(rng.below(static_cast<int>(t().size())));
            return favourites[rng.below(static_cast<int>(favourites.size()))];
        }
        std::vector<symbol_name_t> favourites;
        Monomial monomial() { auto i = id(); return Monomial{i, weight(), rng.coin()}; }
        Monomial canonical() {     // as factories write them
            auto m = monomial();
            if (t()[m.id].is_hermitian()) m.conjugated = false;
            if (t()[m.id].is_antihermitian()) m.conjugated = false;
            if (approximately_zero(m.factor)) m.factor = 1.0;
            return m;
        }
        Polynomial::storage_t storage(int n) {
            Polynomial::storage_t d;
            for (int k = 0; k < n; ++k) {
                auto m = monomial();
                d.emplace_back(m);
                if (rng.coin(1, 4)) { m.conjugated = !m.conjugated; if (rng.coin()) m.factor = std::conj(m.factor); if (rng.coin(1, 3)) m.factor = -m.factor; d.emplace_back(m); }
            }
            return d;
        }
        Polynomial make(int n) { return (*fac)(storage(n)); }
        const Polynomial& pick() { return pool[rng.below(static_cast<int>(pool.size()))]; }
        Polynomial related(const Polynomial& p) {    // equal, conjugate, or nearly so
            switch (rng.below(6)) {
                case 0: return p;
                case 1: return p.conjugate(t());
                case 2: { auto q = p.conjugate(t()); q *= C(-1, 0); return q; }
                case 3: { Polynomial::storage_t d(p.begin(), p.end()); if (!d.empty()) d[rng.below(static_cast<int>(d.size()))].factor += C(0, 1); return (*fac)(std::move(d)); }
                case 4: { Polynomial::storage_t d(p.begin(), p.end()); if (!d.empty()) { auto& x = d[rng.below(static_cast<int>(d.size()))]; x.factor = std::conj(x.factor); } return (*fac)(std::move(d)); }
                default: return pick();
            }
        }
        void keep(const Polynomial& p) { if (p.size() <= 6) { if (pool.size() < 14) pool.push_back(p); else pool[rng.below(14)] = p; } }
        Polynomial tame(Polynomial p) {    // keep coefficients within the recordable range
            for (const auto& m : p) if (std::abs(m.factor) > 60 || std::abs(m.factor.real() * 4 - std::round(m.factor.real() * 4)) > 1e-9 || std::abs(m.factor.imag() * 4 - std::round(m.factor.imag() * 4)) > 1e-9) return Polynomial{};
            return p;
        }

        template<typename F> void guarded(J& j, F f) {
            try { f(); } catch (const std::exception& ex) { j.str("threw", ex.what()); }
            trace().ev(j.done());
        }

        void step() {
            switch (rng.below(17)) {
                case 0: case 1: {
                    auto d = storage(rng.below(5));
                    J j; j.str("e", "new").raw("in", terms(d));
                    guarded(j, [&] { auto p = (*fac)(std::move(d)); j.raw("out", terms(p)); keep(p); });
                    break; }
                case 2: {
                    RawPolynomial rp;
                    for (int k = rng.below(4); k > 0; --k) {
                        std::vector<int> w;
                        for (int x = rng.below(4); x > 0; --x) w.push_back(rng.below(sc.n));
                        rp.emplace_back(mk(sys->Context(), w, rng.below(4)), weight());
                    }
                    const bool reg = rng.coin();
                    J j; j.str("e", "raw").b("reg", reg).raw("in", arr(rp, [](const RawPolynomialElement& x) { return J().raw("q", el(x.sequence)).i("re", whole(x.weight.real() * 4)).i("im", whole(x.weight.imag() * 4)).done(); }));
                    Polynomial p;
                    bool threw = false;
                    try { p = reg ? fac->register_and_construct(t(), rp) : fac->construct(rp); }
                    catch (const errors::unregistered_operator_sequence& ex) { threw = true; }
                    table();
                    if (threw) j.b("unreg", true); else { j.raw("out", terms(p)); keep(p); }
                    trace().ev(j.done());
                    break; }
                case 3: {
                    auto a = rng.coin(1, 3) ? monomial() : canonical(), b = rng.coin(1, 3) ? a : canonical();
                    if (rng.coin(1, 4)) b.factor = -a.factor;
                    if (t()[a.id].is_hermitian() || t()[a.id].is_antihermitian()) a.conjugated = false;
                    if (t()[b.id].is_hermitian() || t()[b.id].is_antihermitian()) b.conjugated = false;
                    J j; j.str("e", "sum").str("op", "mm").raw("a", "[" + term(a) + "]").raw("b", "[" + term(b) + "]");
                    guarded(j, [&] { auto p = fac->sum(a, b); j.raw("out", terms(p)); keep(p); });
                    break; }
                case 4: {
                    auto a = pick(); auto b = rng.coin(1, 4) && !a.empty() ? a[rng.below(static_cast<int>(a.size()))] : rng.coin(1, 3) ? monomial() : canonical();
                    if (t()[b.id].is_hermitian() || t()[b.id].is_antihermitian()) b.conjugated = false;
                    if (rng.coin(1, 3)) b.factor = -b.factor;
                    J j; j.str("e", "sum").str("op", "pm").raw("a", terms(a)).raw("b", "[" + term(b) + "]");
                    guarded(j, [&] { auto p = fac->sum(a, b); j.raw("out", terms(p)); keep(p); });
                    break; }
                case 5: {
                    auto a = pick(), b = rng.coin(1, 4) ? a : pick();
                    if (rng.coin(1, 3)) b *= C(-1, 0);
                    J j; j.str("e", "sum").str("op", "pp").raw("a", terms(a)).raw("b", terms(b));
                    guarded(j, [&] { auto p = fac->sum(a, b); j.raw("out", terms(p)); keep(tame(p)); });
                    break; }
                case 6: {
                    auto a = pick(), b = rng.coin(1, 4) ? a : pick();
                    if (rng.coin(1, 3)) b *= C(-1, 0);
                    J j; j.str("e", "sum").str("op", byhash ? "append" : "plus").raw("a", terms(a)).raw("b", terms(b));
                    guarded(j, [&] { auto p = a; if (byhash) fac->append(p, b); else p = a + b; j.raw("out", terms(p)); keep(tame(p)); });
                    break; }
                case 7: {
                    auto a = pick(); auto c = weight();
                    J j; j.str("e", "scale").raw("a", terms(a)).raw("c", "[" + coef(c) + "]");
                    guarded(j, [&] { auto p = rng.coin() ? fac->scale(a, c) : a * c; j.raw("out", terms(p)); keep(tame(p)); });
                    break; }
                case 8: {
                    auto a = pick();
                    J j; j.str("e", "conj").raw("a", terms(a));
                    guarded(j, [&] { auto p = a; const bool r = p.conjugate_in_place(t()); j.raw("out", terms(p)).b("r", r); keep(p); });
                    break; }
                case 9: {
                    auto d = storage(rng.below(5));
                    Polynomial a = byhash ? Polynomial{d, CompareByOpHash{t()}} : Polynomial{d};
                    J j; j.str("e", "fix").raw("in", terms(d)).raw("a", terms(a));
                    guarded(j, [&] { auto p = a; const bool r = p.fix_cc_in_place(t(), true, 1.0); j.raw("out", terms(p)).b("r", r).raw("out2", terms(a.fix_cc(t(), true))); });
                    break; }
                case 10: {
                    auto a = pick();
                    J j; j.str("e", "reim").raw("a", terms(a));
                    guarded(j, [&] { auto p = a.Real(*fac), q = a.Imaginary(*fac); j.raw("re", terms(p)).raw("im", terms(q)); keep(tame(p)); keep(tame(q)); });
                    break; }
                case 11: {
                    auto a = rng.coin() ? pick() : related(pick());
                    if (rng.coin(1, 3)) { Polynomial p = a.Real(*fac); if (rng.coin()) p *= C(0, 1); a = tame(p); }
                    J j; j.str("e", "flags").raw("a", terms(a));
                    guarded(j, [&] { j.b("herm", fac->is_hermitian(a)).b("anti", fac->is_antihermitian(a)).b("realf", a.real_factors())
                        .i("deg", static_cast<long long>(fac->maximum_degree(a))).i("first", a.first_id()).i("last", a.last_id()).b("mono", a.is_monomial()); });
                    break; }
                case 12: case 13: {
                    auto a = pick(); auto b = related(a);
                    // (the order with coefficients is not asked to overlook rounding)
                    auto exact = [&](const Polynomial& p) { Polynomial::storage_t d(p.begin(), p.end());
                        for (auto& x : d) x.factor = C(std::round(x.factor.real() * 4) / 4, std::round(x.factor.imag() * 4) / 4);
                        return (*fac)(std::move(d)); };
                    if (rng.coin()) { a = exact(a); b = exact(b); }
                    const auto ea = exact(a), eb = exact(b);
                    J j; j.str("e", "cmp").raw("a", terms(a)).raw("b", terms(b));
                    guarded(j, [&] { PolynomialOrdering lt{*fac}; PolynomialOrderingWithCoefficients ltc{*fac};
                        j.b("eq", a == b).b("ne", a != b).b("cc", a.is_conjugate(t(), b)).b("lt", lt(a, b)).b("gt", lt(b, a)).b("ltc", ltc(ea, eb)).b("gtc", ltc(eb, ea)); });
                    break; }
                case 14: {
                    auto a = pick(); auto m = rng.coin(1, 3) ? monomial() : canonical();
                    J j; j.str("e", "mask").raw("a", terms(a)).raw("m", "[" + term(m) + "]");
                    guarded(j, [&] {
                        PolynomialToBasisMask f{t(), fac->zero_tolerance};
                        auto [re, im] = f(a);
                        auto [sr, si] = PolynomialToBasisMask::masks_to_sets(re, im);
                        auto [mr, mi] = f.empty_mask();
                        f.set_bits(mr, mi, m);
                        auto [tr, ti] = PolynomialToBasisMask::masks_to_sets(mr, mi);
                        j.raw("re", ints(sr)).raw("im", ints(si)).raw("mre", ints(tr)).raw("mim", ints(ti)); });
                    break; }
                case 15: {
                    auto a = pick();
                    J j; j.str("e", "vec").raw("a", terms(a));
                    guarded(j, [&] {
                        PolynomialToBasisVec f{t(), fac->zero_tolerance};
                        PolynomialToComplexBasisVec g{t(), fac->zero_tolerance};
                        auto both = f(a);
                        j.raw("re", rv(both.real_part)).raw("im", rv(both.imaginary_part)).raw("ore", rv(f.Real(a))).raw("oim", rv(f.Imaginary(a)));
                        auto c = g(a);
                        j.raw("ca", sparse(c.real)).raw("cb", sparse(c.imaginary));
                        ComplexBasisVector d{both};
                        j.raw("da", sparse(d.real)).raw("db", sparse(d.imaginary));
                        std::vector<Eigen::Triplet<double>> x, y, z;
                        const int rr = rng.below(3) - 1, ri = rng.below(3) - 1;
                        f.add_triplet_row(a, rr, ri, x, y);
                        f.add_triplet_row(a, rr, ri, z);
                        j.i("rr", rr).i("ri", ri).raw("tx", trips(x)).raw("ty", trips(y)).raw("tz", trips(z));
                        std::vector<Polynomial> many{a, pick(), Polynomial{}, pick()};
                        auto mm = g(std::span<const Polynomial>{many.data(), many.size()});
                        j.raw("many", arr(many, [](const Polynomial& p) { return terms(p); })).raw("ma", cmat(mm.real)).raw("mb", cmat(mm.imaginary))
                         .i("mar", mm.real.rows()).i("mac", mm.real.cols()).i("mbr", mm.imaginary.rows()).i("mbc", mm.imaginary.cols());
                    });
                    break; }
                default: {
                    const auto nre = static_cast<Eigen::Index>(t().Basis.RealSymbolCount()), nim = static_cast<Eigen::Index>(t().Basis.ImaginarySymbolCount());
                    const bool cplx = rng.coin();
                    Eigen::SparseVector<C> a(nre), b(nim);
                    for (int k = rng.below(4); k > 0 && nre; --k) a.coeffRef(rng.below(static_cast<int>(nre))) = cplx ? weight() : C(weight().real());
                    for (int k = rng.below(4); k > 0 && nim; --k) b.coeffRef(rng.below(static_cast<int>(nim))) = cplx ? weight() : C(weight().real());
                    if (rng.coin() && nim && nre) {      // both parts of one symbol
                        auto im = rng.below(static_cast<int>(nim));
                        auto re = t().Basis.real_from_imaginary(im);
                        if (re >= 0) { auto w = weight(); if (!cplx) w = w.real(); a.coeffRef(re) = w; b.coeffRef(im) = rng.coin() ? w : -w; }
                    }
                    J j; j.str("e", "back").b("cplx", cplx).raw("a", sparse(a)).raw("b", sparse(b));
                    guarded(j, [&] {
                        Polynomial p;
                        if (cplx) p = ComplexBasisVecToPolynomial{*fac}(a, b);
                        else { Eigen::SparseVector<double> x = a.real(), y = b.real(); p = BasisVecToPolynomial{*fac}(x, y); }
                        j.raw("out", terms(p)); keep(tame(p)); });
                }
            }
        }
        void run(const std::string& name, int steps) {
            trace().begin(name);
            trace().ev(J().str("e", "ctx").raw("c", sc.json).i("size", static_cast<int>(sys->Context().size())).str("order", byhash ? "hash" : "id").done());
            sys->generate_dictionary(sc.n <= 6 ? 2 : 1);
            if (rng.coin()) { (void) t().create(true, true); (void) t().create(rng.coin(), true); (void) t().create(true, rng.coin()); }
            for (int k = rng.below(3); k > 0; --k) {     // longer words, registered in any order
                std::vector<int> w;
                for (int x = 3; x > 0; --x) w.push_back(rng.below(sc.n));
                auto q = mk(sys->Context(), w);
                if (!q.zero() && !t().where(q).found()) (void) t().merge_in(std::move(q));
            }
            table();
            for (int k = 0; k < 5; ++k) favourites.push_back(static_cast<symbol_name_t>(rng.below(static_cast<int>(t().size()))));
            for (size_t k = 0; k < t().size(); ++k) if (t()[static_cast<symbol_name_t>(k)].is_antihermitian() && k > 0 && rng.coin(1, 3)) favourites.push_back(static_cast<symbol_name_t>(k));
            for (int k = 0; k < 4; ++k) keep(make(rng.range(1, 3)));
            pool.emplace_back();
            for (int k = 0; k < steps; ++k) step();
            trace().flush();
        }
    };
}

int main(int argc, char** argv) {
    Options o = parse(argc, argv);
    install_handlers();
    trace().open(o);
    Rng rng{o.seed * 104729 + 5};
    std::vector<Scenario> v;
    v.push_back(free_scenario(1)); v.push_back(free_scenario(2));
    v.push_back(locality_scenario({{2,2},{2,2}})); v.push_back(locality_scenario({{3,2},{2}}));
    v.push_back(pauli_scenario(1)); v.push_back(pauli_scenario(2)); v.push_back(pauli_scenario(3, 1, true, true));
    v.push_back(inflation_scenario({2, 2}, {{0, 1}}, 2));
    for (auto& s : algebraic_catalogue()) v.push_back(s);
    v.push_back(algebraic_scenario("anti2free", 3, 0, {{{1,0},2,{0,1}}}));
    v.push_back(algebraic_scenario("icomm", 2, 0, {{{1,0},1,{0,1}}}));
    const int reps = o.thorough() ? 10 : 2, steps = o.thorough() ? 120 : 60;
    for (auto& sc : v)
        for (int r = 0; r < 2 * reps; ++r) {
            Session s{sc, rng, (r & 1) == 1};
            if (sc.kind == "algebraic" && !dynamic_cast<Algebraic::AlgebraicContext&>(s.sys->Context()).is_complete()) continue;
            s.run(sc.name + "#" + std::to_string(r), steps);
        }
    trace().close();
    return 0;
}
