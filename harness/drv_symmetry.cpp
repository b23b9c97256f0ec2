// Records symmetry groups, their action on words, and the systems of moments averaged over them.
#include "ratios.h"
#include "matrix/operator_matrix/moment_matrix.h"
#include "matrix/operator_matrix/localizing_matrix.h"
#include "matrix_system/indices/polynomial_localizing_matrix_index.h"
#include "scenarios/derived/derived_matrix_system.h"
#include "scenarios/derived/derived_errors.h"
#include "scenarios/derived/lu_map_core_processor.h"
#include "scenarios/derived/map_core.h"
#include "scenarios/derived/symbol_table_map.h"
#include "scenarios/symmetrized/group.h"
#include "scenarios/symmetrized/representation.h"
#include "scenarios/symmetrized/symmetrized_matrix_system.h"
#include <map>

using namespace vf;
using namespace Moment::Symmetrized;
using namespace Moment::Derived;

namespace {
    constexpr double tolerance = 1.0;
    using Image = std::vector<std::pair<int, int>>;         // (letter or -1 for one, coefficient)
    using Gen = std::vector<Image>;                         // image of each letter

    Gen unit(int n) { Gen g; for (int k = 0; k < n; ++k) g.push_back({{k, 1}}); return g; }
    Gen perm(int n, const std::vector<std::pair<int, int>>& moves) { Gen g = unit(n); for (auto [a, b] : moves) g[a] = {{b, 1}}; return g; }
    Gen swaps(int n, const std::vector<std::pair<int, int>>& s) { Gen g = unit(n); for (auto [a, b] : s) { g[a] = {{b, 1}}; g[b] = {{a, 1}}; } return g; }
    Gen neg(int n, const std::vector<int>& l) { Gen g = unit(n); for (int x : l) g[x] = {{x, -1}}; return g; }
    Gen flip(int n, const std::vector<int>& l) { Gen g = unit(n); for (int x : l) g[x] = {{-1, 1}, {x, -1}}; return g; }

    // sparse matrix, one list of [row, numerator, denominator] per column
    template<typename M> std::string columns(const M& m) {
        std::string s = "[";
        for (Eigen::Index c = 0; c < m.cols(); ++c) {
            if (c) s += ",";
            s += "[";
            bool first = true;
            for (Eigen::Index r = 0; r < m.rows(); ++r) {
                const double v = m.coeff(r, c);
                if (std::abs(v) < 1e-12) continue;
                if (!first) s += ",";
                first = false;
                s += "[" + std::to_string(r) + "," + ratio(v) + "]";
            }
            s += "]";
        }
        return s + "]";
    }
    template<typename L> std::string matrices(const L& l) { return arr(l, [](const auto& m) { return columns(m); }); }

    struct Chosen { std::string name; std::vector<repmat_t> gens, elems; bool automorphism = true; };

    // ---------------------------------------------------------------- groups
    std::string group_event(const std::vector<repmat_t>& gens, size_t limit, std::vector<repmat_t>* out = nullptr) {
        J j;
        j.str("e", "group").i("dim", gens.empty() ? 1 : gens[0].cols()).i("limit", static_cast<long long>(std::min<size_t>(limit, 1000000))).raw("gens", matrices(gens));
        try {
            auto e = Group::dimino_generation(gens, limit);
            j.str("res", "ok").raw("out", matrices(e));
            if (out) *out = std::move(e);
        } catch (const std::runtime_error&) { j.str("res", "endless").raw("out", "[]"); }
        return j.done();
    }
    repmat_t random_generator(Rng& rng, int d, int flavour) {
        Eigen::MatrixXd m = Eigen::MatrixXd::Zero(d, d);
        if (flavour == 0 || d < 2) {                     // signed permutation
            std::vector<int> p(d);
            for (int k = 0; k < d; ++k) p[k] = k;
            for (int k = d - 1; k > 0; --k) std::swap(p[k], p[rng.below(k + 1)]);
            for (int k = 0; k < d; ++k) m(p[k], k) = rng.coin(1, 4) ? -1 : 1;
        } else if (flavour == 1) {                       // affine: first column fixed, flips and permutations of the rest
            m(0, 0) = 1;
            std::vector<int> p;
            for (int k = 1; k < d; ++k) p.push_back(k);
            for (int k = d - 2; k > 0; --k) std::swap(p[k], p[rng.below(k + 1)]);
            for (int k = 1; k < d; ++k) { const bool f = rng.coin(1, 3); m(p[k - 1], k) = f ? -1 : 1; if (f) m(0, k) = 1; }
        } else {                                         // order three on two of the axes, the rest fixed
            m.setIdentity();
            const int a = rng.below(d), b = (a + 1 + rng.below(d - 1)) % d;
            m(a, a) = 0; m(b, a) = 1; m(a, b) = -1; m(b, b) = -1;
        }
        repmat_t s = m.sparseView();
        return s;
    }
    void group_session(const std::string& name, Rng& rng, int steps) {
        trace().begin(name);
        trace().ev(J().str("e", "free").done());
        trace().ev(group_event({}, 100));
        for (int k = 0; k < steps; ++k) {
            const int d = 1 + rng.below(4), n = 1 + rng.below(3);
            std::vector<repmat_t> g;
            for (int q = 0; q < n; ++q) g.push_back(random_generator(rng, d, rng.below(q == 0 && rng.coin() ? 3 : 2)));
            if (rng.coin(1, 6)) { repmat_t id(d, d); id.setIdentity(); g.insert(g.begin() + rng.below(static_cast<int>(g.size()) + 1), id); }
            // a first generator of infinite order is reported, whatever else is asked for
            if (rng.coin(1, 8) && d > 1) {
                Eigen::MatrixXd m = Eigen::MatrixXd::Identity(d, d);
                m(rng.below(d - 1) + 1, 0) = rng.coin() ? 1 : -2;
                g[0] = m.sparseView();
                trace().ev(group_event(g, static_cast<size_t>(rng.range(1, 40))));
                continue;
            }
            // signed permutations mixed with order-three maps need not close; keep to one flavour beyond two dimensions
            if (d > 2) for (auto& m : g) if (m.isApprox(g[0]) == false) m = random_generator(rng, d, 0);
            std::vector<repmat_t> fin{g[0]};
            if (d > 2) { fin[0] = random_generator(rng, d, 0); for (size_t q = 1; q < g.size(); ++q) fin.push_back(random_generator(rng, d, 0)); }
            else if (d == 2) { const int fl = rng.below(2); for (auto& m : g) m = random_generator(rng, 2, fl); fin = g; }
            else fin = g;
            trace().ev(group_event(fin, 1000));
        }
        trace().flush();
    }

    // ---------------------------------------------------------------- maps given directly
    struct DirectFactory : DerivedMatrixSystem::STMFactory {
        Eigen::MatrixXd m;
        bool sparse;
        size_t len;
        DirectFactory(Eigen::MatrixXd m, bool sparse, size_t len) : m{std::move(m)}, sparse{sparse}, len{len} {}
        std::unique_ptr<SymbolTableMap> operator()(SymbolTable& origin, SymbolTable& target, MT) final {
            origin.OSGIndex.update_if_necessary(len);
            if (sparse) { Eigen::SparseMatrix<double> s = m.sparseView(); return std::make_unique<SymbolTableMap>(origin, target, LUMapCoreProcessor{}, s); }
            return std::make_unique<SymbolTableMap>(origin, target, LUMapCoreProcessor{}, m);
        }
    };

    // ---------------------------------------------------------------- systems
    struct Session {
        const Scenario& sc;
        const Options& o;
        Rng& rng;
        std::shared_ptr<MatrixSystem> sys;
        std::unique_ptr<DerivedMatrixSystem> dms;
        size_t len = 1;                       // longest word that is mapped
        size_t seen = 0;
        struct Source { ptrdiff_t off; std::string def; };
        std::vector<Source> sources;

        Session(const Scenario& sc, const Options& o, Rng& rng, int how) : sc{sc}, o{o}, rng{rng}, sys{make_system(sc, tolerance, how)} {}
        const Context& ctx() { return std::as_const(*sys).Context(); }
        const SymbolTable& t() { return std::as_const(*sys).Symbols(); }

        void table() {
            if (t().size() == seen) return;
            seen = t().size();
            std::string s = "[";
            for (size_t k = 0; k < seen; ++k) {
                const auto& y = t()[static_cast<symbol_name_t>(k)];
                if (k) s += ",";
                s += J().b("h", y.is_hermitian()).b("ah", y.is_antihermitian()).i("re", y.basis_key().first).i("im", y.basis_key().second)
                    .b("has", y.has_sequence()).raw("q", y.has_sequence() ? el(y.sequence()) : el(HashedSequence{true}))
                    .raw("cq", y.has_sequence() ? el(y.sequence_conj()) : el(HashedSequence{true})).done();
            }
            trace().ev(J().str("e", "tab").raw("t", s + "]").i("nre", static_cast<long long>(t().Basis.RealSymbolCount())).i("nim", static_cast<long long>(t().Basis.ImaginarySymbolCount())).done());
        }
        void guarded(J& j, const std::function<void()>& f) {
            try { f(); }
            catch (const std::exception& ex) { j.str("threw", ex.what()); }
            trace().ev(j.done());
        }
        size_t osg(size_t l) { return ctx().operator_sequence_generator(l).size(); }

        void begin(const std::string& name, size_t l) {
            trace().begin(name);
            len = l;
            trace().ev(J().str("e", "ctx").raw("c", sc.json).str("order", "id").i("len", static_cast<long long>(l))
                           .raw("words", arr(ctx().operator_sequence_generator(l), [](const auto& q) { return el(q); })).done());
        }

        // definitions of matrices
        std::string mm_def(size_t lvl) { return J().str("k", "mm").i("lvl", static_cast<long long>(lvl)).raw("p", "[]").done(); }
        std::vector<int> random_word(size_t l) {
            std::vector<int> w;
            for (int tries = 0; tries < 20; ++tries) {
                w.clear();
                for (size_t k = 0; k < l; ++k) w.push_back(rng.below(sc.n));
                if (!mk(ctx(), w).zero()) break;
            }
            return w;
        }
        std::string lm_def(size_t lvl, const OperatorSequence& w) {
            return J().str("k", "lm").i("lvl", static_cast<long long>(lvl)).raw("p", "[" + J().raw("q", el(w)).i("re", 1).i("im", 0).done() + "]").done();
        }
        std::string plm_def(size_t lvl, const RawPolynomial& p) { return J().str("k", "plm").i("lvl", static_cast<long long>(lvl)).raw("p", raw_poly(p)).done(); }

        void base_matrix() {        // a matrix of the base system, to be derived later
            const size_t lvl = static_cast<size_t>(rng.range(0, static_cast<int>(len) / 2));
            if (rng.coin()) {
                auto [off, m] = sys->MomentMatrix.create(lvl);
                sources.push_back({off, mm_def(lvl)});
            } else {
                OperatorSequence w{mk(ctx(), random_word(1 + static_cast<size_t>(rng.below(2))))};
                if (w.zero()) return;
                auto [off, m] = sys->LocalizingMatrix.create(LocalizingMatrixIndex{lvl, w});
                sources.push_back({off, lm_def(lvl, w)});
            }
        }

        // the generators that make sense for the scenario
        std::vector<Gen> catalogue() {
            std::vector<Gen> g;
            const int n = sc.n;
            const std::string& k = sc.name;
            auto all = [&](int a, int b) { std::vector<int> v; for (int x = a; x < b; ++x) v.push_back(x); return v; };
            if (sc.kind == "free") {
                for (int a = 0; a < n; ++a) { g.push_back(neg(n, {a})); g.push_back(flip(n, {a})); for (int b = a + 1; b < n; ++b) g.push_back(swaps(n, {{a, b}})); }
                if (n >= 2) { Gen x = unit(n); x[0] = {{1, 1}}; x[1] = {{0, -1}, {1, -1}}; g.push_back(x); }
                if (n >= 2) { Gen x = unit(n); x[0] = {{1, 1}}; x[1] = {{0, -1}}; g.push_back(x); }
                if (n >= 3) g.push_back(perm(n, {{0, 1}, {1, 2}, {2, 0}}));
            } else if (sc.kind == "locality") {
                auto* lc = dynamic_cast<const Locality::LocalityContext*>(&ctx());
                struct M { int first, count; };
                std::vector<std::vector<M>> pm;
                int at = 0;
                for (const auto& p : lc->Parties) {
                    pm.emplace_back();
                    for (const auto& m : p.Measurements) { const int c = static_cast<int>(m.num_operators()); pm.back().push_back({at, c}); at += c; }
                }
                for (size_t a = 0; a < pm.size(); ++a) {
                    for (size_t m = 0; m < pm[a].size(); ++m) {
                        const auto& x = pm[a][m];
                        if (x.count == 1) g.push_back(flip(n, {x.first}));
                        if (x.count >= 2) {
                            g.push_back(swaps(n, {{x.first, x.first + 1}}));
                            Gen y = unit(n);                          // outcomes moved on by one: the last becomes the first
                            for (int q = 0; q + 1 < x.count; ++q) y[x.first + q] = {{x.first + q + 1, 1}};
                            y[x.first + x.count - 1] = {{-1, 1}};
                            for (int q = 0; q < x.count; ++q) y[x.first + x.count - 1].push_back({x.first + q, -1});
                            g.push_back(y);
                        }
                        for (size_t m2 = m + 1; m2 < pm[a].size(); ++m2) if (pm[a][m2].count == x.count) {
                            std::vector<std::pair<int, int>> s;
                            for (int q = 0; q < x.count; ++q) s.emplace_back(x.first + q, pm[a][m2].first + q);
                            g.push_back(swaps(n, s));
                        }
                    }
                    for (size_t b = a + 1; b < pm.size(); ++b) {
                        if (pm[a].size() != pm[b].size()) continue;
                        bool ok = true;
                        std::vector<std::pair<int, int>> s;
                        for (size_t m = 0; m < pm[a].size(); ++m) {
                            ok = ok && pm[a][m].count == pm[b][m].count;
                            if (ok) for (int q = 0; q < pm[a][m].count; ++q) s.emplace_back(pm[a][m].first + q, pm[b][m].first + q);
                        }
                        if (ok && !s.empty()) g.push_back(swaps(n, s));
                    }
                }
            } else if (sc.kind == "inflation") {
                auto* ic = dynamic_cast<const Inflation::InflationContext*>(&ctx());
                for (const auto& b : ic->Observables()) {
                    if (b.outcomes != 2) continue;
                    std::vector<int> l;
                    for (const auto& v : b.variants) l.push_back(static_cast<int>(v.operator_offset));
                    g.push_back(flip(n, l));
                }
                const auto& ob = ic->Observables();
                if (ob.size() == 2 && ob[0].outcomes == ob[1].outcomes && ob[0].variant_count == ob[1].variant_count && ob[0].outcomes == 2) {
                    std::vector<std::pair<int, int>> s;
                    for (size_t v = 0; v < ob[0].variants.size(); ++v) s.emplace_back(static_cast<int>(ob[0].variants[v].operator_offset), static_cast<int>(ob[1].variants[v].operator_offset));
                    g.push_back(swaps(n, s));
                }
            } else if (sc.kind == "pauli") {
                const int qubits = n / 3;
                const bool sym = sc.json.find("\"sym\":true") != std::string::npos;
                auto on = [&](const std::vector<int>& qs, int what) {
                    Gen x = unit(n);
                    for (int q : qs) {
                        const int a = 3 * q;
                        if (what == 0) { x[a] = {{a + 1, 1}}; x[a + 1] = {{a, 1}}; x[a + 2] = {{a + 2, -1}}; }
                        if (what == 1) { x[a] = {{a + 1, 1}}; x[a + 1] = {{a + 2, 1}}; x[a + 2] = {{a, 1}}; }
                        if (what == 2) { x[a] = {{a, -1}}; x[a + 1] = {{a + 1, -1}}; }
                        if (what == 3) { x[a] = {{a + 1, 1}}; x[a + 1] = {{a, -1}}; }
                    }
                    return x;
                };
                for (int w = 0; w < 4; ++w) { if (!sym) for (int q = 0; q < qubits; ++q) g.push_back(on({q}, w)); g.push_back(on(all(0, qubits), w)); }
                if (qubits > 1 && sc.json.find("\"cols\":1") != std::string::npos) {
                    std::vector<std::pair<int, int>> s;
                    for (int q = 0; q < qubits; ++q) for (int e = 0; e < 3; ++e) s.emplace_back(3 * q + e, 3 * (qubits - 1 - q) + e);
                    g.push_back(perm(n, s));
                    if (!sym) for (int q = 0; q + 1 < qubits; ++q) g.push_back(swaps(n, {{3 * q, 3 * q + 3}, {3 * q + 1, 3 * q + 4}, {3 * q + 2, 3 * q + 5}}));
                }
            } else {
                auto is = [&](const char* x) { return k == std::string("alg_") + x; };
                if (is("norules")) {
                    g = {swaps(2, {{0, 1}}), neg(2, {0}), flip(2, {1})};
                    Gen x = unit(2); x[0] = {{1, 1}}; x[1] = {{0, -1}, {1, -1}}; g.push_back(x);
                }
                else if (is("norules_b")) { g = {swaps(4, {{0, 1}, {2, 3}}), swaps(4, {{0, 2}, {1, 3}}), swaps(4, {{0, 2}}), neg(4, {0, 2}), flip(4, {1, 3})};
                    Gen x = unit(4); x[0] = {{1, 1}}; x[1] = {{0, -1}}; x[2] = {{3, 1}}; x[3] = {{2, -1}}; g.push_back(x); }
                else if (is("norules_i")) g = {swaps(4, {{0, 2}, {1, 3}}), swaps(4, {{0, 1}}), swaps(4, {{2, 3}}), neg(4, {0, 1})};
                else if (is("comm3")) { g = {swaps(3, {{0, 1}}), perm(3, {{0, 1}, {1, 2}, {2, 0}}), neg(3, {2}), flip(3, {0})}; }
                else if (is("comm_b") || is("normal_b")) g = {swaps(4, {{0, 1}, {2, 3}}), swaps(4, {{0, 2}}), swaps(4, {{1, 3}}), neg(4, {0, 2})};
                else if (is("normal_i")) g = {swaps(4, {{0, 2}, {1, 3}}), swaps(4, {{0, 1}}), neg(4, {2, 3})};
                else if (is("proj2")) g = {swaps(2, {{0, 1}}), flip(2, {0}), flip(2, {1})};
                else if (is("chsh")) g = {swaps(4, {{0, 1}}), swaps(4, {{2, 3}}), swaps(4, {{0, 2}, {1, 3}}), neg(4, {0}), neg(4, {3})};
                else if (is("anti2") || is("anti2sq")) { g = {swaps(2, {{0, 1}}), neg(2, {0}), neg(2, {1})}; Gen x = unit(2); x[0] = {{1, 1}}; x[1] = {{0, -1}}; g.push_back(x); }
                else if (is("anti3")) g = {swaps(3, {{0, 1}}), swaps(3, {{1, 2}}), perm(3, {{0, 1}, {1, 2}, {2, 0}}), neg(3, {0})};
                else if (is("anti2f") || is("anti2g")) g = {swaps(3, {{0, 1}}), neg(3, {0}), neg(3, {2}), flip(3, {2})};
                else if (is("ortho") || is("s3")) g = {swaps(2, {{0, 1}})};
                else if (is("pauli_i")) { g = {perm(3, {{0, 1}, {1, 2}, {2, 0}}), neg(3, {0, 1})}; Gen x = unit(3); x[0] = {{1, 1}}; x[1] = {{0, 1}}; x[2] = {{2, -1}}; g.push_back(x); }
                else if (is("unitary_b") || is("fermion_b") || is("anticomm_b")) g = {swaps(2, {{0, 1}}), neg(2, {0, 1})};
                else if (is("unitary2_i")) g = {swaps(4, {{0, 1}}), swaps(4, {{0, 2}, {1, 3}}), neg(4, {0, 1})};
                else if (is("nilp")) g = {neg(2, {0}), neg(2, {1})};
                else if (is("neg_sq")) g = {swaps(4, {{0, 2}, {1, 3}}), neg(4, {0, 2})};
                else if (is("comm_proj")) g = {swaps(3, {{0, 1}}), perm(3, {{0, 1}, {1, 2}, {2, 0}}), flip(3, {0})};
            }
            return g;
        }
        // letters as rows and columns of the smallest representation
        repmat_t matrix(const Gen& g) {
            const auto& gen = ctx().operator_sequence_generator(1);
            std::map<int, int> at;
            at[-1] = 0;
            int k = 0;
            for (const auto& q : gen) { if (!q.empty()) at[static_cast<int>(q[0])] = k; ++k; }
            Eigen::MatrixXd m = Eigen::MatrixXd::Zero(k, k);
            m(0, 0) = 1;
            for (size_t x = 0; x < g.size(); ++x) if (at.count(static_cast<int>(x)))
                for (auto [y, c] : g[x]) m(at.at(y), at.at(static_cast<int>(x))) += c;
            repmat_t s = m.sparseView();
            return s;
        }
        bool choose(Chosen& out, size_t cap) {
            auto cat = catalogue();
            if (cat.empty()) return false;
            for (int tries = 0; tries < 12; ++tries) {
                std::vector<repmat_t> gens;
                const int n = 1 + rng.below(std::min<int>(3, static_cast<int>(cat.size())));
                for (int k = 0; k < n; ++k) {
                    repmat_t m = matrix(cat[rng.below(static_cast<int>(cat.size()))]);
                    if (rng.coin(1, 4)) m = (m * matrix(cat[rng.below(static_cast<int>(cat.size()))])).pruned();
                    gens.push_back(m);
                }
                // is the group small enough? (closure by hand, so that the library's answer can be recorded)
                std::vector<Eigen::MatrixXd> all{Eigen::MatrixXd::Identity(gens[0].rows(), gens[0].cols())};
                for (size_t a = 0; a < all.size() && all.size() <= cap; ++a)
                    for (const auto& g : gens) {
                        Eigen::MatrixXd x = all[a] * Eigen::MatrixXd(g);
                        if (std::none_of(all.begin(), all.end(), [&](const auto& y) { return (x - y).cwiseAbs().maxCoeff() < 1e-9; })) all.push_back(x);
                    }
                if (all.size() > cap) continue;
                out.gens = std::move(gens);
                return true;
            }
            return false;
        }

        std::unique_ptr<Group> make_group(const Chosen& c) {
            auto elems = c.elems;
            return std::make_unique<Group>(ctx(), std::make_unique<Representation>(1, std::move(elems)));
        }
        void rep(Group& g, size_t l, MT mt) {
            J j;
            j.str("e", "rep").i("len", static_cast<long long>(l));
            guarded(j, [&] {
                const auto& r = g.create_representation(l, mt);
                const bool same = &g.representation(l) == &r && r.word_length == l && r.size() == g.size && r.dimension == osg(l);
                j.b("same", same).raw("out", matrices(r)).raw("sum", columns(r.sum_of()));
            });
        }
        void refusals(Group& g) {
            std::string res;
            auto ask = [&](const std::function<void()>& f) {
                try { f(); res += "n"; } catch (const std::range_error&) { res += "r"; } catch (const std::runtime_error&) { res += "x"; } catch (...) { res += "?"; }
            };
            ask([&] { (void) g.create_representation(0); });
            ask([&] { (void) g.representation(0); });
            ask([&] { (void) g.representation(40); });
            ask([&] { std::vector<repmat_t> v; repmat_t id(static_cast<int>(g.fundamental_dimension) + 1, static_cast<int>(g.fundamental_dimension) + 1); id.setIdentity(); v.push_back(id);
                      Group bad(ctx(), std::make_unique<Representation>(1, std::move(v))); });
            ask([&] { Group bad(ctx(), nullptr); });
            trace().ev(J().str("e", "refuse").str("res", res).done());
        }

        std::string target_table() {
            const auto& y = std::as_const(*dms).Symbols();
            std::string s = "[";
            for (size_t k = 0; k < y.size(); ++k) {
                const auto& z = y[static_cast<symbol_name_t>(k)];
                if (k) s += ",";
                s += J().b("h", z.is_hermitian()).b("ah", z.is_antihermitian()).i("re", z.basis_key().first).i("im", z.basis_key().second).done();
            }
            return s + "]";
        }
        void map_event() {
            J j;
            j.str("e", "map");
            const auto& m = std::as_const(*dms).map();
            guarded(j, [&] {
                std::string f = "[";
                for (size_t k = 0; k < t().size(); ++k) {
                    if (k) f += ",";
                    try { f += J().b("ok", true).raw("p", terms(m(static_cast<symbol_name_t>(k)))).done(); }
                    catch (const errors::bad_map&) { f += "{\"ok\":false,\"p\":[]}"; }
                }
                f += "]";
                std::string v = "[";
                for (size_t k = 0; k < m.inv_size(); ++k) { if (k) v += ","; v += terms(m.inverse(static_cast<symbol_name_t>(k))); }
                v += "]";
                std::string oob;
                for (symbol_name_t x : {static_cast<symbol_name_t>(-1), static_cast<symbol_name_t>(t().size()), static_cast<symbol_name_t>(t().size() + 7)}) {
                    try { (void) m(x); oob += "n"; } catch (const errors::bad_map&) { oob += "b"; } catch (...) { oob += "?"; }
                }
                for (symbol_name_t x : {static_cast<symbol_name_t>(-1), static_cast<symbol_name_t>(m.inv_size()), static_cast<symbol_name_t>(m.inv_size() + 7)}) {
                    try { (void) m.inverse(x); oob += "n"; } catch (const errors::bad_map&) { oob += "b"; } catch (...) { oob += "?"; }
                }
                j.raw("fwd", f).raw("inv", v).raw("tgt", target_table()).b("mono", m.is_monomial_map()).i("rank", static_cast<long long>(m.raw_solution().output_symbols)).str("oob", oob)
                 .i("longest", static_cast<long long>(std::min<size_t>(dms->longest_supported_word(), 1000000)))
                 .b("from", &m.Origin() == &t() && &m.Target() == &std::as_const(*dms).Symbols());
            });
        }
        // apply the map to one polynomial, and the inverse map to one monomial
        void apply() {
            const auto& m = std::as_const(*dms).map();
            Polynomial::storage_t data;
            const int n = rng.range(1, 4);
            for (int k = 0; k < n; ++k)
                data.emplace_back(static_cast<symbol_name_t>(rng.below(static_cast<int>(t().size()))), std::complex<double>{static_cast<double>(rng.range(-3, 3)), rng.coin(1, 3) ? static_cast<double>(rng.range(-2, 2)) : 0.0}, rng.coin(1, 3));
            auto in = sys->polynomial_factory()(Polynomial::storage_t(data));
            J j;
            j.str("e", "apply").raw("p", terms(in));
            guarded(j, [&] {
                try { auto out = m(in); j.b("ok", true).raw("out", terms(out)); }
                catch (const errors::bad_map&) { j.b("ok", false).raw("out", "[]"); }
            });
            const auto y = static_cast<symbol_name_t>(rng.below(static_cast<int>(m.inv_size())));
            Monomial mo{y, std::complex<double>{static_cast<double>(rng.range(1, 3)), static_cast<double>(rng.range(-1, 1))}, rng.coin()};
            J k;
            k.str("e", "unapply").raw("p", "[" + term(mo) + "]");
            guarded(k, [&] { k.raw("out", terms(m.inverse(mo))); });
        }
        void record(J& j, ptrdiff_t off, const SymbolicMatrix& m) {
            j.str("res", "ok").i("off", off).i("dim", static_cast<long long>(m.Dimension())).b("mono", m.is_monomial()).b("herm", m.Hermitian())
             .b("at", &(*dms)[off] == &m).raw("m", cells(m));
        }
        void failed(J& j, const std::function<void()>& f) {
            try { f(); }
            catch (const errors::too_large_to_transform_error&) { j.str("res", "large"); }
            catch (const errors::bad_transformation_error&) { j.str("res", "bad"); }
            catch (const errors::bad_map&) { j.str("res", "map"); }
        }
        void derive() {
            J j;
            j.str("e", "dm");
            const int what = rng.below(10);
            const size_t lvl = static_cast<size_t>(rng.below(static_cast<int>(len) / 2 + 2));
            if (osg(lvl) > 30) return;
            const MT mt = rng.coin() ? MT::Always : MT::Never;
            std::function<void()> f;
            if (what < 4) {
                j.str("how", "mm").raw("def", mm_def(lvl));
                f = [&, lvl] { failed(j, [&] { auto [off, m] = dms->MomentMatrix.create(lvl, mt); record(j, off, m); sources.push_back({sys->MomentMatrix.find_index(lvl), mm_def(lvl)}); }); };
            } else if (what < 6) {
                OperatorSequence w{mk(ctx(), random_word(1 + static_cast<size_t>(rng.below(3))))};
                if (w.zero()) return;
                LocalizingMatrixIndex ix{lvl, w};
                j.str("how", "lm").raw("def", lm_def(lvl, w));
                f = [&, ix] { failed(j, [&] { auto [off, m] = dms->LocalizingMatrix.create(ix, mt); record(j, off, m); sources.push_back({sys->LocalizingMatrix.find_index(ix), lm_def(ix.Level, ix.Word)}); }); };
            } else if (what < 8) {
                RawPolynomial p;
                const int n = rng.range(1, 3);
                for (int k = 0; k < n; ++k) { OperatorSequence w{mk(ctx(), random_word(static_cast<size_t>(rng.below(3))))}; if (!w.zero()) p.emplace_back(w, static_cast<double>(rng.range(1, 3) * (rng.coin() ? 1 : -1))); }
                if (p.empty()) return;
                Polynomial sp;
                try { sp = p.to_polynomial(sys->polynomial_factory()); }
                catch (const errors::unregistered_operator_sequence&) { return; }
                if (sp.empty()) return;
                PolynomialLocalizingMatrixIndex ix{lvl, sp};
                table();
                j.str("how", "plm").raw("def", J().str("k", "sym").i("lvl", static_cast<long long>(lvl)).raw("p", terms(sp)).done());
                f = [&, ix, sp, lvl] { failed(j, [&] { auto [off, m] = dms->PolynomialLocalizingMatrix.create(ix, mt); record(j, off, m); sources.push_back({sys->PolynomialLocalizingMatrix.find_index(ix), J().str("k", "sym").i("lvl", static_cast<long long>(lvl)).raw("p", terms(sp)).done()}); }); };
            } else if (sources.empty() || rng.coin(1, 6)) {
                const ptrdiff_t off = rng.coin() ? static_cast<ptrdiff_t>(std::as_const(*sys).size()) + rng.below(3) : -1 - rng.below(2);
                j.str("how", "der").i("src", off < 0 ? -1 : static_cast<long long>(off)).raw("def", J().str("k", "none").i("lvl", 0).raw("p", "[]").done());
                if (off < 0) return;
                f = [&, off] { failed(j, [&] { auto [o2, m] = dms->DerivedMatrices.create(DerivedMatrixIndex{static_cast<size_t>(off)}, mt); record(j, o2, m); }); };
            } else {
                const auto s = sources[rng.below(static_cast<int>(sources.size()))];
                j.str("how", "der").i("src", s.off).raw("def", s.def);
                f = [&, s] { failed(j, [&] { auto [o2, m] = dms->DerivedMatrices.create(DerivedMatrixIndex{static_cast<size_t>(s.off)}, mt); record(j, o2, m); }); };
            }
            guarded(j, f);
            table();
        }

        void symmetrized(const std::string& name, size_t l, size_t cap, int steps) {
            if (rng.coin(1, 3)) len = l;
            begin(name, l);
            Chosen c;
            if (!choose(c, std::max<size_t>(2, cap))) { trace().flush(); return; }
            trace().ev(group_event(c.gens, 1000, &c.elems));
            {   // the representations of one group, in any order of request
                auto g = make_group(c);
                if (rng.coin(1, 3)) refusals(*g);
                const int n = rng.range(1, 3);
                for (int k = 0; k < n; ++k) rep(*g, static_cast<size_t>(rng.range(1, static_cast<int>(l))), rng.coin() ? MT::Always : MT::Never);
                rep(*g, l, rng.coin() ? MT::Always : MT::Never);
            }
            const int before = rng.below(3);
            for (int k = 0; k < before; ++k) base_matrix();
            if (rng.coin(1, 3) && osg(l / 2 + 1) <= 14) { auto [off, m] = sys->MomentMatrix.create(l / 2 + 1); sources.push_back({off, mm_def(l / 2 + 1)}); }
            sys->generate_dictionary(l);
            table();
            auto g = make_group(c);
            if (rng.coin(1, 3)) (void) g->create_representation(static_cast<size_t>(rng.range(1, static_cast<int>(l))), MT::Never);
            try { dms = std::make_unique<SymmetrizedMatrixSystem>(std::shared_ptr<MatrixSystem>(sys), std::move(g), l, std::make_unique<LUMapCoreProcessor>(), -1.0, rng.coin() ? MT::Always : MT::Never); }
            catch (const std::exception& ex) { trace().ev(J().str("e", "map").str("threw", ex.what()).done()); trace().flush(); return; }
            rest(steps);
        }
        void direct(const std::string& name, size_t l, int steps) {
            begin(name, l);
            sys->generate_dictionary(l);
            if (rng.coin(1, 3) && osg(l / 2 + 1) <= 14) { auto [off, m] = sys->MomentMatrix.create(l / 2 + 1); sources.push_back({off, mm_def(l / 2 + 1)}); }
            table();
            const int n = static_cast<int>(osg(l));
            Eigen::MatrixXd m = Eigen::MatrixXd::Zero(n, n);
            m(0, 0) = 1;
            const int rank = rng.range(0, std::min(4, n));
            Eigen::MatrixXd a = Eigen::MatrixXd::Zero(n, rank), b = Eigen::MatrixXd::Zero(rank, n);
            for (int x = 0; x < n; ++x) for (int y = 0; y < rank; ++y) { if (rng.coin(1, 3)) a(x, y) = rng.range(-2, 2); if (rng.coin(1, 3)) b(y, x) = rng.range(-2, 2); }
            if (rank) m.rightCols(n - 1) = (a * b).rightCols(n - 1);
            for (int x = 1; x < n; ++x) if (rng.coin(1, 4)) m(0, x) = rng.range(-3, 3);
            const bool sparse = rng.coin();
            trace().ev(J().str("e", "given").b("sparse", sparse).raw("m", columns(m)).done());
            try { dms = std::make_unique<DerivedMatrixSystem>(std::shared_ptr<MatrixSystem>(sys), DirectFactory{m, sparse, l}, -1.0, MT::Never); }
            catch (const std::exception& ex) { trace().ev(J().str("e", "map").str("threw", ex.what()).done()); trace().flush(); return; }
            rest(steps);
        }
        void rest(int steps) {
            map_event();
            for (int k = 0; k < steps; ++k) { if (rng.coin(1, 3)) apply(); else derive(); }
            trace().flush();
        }
    };

    // ---------------------------------------------------------------- splitting a map into its parts
    template<typename Core> void core_result(J& j, const Core& c, bool sparse, Rng& rng) {
        auto bits = [](const DynamicBitset<size_t>& b) { std::vector<long long> v; for (auto x : b) v.push_back(static_cast<long long>(x)); return ints(v); };
        Eigen::MatrixXd core = Eigen::MatrixXd(c.core);
        j.str("res", "ok").raw("consts", arr(c.constants, [](const auto& kv) { return "[" + std::to_string(kv.first) + "," + ratio(kv.second) + "]"; }))
         .raw("cols", bits(c.nontrivial_cols)).raw("rows", bits(c.nontrivial_rows)).i("h", core.rows()).i("w", core.cols());
        std::vector<double> off;
        for (Eigen::Index k = 0; k < c.core_offset.size(); ++k) off.push_back(c.core_offset[k]);
        j.raw("off", arr(off, [](double x) { return "[" + ratio(x) + "]"; })).raw("core", columns(core)).i("initial", static_cast<long long>(c.initial_size));
        bool nosolve = false;
        std::unique_ptr<SolvedMapCore> sol;
        try { sol = c.accept(LUMapCoreProcessor{}); } catch (const std::logic_error&) { nosolve = true; }
        j.b("nosolve", nosolve);
        if (sol) {
            j.i("rank", static_cast<long long>(sol->output_symbols)).b("trivial", sol->trivial_solution).b("dense", sol->dense_solution).b("spsol", sol->sparse_solution)
             .raw("map", columns(sol->dense_map)).raw("inv", columns(sol->dense_inv_map)).i("mw", sol->dense_map.cols()).i("ih", sol->dense_inv_map.rows());
            std::string chk;
            try { c.check_solution(*sol); chk += "n"; } catch (const errors::invalid_solution&) { chk += "i"; }
            if (sol->dense_solution) {
                const auto n = static_cast<Eigen::Index>(sol->output_symbols);
                for (int k = 0; k < 5; ++k) {
                    SolvedMapCore w = *sol;
                    if (k == 0) w.dense_map = Eigen::MatrixXd::Zero(core.rows() + 1, n);
                    if (k == 1) w.dense_map = Eigen::MatrixXd::Zero(core.rows(), n + 1);
                    if (k == 2) w.dense_inv_map = Eigen::MatrixXd::Zero(n + 1, core.cols());
                    if (k == 3) w.dense_inv_map = Eigen::MatrixXd::Zero(n, core.cols() + 1);
                    if (k == 4) w.output_symbols = static_cast<size_t>(n) + 1;
                    try { c.check_solution(w); chk += "n"; } catch (const errors::invalid_solution&) { chk += "i"; }
                }
                for (int k = 0; k < 6; ++k) {           // the same as a sparse solution
                    SolvedMapCore w = *sol;
                    w.dense_solution = false; w.sparse_solution = true;
                    auto sm = [](Eigen::Index r, Eigen::Index q) { return Eigen::SparseMatrix<double>(r, q); };
                    w.sparse_map = sm(core.rows() + (k == 1), n + (k == 2));
                    w.sparse_inv_map = sm(n + (k == 3), core.cols() + (k == 4));
                    if (k == 5) w.output_symbols = static_cast<size_t>(n) + 1;
                    try { c.check_solution(w); chk += "n"; } catch (const errors::invalid_solution&) { chk += "i"; }
                }
            }
            j.str("chk", chk);
        }
    }
    void core_session(const std::string& name, Rng& rng, int steps) {
        trace().begin(name);
        trace().ev(J().str("e", "free").done());
        for (int k = 0; k < steps; ++k) {
            const int h = rng.range(1, 7), w = rng.range(1, 7), rank = rng.range(0, 3);
            Eigen::MatrixXd m = Eigen::MatrixXd::Zero(h, w), a = Eigen::MatrixXd::Zero(h, std::max(rank, 1)), b = Eigen::MatrixXd::Zero(std::max(rank, 1), w);
            if (rank) for (int x = 0; x < h; ++x) for (int y = 0; y < rank; ++y) if (rng.coin()) a(x, y) = rng.range(-2, 2);
            if (rank) for (int x = 0; x < w; ++x) for (int y = 0; y < rank; ++y) if (rng.coin()) b(y, x) = rng.range(-2, 2);
            m = a * b;
            m.row(0).setZero(); m.col(0).setZero();
            for (int x = 1; x < w; ++x) if (rng.coin(1, 3)) m(0, x) = rng.range(-2, 2);
            if (rng.coin(1, 5)) m /= 3.0;
            m(0, 0) = 1;
            const int wrong = rng.below(12);
            if (wrong == 0) m(0, 0) = 2;
            if (wrong == 1) m(rng.below(h), 0) = -1;
            if (wrong == 2) m(0, 0) = 0;
            DynamicBitset<size_t> skip{static_cast<size_t>(w), false};
            std::vector<long long> sk;
            for (int x = 1; x < w; ++x) if (rng.coin(1, 5)) { skip.set(static_cast<size_t>(x)); sk.push_back(x); }
            const bool in = rng.coin(), out = rng.coin();      // sparse input, sparse core
            J j;
            j.str("e", "core").i("hh", h).i("ww", w).b("in", in).b("out", out).raw("skip", ints(sk)).raw("m", columns(m));
            Eigen::SparseMatrix<double> s = m.sparseView();
            try {
                if (out) { auto c = in ? SparseMapCore{skip, s} : SparseMapCore{skip, m}; core_result(j, c, true, rng); }
                else { auto c = in ? DenseMapCore{skip, s} : DenseMapCore{skip, m}; core_result(j, c, false, rng); }
            } catch (const errors::bad_map&) { j.str("res", "bad"); }
            catch (const std::exception& ex) { j.str("threw", ex.what()); }
            trace().ev(j.done());
        }
        for (int k = 0; k < 4; ++k) {
            J j;
            j.str("e", "empty");
            std::string res;
            auto ask = [&](const std::function<void()>& f) { try { f(); res += "n"; } catch (const errors::bad_map&) { res += "b"; } };
            ask([&] { DenseMapCore c{DynamicBitset<size_t>{0, false}, Eigen::MatrixXd(3, 0)}; });
            ask([&] { DenseMapCore c{DynamicBitset<size_t>{3, false}, Eigen::MatrixXd(0, 3)}; });
            ask([&] { SparseMapCore c{DynamicBitset<size_t>{0, false}, Eigen::SparseMatrix<double>(3, 0)}; });
            ask([&] { SparseMapCore c{DynamicBitset<size_t>{3, false}, Eigen::SparseMatrix<double>(0, 3)}; });
            trace().ev(j.str("res", res).done());
            break;
        }
        trace().flush();
    }
}

int main(int argc, char** argv) {
    Options o = parse(argc, argv);
    install_handlers();
    trace().open(o);
    Rng rng{o.seed * 32452843 + 17};
    const bool th = o.thorough();
    auto want = [&](const char* f) { return o.focus == "all" || o.focus == f; };
    if (want("group")) for (int k = 0; k < (th ? 40 : 8); ++k) group_session("group#" + std::to_string(k), rng, th ? 20 : 12);
    if (want("core")) for (int k = 0; k < (th ? 40 : 8); ++k) core_session("core#" + std::to_string(k), rng, th ? 60 : 40);

    struct Item { Scenario sc; size_t longest; };
    std::vector<Item> v;
    v.push_back({free_scenario(1), 7});
    v.push_back({free_scenario(2), 5});
    v.push_back({free_scenario(3), 3});
    v.push_back({locality_scenario({{2, 2}, {2, 2}}), 4});
    v.push_back({locality_scenario({{2}, {2}}), 7});
    v.push_back({locality_scenario({{3}, {3}}), 4});
    v.push_back({locality_scenario({{2, 2}}), 7});
    v.push_back({locality_scenario({{2}, {2}, {2}}), 6});
    v.push_back({locality_scenario({{2, 3}, {2}}), 4});
    v.push_back({locality_scenario({{4}}), 3});
    v.push_back({inflation_scenario({2, 2}, {{0, 1}}, 1), 4});
    v.push_back({inflation_scenario({2, 2}, {{0, 1}}, 2), 4});
    v.push_back({inflation_scenario({2, 2, 2}, {{0, 1}, {1, 2}}, 1), 4});
    v.push_back({inflation_scenario({2, 2, 2}, {{0, 1}, {1, 2}}, 2), 2});
    v.push_back({pauli_scenario(1), 2});
    v.push_back({pauli_scenario(2), 4});
    v.push_back({pauli_scenario(3), 3});
    v.push_back({pauli_scenario(3, 1, true, true), 3});
    v.push_back({pauli_scenario(2, 1, false, true), 2});
    v.push_back({pauli_scenario(2, 2, true, true), 2});
    for (auto& sc : algebraic_catalogue()) v.push_back({sc, sc.n <= 2 ? 5ul : 3ul});
    v.push_back({algebraic_scenario("anti2f", 3, 0, {{{1, 0}, 2, {0, 1}}}), 3});
    v.push_back({algebraic_scenario("anti2g", 3, 0, {{{1, 0}, 2, {0, 1}}, {{0, 0}, 0, {}}, {{1, 1}, 0, {}}}), 4});
    const int reps = th ? 10 : 3;
    for (auto& it : v)
        for (int r = 0; r < reps; ++r) {
            size_t l = static_cast<size_t>(rng.range(1, static_cast<int>(it.longest)));
            if (r == 0) l = it.longest;
            {
                Session s{it.sc, o, rng, 0};
                while (l > 1 && s.osg(l) > (th ? 130u : 90u)) --l;
                const size_t cap = std::min<size_t>(48, (th ? 3000 : 1400) / s.osg(l));
                if (want("sym")) s.symmetrized(it.sc.name + "#" + std::to_string(r) + "s", l, cap, th ? 14 : 8);
            }
            if (want("direct")) {
                Session s{it.sc, o, rng, 0};
                while (l > 1 && s.osg(l) > 45) --l;
                s.direct(it.sc.name + "#" + std::to_string(r) + "d", l, th ? 10 : 6);
            }
        }
    trace().close();
    return 0;
}
