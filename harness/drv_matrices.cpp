// Drives matrix systems through random sequences of operations and records every matrix, symbol table and dictionary they produce.
#include <csignal>
#include "systems.h"
#include <array>
#include <thread>
#include "matrix/value_matrix.h"
#include "matrix/operator_matrix/localizing_matrix.h"
#include "matrix/operator_matrix/moment_matrix.h"
#include "dictionary/osg_pair.h"
#include "scenarios/pauli/pauli_dictionary.h"
#include "scenarios/pauli/pauli_osg.h"
using namespace vf;

namespace {
    constexpr auto never = MT::Never, always = MT::Always;

    struct Session {
        const Scenario& sc;
        const Options& o;
        Rng& rng;
        std::unique_ptr<MatrixSystem> sys;
        size_t symbols_seen = 0, cap_dim, cap_symbols;
        std::vector<long long> live;          // offsets with a recorded matrix
        std::map<long long, size_t> dims;
        int max_level = 0;
        bool aliased;

        Session(const Scenario& sc, const Options& o, Rng& rng) : sc{sc}, o{o}, rng{rng}, sys{make_system(sc)} {
            cap_dim = o.thorough() ? 20 : 11;
            cap_symbols = o.thorough() ? 700 : 260;
            aliased = sys->Context().can_have_aliases();
            size_t words = 1;
            for (int l = 0; l <= 4; ++l) {
                if (words > 4000) break;
                if (l > 0 && sys->osg_size(l) > cap_dim) break;
                max_level = l;
                words *= sc.n;
            }
        }
        MT mt() { return o.focus == "mt" ? always : rng.coin() ? never : always; }
        // how often each kind of step is taken: moment, localizing, polynomial localizing, raw, multiply, add, add scalar, clone,
        // dictionary, generators, lookups, fetch, find, bases, remove
        std::vector<int> weights() const {  // (padded to all kinds by run)
            if (o.focus == "symbols") return {10, 12, 4, 8, 8, 2, 1, 1, 12, 2, 40, 0, 0, 0, 0};
            if (o.focus == "build")   return {20, 30, 20, 20, 0, 0, 0, 0, 2, 6, 2, 0, 0, 0, 0};
            if (o.focus == "arith")   return {4, 6, 3, 3, 45, 16, 12, 20, 1, 0, 0, 0, 0, 0, 0};
            if (o.focus == "bases")   return {6, 10, 8, 8, 12, 5, 4, 8, 2, 0, 0, 0, 0, 43, 0};
            if (o.focus == "cache")   return {16, 18, 18, 4, 3, 2, 1, 2, 4, 0, 2, 7, 17, 0, 6};
            if (o.focus == "mt")      return {15, 20, 12, 12, 22, 8, 6, 3, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 25};
            //                                                                       nearest-neighbour: moment, localizing, polynomial, raw; (anti)commutators: word, polynomial, raw, find, commute
            if (o.focus == "pauli")   return {3, 4, 3, 3, 6, 2, 1, 1, 2, 1, 2, 1, 2, 4, 1, 8, 12, 9, 8, 20, 14, 12, 10, 6};
            return {12, 15, 8, 8, 15, 6, 5, 3, 4, 4, 8, 2, 2, 7, 1};
        }

        std::string symbols_from(const SymbolTable& t, size_t from) {
            std::string s = "[";
            for (size_t k = from; k < t.size(); ++k) {
                const Symbol& y = t[k];
                if (k > from) s += ",";
                J j;
                j.i("id", y.Id()).b("has", y.has_sequence()).raw("q", y.has_sequence() ? el(y.sequence()) : el(HashedSequence{true}))
                 .raw("cq", y.has_sequence() ? el(y.sequence_conj()) : el(HashedSequence{true}))
                 .b("h", y.is_hermitian()).b("ah", y.is_antihermitian())
                 .i("re", y.basis_key().first).i("im", y.basis_key().second);
                s += j.done();
            }
            return s + "]";
        }
        void sync(bool full = false) {
            const auto& t = sys->Symbols();
            if (!full && t.size() == symbols_seen) return;
            const size_t from = full ? 0 : symbols_seen;
            J j;
            j.str("e", full ? "table" : "sym").i("from", static_cast<long long>(from)).raw("t", symbols_from(t, from));
            std::vector<long long> ir, ri;
            for (size_t k = 0; k < t.Basis.RealSymbolCount(); ++k) ir.push_back(t.Basis.imaginary_from_real(static_cast<ptrdiff_t>(k)));
            for (size_t k = 0; k < t.Basis.ImaginarySymbolCount(); ++k) ri.push_back(t.Basis.real_from_imaginary(static_cast<ptrdiff_t>(k)));
            if (full) j.raw("re", ints(t.Basis.RealSymbols())).raw("im", ints(t.Basis.ImaginarySymbols())).raw("ir", ints(ir)).raw("ri", ints(ri));
            trace().ev(j.done());
            symbols_seen = t.size();
        }
        std::vector<int> word(int maxlen) {
            std::vector<int> w;
            for (int k = rng.below(maxlen + 1); k > 0; --k) w.push_back(rng.below(sc.n));
            return w;
        }
        std::complex<double> weight() {
            static const std::complex<double> c[] = {1.0, 1.0, -1.0, 2.0, {0, 1}, {0, -1}, {1, 1}, {3, -2}, 0.0};
            return c[rng.below(9)];
        }
        OperatorSequence element(int maxlen) { return mk(sys->Context(), word(maxlen), rng.coin(1, 3) ? rng.below(4) : 0); }
        RawPolynomial rawpoly(int maxlen, int terms) {
            RawPolynomial p;
            for (int k = 0; k < terms; ++k) p.emplace_back(element(maxlen), weight());
            return p;
        }
        Polynomial sympoly(int terms) {
            Polynomial::storage_t d;
            const auto& t = sys->Symbols();
            for (int k = 0; k < terms; ++k) {
                const auto id = rng.below(static_cast<int>(std::min<size_t>(t.size(), 12)));
                d.emplace_back(static_cast<symbol_name_t>(id), weight(), rng.coin());
            }
            return sys->polynomial_factory()(std::move(d));
        }

        // Matrices that appeared as a by-product: record them as they are.
        void side(size_t upto) {
            for (size_t k = known_count; k < upto; ++k) {
                J j;
                j.str("e", "mat").str("op", "side").i("off", static_cast<long long>(k));
                describe(j, (*sys)[static_cast<ptrdiff_t>(k)]);
                trace().ev(j.done());
                live.push_back(static_cast<long long>(k));
                dims[static_cast<long long>(k)] = (*sys)[static_cast<ptrdiff_t>(k)].Dimension();
            }
            known_count = upto;
        }
        size_t known_count = 0;

        void record(J& j, long long off, const SymbolicMatrix& m) {
            sync();
            if (static_cast<size_t>(off) >= known_count) {
                side(static_cast<size_t>(off));
                known_count = static_cast<size_t>(off) + 1;
                live.push_back(off);
                dims[off] = m.Dimension();
            }
            j.i("off", off).i("n", static_cast<long long>(sys->size()));
            describe(j, m);
            trace().ev(j.done());
        }
        template<typename F> void attempt(J& j, F f) {
            std::string what;
            try { f(); return; }
            catch (const std::exception& e) { what = e.what(); }
            sync();
            side(sys->size());
            j.str("threw", what).i("off", -1);
            trace().ev(j.done());
        }
        // Several threads ask for matrices at once; then what is in the system is recorded, as if one had made it.
        void burst() {
            struct Ask { int level; bool word; OperatorSequence w; long long off; std::string threw; };
            std::vector<Ask> all;
            for (int k = rng.range(2, 4); k > 0; --k) {
                const bool word = rng.coin(2, 3);
                const int level = rng.below(std::min(max_level, word ? 1 : 2) + 1);
                need(level);
                all.push_back({level, word, word ? element(2) : OperatorSequence::Identity(sys->Context()), -1, ""});
            }
            std::array<std::vector<std::pair<Ask, int>>, 3> plan;      // what, and how: made by one or by many threads, or only if not found
            for (auto& p : plan) for (int k = rng.range(1, 3); k > 0; --k) p.emplace_back(all[static_cast<size_t>(rng.below(static_cast<int>(all.size())))], rng.below(4));
            std::vector<std::thread> threads;
            for (auto& p : plan) threads.emplace_back([this, &p] {
                for (auto& [a, how] : p) {
                    const auto l = static_cast<size_t>(a.level);
                    const MT policy = (how & 1) ? always : never;
                    try {
                        const SymbolicMatrix* m;
                        if (how < 2) {
                            if (a.word) { auto r = sys->LocalizingMatrix.create(LocalizingMatrixIndex{l, a.w}, policy); m = &r.second; }
                            else { auto r = sys->MomentMatrix.create(l, policy); m = &r.second; }
                        } else m = a.word ? static_cast<const SymbolicMatrix*>(&sys->LocalizingMatrix(LocalizingMatrixIndex{l, a.w}, policy)) : &sys->MomentMatrix(l, policy);
                        auto lock = sys->get_read_lock();
                        for (size_t k = 0; k < sys->size() && a.off < 0; ++k) if (&(*sys)[static_cast<ptrdiff_t>(k)] == m) a.off = static_cast<long long>(k);
                    } catch (const std::exception& e) { a.threw = e.what(); }
                }
            });
            for (auto& x : threads) x.join();
            sync();
            const auto tell = [&](const Ask& a, size_t n) {
                J j; j.str("e", "mat").str("op", a.word ? "lm" : "mm").i("level", a.level).b("mt", true);
                if (a.word) j.raw("w", el(a.w));
                if (!a.threw.empty()) { trace().ev(j.str("threw", a.threw).i("off", -1).done()); return; }
                const auto& m = (*sys)[static_cast<ptrdiff_t>(a.off)];
                j.i("off", a.off).i("n", static_cast<long long>(n));
                describe(j, m);
                trace().ev(j.done());
            };
            const size_t before = known_count;
            for (size_t k = before; k < sys->size(); ++k) {
                const Ask* who = nullptr;
                for (auto& p : plan) for (auto& [a, how] : p) if (a.off == static_cast<long long>(k)) who = &a;
                if (who) {
                    tell(*who, k + 1);
                    live.push_back(who->off);
                    dims[who->off] = (*sys)[static_cast<ptrdiff_t>(k)].Dimension();
                    known_count = k + 1;
                } else side(k + 1);
            }
            for (auto& p : plan) for (auto& [a, how] : p) if (a.off >= 0 || !a.threw.empty()) tell(a, sys->size());
        }
        static std::string no_terms() { return "[]"; }

        std::set<int> announced;
        void need(int level) { if (announced.insert(level).second) generators(level); }
        void moment(int level) {
            need(level);
            auto p = mt();
            J j; j.str("e", "mat").str("op", "mm").i("level", level).b("mt", p == always);
            attempt(j, [&] { auto [off, m] = sys->MomentMatrix.create(static_cast<size_t>(level), p); record(j, off, m); });
        }
        void localizing(int level, const OperatorSequence& w) {
            need(level);
            auto p = mt();
            J j; j.str("e", "mat").str("op", "lm").i("level", level).b("mt", p == always).raw("w", el(w));
            attempt(j, [&] { auto [off, m] = sys->LocalizingMatrix.create(LocalizingMatrixIndex{static_cast<size_t>(level), w}, p); record(j, off, m); });
        }
        void poly_localizing(int level, const Polynomial& poly_) {
            need(level);
            auto p = mt();
            J j; j.str("e", "mat").str("op", "plm").i("level", level).b("mt", p == always).raw("sp", poly(poly_));
            attempt(j, [&] {
                PolynomialLocalizingMatrixIndex ix{{static_cast<size_t>(level), Polynomial{poly_}}};
                auto [off, m] = sys->PolynomialLocalizingMatrix.create(ix, p); record(j, off, m); });
        }
        void raw_localizing(int level, const RawPolynomial& poly_) {
            need(level);
            auto p = mt();
            J j; j.str("e", "mat").str("op", "raw").i("level", level).b("mt", p == always).raw("rp", raw_poly(poly_));
            attempt(j, [&] { auto [off, m] = sys->create_and_register_localizing_matrix(static_cast<size_t>(level), poly_, p); record(j, off, m); });
        }
        // ---- Pauli scenarios: nearest neighbours, commutators
        Pauli::PauliMatrixSystem& psys() { return dynamic_cast<Pauli::PauliMatrixSystem&>(*sys); }
        std::set<std::pair<int, int>> announced_nn;
        bool need_nn(int level, int nb) {
            if (nb == 0) { need(level); return true; }
            const auto& pc = dynamic_cast<const Pauli::PauliContext&>(sys->Context());
            Pauli::NearestNeighbourIndex ix{static_cast<size_t>(level), static_cast<size_t>(nb)};
            try {
                const auto& osg = pc.pauli_dictionary().NearestNeighbour(ix);
                if (!announced_nn.insert({level, nb}).second) return osg().size() <= cap_dim;
                trace().ev(J().str("e", "nosg").i("level", level).i("nb", nb)
                    .i("count", static_cast<long long>(pc.pauli_dictionary().WordCount(ix)))
                    .i("size", static_cast<long long>(psys().osg_size(ix)))
                    .raw("fwd", arr(osg(), [](const auto& q) { return el(q); }))
                    .raw("conj", arr(osg.conjugate(), [](const auto& q) { return el(q); })).done());
                return osg().size() <= cap_dim;
            } catch (const std::exception& e) { return false; }
        }
        std::pair<int, int> nn_index() {
            for (int tries = 0; tries < 20; ++tries) {
                const int level = rng.coin(1, 8) ? 0 : rng.coin() ? 1 : rng.range(2, 3), nb = rng.below(3);
                if (nb == 0 && level > max_level) continue;
                if (need_nn(level, nb)) return {level, nb};
            }
            need_nn(0, 0);
            return {0, 0};
        }
        void nn_moment() {
            auto [level, nb] = nn_index();
            auto p = mt();
            J j; j.str("e", "mat").str("op", "mm").i("level", level).i("nb", nb).b("mt", p == always);
            attempt(j, [&] { auto [off, m] = psys().PauliMomentMatrices.create(Pauli::MomentMatrixIndex{static_cast<size_t>(level), static_cast<size_t>(nb)}, p); record(j, off, m); });
        }
        // lm: localizing, cm: commutator, am: anticommutator
        void nn_word(const char* op, const OperatorSequence& w) { nn_word_at(op, w, nn_index(), mt()); }
        void nn_word_at(const char* op, const OperatorSequence& w, std::pair<int, int> ix, MT p) {
            auto [level, nb] = ix;
            const size_t l = level, n = nb;
            J j; j.str("e", "mat").str("op", op).i("level", level).i("nb", nb).b("mt", p == always).raw("w", el(w));
            attempt(j, [&] {
                switch (op[0]) {
                    case 'l': { auto [off, m] = psys().PauliLocalizingMatrices.create(Pauli::LocalizingMatrixIndex{l, n, w}, p); record(j, off, m); break; }
                    case 'c': { auto [off, m] = psys().CommutatorMatrices.create(Pauli::CommutatorMatrixIndex{l, n, w}, p); record(j, off, m); break; }
                    default:  { auto [off, m] = psys().AnticommutatorMatrices.create(Pauli::AnticommutatorMatrixIndex{l, n, w}, p); record(j, off, m); break; }
                } });
        }
        void nn_poly(const char* op, const Polynomial& poly_) {
            auto [level, nb] = nn_index();
            auto p = mt();
            const size_t l = level, n = nb;
            J j; j.str("e", "mat").str("op", op).i("level", level).i("nb", nb).b("mt", p == always).raw("sp", poly(poly_));
            attempt(j, [&] {
                switch (op[1]) {
                    case 'l': { auto [off, m] = psys().PauliPolynomialLocalizingMatrices.create(Pauli::PolynomialLocalizingMatrixIndex{l, n, Polynomial{poly_}}, p); record(j, off, m); break; }
                    case 'c': { auto [off, m] = psys().PolynomialCommutatorMatrices.create(Pauli::PolynomialCommutatorMatrixIndex{l, n, Polynomial{poly_}}, p); record(j, off, m); break; }
                    default:  { auto [off, m] = psys().PolynomialAnticommutatorMatrices.create(Pauli::PolynomialAnticommutatorMatrixIndex{l, n, Polynomial{poly_}}, p); record(j, off, m); break; }
                } });
        }
        void nn_raw(const char* op, const RawPolynomial& poly_) {
            auto [level, nb] = nn_index();
            auto p = mt();
            const Pauli::NearestNeighbourIndex ix{static_cast<size_t>(level), static_cast<size_t>(nb)};
            J j; j.str("e", "mat").str("op", op).i("level", level).i("nb", nb).b("mt", p == always).raw("rp", raw_poly(poly_));
            attempt(j, [&] {
                switch (op[1]) {
                    case 'a': if (op[0] == 'r' && op[2] == 'w') { auto [off, m] = psys().create_and_register_localizing_matrix(ix, poly_, p); record(j, off, m); break; }
                              else { auto [off, m] = psys().create_and_register_anticommutator_matrix(ix, poly_, p); record(j, off, m); break; }
                    default:  { auto [off, m] = psys().create_and_register_commutator_matrix(ix, poly_, p); record(j, off, m); break; }
                } });
        }
        void nn_find() {
            auto [level, nb] = nn_index();
            const size_t l = level, n = nb;
            J j; j.str("e", "find");
            long long off = -1;
            const int kind = rng.below(7);
            if (kind == 0) { j.str("op", "mm"); off = psys().PauliMomentMatrices.find_index(Pauli::MomentMatrixIndex{l, n}); }
            else if (kind <= 3) {
                auto w = similar_word(2);
                j.str("op", kind == 1 ? "lm" : kind == 2 ? "cm" : "am").raw("w", el(w));
                if (kind == 1) off = psys().PauliLocalizingMatrices.find_index(Pauli::LocalizingMatrixIndex{l, n, w});
                else if (kind == 2) off = psys().CommutatorMatrices.find_index(Pauli::CommutatorMatrixIndex{l, n, w});
                else off = psys().AnticommutatorMatrices.find_index(Pauli::AnticommutatorMatrixIndex{l, n, w});
            } else {
                auto q = similar();
                j.str("op", kind == 4 ? "plm" : kind == 5 ? "pcm" : "pam").raw("sp", poly(q));
                if (kind == 4) off = psys().PauliPolynomialLocalizingMatrices.find_index(Pauli::PolynomialLocalizingMatrixIndex{l, n, std::move(q)});
                else if (kind == 5) off = psys().PolynomialCommutatorMatrices.find_index(Pauli::PolynomialCommutatorMatrixIndex{l, n, std::move(q)});
                else off = psys().PolynomialAnticommutatorMatrices.find_index(Pauli::PolynomialAnticommutatorMatrixIndex{l, n, std::move(q)});
            }
            trace().ev(j.i("level", level).i("nb", nb).i("off", off).done());
        }
        // (half) commutators of elements, commutators of polynomials
        void comm() {
            const auto& pc = dynamic_cast<const Pauli::PauliContext&>(sys->Context());
            for (int k = 0; k < 4; ++k) {
                auto a = element(rng.coin() ? 2 : 4), b = element(rng.coin() ? 2 : 4);
                if (rng.coin(1, 12)) a = OperatorSequence::Zero(pc);
                trace().ev(J().str("e", "comm").raw("a", el(a)).raw("b", el(b)).raw("com", el(pc.commutator(a, b))).raw("anti", el(pc.anticommutator(a, b))).done());
            }
            for (int k = 0; k < 2; ++k) {
                auto a = rawpoly(2, rng.below(4)), b = rawpoly(2, rng.below(4));
                trace().ev(J().str("e", "pcomm").raw("a", raw_poly(a)).raw("b", raw_poly(b))
                    .raw("com", raw_poly(pc.commutator(a, b))).raw("anti", raw_poly(pc.anticommutator(a, b))).done());
            }
        }
        void keep(J& j, std::unique_ptr<SymbolicMatrix> m) {
            long long off;
            { auto lock = sys->get_write_lock(); side_unlocked(); off = sys->push_back(lock, std::move(m)); }
            record(j, off, (*sys)[off]);
        }
        void side_unlocked() {}
        void multiply(long long src) {
            const bool pre = rng.coin();
            auto p = mt();
            const auto& m = (*sys)[src];
            J j; j.str("e", "mat").str("op", pre ? "pre" : "post").i("src", src).b("mt", p == always);
            auto& f = sys->polynomial_factory();
            auto& t = sys->Symbols();
            switch (rng.below(4)) {
                case 0: {
                    auto w = element(2); auto c = weight();
                    RawPolynomial rp; rp.emplace_back(w, c);
                    j.raw("rp", raw_poly(rp));
                    attempt(j, [&] { keep(j, pre ? m.pre_multiply(w, c, f, t, p) : m.post_multiply(w, c, f, t, p)); });
                    break; }
                case 1: {
                    auto rp = rawpoly(2, rng.range(1, 3));
                    j.raw("rp", raw_poly(rp));
                    attempt(j, [&] { keep(j, pre ? m.pre_multiply(rp, f, t, p) : m.post_multiply(rp, f, t, p)); });
                    break; }
                case 2: {
                    Monomial mn{static_cast<symbol_name_t>(rng.below(static_cast<int>(std::min<size_t>(t.size(), 12)))), weight(), rng.coin()};
                    j.raw("sp", "[" + mono(mn) + "]");
                    attempt(j, [&] { keep(j, pre ? m.pre_multiply(mn, f, t, p) : m.post_multiply(mn, f, t, p)); });
                    break; }
                default: {
                    auto sp = sympoly(rng.range(1, 3));
                    j.raw("sp", poly(sp));
                    attempt(j, [&] { keep(j, pre ? m.pre_multiply(sp, f, t, p) : m.post_multiply(sp, f, t, p)); });
                }
            }
        }
        void add(long long a, long long b) {
            auto p = mt();
            J j; j.str("e", "mat").str("op", "add").i("src", a).i("rhs", b).b("mt", p == always);
            attempt(j, [&] { keep(j, (*sys)[a].add((*sys)[b], sys->polynomial_factory(), p)); });
        }
        void add_scalar(long long a) {
            auto p = mt();
            auto& t = sys->Symbols();
            J j; j.str("e", "mat").str("op", "addp").i("src", a).b("mt", p == always);
            if (rng.coin()) {
                Monomial mn{static_cast<symbol_name_t>(rng.below(static_cast<int>(std::min<size_t>(t.size(), 12)))), weight(), rng.coin()};
                j.raw("sp", "[" + mono(mn) + "]");
                attempt(j, [&] { keep(j, (*sys)[a].add(mn, sys->polynomial_factory(), p)); });
            } else {
                auto sp = sympoly(rng.range(0, 3));
                j.raw("sp", poly(sp));
                attempt(j, [&] { keep(j, (*sys)[a].add(sp, sys->polynomial_factory(), p)); });
            }
        }
        void clone(long long a) {
            auto p = mt();
            J j; j.str("e", "mat").str("op", "clone").i("src", a).b("mt", p == always);
            attempt(j, [&] { keep(j, (*sys)[a].clone(p)); });
        }
        // a matrix of numbers, real or complex, dense or sparse
        void values() {
            static const int d[] = {0, 0, 0, 1, 1, -1, 2, -3};
            int n = rng.range(1, 3);
            if (!live.empty() && rng.coin()) { const auto x = dims[pick()]; if (x >= 1 && x <= 8) n = static_cast<int>(x); }
            const bool cplx = rng.coin(), sparse = rng.coin();
            const int kind = rng.below(5);           // any, hermitian, antihermitian, zero, almost hermitian
            Eigen::MatrixXcd m = Eigen::MatrixXcd::Zero(n, n);
            for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) {
                const std::complex<double> x{static_cast<double>(d[rng.below(8)]), cplx ? static_cast<double>(d[rng.below(8)]) : 0.0};
                if (kind != 3) m(r, c) = x;
            }
            if (kind == 1 || kind == 4) m = (m + m.adjoint()).eval();
            if (kind == 2) m = (m - m.adjoint()).eval();
            if (kind == 4) m(rng.below(n), rng.below(n)) += 1.0;
            auto& t = sys->Symbols();
            const auto& ctx = sys->Context();
            const double tol = sys->polynomial_factory().zero_tolerance;
            std::vector<std::complex<double>> flat;
            for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) flat.push_back(m(r, c));
            J j; j.str("e", "mat").str("op", "val").b("cplx", cplx).b("sparse", sparse)
                  .raw("vals", arr(flat, [](auto x) { return "[" + std::to_string(std::llround(x.real())) + "," + std::to_string(std::llround(x.imag())) + "]"; }));
            attempt(j, [&] {
                std::unique_ptr<ValueMatrix> v;
                if (cplx && sparse) { Eigen::SparseMatrix<std::complex<double>> sm = m.sparseView(); v = std::make_unique<ValueMatrix>(ctx, t, tol, sm); }
                else if (cplx) v = std::make_unique<ValueMatrix>(ctx, t, tol, m);
                else if (sparse) { Eigen::MatrixXd re = m.real(); Eigen::SparseMatrix<double> sm = re.sparseView(); v = std::make_unique<ValueMatrix>(ctx, t, tol, sm); }
                else { Eigen::MatrixXd re = m.real(); v = std::make_unique<ValueMatrix>(ctx, t, tol, re); }
                j.b("ah", v->AntiHermitian());
                keep(j, std::move(v)); });
        }
        void dictionary(int len) {
            const auto before = sys->Symbols().size();
            const bool grew = sys->generate_dictionary(static_cast<size_t>(len));
            sync();
            J j;
            const auto& osg = sys->Context().dictionary().Level(static_cast<size_t>(len));
            std::vector<long long> ix; std::vector<int> cj;
            sys->Symbols().OSGIndex.update_if_necessary(static_cast<size_t>(len));
            for (size_t k = 0; k < osg().size(); ++k) {
                auto [i, c] = sys->Symbols().OSGIndex(k);
                ix.push_back(i); cj.push_back(c);
            }
            j.str("e", "dict").i("level", len).b("grew", grew).i("before", static_cast<long long>(before)).i("after", static_cast<long long>(sys->Symbols().size())).raw("fwd", arr(osg(), [](const auto& q) { return el(q); })).raw("ix", ints(ix)).raw("cj", ints(cj));
            trace().ev(j.done());
        }
        void generators(int len) {
            const auto& osg = sys->Context().dictionary().Level(static_cast<size_t>(len));
            trace().ev(J().str("e", "osg").i("level", len).i("count", static_cast<long long>(sys->Context().dictionary().WordCount(static_cast<size_t>(len))))
                .i("size", static_cast<long long>(sys->osg_size(static_cast<size_t>(len))))
                .raw("fwd", arr(osg(), [](const auto& q) { return el(q); }))
                .raw("conj", arr(osg.conjugate(), [](const auto& q) { return el(q); })).done());
        }
        void look(const OperatorSequence& q) {
            auto r = sys->Symbols().where(q);
            trace().ev(J().str("e", "look").raw("q", el(q)).i("id", r.found() ? r->Id() : -1).b("conj", r.is_conjugated).b("alias", r.is_aliased).done());
        }
        void remove(long long off) {
            auto lock = sys->get_write_lock();
            const bool ok = sys->delete_matrix(lock, off);
            trace().ev(J().str("e", "del").i("off", off).b("ok", ok).done());
            std::erase(live, off);
            dims.erase(off);
        }
        void fetch(long long off) {
            bool ok = true;
            long long d = 0;
            try { d = static_cast<long long>(sys->get(off).Dimension()); (void) (*sys)[off]; } catch (const errors::missing_component&) { ok = false; }
            trace().ev(J().str("e", "get").i("off", off).b("ok", ok).i("dim", d).done());
        }
        std::vector<Polynomial> asked;             // polynomials that localizing matrices were requested for
        std::vector<OperatorSequence> asked_words;
        // a polynomial like one that was asked for before, with (at most) one thing changed
        Polynomial similar() {
            if (asked.empty()) return sympoly(rng.range(1, 3));
            const auto& p = asked[rng.below(static_cast<int>(asked.size()))];
            Polynomial::storage_t d(p.begin(), p.end());
            if (!d.empty()) {
                auto& t = d[rng.below(static_cast<int>(d.size()))];
                switch (rng.below(6)) {
                    case 0: t.factor += std::complex<double>(0, 1); break;
                    case 1: t.factor -= std::complex<double>(0, 1); break;
                    case 2: t.factor += 1.0; break;
                    case 3: t.factor = std::conj(t.factor); break;
                    case 4: t.conjugated = !t.conjugated; break;
                    default: break;
                }
            }
            return sys->polynomial_factory()(std::move(d));
        }
        OperatorSequence similar_word(int maxlen) {
            if (asked_words.empty() || rng.coin()) return element(maxlen);
            OperatorSequence w = asked_words[rng.below(static_cast<int>(asked_words.size()))];
            switch (rng.below(4)) {
                case 0: return -w;
                case 1: return w.conjugate();
                case 2: return w.zero() ? w : OperatorSequence{w.raw(), sys->Context(), SequenceSignType::Imaginary};
                default: return w;
            }
        }
        void find_poly(int level, const Polynomial& poly_) {
            long long off = sys->PolynomialLocalizingMatrix.find_index(PolynomialLocalizingMatrixIndex{{static_cast<size_t>(level), Polynomial{poly_}}});
            trace().ev(J().str("e", "find").str("op", "plm").i("level", level).raw("sp", poly(poly_)).i("off", off).done());
        }
        void find(int level, const OperatorSequence* w) {
            long long off = w ? sys->LocalizingMatrix.find_index(LocalizingMatrixIndex{static_cast<size_t>(level), *w})
                              : sys->MomentMatrix.find_index(static_cast<size_t>(level));
            J j; j.str("e", "find").str("op", w ? "lm" : "mm").i("level", level).i("off", off);
            if (w) j.raw("w", el(*w));
            trace().ev(j.done());
        }
        long long pick() { return live.empty() ? -1 : live[rng.below(static_cast<int>(live.size()))]; }

        void run(const std::string& name, int steps) {
            trace().begin(name);
            trace().ev(J().str("e", "ctx").raw("c", sc.json).i("size", static_cast<int>(sys->Context().size())).done());
            sync();
            generators(rng.below(max_level + 1));
            if (rng.coin()) { moment(std::min(1, max_level)); }
            if (o.focus == "pauli" && need_nn(1, 1)) {     // every phase of a word, by one thread and by many
                auto w = element(2);
                if (!w.zero()) for (int k = 0; k < 8; ++k) {
                    nn_word_at(rng.coin() ? "am" : "cm", OperatorSequence{w.raw(), sys->Context(), static_cast<SequenceSignType>(k & 3)}, {1, 1}, k < 4 ? always : never);
                }
            }
            const auto wt = weights();
            int total = 0;
            for (int x : wt) total += x;
            for (int k = 0; k < steps; ++k) {
                int x = rng.below(total), kind = 0;
                while (x >= wt[kind]) x -= wt[kind++];
                const bool room = sys->Symbols().size() < cap_symbols;
                const int lv = rng.below(max_level + 1);
                const int lo = rng.below(std::min(max_level, 1) + 1);
                switch (kind) {
                    case 0: if (room || lv < 2) moment(lv); break;
                    case 1: if (room) { auto w = similar_word(3); asked_words.push_back(w); localizing(rng.coin(1, 4) ? lv : lo, w); } break;
                    case 2: if (room) { auto p = rng.coin() ? similar() : sympoly(rng.range(1, 3)); asked.push_back(p); poly_localizing(lo, p); } break;
                    case 3: if (room) raw_localizing(lo, rawpoly(2, rng.range(1, 3))); break;
                    case 4: { auto s = pick(); if (s >= 0 && room && dims[s] <= 8) multiply(s); break; }
                    case 5: {
                        auto s = pick();
                        if (s < 0) break;
                        std::vector<long long> fit;
                        for (auto q : live) if (dims[q] == dims[s]) fit.push_back(q);
                        if (rng.coin(1, 6)) fit = live;
                        add(s, fit[rng.below(static_cast<int>(fit.size()))]);
                        break; }
                    case 6: { auto s = pick(); if (s >= 0) add_scalar(s); break; }
                    case 7: if (rng.coin()) { values(); break; } else { auto s = pick(); if (s >= 0) clone(s); break; }
                    case 8: { int len = rng.below(max_level + 1); size_t c = sys->osg_size(len); if (c < 60) dictionary(len); break; }
                    case 9: generators(rng.below(max_level + 1)); break;
                    case 10: for (int q = 0; q < 5; ++q) look(element(3)); break;
                    case 11: fetch(rng.range(-2, static_cast<int>(sys->size()) + 2)); break;
                    case 12: if (rng.coin(1, 3)) find(lv, nullptr); else if (rng.coin(1, 3)) find_poly(lo, similar()); else { auto w = element(rng.coin() ? 1 : 2); find(lo, &w); } break;
                    case 13: { auto s = pick(); if (s >= 0 && dims[s] <= 7) record_bases((*sys)[s], s); break; }
                    case 15: if (room) nn_moment(); break;
                    case 16: if (room) { auto w = similar_word(3); asked_words.push_back(w); nn_word("lm", w); } break;
                    case 17: if (room) { auto p = rng.coin() ? similar() : sympoly(rng.range(1, 3)); asked.push_back(p); nn_poly("plm", p); } break;
                    case 18: if (room) nn_raw("raw", rawpoly(2, rng.range(1, 3))); break;
                    case 19: if (room) { auto w = similar_word(3); asked_words.push_back(w); nn_word(rng.coin() ? "cm" : "am", w); } break;
                    case 20: if (room) { auto p = rng.coin() ? similar() : sympoly(rng.range(1, 3)); asked.push_back(p); nn_poly(rng.coin() ? "pcm" : "pam", p); } break;
                    case 21: if (room) nn_raw(rng.coin() ? "rcm" : "ram", rawpoly(2, rng.range(1, 3))); break;
                    case 22: nn_find(); break;
                    case 23: comm(); break;
                    case 24: if (room) burst(); break;
                    default: remove(rng.coin(1, 5) ? rng.range(-1, static_cast<int>(sys->size()) + 1) : pick());
                }
            }
            for (int q = 0; q < 8; ++q) look(element(3));
            sync(true);
            trace().flush();
        }
    };
}

int main(int argc, char** argv) {
    Options o = parse(argc, argv);
    install_handlers();
    trace().open(o);
    Rng rng{o.seed * 7919 + 17};
    std::vector<Scenario> v;
    v.push_back(free_scenario(1)); v.push_back(free_scenario(2));
    v.push_back(locality_scenario({{2,2},{2,2}}));
    v.push_back(locality_scenario({{3,2},{2}}));
    v.push_back(locality_scenario({{2},{2},{2}}));
    v.push_back(pauli_scenario(1)); v.push_back(pauli_scenario(2)); v.push_back(pauli_scenario(3));
    v.push_back(pauli_scenario(3, 1, true, true)); v.push_back(pauli_scenario(4, 1, true, true)); v.push_back(pauli_scenario(3, 1, false, true));
    v.push_back(pauli_scenario(2, 2, true, true)); v.push_back(pauli_scenario(2, 2, false, true)); v.push_back(pauli_scenario(2, 3, false, true));
    v.push_back(inflation_scenario({2, 2}, {{0, 1}}, 2));
    v.push_back(inflation_scenario({2, 2, 2}, {{0, 1}, {1, 2}}, 2));
    v.push_back(inflation_scenario({2, 0}, {{0, 1}}, 2));
    v.push_back(inflation_scenario({2, 2}, {{0, 1}}, 1));
    v.push_back(inflation_scenario({3}, {}, 2));
    for (auto& s : algebraic_catalogue()) v.push_back(s);
    v.push_back(algebraic_scenario("anti2free", 3, 0, {{{1,0},2,{0,1}}}));
    v.push_back(algebraic_scenario("icomm", 2, 0, {{{1,0},1,{0,1}}}));
    if (o.focus == "pauli") {
        v.clear();
        for (int n = 1; n <= 4; ++n) v.push_back(pauli_scenario(n));
        v.push_back(pauli_scenario(3, 1, true, false)); v.push_back(pauli_scenario(5, 1, true, false));
        v.push_back(pauli_scenario(3, 1, true, true)); v.push_back(pauli_scenario(4, 1, true, true)); v.push_back(pauli_scenario(5, 1, true, true));
        v.push_back(pauli_scenario(3, 1, false, true)); v.push_back(pauli_scenario(4, 1, false, true));
        v.push_back(pauli_scenario(2, 2)); v.push_back(pauli_scenario(2, 2, true, true)); v.push_back(pauli_scenario(2, 2, false, true));
        v.push_back(pauli_scenario(2, 3, false, true)); v.push_back(pauli_scenario(2, 3, true, false)); v.push_back(pauli_scenario(3, 2, true, true));
    }
    const int reps = o.thorough() ? 16 : 4, steps = o.thorough() ? 40 : 20;
    if (o.focus == "symbols") {     // inflation: do equal moments share a symbol?
        const auto sc = inflation_scenario({2, 2}, {{0, 1}}, 2);
        Session s{sc, o, rng};
        trace().begin("inflation_equal_moments");
        trace().ev(J().str("e", "ctx").raw("c", sc.json).i("size", static_cast<int>(s.sys->Context().size())).done());
        s.sync();
        s.moment(2);
        auto same = [&](const std::vector<int>& a, const std::vector<int>& b) {
            auto p = mk(s.sys->Context(), a), q = mk(s.sys->Context(), b);
            auto x = s.sys->Symbols().where(p), y = s.sys->Symbols().where(q);
            trace().ev(J().str("e", "same").raw("a", el(p)).raw("b", el(q)).i("ida", x.found() ? x->Id() : -1).i("idb", y.found() ? y->Id() : -1).done());
        };
        same({0, 2}, {1, 3}); same({0, 3}, {1, 2}); same({0, 1, 2}, {0, 1, 3}); same({0, 2, 3}, {1, 2, 3});
    }
    for (auto& sc : v) {
        for (int r = 0; r < reps; ++r) {
            std::string name = sc.name + "#" + std::to_string(r);
            if (!o.only.empty() && sc.name != o.only) { Session s{sc, o, rng}; continue; }
            Session s{sc, o, rng};
            if (sc.kind == "algebraic" && !dynamic_cast<Algebraic::AlgebraicContext&>(s.sys->Context()).is_complete()) continue;
            s.run(name, steps);
        }
    }
    trace().close();
    return 0;
}
