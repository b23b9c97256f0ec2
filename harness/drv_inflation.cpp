// Drives inflation systems: factorisation of moments, scalar extension of moment matrices, suggested extensions, products of moments, and rulebooks
// whose rules for factors must reach the products.
#include "ratios.h"
#include "matrix/substituted_matrix.h"
#include "matrix/operator_matrix/moment_matrix.h"
#include "dictionary/operator_sequence_generator.h"
#include "scenarios/inflation/extended_matrix.h"
#include "scenarios/inflation/factor_table.h"
#include "scenarios/inflation/inflation_context.h"
using namespace vf;
using namespace Moment::Inflation;

namespace {
    using C = std::complex<double>;
    constexpr double tolerance = 4096.0;

    struct Book { MomentRulebook* b; std::unique_ptr<MomentRulebook> owned; long long stored = -1; bool live = true, complete = true; };

    struct Session {
        const Scenario& sc;
        const Options& o;
        Rng& rng;
        std::unique_ptr<MatrixSystem> sys;
        InflationMatrixSystem& is;
        std::vector<Book> books;
        size_t seen = 0;
        bool over = false;
        std::vector<size_t> levels;
        size_t max_level, max_mm;

        Session(const Scenario& sc, const Options& o, Rng& rng, int how, size_t max_level, size_t max_mm)
            : sc{sc}, o{o}, rng{rng}, sys{make_system(sc, tolerance, how)}, is{dynamic_cast<InflationMatrixSystem&>(*sys)}, max_level{max_level}, max_mm{max_mm} {}
        SymbolTable& t() { return sys->Symbols(); }
        const FactorTable& f() { return std::as_const(is).Factors(); }
        const PolynomialFactory& fac() { return sys->polynomial_factory(); }
        const InflationContext& ctx() { return is.InflationContext(); }
        int size() { return static_cast<int>(t().size()); }

        void table() {
            if (t().size() == seen) return;
            const size_t old = seen;
            seen = t().size();
            std::string s = "[", fs = "[", idx = "[";
            for (size_t k = 0; k < seen; ++k) {
                const auto& y = t()[static_cast<symbol_name_t>(k)];
                if (k) s += ",";
                s += J().b("h", y.is_hermitian()).b("ah", y.is_antihermitian()).i("re", y.basis_key().first).i("im", y.basis_key().second)
                    .b("has", y.has_sequence()).raw("q", y.has_sequence() ? el(y.sequence()) : el(HashedSequence{true})).done();
            }
            trace().ev(J().str("e", "tab").raw("t", s + "]").i("nre", static_cast<long long>(t().Basis.RealSymbolCount())).i("nim", static_cast<long long>(t().Basis.ImaginarySymbolCount())).done());
            long long k = 0;
            for (const auto& x : f()) {
                if (k) { fs += ","; idx += ","; }
                auto where = f().find_index_by_factors(x.canonical.symbols);
                fs += J().i("id", x.id).raw("bag", ints(x.canonical.symbols)).b("fund", x.fundamental()).i("app", static_cast<long long>(x.appearances))
                    .raw("raw", arr(x.raw.sequences, [](const auto& q) { return el(q); })).raw("can", arr(x.canonical.sequences, [](const auto& q) { return el(q); })).done();
                idx += std::to_string(where ? *where : -1);
                ++k;
            }
            trace().ev(J().str("e", "fac").i("old", static_cast<long long>(old)).raw("f", fs + "]").raw("idx", idx + "]").i("n", static_cast<long long>(f().size())).done());
        }
        void status(J& j, Book& b) {
            j.i("n", static_cast<long long>(b.b->size())).b("empty", b.b->empty()).b("mono", b.b->is_monomial()).b("herm", b.b->is_hermitian()).b("used", b.b->in_use())
             .i("pend", static_cast<long long>(b.b->raw_rule_size())).b("pending", b.b->pending_rules()).raw("rules", arr(*b.b, [](const auto& x) { return J().i("k", x.first).raw("r", rule(x.second)).done(); }));
        }
        // (an exception that comes out of expanding rulebooks leaves the system in an unspecified state)
        template<typename F> void guarded(J& j, F f) {
            try { f(); }
            catch (const Moment::errors::already_in_use&) { j.str("res", "used"); }
            catch (const Moment::errors::invalid_moment_rule&) { j.str("res", "contra"); over = true; }
            catch (const Inflation::errors::unknown_symbol&) { j.str("res", "unknown"); over = true; }
            catch (const std::exception& ex) { j.str("threw", ex.what()); over = true; }
        }
        void report() {     // every stored rulebook
            if (over) return;
            for (size_t k = 0; k < books.size(); ++k) {
                auto& b = books[k];
                if (!b.live || b.stored < 0) continue;
                J j; j.str("e", "state").i("b", static_cast<long long>(k)); status(j, b);
                b.complete = b.b->raw_rule_size() == 0;
                trace().ev(j.done());
            }
        }
        MT mt() { return rng.coin() ? MT::Never : MT::Always; }
        void mm(size_t level) {
            J j; j.str("e", "mm").i("level", static_cast<long long>(level)).i("old", size());
            guarded(j, [&] {
                auto [off, m] = sys->MomentMatrix.create(level, mt());
                j.str("res", "ok").i("dim", static_cast<long long>(m.Dimension()));
                levels.push_back(level);
            });
            table();
            trace().ev(j.done());
            report();
        }
        std::string row_words(size_t level) {
            const auto& g = ctx().operator_sequence_generator(level, false);
            return arr(g, [](const auto& q) { return el(q); });
        }
        symbol_name_t id() { return static_cast<symbol_name_t>(rng.below(10) ? 1 + rng.below(std::min(size() - 1, 8)) : rng.below(size())); }
        symbol_name_t any_id() { return static_cast<symbol_name_t>(rng.below(size())); }
        void ext() {
            const size_t level = levels[rng.below(static_cast<int>(levels.size()))];
            std::vector<symbol_name_t> list;
            std::set<symbol_name_t> asked;
            if (!rng.below(4)) {
                const auto& m = is.MomentMatrix(level);
                asked = is.suggest_extensions(dynamic_cast<const MonomialMatrix&>(m));
                for (auto x : asked) if (list.size() < 5) list.push_back(x);
            }
            if (list.empty()) for (int n = rng.range(0, 3); n > 0; --n) list.push_back(rng.coin() ? id() : any_id());
            if (!rng.below(12)) list.push_back(static_cast<symbol_name_t>(rng.coin() ? size() + rng.below(3) : -1));
            if (t().size() > 160) return;
            extend(level, list);
        }
        void extend(size_t level, const std::vector<symbol_name_t>& list) {
            const bool bad = std::any_of(list.begin(), list.end(), [&](auto x) { return x < 0 || x >= size(); });
            J j; j.str("e", "ext").i("level", static_cast<long long>(level)).raw("list", ints(list)).i("old", size()).b("bad", bad).raw("rows", row_words(level));
            const bool had = is.ExtendedMatrices.contains(ExtendedMatrixIndex{level, std::span<const symbol_name_t>{list}});
            j.b("had", had);
            try {
                guarded(j, [&] {
                    const auto& src = dynamic_cast<const MonomialMatrix&>(is.MomentMatrix(level));
                    std::vector<long long> in, out;
                    for (size_t r = 0; r < src.Dimension(); ++r) for (size_t c = 0; c < src.Dimension(); ++c) in.push_back(src.SymbolMatrix(r, c).id);
                    j.raw("in", ints(in));
                    const auto policy = mt();
                    std::pair<ptrdiff_t, ExtendedMatrix&> p = rng.coin() ? is.ExtendedMatrices.create(ExtendedMatrixIndex{level, std::span<const symbol_name_t>{list}}, policy)
                                                                         : is.ExtendedMatrices.create(ExtendedMatrixIndex{level, std::vector<symbol_name_t>{list}}, policy);
                    auto& m = p.second;
                    bool plain = true;
                    for (size_t r = 0; r < m.Dimension(); ++r) for (size_t c = 0; c < m.Dimension(); ++c) {
                        const auto x = m.SymbolMatrix(r, c);
                        plain = plain && x.factor == 1.0 && !x.conjugated;
                        out.push_back(x.id);
                    }
                    auto& again = is.ExtendedMatrices(ExtendedMatrixIndex{level, std::span<const symbol_name_t>{list}});
                    auto [off2, m2] = is.ExtendedMatrices.create(ExtendedMatrixIndex{level, std::span<const symbol_name_t>{list}}, policy);
                    j.str("res", "ok").i("dim", static_cast<long long>(m.Dimension())).i("orig", static_cast<long long>(m.OriginalDimension)).b("plain", plain).b("herm", m.Hermitian())
                     .raw("out", ints(out)).b("same", &again == &m && &m2 == &m && off2 == p.first && &(*sys)[p.first] == &m && is.ExtendedMatrices.contains(ExtendedMatrixIndex{level, std::span<const symbol_name_t>{list}}))
                     .raw("inc", ints(m.IncludedSymbols())).raw("reb", ints(m.RealBasisIndices())).raw("imb", ints(m.ImaginaryBasisIndices()));
                });
            } catch (...) { j.str("threw", "?"); }
            if (bad && over) over = false;
            table();
            trace().ev(j.done());
            report();
        }
        void suggest() {
            const size_t level = levels[rng.below(static_cast<int>(levels.size()))];
            J j; j.str("e", "sug").i("level", static_cast<long long>(level)).raw("rows", row_words(level));
            guarded(j, [&] {
                const auto& src = dynamic_cast<const MonomialMatrix&>(is.MomentMatrix(level));
                j.raw("inc", ints(src.IncludedSymbols())).raw("out", ints(is.suggest_extensions(src))).str("res", "ok");
            });
            trace().ev(j.done());
        }
        void multiply() {
            std::vector<symbol_name_t> list;
            const bool two = rng.coin();
            // factors of something that exists, or anything
            if (rng.coin()) { const auto& b = f()[static_cast<size_t>(any_id())].canonical.symbols; list.assign(b.begin(), b.end());
                for (size_t k = list.size(); k > 1; --k) std::swap(list[k - 1], list[rng.below(static_cast<int>(k))]);
                if (!rng.below(3)) list.push_back(rng.coin(3, 4) ? 1 : id()); }
            else for (int n = rng.range(1, 3); n > 0; --n) list.push_back(rng.coin() ? id() : any_id());
            while (two && list.size() > 2) list.pop_back();
            while (two && list.size() < 2) list.push_back(id());
            J j; j.str("e", "mul").raw("list", ints(list));
            try { j.i("out", two ? f().try_multiply(list[0], list[1]) : f().try_multiply(list)); }
            catch (const Inflation::errors::unknown_symbol&) { j.i("out", -1); }
            trace().ev(j.done());
        }
        double weight() { static const double c[] = {1, 1, 1, -1, -1, 2, 0.5, -2, 3}; return c[rng.below(9)]; }
        Polynomial make(int n, bool complex = false) {
            Polynomial::storage_t d;
            for (int k = 0; k < n; ++k) d.emplace_back(id(), complex && rng.coin() ? C(0, weight()) : C(weight()), false);
            if (rng.coin(1, 3)) d.emplace_back(1, weight(), false);
            return fac()(std::move(d));
        }
        void poly_multiply() {
            Polynomial a = make(rng.below(3), true), b = make(rng.below(3), true);
            J j; j.str("e", "pmul").raw("a", terms(a)).raw("b", terms(b));
            try { j.raw("out", terms(f().try_multiply(fac(), a, b))).str("res", "ok"); }
            catch (const Inflation::errors::unknown_symbol&) { j.str("res", "unknown"); }
            trace().ev(j.done());
        }

        int pick(bool complete) {
            std::vector<int> v;
            for (size_t k = 0; k < books.size(); ++k) if (books[k].live && (!complete || books[k].complete)) v.push_back(static_cast<int>(k));
            return v.empty() ? -1 : v[rng.below(static_cast<int>(v.size()))];
        }
        void new_book() {
            Book b;
            const bool safe = rng.coin(4, 5);
            b.owned = std::make_unique<MomentRulebook>(*sys, safe);
            b.b = b.owned.get();
            books.push_back(std::move(b));
            trace().ev(J().str("e", "book").i("b", static_cast<int>(books.size()) - 1).b("safe", safe).done());
        }
        symbol_name_t factor() {    // of some product
            for (int n = 0; n < 20; ++n) {
                const auto& b = f()[static_cast<size_t>(any_id())].canonical.symbols;
                if (b.size() > 1) return b[rng.below(static_cast<int>(b.size()))];
            }
            return id();
        }
        void add(int k) {
            auto& b = books[k];
            std::vector<Polynomial> v;
            for (int x = rng.range(1, 2); x > 0; --x) {
                const int kind = rng.below(4);
                if (kind == 0) v.push_back(fac()({Monomial{factor(), 1.0}, Monomial{1, weight()}}));
                else if (kind == 1) v.push_back(fac()({Monomial{factor(), 1.0}, Monomial{rng.coin() ? factor() : id(), weight()}}));
                else if (rng.coin()) v.push_back(fac()({Monomial{id(), 1.0}, Monomial{1, weight()}}));
                else if (rng.coin(1, 3)) v.push_back(fac()({Monomial{id(), 1.0}}));
                else v.push_back(make(2));
            }
            J j; j.str("e", "add").i("b", k).raw("in", arr(v, [](const Polynomial& p) { return terms(p); }));
            guarded(j, [&] { b.b->add_raw_rules(std::move(v)); j.str("res", "ok"); status(j, b); });
            b.complete = b.b->raw_rule_size() == 0;
            trace().ev(j.done());
        }
        void complete(int k) {
            auto& b = books[k];
            const bool was = over;
            J j; j.str("e", "complete").i("b", k);
            guarded(j, [&] { const auto n = b.b->complete(); j.str("res", "ok").i("ret", static_cast<long long>(n)); status(j, b); b.complete = true; });
            if (over && !was && b.stored < 0) { over = false; b.live = false; }
            trace().ev(j.done());
        }
        void store() {
            const int k = pick(false);
            if (k < 0 || books[k].stored >= 0) return;
            auto& b = books[k];
            J j; j.str("e", "store").i("b", k);
            guarded(j, [&] {
                auto [id, ref] = sys->Rulebook.add(std::move(b.owned));
                b.stored = static_cast<long long>(id);
                j.str("res", "ok").i("id", static_cast<long long>(id)).b("same", &ref == b.b); status(j, b);
            });
            b.complete = b.b->raw_rule_size() == 0;
            trace().ev(j.done());
        }
        void combine() {
            int a = pick(true), c = pick(true);
            for (int n = 0; n < 10 && a >= 0 && (books[a].stored < 0 || books[a].b->in_use()); ++n) a = pick(true);
            for (int n = 0; n < 10 && c >= 0 && (c == a || books[c].stored >= 0 || books[c].b->empty()); ++n) c = pick(true);
            if (a < 0 || c < 0 || a == c || books[a].stored < 0 || books[c].stored >= 0) return;
            auto& x = books[a]; auto& y = books[c];
            J j; j.str("e", "combine").i("b", a).i("c", c);
            guarded(j, [&] { sys->Rulebook.merge_in(static_cast<size_t>(x.stored), std::move(*y.b)); j.str("res", "ok"); status(j, x); y.live = false; });
            trace().ev(j.done());
        }
        void reduce(int k) {
            auto& b = books[k];
            Polynomial p = make(rng.range(1, 3));
            if (rng.coin()) p = fac()({Monomial{any_id(), weight()}, Monomial{any_id(), weight()}});
            J j; j.str("e", "red").i("b", k).raw("in", terms(p));
            guarded(j, [&] {
                j.raw("out", terms(b.b->reduce(p)));
                Polynomial q{p};
                j.b("ret", b.b->reduce_in_place(q)).raw("out2", terms(q)).b("match", b.b->match(p).first != b.b->end());
            });
            trace().ev(j.done());
        }
        void substitute() {
            const int k = pick(true);
            if (k < 0 || books[k].stored < 0 || levels.empty()) return;
            auto& b = books[k];
            const auto& srcp = is.MomentMatrix(levels[rng.below(static_cast<int>(levels.size()))]);
            if (srcp.Dimension() > 9) return;
            ptrdiff_t off = -1;
            for (size_t n = 0; n < sys->size(); ++n) if (&(*sys)[n] == &srcp) off = static_cast<ptrdiff_t>(n);
            J j; j.str("e", "sub").i("b", k).i("off", off).b("smono", srcp.is_monomial()).b("sherm", srcp.Hermitian()).raw("in", cells(srcp));
            guarded(j, [&] {
                auto [pos, ref] = sys->SubstitutedMatrix.create(SubstitutedMatrixIndex{off, static_cast<ptrdiff_t>(b.stored)}, mt());
                const SymbolicMatrix* m = &ref;
                j.b("same", &(*sys)[pos] == m).b("kmono", m->is_monomial()).b("kherm", m->Hermitian()).i("dim", static_cast<long long>(m->Dimension())).raw("out", cells(*m)).raw("inc", ints(m->IncludedSymbols()))
                 .raw("reb", ints(m->RealBasisIndices())).raw("imb", ints(m->ImaginaryBasisIndices()));
                const auto* s = dynamic_cast<const SubstitutedMatrix*>(m);
                j.b("src", s && &s->source_matrix == &srcp && &s->rules == b.b).str("res", "ok"); status(j, b);
            });
            trace().ev(j.done());
        }
        void query() {      // names of operators and outcomes
            const auto& obs = ctx().Observables();
            std::vector<OVIndex> ov;
            std::vector<OVOIndex> ovo;
            std::string in = "[";
            for (int n = rng.range(1, 3); n > 0; --n) {
                const int b = rng.below(static_cast<int>(obs.size()));
                const auto& x = obs[b];
                if (!x.projective()) continue;
                const int v = rng.below(static_cast<int>(x.variant_count)), k = rng.below(static_cast<int>(x.outcomes));
                if (in.size() > 1) in += ",";
                in += J().i("o", b).i("v", v).i("k", k).i("gv", ctx().obs_variant_to_index(b, v)).i("op", k + 1 < static_cast<int>(x.outcomes) ? ctx().operator_number(b, v, k) : -1)
                    .i("bo", ctx().index_to_obs_variant(ctx().obs_variant_to_index(b, v)).observable).i("bv", ctx().index_to_obs_variant(ctx().obs_variant_to_index(b, v)).variant).done();
                ov.emplace_back(static_cast<oper_name_t>(b), static_cast<oper_name_t>(v));
                ovo.emplace_back(ov.back(), static_cast<oper_name_t>(k));
            }
            if (ov.empty()) return;
            J j; j.str("e", "query").raw("in", in + "]");
            guarded(j, [&] {
                const auto flat = ctx().flatten_outcome_index(ovo);
                auto back = ctx().unflatten_outcome_index(ov, static_cast<oper_name_t>(flat));
                bool same = back.size() == ovo.size();
                for (size_t k = 0; same && k < back.size(); ++k) same = back[k].observable_variant.observable == ovo[k].observable_variant.observable && back[k].observable_variant.variant == ovo[k].observable_variant.variant && back[k].outcome == ovo[k].outcome;
                j.i("flat", static_cast<long long>(flat)).b("back", same).raw("outs", ints(ctx().outcomes_per_observable(ov))).i("vars", static_cast<long long>(ctx().observable_variant_count()));
                bool thrown = false;
                try { (void) ctx().unflatten_outcome_index(std::vector<OVIndex>{OVIndex{static_cast<oper_name_t>(obs.size()), 0}}, 0); } catch (const Inflation::errors::bad_observable&) { thrown = true; }
                j.b("oob", thrown);
            });
            trace().ev(j.done());
        }

        void parts() {      // of any word
            std::vector<int> w;
            for (int n = rng.range(2, 9); n > 0; --n) w.push_back(rng.below(sc.n));
            auto q = mk(ctx(), w);
            if (q.zero()) return;
            J j; j.str("e", "parts").raw("q", el(q));
            guarded(j, [&] { auto p = ctx().factorize(q); j.raw("p", arr(p, [](const auto& x) { return el(x); })).raw("c", arr(p, [&](const auto& x) { return el(ctx().canonical_moment(x)); })); });
            trace().ev(j.done());
        }

        void begin(const std::string& name) {
            trace().begin(name);
            trace().ev(J().str("e", "ctx").raw("c", sc.json).str("order", fac().name() == "Sort by ID" ? "id" : "hash").done());
            table();
        }
        void run(const std::string& name, int steps) {
            begin(name);
            if (rng.coin(1, 3)) { sys->generate_dictionary(1); table(); }
            mm(rng.coin(1, 4) ? 0 : 1);
            const bool grow = rng.coin();
            for (int n = 0; n < steps && !over; ++n) {
                if (books.size() < 5 && rng.coin(1, 10)) new_book();
                const int k = pick(false);
                const int w = rng.below(32);
                if (w < 2) { if (levels.size() < max_mm) mm(1 + rng.below(static_cast<int>(max_level))); }
                else if (w < 5) { if (grow || n > steps / 2) ext(); }
                else if (w < 7) suggest();
                else if (w < 11) multiply();
                else if (w < 13) poly_multiply();
                else if (w < 14) { if (rng.coin()) query(); else parts(); }
                else if (k < 0) continue;
                else if (w < 18) { if (books[k].b->raw_rule_size() < 3 && books[k].b->size() < 12) add(k); }
                else if (w < 21) complete(k);
                else if (w < 23) store();
                else if (w < 25) combine();
                else if (w < 27) substitute();
                else if (books[k].complete || rng.coin()) reduce(k);
            }
            trace().flush();
        }
    };
}

int main(int argc, char** argv) {
    Options o = parse(argc, argv);
    install_handlers();
    trace().open(o);
    Rng rng{o.seed * 32452843 + 5};
    struct Item { Scenario s; size_t level, count; };
    std::vector<Item> v;
    v.push_back({inflation_scenario({2, 2}, {{0, 1}}, 1), 2, 3});
    v.push_back({inflation_scenario({2, 2}, {{0, 1}}, 2), 2, 3});
    v.push_back({inflation_scenario({2, 2}, {{0, 1}}, 3), 1, 2});
    v.push_back({inflation_scenario({2, 2, 2}, {{0, 1}, {1, 2}}, 1), 2, 3});
    v.push_back({inflation_scenario({2, 2, 2}, {{0, 1}, {1, 2}}, 2), 1, 2});
    v.push_back({inflation_scenario({2, 2, 2}, {{0, 1}, {1, 2}, {0, 2}}, 1), 2, 3});
    v.push_back({inflation_scenario({2, 2, 2}, {{0, 1}, {1, 2}, {0, 2}}, 2), 1, 2});
    v.push_back({inflation_scenario({2, 2}, {}, 1), 2, 3});
    v.push_back({inflation_scenario({3, 2}, {{0, 1}}, 2), 1, 2});
    v.push_back({inflation_scenario({2, 0}, {{0, 1}}, 2), 2, 2});
    v.push_back({inflation_scenario({2, 3, 2}, {{0, 1}}, 2), 1, 2});
    v.push_back({inflation_scenario({2}, {{0}}, 2), 2, 3});
    v.push_back({inflation_scenario({2, 2, 2}, {{0, 1, 2}}, 2), 1, 2});
    const int reps = o.thorough() ? 16 : 4, steps = o.thorough() ? 70 : 50;
    for (auto& it : v)
        for (int r = 0; r < reps; ++r) {
            Session s{it.s, o, rng, r % 3, it.level, it.count};
            s.run(it.s.name + "#" + std::to_string(r), steps);
        }
    std::vector<Scenario> nets;     // larger networks: words only
    nets.push_back(inflation_scenario({2, 2, 2, 2, 2}, {{0, 1}, {1, 2}, {2, 3}, {3, 4}}, 1));
    nets.push_back(inflation_scenario({2, 2, 2, 2, 2, 2}, {{0, 3}, {3, 1}, {1, 4}, {4, 2}, {2, 5}}, 1));
    nets.push_back(inflation_scenario({2, 3, 2, 2}, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}, 2));
    nets.push_back(inflation_scenario({2, 2, 2}, {{0, 1}, {1, 2}, {0, 2}}, 3));
    nets.push_back(inflation_scenario({2, 0, 2, 2}, {{0, 1}, {1, 2}}, 3));
    nets.push_back(inflation_scenario({2, 2, 2, 2}, {{0, 1, 2}, {2, 3}}, 2));
    for (int r = o.thorough() ? 30 : 4; r > 0; --r) {
        const int n = rng.range(3, 6);
        std::vector<int> oc;
        std::vector<std::vector<int>> src;
        for (int k = 0; k < n; ++k) { static const int c[] = {2, 2, 2, 3, 0}; oc.push_back(c[rng.below(5)]); }
        for (int k = rng.below(n + 1); k > 0; --k) { std::set<int> x; for (int j = rng.range(1, 3); j > 0; --j) x.insert(rng.below(n)); src.emplace_back(x.begin(), x.end()); }
        int cost = 0;
        for (int k = 0; k < n; ++k) { int d = 0; for (auto& x : src) d += std::count(x.begin(), x.end(), k); cost = std::max(cost, d); }
        nets.push_back(inflation_scenario(oc, src, cost > 3 ? 1 : rng.range(1, 3)));
    }
    int number = 0;
    for (auto& sc : nets) {
        Session s{sc, o, rng, 0, 0, 0};
        s.begin("net" + std::to_string(number++) + "_" + sc.name);
        for (int n = o.thorough() ? 150 : 60; n > 0; --n) { s.parts(); if (rng.coin(1, 5)) s.query(); }
        trace().flush();
    }
    trace().close();
    return 0;
}
