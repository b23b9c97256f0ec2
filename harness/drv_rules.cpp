// Drives moment rules and rulebooks: orientation, completion, reduction, merging, comparison, substitution into matrices and export to bases.
#include "ratios.h"
#include "matrix/substituted_matrix.h"
#include "symbolic/polynomial_to_basis.h"
#include "symbolic/rules/moment_rulebook_to_basis.h"
using namespace vf;

namespace {
    using C = std::complex<double>;
    constexpr double tolerance = 4096.0;

    struct Book { MomentRulebook* b; std::unique_ptr<MomentRulebook> owned; long long stored = -1; bool live = true, complete = true, odd = false; int rules = 0; };

    struct Session {
        const Scenario& sc;
        const Options& o;
        Rng& rng;
        std::unique_ptr<MatrixSystem> sys;
        std::vector<Book> books;
        std::vector<long long> mats;
        std::vector<symbol_name_t> fav;
        size_t seen = 0;

        Session(const Scenario& sc, const Options& o, Rng& rng, int how) : sc{sc}, o{o}, rng{rng}, sys{make_system(sc, tolerance, how)} {}
        SymbolTable& t() { return sys->Symbols(); }
        const PolynomialFactory& fac() { return sys->polynomial_factory(); }
        void table() {
            if (t().size() == seen) return;
            seen = t().size();
            std::string s = "[";
            for (size_t k = 0; k < seen; ++k) {
                const auto& y = t()[static_cast<symbol_name_t>(k)];
                if (k) s += ",";
                s += J().b("h", y.is_hermitian()).b("ah", y.is_antihermitian()).i("re", y.basis_key().first).i("im", y.basis_key().second)
                    .b("has", y.has_sequence()).raw("q", y.has_sequence() ? el(y.sequence()) : el(HashedSequence{true})).done();
            }
            trace().ev(J().str("e", "tab").raw("t", s + "]").i("nre", static_cast<long long>(t().Basis.RealSymbolCount())).i("nim", static_cast<long long>(t().Basis.ImaginarySymbolCount())).done());
        }
        C weight() {
            static const C c[] = {1.0, 1.0, 1.0, -1.0, -1.0, 2.0, {0, 1}, {0, -1}, {1, 1}, {1, -2}, 0.5, {0, 2}, -2.0};
            return c[rng.below(13)];
        }
        symbol_name_t id() {
            if (!rng.below(8)) return static_cast<symbol_name_t>(1 + rng.below(static_cast<int>(t().size()) - 1));
            return fav[rng.below(static_cast<int>(fav.size()))];
        }
        void put(Polynomial::storage_t& d, symbol_name_t x, bool real) {
            const auto& y = t()[x];
            if (y.is_hermitian()) { d.emplace_back(x, real ? C(weight().real() + (rng.coin() ? 1.0 : -1.0)) : weight(), false); return; }
            if (y.is_antihermitian()) { d.emplace_back(x, real ? C(0, 1) * (1.0 + rng.below(2)) : weight(), false); return; }
            if (real) { const C w = weight(); d.emplace_back(x, w, false); d.emplace_back(x, std::conj(w), true); return; }
            switch (rng.below(7)) {     // X and X*: of equal norm, or not
                case 0: { const C w = weight(); d.emplace_back(x, w, false); d.emplace_back(x, rng.coin() ? w : -w, true); break; }
                case 1: { const C w = weight(); d.emplace_back(x, w, false); d.emplace_back(x, w * C(0, rng.coin() ? 1 : -1), true); break; }
                case 2: { static const C u[] = {{0.6, 0.8}, {-0.6, 0.8}, {0.8, -0.6}, {-0.8, -0.6}}; const C w = rng.coin() ? 5.0 : 1.0; d.emplace_back(x, w, false); d.emplace_back(x, w * u[rng.below(4)], true); break; }
                case 3: { d.emplace_back(x, weight(), false); d.emplace_back(x, weight(), true); break; }
                default: d.emplace_back(x, weight(), rng.coin());
            }
        }
        Polynomial make(int n, bool real = false) {
            Polynomial::storage_t d;
            for (int k = 0; k < n; ++k) put(d, id(), real);
            if (rng.coin(1, 3)) d.emplace_back(1, real ? C(weight().real()) : weight(), false);
            if (rng.coin(1, 12)) { const auto x = id(); d.emplace_back(x, 1.0, false); }
            return fac()(std::move(d));
        }
        Polynomial raw_rule() {
            switch (rng.below(8)) {
                case 0: case 1: { Polynomial::storage_t d; put(d, id(), false); return fac()(std::move(d)); }
                case 2: return make(2, true);
                case 3: return make(3);
                default: return make(2);
            }
        }

        std::vector<int> usable(bool complete) {
            std::vector<int> v;
            for (size_t k = 0; k < books.size(); ++k) if (books[k].live && (!complete || books[k].complete)) v.push_back(static_cast<int>(k));
            return v;
        }
        int pick(bool complete = false) { auto v = usable(complete); return v.empty() ? -1 : v[rng.below(static_cast<int>(v.size()))]; }
        void status(J& j, Book& b) {
            j.i("n", static_cast<long long>(b.b->size())).b("empty", b.b->empty()).b("mono", b.b->is_monomial()).b("herm", b.b->is_hermitian()).b("used", b.b->in_use())
             .i("pend", static_cast<long long>(b.b->raw_rule_size())).b("pending", b.b->pending_rules()).raw("rules", arr(*b.b, [](const auto& x) { return J().i("k", x.first).raw("r", rule(x.second)).done(); }));
        }
        template<typename F> void guarded(J& j, F f) {
            try { f(); }
            catch (const errors::already_in_use&) { j.str("res", "used"); }
            catch (const errors::invalid_moment_rule&) { j.str("res", "contra"); }
            catch (const std::exception& ex) { j.str("threw", ex.what()); }
            trace().ev(j.done());
        }

        void new_book() {
            Book b;
            const bool safe = rng.coin();
            b.owned = std::make_unique<MomentRulebook>(*sys, safe);
            b.b = b.owned.get();
            books.push_back(std::move(b));
            trace().ev(J().str("e", "book").i("b", static_cast<int>(books.size()) - 1).b("safe", safe).done());
        }
        void add(int k) {
            auto& b = books[k];
            J j; j.str("e", "add").i("b", k);
            const int how = rng.below(5);
            if (how == 0) {
                MomentRulebook::raw_map_t m;
                for (int x = rng.range(1, 2); x > 0; --x) { static const double v[] = {0, 1, -1, 0.5, 2, 3}; auto i = id(); if (i > 1 || rng.coin(1, 12)) m[i] = v[rng.below(6)]; }
                j.str("how", "map").raw("in", arr(m, [](const auto& x) { return "[" + term(Monomial{x.first, 1.0}) + "," + term(Monomial{1, -x.second}) + "]"; }));
                guarded(j, [&] { b.b->add_raw_rules(m); j.str("res", "ok"); status(j, b); });
            } else if (how == 1) {
                MomentRulebook::raw_complex_map_t m;
                for (int x = rng.range(1, 2); x > 0; --x) { auto i = id(); if (i > 1) m[i] = rng.coin(1, 4) ? C(0) : weight(); }
                j.str("how", "cmap").raw("in", arr(m, [](const auto& x) { return "[" + term(Monomial{x.first, 1.0}) + "," + term(Monomial{1, -x.second}) + "]"; }));
                guarded(j, [&] { b.b->add_raw_rules(m); j.str("res", "ok"); status(j, b); });
            } else {
                std::vector<Polynomial> v;
                for (int x = how == 2 ? 1 : rng.range(1, 3); x > 0; --x) v.push_back(raw_rule());
                j.str("how", how == 2 ? "one" : "many").raw("in", arr(v, [](const Polynomial& p) { return terms(p); }));
                guarded(j, [&] { if (how == 2) b.b->add_raw_rule(Polynomial{v[0]}); else b.b->add_raw_rules(std::move(v)); j.str("res", "ok"); status(j, b); });
            }
            b.complete = b.b->raw_rule_size() == 0;
        }
        void complete(int k) {
            auto& b = books[k];
            J j; j.str("e", "complete").i("b", k);
            bool contra = true;
            guarded(j, [&] {
                try { const auto n = b.b->complete(); j.str("res", "ok").i("ret", static_cast<long long>(n)); status(j, b); contra = false; b.complete = true; }
                catch (const errors::already_in_use&) { contra = false; throw; } });
            if (contra) b.live = false;
        }
        // parts of a rule as polynomials that are zero
        void single() {
            auto p = raw_rule();
            J j; j.str("e", "rule").raw("in", terms(p)).i("dif", static_cast<int>(MomentRule::get_difficulty(p, tolerance)));
            guarded(j, [&] {
                MomentRule r{fac(), Polynomial{p}};
                j.str("res", "ok").b("triv", r.is_trivial()).raw("rule", rule(r)).raw("back", terms(r.as_polynomial(fac())));
                auto s = r.split();
                if (s && !s->empty()) { const C f = (*s)[0].factor; *s *= C(1.0 / (std::abs(f.real()) > 1e-9 ? f.real() : f.imag())); }    // (up to a real factor)
                j.raw("split", s ? "[" + terms(*s) + "]" : "[]").b("again", r.split().has_value());
                if (r.is_trivial()) return;
                Polynomial q = make(rng.range(1, 3));
                auto m = q.empty() ? Monomial{1} : q[rng.below(static_cast<int>(q.size()))];
                j.raw("q", terms(q)).raw("m", "[" + term(m) + "]").raw("rq", terms(r.reduce(fac(), q))).raw("rm", terms(r.reduce(fac(), m))).b("hit", r.matches(q)).i("hits", static_cast<long long>(r.match_info(q).first));
                if (r.RHS().is_monomial()) { auto x = r.reduce_monomial(t(), m); j.raw("rmm", x.id == 0 ? "[]" : "[" + term(x) + "]"); }
            });
        }
        void inject() {     // an oriented rule for a symbol that no other rule of the book mentions, and which mentions no other such symbol
            const int k = pick(true);
            if (k < 0) return;
            auto& b = books[k];
            std::set<symbol_name_t> lhs, all;
            for (const auto& [i, r] : *b.b) { lhs.insert(i); all.insert(i); for (const auto& m : r.RHS()) all.insert(m.id); }
            symbol_name_t x = id();
            for (int n = 0; n < 10 && (x <= 1 || (all.contains(x) && (lhs.contains(x) ? rng.below(3) : true))); ++n) x = id();
            if (x <= 1 || (all.contains(x) && !lhs.contains(x))) return;
            Polynomial::storage_t d;
            const bool real = rng.coin();
            for (int n = rng.below(3); n > 0; --n) { auto y = id(); if (y != x && !lhs.contains(y) && fac().less(Monomial{y}, Monomial{x})) put(d, y, real); }
            if (rng.coin(1, 3)) d.emplace_back(1, real ? C(weight().real()) : weight(), false);
            Polynomial p = fac()(std::move(d));
            J j; j.str("e", "inject").i("b", k);
            const auto& y = t()[x];
            const bool partial = real && !y.is_hermitian() && !y.is_antihermitian() && p.last_id() < x && rng.coin();
            static const C dirs[] = {1.0, {0, 1}, {M_SQRT1_2, M_SQRT1_2}, {-M_SQRT1_2, M_SQRT1_2}};
            guarded(j, [&] {
                std::optional<MomentRule> mr;
                if (partial) {
                    const int dir = rng.below(4);
                    if (dir >= 2) p *= C(M_SQRT2);
                    mr.emplace(fac(), x, dirs[dir], std::move(p));
                }
                else mr.emplace(x, std::move(p));
                j.raw("rule", rule(*mr));
                const bool out = b.b->inject(std::move(*mr));
                j.str("res", "ok").b("ret", out); status(j, b);
                b.odd = b.odd || !b.b->is_hermitian();
            });
        }
        void reduce(int k) {
            auto& b = books[k];
            Polynomial p = make(rng.range(1, 3));
            if (b.b->size() && rng.coin()) {      // something to replace
                auto it = b.b->begin();
                std::advance(it, rng.below(static_cast<int>(b.b->size())));
                Polynomial::storage_t d(p.begin(), p.end());
                put(d, it->first, false);
                p = fac()(std::move(d));
            }
            J j; j.str("e", "red").i("b", k).raw("in", terms(p));
            guarded(j, [&] {
                j.raw("out", terms(b.b->reduce(p)));
                Polynomial q{p};
                j.b("ret", b.b->reduce_in_place(q)).raw("out2", terms(q)).b("match", b.b->match(p).first != b.b->end());
                if (p.empty()) return;
                auto m = p[rng.below(static_cast<int>(p.size()))];
                j.raw("m", "[" + term(m) + "]").raw("mp", terms(b.b->reduce(m)));
                try { auto x = b.b->reduce_monomial(m); j.str("mm", "ok").raw("mmo", x.id == 0 ? "[]" : "[" + term(x) + "]"); }
                catch (const errors::not_monomial&) { j.str("mm", "not"); }
            });
        }
        // a rulebook that contradicts (or, if far, only disagrees up to a multiple of a symbol with) another
        int opponent(int a) {
            Polynomial p;
            for (const auto& [id, r] : *books[a].b) if (p.empty() || rng.coin()) p = r.as_polynomial(fac());
            fac().append(p, Polynomial{Monomial{rng.coin(2, 3) ? 1 : fav[rng.below(static_cast<int>(fav.size()))], static_cast<double>(rng.range(1, 3))}});
            if (p.empty() || p.last_id() < 2) return -1;
            new_book();
            const int c = static_cast<int>(books.size()) - 1;
            auto& b = books[c];
            J j; j.str("e", "add").i("b", c).str("how", "one").raw("in", "[" + terms(p) + "]");
            guarded(j, [&] { b.b->add_raw_rule(std::move(p)); j.str("res", "ok"); status(j, b); });
            complete(c);
            return b.live ? c : -1;
        }
        void combine() {
            int a = pick(true);
            for (int k = 0; k < 4 && a >= 0 && books[a].b->in_use(); ++k) a = pick(true);
            if (a < 0) return;
            int c = pick(true);
            if (!books[a].odd && !books[a].b->empty() && rng.coin(1, 3)) c = opponent(a);
            if (a < 0 || c < 0 || a == c || books[c].stored >= 0 || books[a].odd || books[c].odd) return;
            auto& x = books[a]; auto& y = books[c];
            const bool storage = x.stored >= 0 && rng.coin();
            J j; j.str("e", "combine").i("b", a).i("c", c).b("st", storage);
            bool gone = true;
            guarded(j, [&] {
                const size_t before = x.b->size();
                try {
                    long long n;
                    if (storage) { sys->Rulebook.merge_in(static_cast<size_t>(x.stored), std::move(*y.b)); n = static_cast<long long>(x.b->size() - before); }
                    else n = static_cast<long long>(x.b->combine_and_complete(std::move(*y.b)));
                    j.str("res", "ok").i("ret", n); status(j, x);
                } catch (const errors::already_in_use&) { gone = false; throw; }
                catch (const errors::invalid_moment_rule&) { status(j, x); throw; }
            });
            if (gone) y.live = false;
        }
        void compare() {
            const int a = pick(true), c = pick(true);
            if (a < 0 || c < 0 || books[a].odd || books[c].odd) return;
            J j; j.str("e", "cmp").i("b", a).i("c", c);
            guarded(j, [&] {
                auto [r, x, y] = books[a].b->compare_rulebooks(*books[c].b);
                const auto* z = books[a].b->first_noncontained_rule(*books[c].b);
                j.str("res", "ok").i("r", static_cast<int>(r)).i("x", x ? x->LHS() : -1).i("y", y ? y->LHS() : -1).i("z", z ? z->LHS() : -1);
            });
        }
        void store() {
            const int k = pick(false);
            if (k < 0 || books[k].stored >= 0) return;
            J j; j.str("e", "store").i("b", k);
            guarded(j, [&] {
                auto [id, ref] = sys->Rulebook.add(std::move(books[k].owned));
                books[k].stored = static_cast<long long>(id);
                bool missing = false;
                try { (void) sys->Rulebook(sys->Rulebook.size()); } catch (const errors::missing_component&) { missing = true; }
                j.str("res", "ok").i("id", static_cast<long long>(id)).b("same", &ref == books[k].b && &sys->Rulebook(id) == books[k].b).b("missing", missing)
                 .i("size", static_cast<long long>(sys->Rulebook.size())).b("has", sys->Rulebook.contains(id)).b("not", sys->Rulebook.contains(id + 1)); status(j, books[k]);
            });
        }
        void matrix() {
            if (mats.size() >= 3) return;
            try {
                if (rng.coin() || mats.empty()) { mats.push_back(sys->MomentMatrix.create(static_cast<size_t>(1)).first); }
                else if (rng.coin()) {
                    std::vector<int> w;
                    for (int x = rng.range(1, 2); x > 0; --x) w.push_back(rng.below(sc.n));
                    mats.push_back(sys->LocalizingMatrix.create(LocalizingMatrixIndex{1u, mk(sys->Context(), w)}).first);
                } else {
                    auto p = make(rng.range(1, 2));
                    for (const auto& m : p) if (!t()[m.id].has_sequence()) return;
                    if (p.empty()) return;
                    mats.push_back(sys->PolynomialLocalizingMatrix.create(PolynomialLocalizingMatrixIndex{{static_cast<size_t>(sc.n > 4 ? 0 : 1), std::move(p)}}).first);
                }
            } catch (const std::exception& ex) { }
            table();
        }
        void substitute() {
            const int k = pick(true);
            if (k < 0) return;
            if (mats.empty() || rng.coin(1, 3)) matrix();
            if (mats.empty()) return;
            auto& b = books[k];
            const auto off = mats[rng.below(static_cast<int>(mats.size()))];
            const bool index = b.stored >= 0 && rng.coin(2, 3);
            const auto& src = (*sys)[off];
            if (src.Dimension() > 8) return;
            J j; j.str("e", "sub").i("b", k).i("off", off).b("index", index).b("smono", src.is_monomial()).b("sherm", src.Hermitian()).raw("in", cells(src));
            guarded(j, [&] {
                const auto mt = rng.coin() ? MT::Never : MT::Always;
                std::unique_ptr<SymbolicMatrix> held;
                const SymbolicMatrix* m;
                if (index) {
                    auto [pos, ref] = sys->SubstitutedMatrix.create(SubstitutedMatrixIndex{static_cast<ptrdiff_t>(off), static_cast<ptrdiff_t>(b.stored)}, mt);
                    auto [pos2, ref2] = sys->SubstitutedMatrix.create(SubstitutedMatrixIndex{static_cast<ptrdiff_t>(off), static_cast<ptrdiff_t>(b.stored)}, mt);
                    m = &ref;
                    j.i("pos", pos).b("same", pos == pos2 && &ref == &ref2 && &(*sys)[pos] == m);
                } else {
                    held = b.b->create_substituted_matrix(t(), src, mt);
                    m = held.get();
                    j.i("pos", -1).b("same", true);
                }
                j.b("kmono", m->is_monomial()).b("kherm", m->Hermitian()).i("dim", static_cast<long long>(m->Dimension())).raw("out", cells(*m)).raw("inc", ints(m->IncludedSymbols()))
                 .raw("reb", ints(m->RealBasisIndices())).raw("imb", ints(m->ImaginaryBasisIndices()));
                const auto* s = dynamic_cast<const SubstitutedMatrix*>(m);
                j.b("src", s && &s->source_matrix == &src && &s->rules == b.b).str("res", "ok"); status(j, b);
            });
        }
        // a matrix that has to stay monomial: refused when a cell would become a polynomial
        void strict() {
            const int k = pick(true);
            if (k < 0 || mats.empty()) return;
            auto& b = books[k];
            const auto* src = dynamic_cast<const MonomialMatrix*>(&(*sys)[mats[rng.below(static_cast<int>(mats.size()))]]);
            if (!src || src->Dimension() > 8) return;
            J j; j.str("e", "strict").i("b", k).i("dim", static_cast<long long>(src->Dimension())).raw("in", cells(*src));
            guarded(j, [&] {
                try {
                    MonomialSubstitutedMatrix m{t(), *b.b, *src, rng.coin() ? MT::Never : MT::Always};
                    j.raw("out", cells(m)).str("res", "ok");
                } catch (const errors::not_monomial&) { j.str("res", "not"); }
            });
        }
        void basis(int k) {
            auto& b = books[k];
            if (b.odd) return;
            const bool rewrite = rng.coin();
            J j; j.str("e", "basis").i("b", k).b("rewrite", rewrite);
            guarded(j, [&] {
                MomentRulebookToBasis f{fac(), rewrite ? MomentRulebookToBasis::ExportMode::Rewrite : MomentRulebookToBasis::ExportMode::Homogeneous};
                auto m = f(*b.b);
                std::string s = "[";
                bool first = true;
                for (int c = 0; c < m.outerSize(); ++c)
                    for (std::decay_t<decltype(m)>::InnerIterator it(m, c); it; ++it) {
                        if (!first) s += ",";
                        first = false;
                        s += "[" + std::to_string(it.row()) + "," + std::to_string(it.col()) + "," + ratio(it.value()) + "]";
                    }
                j.str("res", "ok").raw("m", s + "]").i("rows", m.rows()).i("cols", m.cols());
            });
        }
        void expand(int k) {
            auto& b = books[k];
            const bool on = rng.coin();
            J j; j.str("e", "expand").i("b", k).b("on", on);
            guarded(j, [&] { bool r = false; if (on) r = b.b->enable_expansion(); else b.b->disable_expansion(); j.b("ret", r); });
        }

        void run(const std::string& name, int steps) {
            trace().begin(name);
            const auto& fn = fac().name();
            trace().ev(J().str("e", "ctx").raw("c", sc.json).i("size", static_cast<int>(sys->Context().size())).str("order", fn == "Sort by ID" ? "id" : "hash").done());
            sys->generate_dictionary(sc.n <= 3 ? 2 : 1);
            if (rng.coin()) { (void) t().create(true, true); (void) t().create(rng.coin(), true); (void) t().create(true, true); }
            if (rng.coin(1, 3)) (void) t().create(false, true);
            for (int k = rng.below(3); k > 0; --k) {
                std::vector<int> w;
                for (int x = 2; x > 0; --x) w.push_back(rng.below(sc.n));
                auto q = mk(sys->Context(), w);
                if (!q.zero() && !t().where(q).found()) (void) t().merge_in(std::move(q));
            }
            if (rng.coin()) matrix();
            table();
            const int nf = rng.range(2, 5);
            for (int k = 0; k < nf; ++k) fav.push_back(static_cast<symbol_name_t>(1 + rng.below(static_cast<int>(t().size()) - 1)));
            for (size_t k = 2; k < t().size(); ++k) { const auto& y = t()[static_cast<symbol_name_t>(k)];
                if (y.is_antihermitian() && rng.coin(1, 3)) fav.push_back(static_cast<symbol_name_t>(k));
                if (!y.is_hermitian() && rng.coin(1, 4)) fav.push_back(static_cast<symbol_name_t>(k)); }
            if (fav.size() > 8) fav.resize(8);
            for (int n = 0; n < steps; ++n) {
                if (usable(false).size() < 2 || (books.size() < 8 && rng.coin(1, 12))) new_book();
                const int k = pick();
                auto& b = books[k];
                const int w = rng.below(32);
                if (w < 7) { if (!b.odd && b.b->raw_rule_size() < 4 && b.b->size() < 6) add(k); }
                else if (w < 12) { if (!b.odd) complete(k); }
                else if (w < 15) single();
                else if (w < 17) inject();
                else if (w < 22) { if (b.complete || rng.coin()) reduce(k); }
                else if (w < 24) combine();
                else if (w < 26) compare();
                else if (w < 27) store();
                else if (w < 29) { substitute(); if (rng.coin()) strict(); }
                else if (w < 31) basis(k);
                else expand(k);
            }
            for (size_t k = 0; k < books.size(); ++k) if (books[k].live) { reduce(static_cast<int>(k)); if (!books[k].odd) complete(static_cast<int>(k)); }
            trace().flush();
        }
    };
}

int main(int argc, char** argv) {
    Options o = parse(argc, argv);
    install_handlers();
    trace().open(o);
    Rng rng{o.seed * 15485863 + 11};
    std::vector<Scenario> v;
    v.push_back(free_scenario(1)); v.push_back(free_scenario(2));
    v.push_back(locality_scenario({{2,2},{2,2}})); v.push_back(locality_scenario({{3,2},{2}}));
    v.push_back(pauli_scenario(1)); v.push_back(pauli_scenario(2)); v.push_back(pauli_scenario(3, 1, true, true));
    for (auto& s : algebraic_catalogue()) v.push_back(s);
    v.push_back(algebraic_scenario("anti2free", 3, 0, {{{1,0},2,{0,1}}}));
    v.push_back(algebraic_scenario("icomm", 2, 0, {{{1,0},1,{0,1}}}));
    const int reps = o.thorough() ? 12 : 3, steps = o.thorough() ? 80 : 50;
    for (auto& sc : v)
        for (int r = 0; r < 2 * reps; ++r) {
            Session s{sc, o, rng, r % 3};
            if (sc.kind == "algebraic" && !dynamic_cast<Algebraic::AlgebraicContext&>(s.sys->Context()).is_complete()) continue;
            s.run(sc.name + "#" + std::to_string(r), steps);
        }
    trace().close();
    return 0;
}
