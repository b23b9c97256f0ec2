// Drives the operator-word algebra of every kind of scenario and records what it does.
#include <csignal>
#include "common.h"
#include "symbolic/polynomial.h"
using namespace vf;

namespace {
    std::vector<int> random_word(Rng& r, int n, int len) {
        std::vector<int> w;
        for (int k = 0; k < len; ++k) w.push_back(r.below(n));
        return w;
    }

    struct Calc {
        const Context& c;
        explicit Calc(const Context& c) : c{c} {}
        OperatorSequence make(const std::vector<int>& w, int s) {
            auto q = mk(c, w, s);
            trace().ev(J().str("e", "mk").raw("in", ints(w)).i("s", s).raw("out", el(q)).b("hok", q.zero() ? q.hash() == 0 : q.hash() == c.hash(q.raw())).done());
            return q;
        }
        OperatorSequence mul(const OperatorSequence& a, const OperatorSequence& b) {
            auto q = a * b;
            trace().ev(J().str("e", "mul").raw("a", el(a)).raw("b", el(b)).raw("out", el(q)).b("hok", q.zero() ? q.hash() == 0 : q.hash() == c.hash(q.raw())).done());
            return q;
        }
        void muleq(const OperatorSequence& a, const OperatorSequence& b) {
            auto q = a;
            q *= b;
            trace().ev(J().str("e", "mul").raw("a", el(a)).raw("b", el(b)).raw("out", el(q)).b("hok", q.zero() ? q.hash() == 0 : q.hash() == c.hash(q.raw())).done());
        }
        OperatorSequence conj(const OperatorSequence& a) {
            auto q = a.conjugate();
            trace().ev(J().str("e", "conj").raw("a", el(a)).raw("out", el(q)).b("hok", q.zero() ? q.hash() == 0 : q.hash() == c.hash(q.raw())).done());
            return q;
        }
        OperatorSequence neg(const OperatorSequence& a) {
            auto q = -a;
            auto q2 = -OperatorSequence{a};
            trace().ev(J().str("e", "neg").raw("a", el(a)).raw("out", el(q)).b("hok", q == q2).done());
            return q;
        }
        void cmp(const OperatorSequence& a, const OperatorSequence& b) {
            trace().ev(J().str("e", "cmp").raw("a", el(a)).raw("b", el(b)).b("eq", a == b).b("ne", a != b).b("lt", a < b).b("gt", b < a)
                .i("sn", HashedSequence::compare_same_negation(a, b)).done());
        }
        void herm(const OperatorSequence& a) {
            trace().ev(J().str("e", "herm").raw("a", el(a)).i("t", static_cast<int>(a.hermitian_type())).done());
        }
        void canon(const std::vector<int>& w) {
            auto o = c.get_if_canonical(ops(w));
            trace().ev(J().str("e", "canon").raw("in", ints(w)).b("some", o.has_value()).raw("out", o ? el(*o) : el(c.zero())).done());
        }
        void append(const OperatorSequence& a, const std::vector<int>& w) {
            auto q = a;
            auto s = ops(w);
            q.append(s.begin(), s.end());
            trace().ev(J().str("e", "append").raw("a", el(a)).raw("in", ints(w)).raw("out", el(q)).b("hok", q.zero() ? q.hash() == 0 : q.hash() == c.hash(q.raw())).done());
        }
        void presorted(const OperatorSequence& a) {
            if (a.zero()) return;
            auto q = OperatorSequence{OperatorSequence::ConstructPresortedFlag{}, a.raw(), c, a.get_sign()};
            trace().ev(J().str("e", "presorted").raw("a", el(a)).raw("out", el(q)).b("hok", q.hash() == c.hash(q.raw())).done());
        }
        void simp(const OperatorSequence& a) {
            if (!c.can_have_aliases()) return;
            auto q = c.simplify_as_moment(OperatorSequence{a});
            auto q2 = c.simplify_as_moment(a);
            trace().ev(J().str("e", "simp").raw("a", el(a)).raw("out", el(q)).b("hok", (q.zero() ? q.hash() == 0 : q.hash() == c.hash(q.raw())) && q == q2)
                .b("can", c.can_be_simplified_as_moment(a)).done());
        }
        // poly: list of (element, integer coefficient re, im)
        void pmul(const std::vector<std::pair<OperatorSequence, std::complex<double>>>& a,
                  const std::vector<std::pair<OperatorSequence, std::complex<double>>>& b) {
            RawPolynomial pa, pb;
            for (auto& [q, w] : a) pa.emplace_back(q, w);
            for (auto& [q, w] : b) pb.emplace_back(q, w);
            auto pj = [](const RawPolynomial& p) {
                return arr(p, [](const auto& e) { return J().raw("q", el(e.sequence)).i("re", std::lround(e.weight.real())).i("im", std::lround(e.weight.imag())).done(); });
            };
            auto out = c.multiply(pa, pb);
            auto sum = RawPolynomial::add(pa, pb);
            auto dif = RawPolynomial::subtract(pa, pb);
            trace().ev(J().str("e", "pmul").raw("a", pj(pa)).raw("b", pj(pb)).raw("out", pj(out)).raw("sum", pj(sum)).raw("dif", pj(dif)).done());
        }
    };

    void run_scenario(const Scenario& sc, const Options& o, Rng& rng, int pairs_budget, int random_budget) {
        auto ctx = sc.make();
        if (sc.kind == "algebraic") {
            auto& ac = dynamic_cast<Algebraic::AlgebraicContext&>(*ctx);
            if (!ac.is_complete()) return;      // normal forms are only promised for complete rule sets
        }
        const int events_per_session = 400;
        int part = 0;
        size_t base = 0;
        auto fresh = [&] {
            trace().begin(sc.name + "#" + std::to_string(part++));
            trace().ev(J().str("e", "ctx").raw("c", sc.json).i("size", static_cast<int>(ctx->size())).done());
            base = trace().count;
        };
        auto roll = [&] { if (trace().count - base > static_cast<size_t>(events_per_session)) fresh(); };
        fresh();
        Calc k{*ctx};
        // all short words
        std::vector<OperatorSequence> pool;
        pool.push_back(ctx->zero()); pool.push_back(ctx->identity());
        std::vector<std::vector<int>> words{{}};
        size_t from = 0;
        const int maxlen = sc.n <= 3 ? 4 : (sc.n <= 5 ? 3 : 2);
        size_t cap = o.thorough() ? 4000 : 160;
        for (int len = 1; len <= maxlen; ++len) {
            size_t to = words.size();
            for (size_t q = from; q < to; ++q)
                for (int x = 0; x < sc.n; ++x) { auto w = words[q]; w.push_back(x); words.push_back(w); }
            from = to;
            if (words.size() > cap) break;
        }
        for (size_t q = 0; q < words.size() && q < cap; ++q) {
            roll();
            auto e = k.make(words[q], 0);
            k.canon(words[q]);
            k.conj(e);
            k.herm(e);
            k.simp(e);
            if (std::find(pool.begin(), pool.end(), e) == pool.end()) pool.push_back(e);
        }
        // all products of short elements, within budget
        int done = 0;
        for (size_t a = 0; a < pool.size() && done < pairs_budget; ++a) {
            for (size_t b = 0; b < pool.size() && done < pairs_budget; ++b, ++done) {
                roll();
                size_t ia = a, ib = b;
                if (pool.size() * pool.size() > static_cast<size_t>(pairs_budget)) { ia = rng.below(static_cast<int>(pool.size())); ib = rng.below(static_cast<int>(pool.size())); }
                k.mul(pool[ia], pool[ib]);
                k.cmp(pool[ia], pool[ib]);
            }
        }
        // random expressions with phases, longer words
        std::vector<OperatorSequence> reg(6, ctx->identity());
        for (int t = 0; t < random_budget; ++t) {
            roll();
            size_t i = rng.below(6), j = rng.below(6), d = rng.below(6);
            switch (rng.below(13)) {
                case 0: case 1: reg[d] = k.make(random_word(rng, sc.n, rng.range(0, 9)), rng.below(4)); break;
                case 2: case 3: case 4: {
                    if (reg[i].size() + reg[j].size() > 12) { reg[d] = k.make(random_word(rng, sc.n, rng.range(0, 4)), rng.below(4)); break; }
                    reg[d] = k.mul(reg[i], reg[j]); break;
                }
                case 5: reg[d] = k.conj(reg[i]); break;
                case 6: reg[d] = k.neg(reg[i]); break;
                case 7: k.cmp(reg[i], reg[j]); k.cmp(reg[i], k.neg(reg[i])); break;
                case 8: k.herm(reg[i]); break;
                case 9: if (reg[i].size() + reg[j].size() <= 12) k.muleq(reg[i], reg[j]); break;
                case 10: if (reg[i].size() < 10) k.append(reg[i], random_word(rng, sc.n, rng.range(0, 3))); break;
                case 11: {
                    std::vector<std::pair<OperatorSequence, std::complex<double>>> a, b;
                    for (int q = 0, m = rng.range(0, 3); q < m; ++q) a.emplace_back(mk(*ctx, random_word(rng, sc.n, rng.range(0, 3)), rng.below(4)), std::complex<double>(rng.range(-2, 2), rng.coin(1, 3) ? rng.range(-2, 2) : 0));
                    for (int q = 0, m = rng.range(0, 3); q < m; ++q) b.emplace_back(mk(*ctx, random_word(rng, sc.n, rng.range(0, 3)), rng.below(4)), std::complex<double>(rng.range(-2, 2), rng.coin(1, 3) ? rng.range(-2, 2) : 0));
                    k.pmul(a, b);
                    break;
                }
                case 12: k.simp(reg[i]); k.presorted(reg[i]); k.canon(random_word(rng, sc.n, rng.range(0, 6))); break;
            }
        }
        // long words: longer than the inline storage of a sequence (only where the hash still fits)
        if (sc.n <= 6 && sc.kind != "algebraic") {
            for (int t = 0; t < (sc.kind == "locality" ? 8 : 3); ++t) {
                roll();
                auto w = random_word(rng, sc.n, rng.range(17, 22));
                auto e = k.make(w, rng.below(4));
                k.conj(e); k.presorted(e);
                auto v = random_word(rng, sc.n, rng.range(8, 11)), u = random_word(rng, sc.n, rng.range(8, 11));
                k.mul(k.make(v, 0), k.make(u, rng.below(4)));
            }
        }
    }
}

int main(int argc, char** argv) {
    auto o = parse(argc, argv);
    install_handlers();
    trace().open(o);
    Rng rng(o.seed);
    std::vector<Scenario> all;
    all.push_back(free_scenario(1)); all.push_back(free_scenario(3));
    all.push_back(locality_scenario({{2, 2}, {2, 2}}));
    all.push_back(locality_scenario({{3, 2}, {2}, {3}}));
    all.push_back(locality_scenario({{4}}));
    all.push_back(locality_scenario({{2, 3, 2}}));
    all.push_back(locality_scenario({{2}, {1, 3}, {2, 2}}));
    all.push_back(pauli_scenario(1)); all.push_back(pauli_scenario(2)); all.push_back(pauli_scenario(3)); all.push_back(pauli_scenario(5));
    all.push_back(inflation_scenario({2, 2, 2}, {{0, 1}, {1, 2}, {0, 2}}, 2));
    all.push_back(inflation_scenario({2, 2}, {{0, 1}}, 3));
    all.push_back(inflation_scenario({3, 2}, {{0, 1}}, 2));
    all.push_back(inflation_scenario({2, 0, 3}, {{0, 1}}, 2));
    all.push_back(inflation_scenario({2, 2, 2}, {{0, 1}, {1, 2}}, 1));
    all.push_back(inflation_scenario({0, 2, 2}, {{0, 1}, {0, 2}}, 2));
    for (auto& s : algebraic_catalogue()) all.push_back(s);
    // random scenarios
    for (int t = 0, T = o.thorough() ? 24 : 4; t < T; ++t) {
        std::vector<std::vector<int>> shape;
        for (int p = 0, P = rng.range(1, 3); p < P; ++p) { std::vector<int> m; for (int q = 0, Q = rng.range(1, 3); q < Q; ++q) m.push_back(rng.range(1, 4)); shape.push_back(m); }
        auto s = locality_scenario(shape);
        if (s.n > 0) all.push_back(s);
        std::vector<int> oc; int no = rng.range(1, 3); for (int k = 0; k < no; ++k) oc.push_back(rng.coin(1, 4) ? 0 : rng.range(2, 3));
        std::vector<std::vector<int>> src; for (int k = 0, K = rng.range(1, 2); k < K; ++k) { std::vector<int> q; for (int x = 0; x < no; ++x) if (rng.coin()) q.push_back(x); if (q.empty()) q.push_back(rng.below(no)); src.push_back(q); }
        auto i = inflation_scenario(oc, src, rng.range(1, 3));
        if (i.n <= 30) all.push_back(i);
    }
    for (size_t q = 0; q < all.size(); ++q) {
        if (!o.only.empty() && all[q].name != o.only) continue;
        run_scenario(all[q], o, rng, o.thorough() ? 3000 : 120, o.thorough() ? 3000 : 180);
    }
    trace().close();
    return 0;
}
