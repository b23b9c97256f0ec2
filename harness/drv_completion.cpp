// Drives the operator rulebook: adding rules, completion, completeness tests and reduction of words.
#include <csignal>
#include "common.h"
using namespace vf;
using namespace Moment::Algebraic;

namespace {
    std::string rules_json(const OperatorRulebook& rb) {
        std::vector<std::string> v;
        for (const auto& [h, r] : rb.rules()) {
            int s = r.RHS().zero() ? 4 : static_cast<int>(r.rule_sign());
            std::vector<int> rr(r.RHS().begin(), r.RHS().end());
            v.push_back(J().raw("l", ints(r.LHS().raw())).raw("r", J().i("s", s).raw("w", ints(rr)).done()).done());
        }
        return arr(v, [](const std::string& x) { return x; });
    }
    struct System { std::string name; int raw_n; int mode; std::vector<Rule> rules; };

    void run(const System& sys, Rng& rng, int attempts, int words) {
        auto star = star_table(sys.raw_n, sys.mode);
        int n = static_cast<int>(star.size());
        trace().begin(sys.name);
        trace().ev(J().str("e", "system").i("n", n).raw("star", ints(star)).raw("rules", arr(sys.rules, rule_json)).done());
        auto apc = precontext(sys.raw_n, sys.mode);
        OperatorRulebook rb{apc, {}};
        auto dump = [&](const char* at) { trace().ev(J().str("e", "rules").str("at", at).raw("rules", rules_json(rb)).done()); };
        auto rules = make_rules(apc, sys.rules);
        for (size_t k = 0; k < rules.size(); ++k) rb.add_rule(rules[k]);
        dump("given");
        trace().flush();
        auto test = [&] {
            bool with = rb.is_complete(true), without = rb.is_complete(false);
            trace().ev(J().str("e", "test").b("cc", with).b("nc", without).done());
        };
        auto reductions = [&](int count) {
            for (int t = 0; t < count; ++t) {
                std::vector<int> w;
                for (int k = 0, L = rng.range(0, 6); k < L; ++k) w.push_back(rng.below(n));
                int s = rng.below(4);
                HashedSequence q{ops(w), apc.hasher, static_cast<SequenceSignType>(s)};
                auto a = rb.reduce(q);
                auto b = rb.reduce_via_iteration(q);
                auto c = rb.reduce_via_search(q);
                auto d = q;
                rb.reduce_in_place(d);
                trace().ev(J().str("e", "reduce").raw("in", el(q)).raw("out", el(a)).raw("it", el(b)).raw("se", el(c)).raw("ip", el(d))
                    .b("can", rb.can_reduce(q.raw())).done());
            }
        };
        test();
        reductions(words / 3);
        trace().flush();
        bool done = false;
        if (attempts > 0) {
            done = rb.complete(static_cast<size_t>(attempts));
            dump("completed");
            trace().ev(J().str("e", "complete").b("ok", done).done());
        } else {
            // step by step; give up before words get too long for their hashes
            for (int k = 0; k < 25 && !done; ++k) {
                done = rb.complete(1);
                dump("step");
                trace().ev(J().str("e", "complete").b("ok", done).done());
                trace().flush();
                size_t longest = 0;
                for (const auto& [h, r] : rb.rules()) longest = std::max(longest, r.LHS().size());
                if (longest > 6 || rb.size() > 14) break;
            }
            size_t longest = 0;
            for (const auto& [h, r] : rb.rules()) longest = std::max(longest, r.LHS().size());
            if (longest > 9 || rb.size() > 24) return;
        }
        test();
        reductions(words);
        trace().flush();
        if (done) {
            // a complete rulebook is a fixed point
            bool again = rb.complete(static_cast<size_t>(attempts > 0 ? attempts : 20));
            dump("completed");
            trace().ev(J().str("e", "complete").b("ok", again).done());
        }
    }

    std::vector<System> catalogue() {
        std::vector<System> v;
        v.push_back({"empty", 2, 0, {}});
        v.push_back({"proj2", 2, 0, {{{0,0},0,{0}}, {{1,1},0,{1}}}});
        v.push_back({"chsh", 4, 0, {{{0,0},0,{}}, {{1,1},0,{}}, {{2,2},0,{}}, {{3,3},0,{}}, {{2,0},0,{0,2}}, {{2,1},0,{1,2}}, {{3,0},0,{0,3}}, {{3,1},0,{1,3}}}});
        v.push_back({"anti2sq", 2, 0, {{{1,0},2,{0,1}}, {{0,0},0,{}}, {{1,1},0,{}}}});
        v.push_back({"anti3", 3, 0, {{{1,0},2,{0,1}}, {{2,0},2,{0,2}}, {{2,1},2,{1,2}}, {{0,0},0,{}}, {{1,1},0,{}}, {{2,2},0,{}}}});
        v.push_back({"self_overlap", 2, 0, {{{0,1,0},0,{1}}}});
        v.push_back({"self_overlap2", 2, 0, {{{0,0},0,{1}}}});
        v.push_back({"two_overlaps", 2, 0, {{{0,1,0,1},0,{0}}, {{1,0,1,0},0,{1}}}});
        v.push_back({"two_overlaps2", 2, 1, {{{0,1,0},0,{2}}, {{0,0,1},0,{3}}}});
        v.push_back({"interior", 2, 0, {{{0,1,0},0,{0}}, {{1},4,{}}}});
        v.push_back({"interior2", 3, 0, {{{0,1,0},0,{2}}, {{1},0,{0}}}});
        v.push_back({"cubic", 1, 0, {{{0,0,0},0,{0}}}});
        v.push_back({"cube_id", 1, 1, {{{0,0,0},0,{}}, {{0,1},0,{}}, {{1,0},0,{}}}});
        v.push_back({"s3", 2, 0, {{{0,0},0,{}}, {{1,1},0,{}}, {{1,0,1},0,{0,1,0}}}});
        v.push_back({"s3long", 2, 0, {{{0,0},0,{}}, {{1,1},0,{}}, {{0,1,0,1,0,1},0,{}}}});
        v.push_back({"pauli_i", 3, 0, {{{0,0},0,{}}, {{1,1},0,{}}, {{2,2},0,{}}, {{0,1},1,{2}}, {{1,2},1,{0}}, {{2,0},1,{1}}}});
        v.push_back({"imag_self", 2, 0, {{{0,1},1,{0,1}}}});
        v.push_back({"neg_self", 2, 0, {{{0,1},2,{0,1}}}});
        v.push_back({"nimag_self", 2, 0, {{{1,0},3,{1,0}}}});
        v.push_back({"phase_square", 1, 0, {{{0,0},2,{}}}});
        v.push_back({"phase_square_nc", 1, 1, {{{0,0},2,{}}, {{1,1},2,{}}}});
        v.push_back({"conflict", 2, 0, {{{1,1},0,{0}}, {{1,1},2,{0}}}});
        v.push_back({"conflict_i", 2, 0, {{{1,1},0,{0}}, {{1,1},1,{0}}}});
        v.push_back({"same_lhs", 3, 0, {{{2,2},0,{0}}, {{2,2},0,{1}}}});
        v.push_back({"same_lhs_sign", 3, 0, {{{2,2},2,{0}}, {{2,2},1,{1}}}});
        v.push_back({"same_lhs_rev", 3, 0, {{{2,2},2,{1}}, {{2,2},3,{0}}}});
        v.push_back({"hermitian_i", 2, 0, {{{1,0},1,{0,1}}}});
        v.push_back({"qplane", 2, 1, {{{1,0},1,{0,1}}, {{3,2},3,{2,3}}}});
        v.push_back({"unitary_b", 1, 1, {{{0,1},0,{}}, {{1,0},0,{}}}});
        v.push_back({"fermion", 1, 1, {{{0,0},4,{}}, {{1,1},4,{}}}});
        v.push_back({"grassmann", 2, 0, {{{0,0},4,{}}, {{1,1},4,{}}, {{1,0},2,{0,1}}}});
        v.push_back({"zero_op", 3, 0, {{{1},4,{}}, {{2,1,0},0,{0,1}}}});
        v.push_back({"subst", 3, 0, {{{2},2,{0}}, {{2,1},0,{1,0}}}});
        v.push_back({"idem_prod", 2, 0, {{{0,1,0,1},0,{0,1}}}});
        v.push_back({"braid3", 3, 0, {{{1,0,1},0,{0,1,0}}, {{2,1,2},0,{1,2,1}}, {{2,0},0,{0,2}}, {{0,0},0,{}}, {{1,1},0,{}}, {{2,2},0,{}}}});
        v.push_back({"order4", 2, 0, {{{0,0},0,{}}, {{1,1},0,{}}, {{1,0,1,0},0,{0,1,0,1}}}});
        v.push_back({"order4neg", 2, 0, {{{0,0},0,{}}, {{1,1},0,{}}, {{1,0,1,0},2,{0,1,0,1}}}});
        v.push_back({"dihedral_b", 1, 1, {{{0,0,0,0},0,{}}, {{1,0},0,{}}}});
        v.push_back({"baumslag", 2, 1, {{{1,0},0,{0,1}}}});
        return v;
    }
}

int main(int argc, char** argv) {
    auto o = parse(argc, argv);
    install_handlers();
    trace().open(o);
    Rng rng(o.seed);
    for (auto& s : catalogue()) if (o.only.empty() || o.only == s.name) run(s, rng, 60, o.thorough() ? 90 : 24);
    for (int t = 0, T = o.thorough() ? 1500 : 150; t < T; ++t) {
        System s;
        s.name = "rnd" + std::to_string(t);
        s.raw_n = rng.range(1, 3);
        s.mode = rng.coin(1, 2) ? 0 : rng.range(1, 2);
        if (s.mode != 0) s.raw_n = rng.range(1, 2);
        int n = s.mode == 0 ? s.raw_n : 2 * s.raw_n;
        for (int k = 0, K = rng.range(1, 3); k < K; ++k) {
            Rule r;
            for (int q = 0, L = rng.range(1, 4); q < L; ++q) r.l.push_back(rng.below(n));
            for (int q = 0, L = rng.range(r.l.size() > 1 ? 1 : 0, static_cast<int>(r.l.size())); q < L; ++q) r.r.push_back(rng.below(n));
            r.s = rng.coin(3, 5) ? 0 : (rng.coin(1, 2) ? 2 : rng.below(5));
            if (r.s == 4) r.r.clear();
            if (r.l.size() == r.r.size() && r.l < r.r) std::swap(r.l, r.r);
            s.rules.push_back(r);
        }
        if (!o.only.empty() && o.only != s.name) { continue; }
        run(s, rng, 0, o.thorough() ? 30 : 12);
    }
    trace().close();
    return 0;
}
