// Qubit chains and lattices: nearest-neighbour dictionaries, translations, canonical translates, duplication, site hashes.
#include <csignal>
#include "systems.h"
#include "dictionary/osg_pair.h"
#include "scenarios/pauli/pauli_dictionary.h"
#include "scenarios/pauli/pauli_osg.h"
#include "scenarios/pauli/indices/nearest_neighbour_index.h"
#include "scenarios/pauli/symmetry/lattice_duplicator.h"
#include "scenarios/pauli/symmetry/moment_simplifier.h"
#include "scenarios/pauli/symmetry/moment_simplifier_wrapping.h"
#include "scenarios/pauli/symmetry/moment_simplifier_no_wrapping.h"
#include "scenarios/pauli/symmetry/site_hasher.h"
using namespace vf;
using namespace Moment::Pauli;

namespace {
    std::unique_ptr<PauliContext> context(const Scenario& sc) {
        return std::unique_ptr<PauliContext>(dynamic_cast<PauliContext*>(sc.make().release()));
    }
    void ctx(const Scenario& sc, const PauliContext& c, const std::string& name) {
        trace().begin(name);
        trace().ev(J().str("e", "ctx").raw("c", sc.json).i("size", static_cast<int>(c.size())).done());
    }
    std::string words(const std::vector<OperatorSequence>& v, size_t from = 0) {
        std::string s = "[";
        for (size_t k = from; k < v.size(); ++k) { if (k > from) s += ","; s += ints(v[k].raw()); }
        return s + "]";
    }
    bool plain(const std::vector<OperatorSequence>& v, const Context& c, size_t from = 0) {
        for (size_t k = from; k < v.size(); ++k) {
            if (v[k].zero() || v[k].get_sign() != SequenceSignType::Positive) return false;
            if (v[k].hash() != c.the_hasher().hash(v[k].raw())) return false;
        }
        return true;
    }
    template<typename F> void guarded(J& j, F f) {
        std::string what;
        try { f(); j.b("threw", false); } catch (const std::exception& e) { what = e.what(); j.b("threw", true).str("what", what); }
    }

    // ---------------------------------------------------------------- dictionaries
    double choose(int n, int k) { double r = 1; for (int i = 0; i < k; ++i) r = r * (n - i) / (i + 1); return r; }
    void dictionaries(const Scenario& sc, const Options& o, Rng& rng) {
        auto c = context(sc);
        ctx(sc, *c, "nn_" + sc.name);
        const int q = static_cast<int>(c->qubit_size), lat = c->is_lattice();
        const double cap = o.thorough() ? 20000 : 2500;
        for (int nb = 0; nb <= std::min(q + 1, lat ? 2 : 5); ++nb) {
            for (int lv = 0; lv <= std::min(q + 1, 6); ++lv) {
                double est = 0;
                if (lat && nb == 1) est = lv < 2 ? 0 : q * 2 * 9 + (lv > 2 ? q * 6 * 27 : 0) + (lv > 3 ? q * 81 : 0);
                else for (int m = 0; m <= std::min(lv, q); ++m) est += std::pow(3.0, m) * (nb == 0 || nb >= q ? choose(q, m) : std::min(choose(q, m), q * std::pow(nb, m - 1)));
                if (est > cap) continue;
                const NearestNeighbourIndex ix{static_cast<size_t>(lv), static_cast<size_t>(nb)};
                J j;
                j.str("e", "nn").i("lv", lv).i("nb", nb);
                std::string list = "[]"; long long count = -1, direct = -1; bool ok = true, same = true;
                guarded(j, [&] {
                    const auto& p = c->pauli_dictionary().NearestNeighbour(ix);
                    std::vector<OperatorSequence> v(p().begin(), p().end()), w(p.conjugate().begin(), p.conjugate().end());
                    list = words(v); ok = plain(v, *c) && plain(w, *c) && words(v) == words(w);
                    count = static_cast<long long>(c->pauli_dictionary().WordCount(ix));
                    PauliSequenceGenerator g{*c, ix};
                    direct = static_cast<long long>(std::distance(g.begin(), g.end()));
                    same = (&p == &c->pauli_dictionary().NearestNeighbour(ix));
                });
                j.b("ok", ok).b("same", same).i("count", count).i("direct", direct).raw("words", list);
                trace().ev(j.done());
            }
        }
        trace().flush();
    }

    // ---------------------------------------------------------------- duplication
    void duplicate(const Scenario& sc, const Options& o, Rng& rng) {
        auto c = context(sc);
        ctx(sc, *c, "dup_" + sc.name);
        const int q = static_cast<int>(c->qubit_size);
        auto fill = [&](std::vector<size_t> sites, int kind) {  // 0 permutation, 1 symmetric, 2 symmetric (sites in any order), 3 without wrapping
            if (kind == 2 && sc.json.find("\"wrap\":true") == std::string::npos) kind = 1;
            if (kind == 2) for (size_t k = sites.size(); k > 1; --k) std::swap(sites[k - 1], sites[rng.below(static_cast<int>(k))]);
            std::vector<OperatorSequence> out;
            out.emplace_back(OperatorSequence::Identity(*c));       // must be left alone
            LatticeDuplicator ld{*c, out};
            J j;
            j.str("e", "fill").str("kind", kind == 0 ? "perm" : kind == 3 ? "flat" : "sym").raw("sites", ints(sites));
            std::pair<size_t, size_t> r{0, 0};
            guarded(j, [&] {
                if (kind == 0) r = ld.permutation_fill(sites);
                else if (kind == 3) r = ld.wrapless_symmetrical_fill(sites);
                else r = ld.symmetrical_fill(sites, true);
            });
            j.b("ok", plain(out, *c) && out[0].empty()).i("lo", static_cast<long long>(r.first)).i("hi", static_cast<long long>(r.second)).raw("words", words(out, 1));
            trace().ev(j.done());
        };
        if (c->wrap == WrapType::Wrap && c->translational_symmetry != SymmetryType::None)
            for (int a = 0; a < q; ++a) for (int b = a; b < q; ++b) { if (a == b) fill({static_cast<size_t>(a)}, 1); else { fill({static_cast<size_t>(a), static_cast<size_t>(b)}, 1); if (q <= 8) fill({static_cast<size_t>(a), static_cast<size_t>(b)}, 2); } }
        for (int t = 0, T = o.thorough() ? 60 : 12; t < T; ++t) {
            std::set<int> pick;
            for (int k = rng.range(1, std::min(q, 4)); k > 0; --k) pick.insert(rng.below(q));
            fill(std::vector<size_t>(pick.begin(), pick.end()), rng.below(4));
        }
        // symmetrized polynomials; weights are chosen so that averages stay whole numbers
        for (int t = 0, T = o.thorough() ? 40 : 10; t < T; ++t) {
            RawPolynomial p;
            const int span = rng.coin() ? c->size() : std::min<int>(static_cast<int>(c->size()), 6);
            for (int k = rng.range(1, 3); k > 0; --k) {
                std::vector<int> w;
                for (int m = rng.below(4); m > 0; --m) w.push_back(rng.below(span));
                p.emplace_back(mk(*c, w, rng.coin(1, 3) ? rng.below(4) : 0), std::complex<double>(5040.0 * rng.range(-3, 3), 5040.0 * rng.below(2)));
            }
            J j;
            j.str("e", "copy").raw("in", raw_poly(p));
            std::string out = "[]";
            guarded(j, [&] { out = raw_poly(LatticeDuplicator::symmetrical_copy(*c, p)); });
            j.raw("out", out);
            trace().ev(j.done());
        }
        trace().flush();
    }

    // ---------------------------------------------------------------- translations
    std::vector<int> random_word(Rng& rng, int qubits, int n) {
        std::set<int> s;
        // sometimes periodic or packed at the edges, where translates coincide or cross a boundary
        const int mode = rng.below(4);
        for (int k = 0; k < n; ++k)
            s.insert(mode == 0 ? rng.below(qubits) : mode == 1 ? (qubits - 1 - rng.below(std::min(qubits, n + 1)))
                     : mode == 2 ? (k * std::max(1, qubits / std::max(n, 1))) % qubits : rng.below(std::min(qubits, 2 * n)));
        std::vector<int> w;
        const int l = rng.below(3);
        const bool uniform = rng.coin(1, 3);
        for (int q : s) w.push_back(3 * q + (uniform ? l : rng.below(3)));
        return w;
    }
    void translations(const Scenario& sc, const Options& o, Rng& rng, int rows, int cols, bool wrap) {
        auto c = context(sc);
        ctx(sc, *c, "tr_" + sc.name);
        const int q = rows * cols;
        auto ms = MomentSimplifier::make(*c);
        for (int t = 0, T = o.thorough() ? 40 : 9; t < T; ++t) {
            const auto w = random_word(rng, q, rng.below(std::min(q, 7) + 1));
            const auto s = ops(w);
            // translates of one word: one representative
            std::vector<sequence_storage_t> forms{s};
            J j;
            j.str("e", "orb").raw("w", ints(w));
            std::vector<std::pair<int, int>> by;
            auto valid = [&](int dr, int dc) {
                if (wrap) return true;
                for (int x : w) { int r = (x / 3) % rows + dr, k = (x / 3) / rows + dc; if (r < 0 || r >= rows || k < 0 || k >= cols) return false; }
                return true;
            };
            for (int k = 0; k < 6; ++k) {
                int dr = rng.range(-rows + 1, rows - 1), dc = rng.range(-cols + 1, cols - 1);
                if (!valid(dr, dc)) continue;
                auto f = cols > 1 ? ms->lattice_offset(s, dr, dc) : ms->chain_offset(s, dr);
                trace().ev(J().str("e", "shift").raw("w", ints(w)).i("dr", dr).i("dc", dc).raw("out", ints(f)).done());
                // only trust shifts that are words
                bool sorted = std::is_sorted(f.begin(), f.end()) && f.size() == s.size();
                for (auto x : f) sorted = sorted && x >= 0 && x < 3 * q;
                if (sorted) forms.push_back(f);
            }
            std::string list = "[";
            for (size_t k = 0; k < forms.size(); ++k) {
                auto canon = ms->canonical_sequence(forms[k]);
                if (k) list += ",";
                list += J().raw("w", ints(forms[k])).raw("out", ints(canon)).b("is", ms->is_canonical(forms[k])).b("isc", ms->is_canonical(canon)).done();
            }
            j.raw("f", list + "]");
            trace().ev(j.done());
        }
        trace().flush();
    }

    // ---------------------------------------------------------------- site hashes
    template<size_t N> void hashes(const Options& o, Rng& rng, int rows, int cols) {
        SiteHasher<N> h{static_cast<size_t>(rows), static_cast<size_t>(cols)};
        const int q = rows * cols;
        const std::string name = "sh_" + std::to_string(N) + "_" + std::to_string(rows) + "x" + std::to_string(cols);
        trace().begin(name);
        trace().ev(J().str("e", "ctx").raw("c", J().str("kind", "pauli").i("n", 3 * q).i("qubits", q).i("rows", rows).i("cols", cols)
                      .b("wrap", true).b("sym", true).done()).i("size", 3 * q).done());
        auto word = [&](const auto& d) { return ints(h.unhash(d)); };
        auto digits = [&](uint64_t v) { std::vector<int> d; for (int k = 0; k < rows; ++k) { d.push_back(static_cast<int>(v & 3)); v >>= 2; } if (v) d.push_back(static_cast<int>(v & 3)); return ints(d); };
        for (int t = 0, T = o.thorough() ? 40 : 8; t < T; ++t) {
            auto a = random_word(rng, q, rng.below(std::min(q, 8) + 1)), b = random_word(rng, q, rng.below(std::min(q, 8) + 1));
            if (rng.coin(1, 3) && !a.empty()) { b = a; int& x = b[rng.below(static_cast<int>(b.size()))]; x = 3 * (x / 3) + rng.below(3); }
            const auto ha = h.hash(ops(a)), hb = h.hash(ops(b));
            J j;
            j.str("e", "hash").raw("a", ints(a)).raw("b", ints(b)).raw("un", word(ha)).b("eq", ha == hb).b("lt", h.less(ha, hb)).b("gt", h.less(hb, ha))
             .b("empty", ha == h.empty_hash());
            j.i("alias", static_cast<long long>(h.first_chain_alias(ha)));
            std::string sh = "[";
            for (int k = 0; k < 5; ++k) {
                const int by = k == 0 ? rng.below(3 * q) : rng.below(q + 1);
                const int r = rows <= 32 ? rng.below(rows + 2) : 0, cc = rng.below(cols + 2);
                if (k) sh += ",";
                sh += J().i("by", by).i("dr", r).i("dc", cc).raw("cyc", word(h.cyclic_shift(ha, by))).raw("row", word(rows <= 32 ? h.row_cyclic_shift(ha, r) : ha))
                         .raw("col", word(h.col_shift(ha, cc))).raw("lat", word(rows <= 32 ? h.lattice_shift(ha, r, cc) : ha)).done();
            }
            j.raw("sh", sh + "]");
            const int col = rng.below(cols);
            j.i("col", col).raw("cv", digits(h.extract_column(ha, col)));
            auto [first, second] = h.canonical_hash(ops(a));
            j.raw("can", word(first)).b("same", second == ha);
            trace().ev(j.done());
        }
        trace().flush();
    }
}

int main(int argc, char** argv) {
    Options o = parse(argc, argv);
    install_handlers();
    trace().open(o);
    Rng rng{o.seed * 104729 + 5};
    const bool all = o.focus == "all";
    struct Shape { int r, c; bool w, s; };
    std::vector<Shape> shapes;
    for (int w = 0; w < 2; ++w) for (int s = 0; s < 2; ++s) {
        for (int n = 1; n <= (o.thorough() ? 8 : 6); ++n) shapes.push_back({n, 1, w == 1, s == 1});
        for (auto [r, c] : {std::pair{2,2}, {2,3}, {3,2}, {3,3}, {1,4}, {2,4}, {4,2}, {4,3}, {3,4}, {2,6}, {6,2}}) shapes.push_back({r, c, w == 1, s == 1});
        if (o.thorough()) for (auto [r, c] : {std::pair{4,4}, {5,3}, {1,3}, {1,2}, {2,5}, {5,2}}) shapes.push_back({r, c, w == 1, s == 1});
    }
    if (all || o.focus == "nn") for (const auto& s : shapes) dictionaries(pauli_scenario(s.r, s.c, s.w, s.s), o, rng);
    if (all || o.focus == "sym") {
        for (const auto& s : shapes) duplicate(pauli_scenario(s.r, s.c, s.w, s.s), o, rng);
        for (const auto& s : shapes) if (s.s) translations(pauli_scenario(s.r, s.c, s.w, s.s), o, rng, s.r, s.c, s.w);
        std::vector<std::pair<int, int>> big{{31,1}, {32,1}, {33,1}, {40,1}, {63,1}, {64,1}, {65,1}, {80,1}, {96,1}, {97,1}, {128,1}, {200,1}, {256,1},
            {5,6}, {6,5}, {4,8}, {8,4}, {16,2}, {2,16}, {6,6}, {5,7}, {7,5}, {9,4}, {4,9}, {12,3}, {3,12}, {8,8}, {16,4}, {4,16}, {32,2}, {2,32}, {20,3}, {17,3},
            {9,8}, {8,9}, {7,10}, {10,7}, {5,13}, {13,5}, {3,22}, {22,3}, {10,10}, {16,6}, {6,16}, {11,12}, {32,3}, {31,3}, {3,31}, {16,16}, {15,17}, {24,5}};
        for (auto [r, c] : big) for (int w = 0; w < 2; ++w) translations(pauli_scenario(r, c, w == 1, true), o, rng, r, c, w == 1);
        hashes<1>(o, rng, 5, 1); hashes<1>(o, rng, 32, 1); hashes<1>(o, rng, 31, 1); hashes<1>(o, rng, 4, 8); hashes<1>(o, rng, 5, 6); hashes<1>(o, rng, 2, 3); hashes<1>(o, rng, 3, 2);
        hashes<1>(o, rng, 16, 2); hashes<1>(o, rng, 2, 16); hashes<1>(o, rng, 1, 7);
        hashes<2>(o, rng, 33, 1); hashes<2>(o, rng, 64, 1); hashes<2>(o, rng, 6, 6); hashes<2>(o, rng, 8, 8); hashes<2>(o, rng, 5, 9); hashes<2>(o, rng, 9, 5); hashes<2>(o, rng, 16, 4); hashes<2>(o, rng, 4, 16);
        hashes<2>(o, rng, 20, 3); hashes<2>(o, rng, 3, 20); hashes<2>(o, rng, 32, 2); hashes<2>(o, rng, 31, 2); hashes<2>(o, rng, 7, 8);
        hashes<3>(o, rng, 65, 1); hashes<3>(o, rng, 96, 1); hashes<3>(o, rng, 9, 8); hashes<3>(o, rng, 8, 9); hashes<3>(o, rng, 32, 3); hashes<3>(o, rng, 24, 4); hashes<3>(o, rng, 5, 17); hashes<3>(o, rng, 17, 5);
        hashes<4>(o, rng, 100, 1); hashes<4>(o, rng, 16, 8); hashes<4>(o, rng, 11, 11); hashes<4>(o, rng, 8, 16); hashes<8>(o, rng, 16, 16); hashes<8>(o, rng, 15, 17); hashes<8>(o, rng, 256, 1);
    }
    trace().close();
    return 0;
}
