// Drives the containers and enumerations everything else is built on, and records what they hold and list.
#include <csignal>
#include <array>
#include <map>
#include "common.h"
#include <Eigen/Core>
#include <Eigen/SparseCore>
#include "shortlex_hasher.h"
#include "multithreading/queue.h"
#include "tensor/index_flattener.h"
#include "tensor/multi_dimensional_index_iterator.h"
#include "tensor/multi_dimensional_offset_index_iterator.h"
#include "tensor/square_matrix.h"
#include "tensor/tensor.h"
#include "utilities/combinations.h"
#include "utilities/dynamic_bitset.h"
#include "utilities/first_intersection_index.h"
#include "utilities/index_tree.h"
#include "utilities/ipow.h"
#include "utilities/kronecker_power.h"
#include "utilities/linear_map_merge.h"
#include "utilities/multi_partition.h"
#include "utilities/ordered_permutation.h"
#include "utilities/persistent_storage.h"
#include "utilities/recursive_index.h"
#include "utilities/set_to_vector.h"
#include "utilities/shift_sorter.h"
#include "utilities/small_vector.h"
#include "utilities/substring_hasher.h"
#include "utilities/triangular_index_iterator.h"
#include "utilities/utf_conversion.h"
#include "utilities/variable_chunk_range.h"
using namespace vf;

namespace {
    template<typename C> std::string lists(const C& c) { return arr(c, [](const auto& x) { return ints(x); }); }
    std::string bools(const std::vector<bool>& v) { return arr(v, [](bool b) { return std::string(b ? "true" : "false"); }); }
    void put(J& j) { trace().ev(j.done()); }

    // ------------------------------------------------------------------------------------------ small vectors
    template<size_t N>
    void vectors(Rng& rng, int steps) {
        using V = SmallVector<int, N>;
        std::array<V, 3> v;
        { J j; j.str("e", "vecs"); put(j); }
        for (int s = 0; s < steps; ++s) {
            const int a = rng.below(3), b = (a + 1 + rng.below(2)) % 3;
            auto& x = v[static_cast<size_t>(a)];
            auto& y = v[static_cast<size_t>(b)];
            std::vector<int> in;
            for (int k = rng.below(rng.coin(1, 4) ? 12 : 4); k > 0; --k) in.push_back(rng.below(100));
            int lo = rng.below(static_cast<int>(x.size()) + 1), hi = rng.below(static_cast<int>(x.size()) + 1);
            if (lo > hi) std::swap(lo, hi);
            std::string op;
            switch (rng.below(18)) {
                case 0: case 1: case 2: op = "push"; in.assign(1, rng.below(100)); x.push_back(in[0]); break;
                case 3: case 4: op = "push"; in.assign(1, rng.below(100)); x.emplace_back(in[0]); break;
                case 5: if (x.empty()) continue; op = "pop"; x.pop_back(); break;
                case 6: case 7: case 8: op = "insert"; x.insert(x.begin() + lo, in.begin(), in.end()); break;
                case 9: op = "erase"; x.erase(x.begin() + lo, x.begin() + hi); break;
                case 10: if (rng.coin()) { op = "clear"; x.clear(); } else { op = "reserve"; x.reserve(static_cast<size_t>(rng.below(12))); } break;
                case 11: op = "new"; { V t(in.begin(), in.end()); x = t; } break;
                case 12: op = "fill"; lo = rng.below(9); in.assign(1, rng.below(100)); { V t(static_cast<size_t>(lo), in[0]); x = std::move(t); } break;
                case 13: op = "copy"; if (rng.coin()) { x = y; } else { V t{y}; x = std::move(t); } break;
                case 14: op = "move"; if (rng.coin()) { x = std::move(y); } else { V t{std::move(y)}; x = t; } { V t(in.begin(), in.end()); if (rng.coin()) y = t; else y = std::move(t); } break;
                case 15: op = "swap"; if (rng.coin()) x.swap(y); else swap(x, y); break;
                case 16: op = "set"; if (x.empty()) continue; lo = rng.below(static_cast<int>(x.size())); in.assign(1, rng.below(100)); x[static_cast<size_t>(lo)] = in[0]; break;
                default: op = "same"; { auto& z = x; x = z; } break;
            }
            std::vector<int> rev, sp;
            for (auto it = x.rbegin(); !(it == x.rend()) && rev.size() < 1000; ++it) rev.push_back(*it);
            const V& cx = x;
            const std::span<const int> span = cx;
            for (size_t k = 0; k < cx.size(); ++k) sp.push_back(cx[k]);
            J j; j.str("e", "vec").str("op", op).i("a", a + 1).i("b", b + 1).i("lo", lo).i("hi", hi).raw("x", ints(in)).raw("all", lists(v))
                  .raw("rev", ints(rev)).raw("at", ints(sp)).raw("span", ints(span)).b("empty", cx.empty()).i("size", static_cast<int>(cx.size()))
                  .b("room", cx.capacity() >= cx.size()).raw("ends", x.empty() ? "[]" : ints(std::vector<int>{x.front(), cx.front(), x.back(), cx.back(), *cx.get()}))
                  .raw("eq", bools({x == v[0], x == v[1], x == v[2]})).raw("ne", bools({x != v[0], x != v[1], x != v[2]}));
            put(j);
        }
    }

    // ------------------------------------------------------------------------------------------ bitsets
    template<typename page_t>
    void bitsets(Rng& rng, int n, int steps) {
        using B = DynamicBitset<page_t, size_t>;
        std::vector<std::unique_ptr<B>> v;
        std::vector<int> full;
        const auto un = static_cast<size_t>(n);
        for (int k = 0; k < 3; ++k) { full.push_back(rng.coin()); v.push_back(rng.coin() || full.back() ? std::make_unique<B>(un, full.back() == 1) : std::make_unique<B>(un)); }
        const auto list = [](const B& b) { return ints(b.template to_set<int>()); };
        { J j; j.str("e", "bits").i("n", n).raw("full", ints(full)); put(j); }
        for (int s = 0; s < steps; ++s) {
            const int a = rng.below(3), b = rng.coin(1, 6) ? a : (a + 1 + rng.below(2)) % 3;
            auto& x = *v[static_cast<size_t>(a)];
            auto& y = *v[static_cast<size_t>(b)];
            const int i = n ? rng.below(n) : 0;
            std::string op, sub = "[]";
            int len = 0;
            const int what = rng.below(17);
            if (n == 0 && (what <= 5 || what >= 14)) continue;
            switch (what) {
                case 0: case 1: case 2: op = "set"; if (rng.coin()) x.set(static_cast<size_t>(i)); else x[static_cast<size_t>(i)] = true; break;
                case 3: case 4: case 5: op = "unset"; if (rng.coin()) x.unset(static_cast<size_t>(i)); else x[static_cast<size_t>(i)] = false; break;
                case 6: op = "clear"; x.clear(); break;
                case 7: op = "and"; x &= y; break;
                case 8: op = "or"; x |= y; break;
                case 9: { op = "and"; B t = x & y; x.swap(t); break; }
                case 10: { op = "or"; B t = x | y; x.swap(t); break; }
                case 11: op = "not"; x.invert_in_place(); break;
                case 12: { op = "not"; B t = ~x; x.swap(t); break; }
                case 13: if (a == b) continue; if (rng.coin()) { op = "swap"; x.swap(y); } else { op = "copy"; B t{y}; x.swap(t); } break;
                case 14: case 15: op = "subset"; len = rng.below(n - i + 1);
                    { const B t = x.subset(static_cast<size_t>(i), static_cast<size_t>(len));
                      sub = list(t); if (t.bit_size != static_cast<size_t>(len) || t.count() != t.template to_set<int>().size()) sub = "[-1]"; }
                    break;
                default: op = "subset"; len = rng.below(std::min(n - i, std::numeric_limits<page_t>::digits) + 1);
                    { const page_t p = x.small_subset(static_cast<size_t>(i), static_cast<size_t>(len));
                      std::vector<int> l; for (int k = 0; k < std::numeric_limits<page_t>::digits; ++k) if ((p >> k) & 1) l.push_back(k);
                      sub = ints(l); }
                    break;
            }
            const B& c = x;
            std::vector<int> each, on;
            for (auto k : c) { each.push_back(static_cast<int>(k)); if (each.size() > 2000) break; }
            for (int k = 0; k < n; ++k) if (rng.coin() ? c.test(static_cast<size_t>(k)) : c[static_cast<size_t>(k)]) on.push_back(k);
            J j; j.str("e", "bit").str("op", op).i("a", a + 1).i("b", b + 1).i("i", i).i("len", len).raw("sub", sub)
                  .raw("all", arr(v, [&](const auto& p) { return list(*p); })).raw("each", ints(each)).raw("on", ints(on))
                  .b("empty", c.empty()).i("count", static_cast<int>(c.count())).i("first", static_cast<int>(c.first_index()))
                  .raw("eq", bools({c == *v[0], c == *v[1], c == *v[2]})).raw("ne", bools({c != *v[0], c != *v[1], c != *v[2]}));
            put(j);
        }
    }

    // ------------------------------------------------------------------------------------------ trees
    using Tree = IndexTree<uint64_t, int>;
    std::string shown(const std::optional<int>& o) { return std::to_string(o ? *o : -1); }
    void trees(Rng& rng, int steps) {
        std::unique_ptr<Tree> t[2] = {std::make_unique<Tree>(), std::make_unique<Tree>()};
        { J j; j.str("e", "trees"); put(j); }
        const int letters = rng.range(2, 5);
        for (int s = 0; s < steps; ++s) {
            const int a = rng.below(2);
            Tree& x = *t[a];
            std::vector<uint64_t> key;
            for (int k = rng.below(5); k > 0; --k) key.push_back(static_cast<uint64_t>(rng.below(letters)));
            const int val = rng.below(1000);
            const int what = rng.below(9);
            if (what == 6 && !key.empty()) key.resize(1);
            J j; j.str("e", "tree").i("a", a + 1).raw("key", ints(key)).i("x", val);
            switch (what) {
                case 0: case 1: x.add(key, val); j.str("op", "add"); break;
                case 2: case 3: { auto [r, fresh] = x.add_if_new(key, val); j.str("op", "new").i("got", r).b("fresh", fresh); break; }
                case 4: { const Tree& c = x; j.str("op", "find").raw("got", shown(c.find(key))); const auto* n = c.find_node(key); j.b("node", n != nullptr).raw("there", n ? shown(n->value()) : "-1").b("leaf", n ? n->leaf() : false); break; }
                case 5: { const Tree& c = x; auto [n, rest] = c.find_node_or_return_hint(key); j.str("op", "hint").raw("rest", ints(rest)).raw("got", shown(n->value())); break; }
                case 6: if (key.empty()) continue; { bool made = false; auto* n = x.add_node(key[0], &made); j.str("op", "node").b("fresh", made).raw("got", shown(n->value())); break; }
                case 7: if (!rng.coin(1, 3)) continue; x.merge_in(std::move(*t[1 - a])); t[1 - a] = std::make_unique<Tree>(); j.str("op", "merge"); break;
                default: {
                    j.str("op", "list");
                    std::string l = "[";
                    const Tree& c = x;
                    const bool ro = rng.coin();
                    const auto walk = [&](auto it, auto end) {
                        bool first = true;
                        for (int guard = 0; it != end && guard < 5000; ++it, ++guard) {
                            if (!first) l += ",";
                            first = false;
                            auto ix = it.lookup_index();
                            l += "[" + ints(ix) + "," + shown(it->value()) + "," + std::to_string(it.current_depth()) + "," + (it->leaf() ? "1" : "0") + "]";
                        }
                    };
                    if (ro) walk(c.begin(), c.end()); else walk(x.begin(), x.end());
                    j.raw("items", l + "]");
                }
            }
            put(j);
        }
    }

    // ------------------------------------------------------------------------------------------ enumerations
    template<typename It>
    void enumerate(const std::string& kind, const std::string& p, It it, bool positions) {
        std::string l = "[";
        bool first = true, placed = true;
        for (size_t k = 0; !it.done() && k < 20000; ++it, ++k) {
            if (!first) l += ",";
            first = false;
            l += ints(*it);
            if constexpr (requires { it.global(); }) placed = placed && it.global() == k;
        }
        J j; j.str("e", "enum").str("kind", kind).raw("p", p).raw("items", l + "]").b("placed", !positions || placed);
        put(j);
    }
    template<typename It>
    struct Flagged {            // iterators which are false at their end
        It it;
        bool done() const { return !static_cast<bool>(it); }
        Flagged& operator++() { ++it; return *this; }
        const auto& operator*() const { return *it; }
        size_t global() const { return it.global(); }
    };
    template<typename It>
    struct Plain {
        It it;
        bool done() const { return !static_cast<bool>(it); }
        Plain& operator++() { ++it; return *this; }
        const auto& operator*() const { return *it; }
    };
    std::string pars(std::initializer_list<int> l) { return ints(std::vector<int>(l)); }

    void enumerations(int top) {
        for (int n = 0; n <= top; ++n) for (int k = 0; k <= n; ++k) {
            const auto N = static_cast<size_t>(n), K = static_cast<size_t>(k);
            enumerate("comb", pars({n, k}), CombinationIndexIterator{N, K}, false);
            { J j; j.str("e", "fn").str("f", "binom").raw("x", pars({n, k})).raw("y", pars({static_cast<int>(combinations<size_t>(N, K)), static_cast<int>(CombinationIndexIterator{N, K}.combination_count())})); put(j); }
            if (n > 0) enumerate("commute", pars({n, k}), CommutingIndexIterator{N, K}, false);
            std::string l = "[";
            bool first = true;
            size_t guard = 0;
            for (PartitionIterator it{N, K}; !it.done() && guard < 20000; ++it, ++guard) {
                if (!first) l += ",";
                first = false;
                std::vector<int> p, c, b;
                for (size_t q = 0; q < K; ++q) p.push_back(static_cast<int>(it.primary(q)));
                for (size_t q = 0; q < N - K; ++q) c.push_back(static_cast<int>(it.complement(q)));
                for (size_t q = 0; q < N; ++q) b.push_back(it.bits(q));
                auto [pp, cc] = *it;
                l += "[" + ints(p) + "," + ints(c) + "," + ints(b) + "," + ints(pp) + "," + ints(cc) + "]";
            }
            J j; j.str("e", "enum").str("kind", "split").raw("p", pars({n, k})).raw("items", l + "]").b("placed", true);
            put(j);
        }
        for (int n = 1; n <= 4; ++n) for (int k = 0; k <= 4; ++k) {
            enumerate("nondec", pars({n, k}), OrderedPermutationIterator<size_t>{static_cast<size_t>(n), static_cast<size_t>(k)}, false);
            enumerate("nondec", pars({n, k}), OrderedPermutationIterator<size_t, SmallVector<size_t, 2>>{static_cast<size_t>(n), static_cast<size_t>(k)}, false);
        }
        for (int s = 0; s <= 5; ++s) for (int p = 1; p <= 5; ++p) {
            enumerate("sums", pars({s, p, 0}), Plain<MultipartitionIterator<int, false>>{MultipartitionIterator<int, false>{s, static_cast<size_t>(p)}}, false);
            enumerate("sums", pars({s, p, 1}), Plain<MultipartitionIterator<int, true>>{MultipartitionIterator<int, true>{s, static_cast<size_t>(p)}}, false);
        }
        for (int n = 0; n <= 5; ++n) for (int k = 0; k <= 5; ++k) {
            enumerate("tri", pars({n, k, 1}), Flagged<DuplicateTriangularIndexIterator<size_t>>{DuplicateTriangularIndexIterator<size_t>{static_cast<size_t>(n), static_cast<size_t>(k)}}, true);
            enumerate("tri", pars({n, k, 0}), Flagged<UniqueTriangularIndexIterator<size_t>>{UniqueTriangularIndexIterator<size_t>{static_cast<size_t>(n), static_cast<size_t>(k)}}, true);
        }
    }
    void boxes(Rng& rng, int count) {
        for (int c = 0; c < count; ++c) {
            std::vector<size_t> dims, lo, hi;
            for (int k = rng.below(5); k > 0; --k) {
                dims.push_back(static_cast<size_t>(rng.coin(1, 12) ? 0 : rng.range(1, 4)));
                lo.push_back(static_cast<size_t>(rng.below(5)));
                hi.push_back(lo.back() + dims.back());
            }
            using F = MultiDimensionalIndexIterator<false>;
            using R = MultiDimensionalIndexIterator<true>;
            enumerate("box", "[0," + ints(dims) + "]", Flagged<F>{F{dims}}, true);
            enumerate("box", "[1," + ints(dims) + "]", Flagged<R>{R{dims}}, true);
            enumerate("span", "[0," + ints(lo) + "," + ints(hi) + "]", Flagged<MultiDimensionalOffsetIndexIterator<false>>{MultiDimensionalOffsetIndexIterator<false>{lo, hi}}, true);
            enumerate("span", "[1," + ints(lo) + "," + ints(hi) + "]", Flagged<MultiDimensionalOffsetIndexIterator<true>>{MultiDimensionalOffsetIndexIterator<true>{lo, hi}}, true);
            std::string l = "[";
            bool first = true;
            for (auto& ix : MultiDimensionalIndexRange<true>{dims}) { if (!first) l += ","; first = false; l += ints(ix); }
            { J j; j.str("e", "enum").str("kind", "box").raw("p", "[1," + ints(dims) + "]").raw("items", l + "]").b("placed", true); put(j); }

            // tensors: offsets of all indices in a slightly larger box, and back
            for (bool last : {true, false}) {
                std::string q = "[", back = "[";
                bool f1 = true;
                auto bigger = dims;
                for (auto& b : bigger) b += 1;
                const auto run = [&](const auto& t) {
                    for (auto& ix : MultiDimensionalIndexRange<false>{bigger}) {
                        long long off = -1;
                        try { off = static_cast<long long>(t.index_to_offset(ix)); } catch (const Moment::errors::bad_tensor_index&) { }
                        if (!f1) q += ",";
                        f1 = false;
                        q += "[" + ints(ix) + "," + std::to_string(off) + "]";
                    }
                    for (size_t k = 0; k < t.ElementCount + 2; ++k) {
                        if (k) back += ",";
                        try { back += ints(t.offset_to_index(k)); } catch (const Moment::errors::bad_tensor_index&) { back += "[-1]"; }
                    }
                    std::vector<size_t> wrong = dims; wrong.push_back(0);
                    bool refused = false;
                    try { t.validate_index(wrong); } catch (const Moment::errors::bad_tensor_index&) { refused = true; }
                    bool range = true, bad = false;
                    try { t.validate_range(std::vector<size_t>(dims.size(), 0), dims); } catch (const Moment::errors::bad_tensor_index&) { range = false; }
                    auto beyond = dims;
                    if (!beyond.empty()) { beyond[beyond.size() / 2] += 1; try { t.validate_range(std::vector<size_t>(dims.size(), 0), beyond); } catch (const Moment::errors::bad_tensor_index&) { bad = true; } } else bad = true;
                    J j; j.str("e", "tensor").b("last", last).raw("dims", ints(dims)).raw("offs", q + "]").raw("back", back + "]").i("count", static_cast<int>(t.ElementCount)).b("refused", refused).b("range", range).b("beyond", bad);
                    put(j);
                };
                if (last) run(Tensor<size_t, std::vector<size_t>, std::span<const size_t>, true>{dims});
                else run(Tensor<size_t, std::vector<size_t>, std::span<const size_t>, false>{dims});
            }
            // parts of a tensor, by lists of indices
            if (!dims.empty()) {
                std::vector<std::vector<size_t>> pick;
                bool usable = true;
                for (auto d : dims) {
                    std::vector<size_t> p;
                    if (d == 0) usable = false; else for (int k = rng.below(4); k > 0; --k) p.push_back(static_cast<size_t>(rng.below(static_cast<int>(d))));
                    pick.push_back(p);
                }
                if (usable) {
                    IndexFlattener fl{dims, pick};
                    std::string s = "[";
                    bool f2 = true;
                    for (auto it = fl.begin(); it != fl.end(); ++it) { if (!f2) s += ","; f2 = false; s += "[" + ints(it.index()) + "," + std::to_string(*it) + "]"; }
                    J j; j.str("e", "flat").raw("dims", ints(dims)).raw("pick", lists(pick)).raw("items", s + "]").i("size", static_cast<int>(fl.size())).b("empty", fl.empty());
                    put(j);
                }
            }
        }
    }

    // ------------------------------------------------------------------------------------------ square matrices
    void squares(Rng& rng) {
        for (size_t d = 0; d <= 5; ++d) {
            std::vector<int> data;
            for (size_t k = 0; k < d * d; ++k) data.push_back(rng.below(1000));
            auto copy = data;
            SquareMatrix<int> made{d, std::move(copy)};
            SquareMatrix<int> m{std::move(made)};
            const SquareMatrix<int>& cm = m;
            std::string rows = "[", trans = "[";
            for (size_t r = 0; r < d; ++r) {
                std::vector<int> a, b;
                for (size_t c = 0; c < d; ++c) { a.push_back(rng.coin() ? cm(r, c) : m(std::array<size_t, 2>{r, c})); b.push_back(cm.Transpose(std::array<size_t, 2>{r, c})); }
                rows += (r ? "," : "") + ints(a); trans += (r ? "," : "") + ints(b);
            }
            const auto tri = [&](auto view) {
                std::string s = "[";
                bool first = true;
                size_t guard = 0;
                for (auto it = view.begin(); it != view.end() && guard < 100; ++it, ++guard) {
                    if (!first) s += ",";
                    first = false;
                    s += ints(std::vector<int>{static_cast<int>(it.Row()), static_cast<int>(it.Col()), static_cast<int>(it.Offset()), static_cast<int>(*it), it.diagonal(), static_cast<int>(it.Index()[0]), static_cast<int>(it.Index()[1])});
                }
                return s + "]";
            };
            std::vector<int> order;
            for (const auto& x : cm.Transpose) order.push_back(x);
            const int pad = rng.below(3);
            const auto padded = m.pad(static_cast<size_t>(pad), -7);
            J j; j.str("e", "square").i("d", static_cast<int>(d)).raw("data", ints(data)).raw("rows", rows + "]").raw("trans", trans + "]").raw("order", ints(order))
                  .raw("each", arr(m, [](int x) { return std::to_string(x); }))
                  .raw("ui", tri(m.UpperTriangle())).raw("ue", tri(m.ExclusiveUpperTriangle())).raw("li", tri(m.LowerTriangle())).raw("le", tri(m.ExclusiveLowerTriangle()))
                  .raw("cui", tri(cm.UpperTriangle())).raw("cue", tri(cm.ExclusiveUpperTriangle())).raw("cli", tri(cm.LowerTriangle())).raw("cle", tri(cm.ExclusiveLowerTriangle()))
                  .i("pad", pad).i("pd", static_cast<int>(padded.dimension)).raw("padded", arr(padded, [](int x) { return std::to_string(x); }));
            put(j);
        }
    }

    // ------------------------------------------------------------------------------------------ functions
    std::vector<int> sorted(Rng& rng, int top, int len) {
        std::set<int> s;
        for (int k = 0; k < len; ++k) s.insert(rng.below(top));
        return set_to_vector(s);
    }
    void functions(Rng& rng, int count) {
        for (int b = -6; b <= 9; ++b) for (int e = 0; e <= 9; ++e) { J j; j.str("e", "fn").str("f", "power").raw("x", pars({b, e})).raw("y", pars({ipow<int>(b, e)})); put(j); }
        for (int c = 0; c < count; ++c) {
            {   std::vector<int> v; const int top = rng.range(1, 3); for (int k = rng.range(1, 8); k > 0; --k) v.push_back(rng.below(top));
                J j; j.str("e", "fn").str("f", "rotation").raw("x", ints(v)).raw("y", pars({static_cast<int>(ShiftSorter<int>{}(std::span<const int>(v)))})); put(j); }
            {   auto a = sorted(rng, 12, rng.below(6)), b = sorted(rng, 12, rng.below(6));
                const auto r = first_intersection_index(a.begin(), a.end(), b.begin(), b.end());
                J j; j.str("e", "fn").str("f", "meet").raw("x", lists(std::vector<std::vector<int>>{a, b})).raw("y", pars({r ? static_cast<int>(*r) : -1})); put(j); }
            {   std::map<int, int> a, b;
                for (int k : sorted(rng, 12, rng.below(7))) a[k] = rng.below(50);
                for (int k : sorted(rng, 12, rng.below(7))) b[k] = 100 + rng.below(50);
                const auto pairs = [](const std::map<int, int>& m) { return arr(m, [](const auto& kv) { return pars({kv.first, kv.second}); }); };
                const auto x = "[" + pairs(a) + "," + pairs(b) + "]";
                linear_map_merge(a, std::map<int, int>{b});
                J j; j.str("e", "fn").str("f", "merge").raw("x", x).raw("y", pairs(a)); put(j); }
            {   std::vector<int> data, at;
                for (int k = rng.below(10); k > 0; --k) data.push_back(rng.below(50));
                if (!data.empty() || rng.coin()) { at.push_back(0); for (int k = rng.below(4); k > 0; --k) at.push_back(rng.range(at.back(), static_cast<int>(data.size()))); }
                std::string s = "[";
                bool first = true;
                VariableChunkRange<int, int> range{data, at};
                for (auto it = range.begin(); !(it == range.end()); ++it) { if (!first) s += ","; first = false; s += ints(*it); if (static_cast<size_t>(it.chunk_size()) != (*it).size()) s += ",[-1]"; }
                J j; j.str("e", "fn").str("f", "chunks").raw("x", lists(std::vector<std::vector<int>>{data, at})).raw("y", s + "]"); put(j); }
            {   const int radix = rng.range(1, 5), len = rng.below(6);
                sequence_storage_t w;
                for (int k = 0; k < len; ++k) w.push_back(static_cast<oper_name_t>(rng.below(radix)));
                std::string s = "[";
                bool first = true;
                Algebraic::SubstringHashRange range{w, static_cast<size_t>(radix)};
                const auto end = range.end();
                size_t guard = 0;
                if (len > 0) for (auto it = range.begin(); it != end && guard < 100; ++it, ++guard) { if (!first) s += ","; first = false; s += pars({static_cast<int>(it.index()), static_cast<int>(*it)}); }
                J j; j.str("e", "fn").str("f", "parts").raw("x", "[" + std::to_string(radix) + "," + ints(w) + "]").raw("y", s + "]"); put(j);
                ShortlexHasher h{static_cast<hash_t>(radix)};
                J k; k.str("e", "fn").str("f", "hash").raw("x", "[" + std::to_string(radix) + "," + ints(w) + "]").raw("y", pars({static_cast<int>(h(w))})); put(k); }
            {   const int rows = rng.range(1, 3), cols = rng.range(1, 3), power = rng.below(rows * cols > 4 ? 4 : 5);
                Eigen::SparseMatrix<double> m(rows, cols);
                std::vector<std::vector<int>> in(static_cast<size_t>(rows), std::vector<int>(static_cast<size_t>(cols), 0));
                for (int r = 0; r < rows; ++r) for (int q = 0; q < cols; ++q) { const int v = rng.coin(1, 3) ? 0 : rng.range(-3, 3); in[static_cast<size_t>(r)][static_cast<size_t>(q)] = v; if (v) m.insert(r, q) = v; }
                const Eigen::MatrixXd out = Eigen::MatrixXd(kronecker_power(m, power));
                std::string s = "[";
                for (int r = 0; r < out.rows(); ++r) { std::vector<int> row; for (int q = 0; q < out.cols(); ++q) row.push_back(static_cast<int>(out(r, q))); s += (r ? "," : "") + ints(row); }
                J j; j.str("e", "fn").str("f", "kron").raw("x", "[" + std::to_string(power) + "," + lists(in) + "]").raw("y", s + "]"); put(j); }
        }
    }
    // hashes of long words: only their order can be recorded
    void hashes(Rng& rng, int count) {
        for (int c = 0; c < count; ++c) {
            const int radix = rng.coin() ? (1 << rng.range(1, 8)) : rng.range(2, 300);
            ShortlexHasher h{static_cast<hash_t>(radix), static_cast<hash_t>(rng.range(1, 3))};
            const auto longest = static_cast<int>(std::min<size_t>(h.longest_hashable_string(), 70));
            const auto word = [&]() {
                std::vector<oper_name_t> w;
                const int len = rng.coin() ? longest : rng.coin() ? std::max(0, longest - 1) : rng.below(longest + 1);
                const int mode = rng.below(4);
                for (int k = 0; k < len; ++k) w.push_back(static_cast<oper_name_t>(mode == 0 ? radix - 1 : mode == 1 ? 0 : rng.below(radix)));
                return w;
            };
            auto a = word(), b = word();
            if (rng.coin(1, 4) && !a.empty()) { b = a; auto& x = b[static_cast<size_t>(rng.below(static_cast<int>(b.size())))]; x = static_cast<oper_name_t>(rng.below(radix)); }
            const auto ha = h(a), hb = h(b);
            J j; j.str("e", "fn").str("f", "order").raw("x", "[" + ints(a) + "," + ints(b) + "]").raw("y", pars({ha < hb ? -1 : ha > hb ? 1 : 0})); put(j);
        }
    }

    // ------------------------------------------------------------------------------------------ text encodings
    void encodings(Rng& rng, int count) {
        const std::vector<int> edges{0x01, 0x41, 0x7e, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x3ff, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x1f600, 0x20000, 0xfffff, 0x100000, 0x10ffff};
        for (int c = 0; c < count; ++c) {
            std::vector<int> cp;
            const int len = c < static_cast<int>(edges.size()) ? 1 : rng.below(8);
            const bool plain = rng.coin(1, 4);
            for (int k = 0; k < len; ++k) {
                int x = c < static_cast<int>(edges.size()) ? edges[static_cast<size_t>(c)] : plain ? rng.range(1, 0x7f) : rng.coin() ? edges[static_cast<size_t>(rng.below(static_cast<int>(edges.size())))] : rng.range(1, rng.coin() ? 0x10ffff : 0x2000);
                if (x >= 0xd800 && x < 0xe000) x -= 0x800;
                cp.push_back(x);
            }
            std::basic_string<char16_t> wide;
            for (int x : cp) if (x < 0x10000) wide += static_cast<char16_t>(x); else { wide += static_cast<char16_t>(0xd800 + ((x - 0x10000) >> 10)); wide += static_cast<char16_t>(0xdc00 + ((x - 0x10000) & 0x3ff)); }
            std::string bytes;
            for (int x : cp) {
                if (x < 0x80) bytes += static_cast<char>(x);
                else if (x < 0x800) { bytes += static_cast<char>(0xc0 | (x >> 6)); bytes += static_cast<char>(0x80 | (x & 63)); }
                else if (x < 0x10000) { bytes += static_cast<char>(0xe0 | (x >> 12)); bytes += static_cast<char>(0x80 | ((x >> 6) & 63)); bytes += static_cast<char>(0x80 | (x & 63)); }
                else { bytes += static_cast<char>(0xf0 | (x >> 18)); bytes += static_cast<char>(0x80 | ((x >> 12) & 63)); bytes += static_cast<char>(0x80 | ((x >> 6) & 63)); bytes += static_cast<char>(0x80 | (x & 63)); }
            }
            const auto narrow = rng.coin() ? UTF16toUTF8Convertor{}(wide) : UTF16toUTF8Convertor::convert(wide);
            const auto widened = rng.coin() ? UTF8toUTF16Convertor{}(bytes) : UTF8toUTF16Convertor::convert(bytes);
            J j; j.str("e", "utf").raw("cp", ints(cp)).raw("u8", arr(narrow, [](char x) { return std::to_string(static_cast<int>(static_cast<unsigned char>(x))); })).raw("u16", arr(widened, [](char16_t x) { return std::to_string(static_cast<int>(x)); }))
                  .i("n8", static_cast<int>(UTF16toUTF8Convertor::size_in_utf8(wide))).i("n16", static_cast<int>(UTF8toUTF16Convertor::size_in_utf16(bytes)));
            put(j);
        }
    }

    // ------------------------------------------------------------------------------------------ stores
    void stores(Rng& rng, int steps) {
        const auto sig = make_signature({static_cast<char>(rng.range(33, 126)), static_cast<char>(rng.range(33, 126)), static_cast<char>(rng.range(33, 126)), static_cast<char>(rng.range(33, 126))});
        PersistentStorage<int> st{sig};
        std::vector<uint64_t> keys;
        { J j; j.str("e", "store").i("sig", static_cast<long long>(sig)); put(j); }
        int tag = 0;
        for (int s = 0; s < steps; ++s) {
            J j; j.str("e", "keep");
            uint64_t key = keys.empty() ? (static_cast<uint64_t>(sig) << 32) : keys[static_cast<size_t>(rng.below(static_cast<int>(keys.size())))];
            if (rng.coin(1, 8)) key += static_cast<uint64_t>(rng.range(1, 5));
            if (rng.coin(1, 12)) key ^= (static_cast<uint64_t>(1) << (32 + rng.below(30)));
            const auto split = [](uint64_t k) { return ints(std::vector<long long>{static_cast<long long>(k >> 32), static_cast<long long>(k & 0xffffffffu)}); };
            switch (rng.below(8)) {
                case 0: case 1: case 2: { const auto k = rng.coin() ? st.store(std::make_shared<int>(++tag)) : st.store(std::make_unique<int>(++tag)); keys.push_back(k); j.str("op", "store").i("x", tag).raw("key", split(k)); break; }
                case 3: case 4: { int got = -1; std::string err; try { got = *st.get(key); } catch (const errors::bad_signature_error&) { err = "sig"; } catch (const errors::not_found_error&) { err = "none"; } j.str("op", "get").raw("key", split(key)).i("x", got).str("err", err); break; }
                case 5: { std::string err; try { st.release(key); } catch (const errors::bad_signature_error&) { err = "sig"; } catch (const errors::not_found_error&) { err = "none"; } j.str("op", "free").raw("key", split(key)).str("err", err); break; }
                case 6: {
                    std::string l = "["; bool first = true;
                    for (auto [id, p] = st.first(); p && id != 0xffffffffu; std::tie(id, p) = st.next(id)) { if (!first) l += ","; first = false; l += pars({static_cast<int>(id), *p}); }
                    j.str("op", "list").raw("items", l + "]"); break; }
                default: if (!rng.coin(1, 10)) continue; st.clear(); keys.clear(); j.str("op", "clear"); break;
            }
            j.i("size", static_cast<int>(st.size())).b("empty", st.empty());
            put(j);
        }
        PersistentStorageMonoid<int> one{sig};
        int have = -1;
        for (int s = 0; s < 12; ++s) {
            J j; j.str("e", "one").i("was", have);
            const int x = rng.below(1000);
            switch (rng.below(4)) {
                case 0: one.set(std::make_shared<int>(x)); have = x; j.str("op", "set").i("x", x); break;
                case 1: one.reset(); have = -1; j.str("op", "reset").i("x", x); break;
                case 2: { struct Box { }; auto p = one.get(); j.str("op", "get").i("x", x); break; }
                default: one.set(one.get()); j.str("op", "get").i("x", x); break;
            }
            const auto p = one.get();
            j.i("now", p ? *p : -1).b("empty", one.empty());
            put(j);
        }
    }
    // a queue used by one thread
    void queues(Rng& rng, int steps) {
        Multithreading::Queue<int> q;
        { J j; j.str("e", "queue"); put(j); }
        int size = 0;
        for (int s = 0; s < steps; ++s) {
            J j; j.str("e", "que");
            const int x = rng.below(1000);
            switch (rng.below(5)) {
                case 0: case 1: if (rng.coin()) q.push_back(x); else q.emplace_back(x); ++size; j.str("op", "push").i("x", x); break;
                case 2: case 3: { auto n = (size > 0 && rng.coin()) ? q.wait_pop_front() : q.try_pop_front(); if (n) --size; j.str("op", "pop").i("x", n ? **n : -1); break; }
                default: if (!rng.coin(1, 20)) continue; q.abort(); j.str("op", "abort").i("x", 0); break;
            }
            j.b("stop", q.aborting());
            put(j);
        }
    }
    // trees of fixed width and depth
    void recursive(Rng& rng, int count) {
        const int width = rng.range(1, 4), depth = rng.below(4);
        RecursiveDoubleIndex rdi{static_cast<size_t>(width), static_cast<size_t>(depth), {-1, 7}};
        { J j; j.str("e", "rdi").i("width", width).i("depth", depth); put(j); }
        for (int c = 0; c < count; ++c) {
            std::vector<size_t> at;
            for (int k = rng.below(depth + 1); k > 0; --k) at.push_back(static_cast<size_t>(rng.below(width)));
            J j; j.str("e", "rec").raw("at", ints(at));
            const int a = rng.below(100), b = rng.below(100);
            const RecursiveDoubleIndex& crdi = rdi;
            switch (rng.below(4)) {
                case 0: case 1: if (at.empty() && rng.coin()) rdi.set({a, b}); else rdi.set(std::span<const size_t>(at), {a, b}); j.str("op", "set").raw("x", pars({a, b})); break;
                case 2: { const auto r = rng.coin() ? crdi.access(std::span<const size_t>(at)) : crdi.subtree(at).access(); j.str("op", "get").raw("x", pars({static_cast<int>(r.first), static_cast<int>(r.second)})).i("kids", static_cast<int>(crdi.subtree(at).num_children())); break; }
                default: {
                    std::string l = "["; bool first = true;
                    const auto look = [&](const auto& v, const std::vector<size_t>& ix) { if (!first) l += ","; first = false; l += "[" + ints(ix) + "," + pars({static_cast<int>(v.first), static_cast<int>(v.second)}) + "]"; };
                    if (rng.coin()) rdi.visit(look); else crdi.visit(look);
                    j.str("op", "visit").raw("items", l + "]"); }
            }
            put(j);
        }
    }
}

int main(int argc, char** argv) {
    auto o = parse(argc, argv);
    install_handlers();
    trace().open(o);
    Rng rng{o.seed * 104729 + 19};
    const int rounds = o.thorough() ? 30 : 6, steps = o.thorough() ? 150 : 90;
    trace().begin("enum");
    enumerations(o.thorough() ? 7 : 6);
    for (int r = 0; r < rounds; ++r) {
        const auto tag = "#" + std::to_string(r);
        trace().begin("vec1" + tag); vectors<1>(rng, steps);
        trace().begin("vec4" + tag); vectors<4>(rng, steps * 2);
        trace().begin("vec6" + tag); vectors<6>(rng, steps * 2);
        for (int n : {0, 1, 7, 8, 9, 16, 23}) { trace().begin("bit8_" + std::to_string(n) + tag); bitsets<uint8_t>(rng, n, steps / 2); }
        for (int n : {5, 32, 33, 64, 70, rng.range(65, 140)}) { trace().begin("bit32_" + std::to_string(n) + tag); bitsets<uint32_t>(rng, n, steps / 2); }
        for (int n : {3, 63, 64, 65, 128, 130, rng.range(129, 200)}) { trace().begin("bit64_" + std::to_string(n) + tag); bitsets<uint64_t>(rng, n, steps / 2); }
        for (int k = 0; k < 4; ++k) { trace().begin("tree" + std::to_string(k) + tag); trees(rng, steps * 2); }
        trace().begin("box" + tag); boxes(rng, 25);
        trace().begin("square" + tag); squares(rng);
        trace().begin("fn" + tag); functions(rng, 50);
        trace().begin("hash" + tag); hashes(rng, 200);
        trace().begin("utf" + tag); encodings(rng, 120);
        trace().begin("store" + tag); stores(rng, steps * 2);
        trace().begin("queue" + tag); queues(rng, steps);
        for (int k = 0; k < 4; ++k) { trace().begin("rec" + std::to_string(k) + tag); recursive(rng, steps / 2); }
    }
    trace().close();
    return 0;
}
