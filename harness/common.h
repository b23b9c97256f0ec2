// Shared by all conformance drivers: event recording, randomness, building scenarios.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <complex>
#include <functional>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <stdexcept>

#include "dictionary/operator_sequence.h"
#include "dictionary/operator_sequence_generator.h"
#include "dictionary/dictionary.h"
#include "dictionary/raw_polynomial.h"
#include "scenarios/context.h"
#include "scenarios/algebraic/algebraic_context.h"
#include "scenarios/algebraic/algebraic_precontext.h"
#include "scenarios/algebraic/operator_rule.h"
#include "scenarios/algebraic/operator_rulebook.h"
#include "scenarios/algebraic/name_table.h"
#include "scenarios/locality/locality_context.h"
#include "scenarios/locality/party.h"
#include "scenarios/pauli/pauli_context.h"
#include "scenarios/inflation/inflation_context.h"

namespace vf {
    using namespace Moment;

    // ---------------------------------------------------------------- options
    struct Options {
        std::string out = "trace.ndjson", tier = "quick", script, only, focus = "all";
        uint64_t seed = 1;
        bool thorough() const { return tier == "thorough"; }
    };
    inline Options parse(int argc, char** argv) {
        Options o;
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string k = argv[i], v = argv[i + 1];
            if (k == "--out") o.out = v;
            else if (k == "--tier") o.tier = v;
            else if (k == "--seed") o.seed = std::strtoull(v.c_str(), nullptr, 10);
            else if (k == "--script") o.script = v;
            else if (k == "--only") o.only = v;
            else if (k == "--focus") o.focus = v;
        }
        return o;
    }

    // ---------------------------------------------------------------- randomness (independent of the library)
    struct Rng {
        uint64_t s;
        explicit Rng(uint64_t seed) : s{seed * 0x9E3779B97F4A7C15ull + 0x1234567ull} {}
        uint64_t next() {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        int below(int n) { return n <= 0 ? 0 : static_cast<int>(next() % static_cast<uint64_t>(n)); }
        int range(int lo, int hi) { return lo + below(hi - lo + 1); }
        bool coin(int num = 1, int den = 2) { return below(den) < num; }
    };

    // ---------------------------------------------------------------- JSON
    struct J {
        std::string s;
        bool first = true;
        J() : s{"{"} {}
        J& raw(const char* k, const std::string& v) {
            if (!first) s += ",";
            first = false;
            s += "\""; s += k; s += "\":"; s += v;
            return *this;
        }
        J& i(const char* k, long long v) { return raw(k, std::to_string(v)); }
        J& b(const char* k, bool v) { return raw(k, v ? "true" : "false"); }
        J& str(const char* k, const std::string& v) { return raw(k, quote(v)); }
        std::string done() const { return s + "}"; }
        static std::string quote(const std::string& v) {
            std::string o = "\"";
            for (char c : v) {
                if (c == '"' || c == '\\') { o += '\\'; o += c; }
                else if (c == '\n') o += "\\n";
                else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) o += '?';
                else o += c;
            }
            return o + "\"";
        }
    };
    template<typename C, typename F>
    std::string arr(const C& c, F f) {
        std::string s = "[";
        bool first = true;
        for (const auto& x : c) {
            if (!first) s += ",";
            first = false;
            s += f(x);
        }
        return s + "]";
    }
    template<typename C>
    std::string ints(const C& c) {
        return arr(c, [](const auto& x) { return std::to_string(static_cast<long long>(x)); });
    }

    // ---------------------------------------------------------------- recording
    struct Trace {
        FILE* f = nullptr;
        std::mutex m;
        std::string only;
        size_t count = 0;
        void open(const Options& o) { f = std::fopen(o.out.c_str(), "w"); only = o.only; if (!f) std::abort(); }
        void ev(const std::string& line) {
            std::lock_guard<std::mutex> g(m);
            std::fwrite(line.data(), 1, line.size(), f);
            std::fputc('\n', f);
            ++count;
        }
        void begin(const std::string& name) { ev(J().str("e", "begin").str("name", name).done()); flush(); }
        void flush() { std::fflush(f); }
        void close() { if (f) std::fclose(f); f = nullptr; }
    };
    inline Trace& trace() { static Trace t; return t; }

    // Flush what was recorded when the process dies, so that the death is attributed to the right place.
    inline void on_signal(int sig) {
        if (trace().f) std::fflush(trace().f);
        std::signal(sig, SIG_DFL);
        std::raise(sig);
    }
    inline void install_handlers() {
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGTERM}) std::signal(s, on_signal);
    }

    // ---------------------------------------------------------------- elements
    inline sequence_storage_t ops(const std::vector<int>& v) {
        sequence_storage_t s;
        for (int x : v) s.emplace_back(static_cast<oper_name_t>(x));
        return s;
    }
    // phase 4 = zero element; a "zero" that carries operators or a phase is not a legal element: phase 5..8
    inline std::string el(const HashedSequence& q) {
        int s = static_cast<int>(q.get_sign());
        if (q.zero()) s = (q.get_sign() == SequenceSignType::Positive && q.empty()) ? 4 : 5 + s;
        return J().i("s", s).raw("w", ints(q.raw())).done();
    }
    inline OperatorSequence mk(const Context& c, const std::vector<int>& v, int sign = 0) {
        return OperatorSequence{ops(v), c, static_cast<SequenceSignType>(sign & 3)};
    }

    // ---------------------------------------------------------------- scenarios
    struct Rule { std::vector<int> l; int s; std::vector<int> r; };   // s: phase 0..3, 4 = zero
    struct Scenario {
        std::string name;
        std::string json;                       // the context record for the specification
        int n = 0;                              // number of operators
        std::function<std::unique_ptr<Context>()> make;
        std::string kind;
        int copies = 1;                         // inflation: level
    };

    inline Scenario free_scenario(int n) {
        Scenario s;
        s.kind = "free"; s.name = "free" + std::to_string(n); s.n = n;
        s.json = J().str("kind", "free").i("n", n).done();
        s.make = [n] { return std::make_unique<Context>(static_cast<size_t>(n)); };
        return s;
    }

    // parties: list of parties, each a list of outcome counts
    inline Scenario locality_scenario(const std::vector<std::vector<int>>& parties) {
        Scenario s;
        s.kind = "locality"; s.name = "loc";
        std::vector<int> party, mmt;
        int p = 0, m = 0;
        for (const auto& pl : parties) {
            s.name += "_";
            for (int outcomes : pl) {
                s.name += std::to_string(outcomes);
                for (int k = 0; k + 1 < outcomes; ++k) { party.push_back(p); mmt.push_back(m); }
                ++m;
            }
            ++p;
        }
        s.n = static_cast<int>(party.size());
        s.json = J().str("kind", "locality").i("n", s.n).i("parties", p).i("mmts", m)
                    .raw("party", ints(party)).raw("mmt", ints(mmt))
                    .raw("shape", arr(parties, [](const auto& x) { return ints(x); })).done();
        s.make = [parties] {
            std::vector<Locality::Party> list;
            int id = 0;
            for (const auto& pl : parties) {
                std::vector<Locality::Measurement> mm;
                int k = 0;
                for (int outcomes : pl) mm.emplace_back(std::string(1, static_cast<char>('a' + k++)), static_cast<oper_name_t>(outcomes));
                list.emplace_back(static_cast<party_name_t>(id), std::string(1, static_cast<char>('A' + id)), std::move(mm));
                ++id;
            }
            return std::make_unique<Locality::LocalityContext>(std::move(list));
        };
        return s;
    }

    // rows * cols qubits; cols == 1 makes a chain. Translational symmetry makes moments alias.
    inline Scenario pauli_scenario(int rows, int cols = 1, bool wrap = false, bool sym = false) {
        Scenario s;
        const int qubits = rows * cols;
        s.kind = "pauli"; s.n = 3 * qubits;
        s.name = "pauli" + std::to_string(rows) + (cols > 1 ? "x" + std::to_string(cols) : "") + (wrap ? "w" : "") + (sym ? "s" : "");
        s.json = J().str("kind", "pauli").i("n", s.n).i("qubits", qubits).i("rows", rows).i("cols", cols)
                    .b("wrap", wrap).b("sym", sym).done();
        s.make = [rows, cols, wrap, sym]() -> std::unique_ptr<Context> {
            const auto w = wrap ? Pauli::WrapType::Wrap : Pauli::WrapType::None;
            const auto y = sym ? Pauli::SymmetryType::Translational : Pauli::SymmetryType::None;
            if (cols > 1) return std::make_unique<Pauli::PauliContext>(static_cast<size_t>(rows), static_cast<size_t>(cols), w, y);
            if (!wrap && !sym) return std::make_unique<Pauli::PauliContext>(static_cast<size_t>(rows));
            return std::make_unique<Pauli::PauliContext>(static_cast<size_t>(rows), w, y);
        };
        return s;
    }

    inline Scenario inflation_scenario(const std::vector<int>& outcomes, const std::vector<std::vector<int>>& sources, int level) {
        Scenario s;
        s.kind = "inflation"; s.copies = level;
        s.name = "inf" + std::to_string(level) + "_";
        for (int o : outcomes) s.name += std::to_string(o);
        for (const auto& q : sources) { s.name += "_"; for (int x : q) s.name += std::to_string(x); }
        std::vector<std::vector<int>> obs_src(outcomes.size());
        for (size_t k = 0; k < sources.size(); ++k) for (int o : sources[k]) obs_src[o].push_back(static_cast<int>(k));
        int n = 0;
        for (size_t o = 0; o < outcomes.size(); ++o) {
            int cop = 1;
            for (size_t k = 0; k < obs_src[o].size(); ++k) cop *= level;
            n += cop * (outcomes[o] == 0 ? 1 : outcomes[o] - 1);
        }
        s.n = n;
        s.json = J().str("kind", "inflation").i("n", n).i("level", level).i("sources", static_cast<int>(sources.size()))
                    .raw("outcomes", ints(outcomes)).raw("src", arr(obs_src, [](const auto& x) { return ints(x); })).done();
        s.make = [outcomes, sources, level] {
            std::vector<size_t> oc(outcomes.begin(), outcomes.end());
            std::vector<std::set<oper_name_t>> ss;
            for (const auto& q : sources) { std::set<oper_name_t> t; for (int x : q) t.insert(static_cast<oper_name_t>(x)); ss.push_back(t); }
            return std::make_unique<Inflation::InflationContext>(Inflation::CausalNetwork{oc, std::move(ss)}, static_cast<size_t>(level));
        };
        return s;
    }

    // conj mode: 0 self-adjoint, 1 bunched, 2 interleaved.
    inline std::vector<int> star_table(int raw_n, int mode) {
        std::vector<int> star;
        if (mode == 0) for (int i = 0; i < raw_n; ++i) star.push_back(i);
        if (mode == 1) for (int i = 0; i < 2 * raw_n; ++i) star.push_back(i < raw_n ? i + raw_n : i - raw_n);
        if (mode == 2) for (int i = 0; i < 2 * raw_n; ++i) star.push_back(i ^ 1);
        return star;
    }
    inline std::string rule_json(const Rule& r) {
        std::vector<int> w = r.s == 4 ? std::vector<int>{} : r.r;
        return J().raw("l", ints(r.l)).raw("r", J().i("s", r.s).raw("w", ints(w)).done()).done();
    }
    inline Algebraic::AlgebraicPrecontext precontext(int raw_n, int mode) {
        using M = Algebraic::AlgebraicPrecontext::ConjugateMode;
        return Algebraic::AlgebraicPrecontext{static_cast<oper_name_t>(raw_n),
            mode == 0 ? M::SelfAdjoint : (mode == 1 ? M::Bunched : M::Interleaved)};
    }
    inline HashedSequence hashed(const Algebraic::AlgebraicPrecontext& apc, const std::vector<int>& w, int s) {
        if (s == 4) return HashedSequence{true};
        return HashedSequence{ops(w), apc.hasher, static_cast<SequenceSignType>(s & 3)};
    }
    inline std::vector<Algebraic::OperatorRule> make_rules(const Algebraic::AlgebraicPrecontext& apc, const std::vector<Rule>& rules) {
        std::vector<Algebraic::OperatorRule> out;
        for (const auto& r : rules) out.emplace_back(hashed(apc, r.l, 0), hashed(apc, r.r, r.s));
        return out;
    }
    inline Scenario algebraic_scenario(const std::string& name, int raw_n, int mode, const std::vector<Rule>& rules,
                                       bool commutative = false, bool normal = false, int attempts = 64) {
        Scenario s;
        s.kind = "algebraic"; s.name = "alg_" + name; 
        auto star = star_table(raw_n, mode);
        s.n = static_cast<int>(star.size());
        s.json = J().str("kind", "algebraic").i("n", s.n).raw("star", ints(star))
                    .b("comm", commutative).b("normal", normal && mode != 0)
                    .raw("rules", arr(rules, rule_json)).done();
        s.make = [=] {
            auto apc = precontext(raw_n, mode);
            auto ctx = std::make_unique<Algebraic::AlgebraicContext>(apc, commutative, normal, make_rules(apc, rules));
            if (attempts > 0) (void) ctx->attempt_completion(static_cast<size_t>(attempts));
            return ctx;
        };
        return s;
    }

    // Catalogue of rewriting systems that have a finite completion.
    inline std::vector<Scenario> algebraic_catalogue() {
        std::vector<Scenario> v;
        v.push_back(algebraic_scenario("norules", 2, 0, {}));
        v.push_back(algebraic_scenario("norules_b", 2, 1, {}));
        v.push_back(algebraic_scenario("norules_i", 2, 2, {}));
        v.push_back(algebraic_scenario("comm3", 3, 0, {}, true));
        v.push_back(algebraic_scenario("comm_b", 2, 1, {}, true));
        v.push_back(algebraic_scenario("normal_b", 2, 1, {}, false, true));
        v.push_back(algebraic_scenario("normal_i", 2, 2, {}, false, true));
        v.push_back(algebraic_scenario("proj2", 2, 0, {{{0,0},0,{0}}, {{1,1},0,{1}}}));
        v.push_back(algebraic_scenario("chsh", 4, 0, {{{0,0},0,{}}, {{1,1},0,{}}, {{2,2},0,{}}, {{3,3},0,{}},
                                                      {{2,0},0,{0,2}}, {{2,1},0,{1,2}}, {{3,0},0,{0,3}}, {{3,1},0,{1,3}}}));
        v.push_back(algebraic_scenario("anti2", 2, 0, {{{1,0},2,{0,1}}}));
        v.push_back(algebraic_scenario("anti2sq", 2, 0, {{{1,0},2,{0,1}}, {{0,0},0,{}}, {{1,1},0,{}}}));
        v.push_back(algebraic_scenario("anti3", 3, 0, {{{1,0},2,{0,1}}, {{2,0},2,{0,2}}, {{2,1},2,{1,2}},
                                                       {{0,0},0,{}}, {{1,1},0,{}}, {{2,2},0,{}}}));
        v.push_back(algebraic_scenario("ortho", 2, 0, {{{0,1},4,{}}, {{1,0},4,{}}, {{0,0},0,{0}}, {{1,1},0,{1}}}));
        v.push_back(algebraic_scenario("ab_to_a", 2, 0, {{{0,1},0,{0}}}));
        v.push_back(algebraic_scenario("ab_to_a_noconj", 2, 1, {{{0,1},0,{0}}}));
        v.push_back(algebraic_scenario("s3", 2, 0, {{{0,0},0,{}}, {{1,1},0,{}}, {{1,0,1},0,{0,1,0}}}));
        v.push_back(algebraic_scenario("pauli_i", 3, 0, {{{0,0},0,{}}, {{1,1},0,{}}, {{2,2},0,{}},
                                                         {{0,1},1,{2}}, {{1,2},1,{0}}, {{2,0},1,{1}}}));
        v.push_back(algebraic_scenario("unitary_b", 1, 1, {{{0,1},0,{}}, {{1,0},0,{}}}));
        v.push_back(algebraic_scenario("unitary2_i", 2, 2, {{{0,1},0,{}}, {{1,0},0,{}}, {{2,3},0,{}}, {{3,2},0,{}}}));
        v.push_back(algebraic_scenario("fermion_b", 1, 1, {{{0,0},4,{}}, {{1,1},4,{}}}));
        v.push_back(algebraic_scenario("anticomm_b", 1, 1, {{{1,0},2,{0,1}}}));
        v.push_back(algebraic_scenario("nilp", 2, 0, {{{0,0,0},4,{}}, {{1,0},0,{0,1}}}));
        v.push_back(algebraic_scenario("neg_sq", 2, 1, {{{0,0},2,{}}, {{2,2},2,{}}}));
        v.push_back(algebraic_scenario("comm_proj", 3, 0, {{{0,0},0,{0}}, {{1,1},0,{1}}, {{2,2},0,{2}}}, true));
        return v;
    }
}
