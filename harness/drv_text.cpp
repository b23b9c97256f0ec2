// Drives naming, printing and parsing, and records every text as character codes.
#include <csignal>
#include <sstream>
#include "systems.h"
#include "scenarios/contextual_os.h"
#include "scenarios/locality/locality_operator_formatter.h"
#include "scenarios/inflation/observable_variant_index.h"
#include "utilities/alphabetic_namer.h"
#include "symbolic/rules/moment_rulebook.h"
using namespace vf;

namespace {
    std::string codes(const std::string& s) {
        return arr(s, [](char c) { return std::to_string(static_cast<int>(static_cast<unsigned char>(c))); });
    }
    std::string texts(const std::vector<std::string>& v) { return arr(v, codes); }
    const char* const letters = "abcdefghjklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

    void numbered_names(Rng& rng) {
        for (bool upper : {true, false}) {
            AlphabeticNamer namer{upper};
            std::vector<long long> ids;
            for (int k = 0; k < 800; ++k) ids.push_back(k);
            for (long long c : {18277LL, 18278LL, 18279LL, 475253LL, 475254LL, 475255LL}) ids.push_back(c);
            for (int k = 0; k < 200; ++k) ids.push_back(rng.below(400000));
            J j; j.str("e", "names").b("upper", upper).raw("ids", ints(ids))
                  .raw("t", arr(ids, [&](auto k) { return codes(rng.coin() ? namer(static_cast<size_t>(k)) : AlphabeticNamer::index_to_name(static_cast<size_t>(k), upper)); }))
                  .raw("len", arr(ids, [&](auto k) { return std::to_string(AlphabeticNamer::strlen(static_cast<size_t>(k))); }));
            std::vector<long long> first;
            for (size_t l = 0; l < 4; ++l) first.push_back(static_cast<long long>(AlphabeticNamer::level_offset(l)));
            j.raw("first", ints(first));
            trace().ev(j.done());
        }
    }

    std::string good_name(Rng& rng, int longest = 6) {
        static const char* rest = "abcXYZ0123456789_.|";
        std::string s(1, letters[rng.below(51)]);
        for (int k = rng.below(longest); k > 0; --k) s += rest[rng.below(19)];
        return s;
    }
    void name_table(Rng& rng) {
        const int n = rng.range(1, 4), mode = rng.below(3);
        const bool def = rng.coin(1, 6), single = rng.coin(1, 3);
        std::vector<std::string> names;
        std::set<std::string> used;
        for (int k = 0; k < n; ++k) {
            std::string s = single ? std::string(1, letters[rng.below(51)]) : good_name(rng, rng.coin(1, 4) ? 24 : 6);
            if (!used.insert(s).second) { --k; continue; }
            names.push_back(s);
        }
        if (rng.coin(1, 3)) {               // spoil them
            auto& s = names[static_cast<size_t>(rng.below(n))];
            switch (rng.below(6)) {
                case 0: s = ""; break;
                case 1: s = std::string(1, "0_.|*9- "[rng.below(8)]) + s; break;
                case 2: s += "*- #;<"[rng.below(6)]; break;
                case 3: names.push_back(good_name(rng)); break;
                case 4: if (n > 1) names.pop_back(); else s.clear(); break;
                default: if (n > 1) names[0] = names[static_cast<size_t>(n - 1)]; break;
            }
        }
        std::vector<std::string> queries = names;
        for (const auto& s : names) queries.push_back(s + "*");
        for (int k = 0; k < 3; ++k) queries.push_back(good_name(rng, 2));
        queries.emplace_back(""); queries.emplace_back("X1"); queries.emplace_back("X1*"); queries.emplace_back("*");
        if (!names[0].empty()) queries.push_back(names[0].substr(0, names[0].size() - 1));
        auto apc = precontext(n, mode);
        J j; j.str("e", "table").i("n", n).i("mode", mode).b("default", def).raw("names", texts(names));
        try {
            auto given = names;
            auto t = def ? Algebraic::NameTable{apc} : Algebraic::NameTable{apc, std::move(given)};
            const bool direct = rng.coin();
            std::vector<std::string> shown;
            for (int k = 0; k < (mode ? 2 * n : n); ++k) {
                if (direct) shown.push_back(t[static_cast<size_t>(k)]);
                else { std::stringstream ss; t.format_stream(ss, static_cast<oper_name_t>(k)); shown.push_back(ss.str()); }
            }
            j.b("ok", true).raw("shown", texts(shown)).b("single", t.all_single());
            j.raw("look", arr(queries, [&](const std::string& q) {
                long long id = -1;
                try { id = t.find(q); } catch (const std::invalid_argument&) { }
                return J().raw("t", codes(q)).i("id", id).done();
            }));
        } catch (const std::invalid_argument&) { j.b("ok", false); }
        trace().ev(j.done());
    }

    // "factor#symbol*" and broken variants of it
    std::string number(Rng& rng, bool point) {
        std::string s;
        if (rng.coin(1, 4)) s += rng.coin(3, 4) ? "-" : "+";
        s += std::to_string(rng.below(rng.coin() ? 10 : 4000));
        if (point && rng.coin()) { s += "."; for (int k = rng.below(4); k > 0; --k) s += static_cast<char>('0' + rng.below(10)); }
        return s;
    }
    void parse_term(Rng& rng) {
        std::string s;
        const int kind = rng.below(8);
        if (kind == 0) s = number(rng, true);
        else if (kind == 1) s = number(rng, false) + (rng.coin() ? "*" : "");
        else if (kind == 2) s = std::string("#") + number(rng, false) + (rng.coin() ? "*" : "");
        else s = number(rng, true) + "#" + std::to_string(rng.below(rng.coin() ? 10 : 100000)) + (rng.coin() ? "*" : "");
        if (rng.coin(1, 3)) {               // one or two characters changed
            static const char* any = "0123456789..##**--+AZ;,";
            for (int k = rng.range(1, 2); k > 0 && !s.empty(); --k) {
                const size_t at = static_cast<size_t>(rng.below(static_cast<int>(s.size())));
                const char c = any[rng.below(23)];
                switch (rng.below(3)) {
                    case 0: s[at] = c; break;
                    case 1: s.insert(at, 1, c); break;
                    default: s.erase(at, 1); break;
                }
            }
        }
        if (rng.coin(1, 40)) s = std::string(static_cast<size_t>(rng.range(28, 36)), '0') + (rng.coin() ? "" : "#") + "2";
        if (rng.coin(1, 60)) s = std::to_string(rng.range(1, 9)) + std::string(static_cast<size_t>(rng.range(10, 20)), '7');
        // whatever TLC cannot count is left out
        size_t run = 0, longest = 0;
        for (char c : s) { run = (c >= '0' && c <= '9') ? run + 1 : 0; longest = std::max(longest, run); }
        const auto hash = s.find('#'), point = s.find('.');
        if ((hash != std::string::npos || point != std::string::npos) && longest > 5) return;
        if (s.size() <= 32 && longest > 20) return;
        if (longest > 8 && longest < 11) return;
        J j; j.str("e", "parse").raw("t", codes(s));
        try {
            Monomial m{s};
            j.b("ok", true).i("id", m.id).i("f", m.factor.imag() == 0 ? std::llround(m.factor.real() * 1000 - (m.factor.real() > 0 ? 0.49 : -0.49)) : -1).b("cj", m.conjugated);
        } catch (const Monomial::SymbolParseException&) { j.b("ok", false).i("id", 0).i("f", 0).b("cj", false); }
        trace().ev(j.done());
    }

    struct Named { Scenario sc; std::string json; };
    Named locality_names(Rng& rng, bool def) {
        const int parties = rng.range(1, 3);
        std::vector<std::vector<int>> shape;
        for (int p = 0; p < parties; ++p) {
            std::vector<int> q;
            for (int m = rng.range(1, 3); m > 0; --m) q.push_back(rng.coin(1, 8) ? 13 : rng.range(2, 4));
            shape.push_back(q);
        }
        if (def && rng.coin()) for (int p = parties; p < 28; ++p) shape.push_back({2});    // beyond Z
        if (def && rng.coin()) shape = {{}, {2}};
        if (def && shape[0].empty()) { shape[0] = std::vector<int>(29, 2); }               // measurements beyond z
        auto sc = locality_scenario(shape);
        std::vector<std::string> pn;
        std::vector<std::vector<std::string>> mn;
        for (size_t p = 0; p < shape.size(); ++p) {
            pn.push_back(def ? "" : good_name(rng, 4));
            mn.emplace_back();
            for (size_t m = 0; m < shape[p].size(); ++m) mn.back().push_back(def ? "" : good_name(rng, 3));
        }
        if (def) {
            std::vector<size_t> mp, om;
            for (const auto& q : shape) { mp.push_back(q.size()); for (int o : q) om.push_back(static_cast<size_t>(o)); }
            sc.make = [=] { return std::make_unique<Locality::LocalityContext>(Locality::Party::MakeList(mp, om)); };
            // written down independently: A..Z, AA..; a..z, aa..
            auto nm = [](size_t k, char a) { return k < 26 ? std::string(1, static_cast<char>(a + k)) : std::string(1, static_cast<char>(a + k / 26 - 1)) + static_cast<char>(a + k % 26); };
            for (size_t p = 0; p < shape.size(); ++p) { pn[p] = nm(p, 'A'); for (size_t m = 0; m < shape[p].size(); ++m) mn[p][m] = nm(m, 'a'); }
        } else sc.make = [=]() -> std::unique_ptr<Context> {
            std::vector<Locality::Party> list;
            for (size_t p = 0; p < shape.size(); ++p) {
                std::vector<Locality::Measurement> mm;
                for (size_t m = 0; m < shape[p].size(); ++m) mm.emplace_back(mn[p][m], static_cast<oper_name_t>(shape[p][m]));
                list.emplace_back(static_cast<party_name_t>(p), pn[p], std::move(mm));
            }
            return std::make_unique<Locality::LocalityContext>(std::move(list));
        };
        return {sc, J().str("kind", "locality").i("n", sc.n).raw("pn", texts(pn)).raw("mn", arr(mn, texts)).raw("shape", arr(shape, [](const auto& x) { return ints(x); })).done()};
    }
    Named algebraic_names(Rng& rng, const Scenario& base, int raw_n, int mode, const std::vector<Rule>& rules) {
        std::vector<std::string> names;
        std::set<std::string> used;
        const bool single = rng.coin();
        while (static_cast<int>(names.size()) < raw_n) {
            auto s = single ? std::string(1, letters[rng.below(51)]) : good_name(rng);
            if (used.insert(s).second) names.push_back(s);
        }
        const bool def = rng.coin(1, 6);
        if (def) { names.clear(); for (int k = 0; k < raw_n; ++k) names.push_back("X" + std::to_string(k + 1)); }
        Scenario sc = base;
        sc.make = [=]() -> std::unique_ptr<Context> {
            auto apc = precontext(raw_n, mode);
            auto copy = names;
            auto ctx = def ? std::make_unique<Algebraic::AlgebraicContext>(apc, false, false, make_rules(apc, rules))
                           : std::make_unique<Algebraic::AlgebraicContext>(apc, std::make_unique<Algebraic::NameTable>(apc, std::move(copy)), false, false, make_rules(apc, rules));
            (void) ctx->attempt_completion(64);
            return ctx;
        };
        return {sc, J().str("kind", "algebraic").i("n", sc.n).i("mode", mode).raw("names", texts(names)).done()};
    }

    struct Printer {
        const Context& c;
        Rng& rng;
        const Scenario& sc;
        Locality::NaturalLOFormatter natural;
        Locality::TraditionalLOFormatter traditional;
        std::vector<int> word(int maxlen) {
            std::vector<int> w;
            for (int k = rng.below(maxlen + 1); k > 0; --k) w.push_back(rng.below(sc.n));
            return w;
        }
        void words() {
            const bool loc = sc.kind == "locality";
            auto q = rng.coin(1, 8) ? OperatorSequence::Zero(c) : mk(c, word(4), rng.coin() ? 0 : rng.below(4));
            const bool br = rng.coin();
            const int alt = loc ? rng.below(2) : 0;
            std::stringstream ss;
            ContextualOS os{ss, c};
            os.format_info.show_braces = br;
            if (alt) os.format_info.locality_formatter = &traditional;
            else if (loc && rng.coin()) os.format_info.locality_formatter = &natural;
            std::string t;
            if (!br && !alt && rng.coin()) {
                switch (rng.below(3)) {
                    case 0: t = c.format_sequence(q); break;
                    case 1: t = q.formatted_string(); break;
                    default: { std::stringstream s2; s2 << q; t = s2.str(); }
                }
            } else {
                if (rng.coin()) os << q; else c.format_sequence(os, q);
                t = ss.str();
            }
            trace().ev(J().str("e", "word").raw("q", el(q)).b("br", br).i("alt", alt).raw("t", codes(t)).done());
        }
        void raw() {
            if (sc.kind == "locality" || sc.kind == "inflation") return;       // no notation of their own for raw words
            auto w = word(4);
            const bool br = rng.coin() && !w.empty();
            std::string t;
            if (br) { std::stringstream ss; ContextualOS os{ss, c}; os.format_info.show_braces = true; c.format_raw_sequence(os, ops(w)); t = ss.str(); }
            else t = c.format_raw_sequence(ops(w));
            trace().ev(J().str("e", "raw").raw("w", ints(w)).b("br", br).raw("t", codes(t)).done());
        }
        void indices() {
            if (const auto* ic = dynamic_cast<const Inflation::InflationContext*>(&c)) {
                std::vector<int> w = word(4);
                std::vector<Inflation::OVOIndex> ix;
                for (int x : w) {
                    // observable, copy and outcome of an operator, as the scenario numbers them
                    const auto& obs = ic->Observables();
                    size_t o = 0, v = 0, k = 0, at = 0;
                    for (o = 0; o < obs.size(); ++o) {
                        const size_t per = obs[o].outcomes == 0 ? 1 : obs[o].outcomes - 1;
                        if (static_cast<size_t>(x) < at + per * obs[o].variant_count) { v = (static_cast<size_t>(x) - at) / per; k = (static_cast<size_t>(x) - at) % per; break; }
                        at += per * obs[o].variant_count;
                    }
                    ix.emplace_back(static_cast<oper_name_t>(o), static_cast<oper_name_t>(v), static_cast<oper_name_t>(k));
                }
                trace().ev(J().str("e", "index").raw("op", ints(w)).raw("t", codes(ic->format_sequence(ix))).done());
            }
            if (const auto* lc = dynamic_cast<const Locality::LocalityContext*>(&c)) {
                std::vector<Locality::PMOIndex> ix;
                std::string s = "[";
                for (int k = rng.below(4); k > 0; --k) {
                    const auto& party = lc->Parties[static_cast<size_t>(rng.below(static_cast<int>(lc->Parties.size())))];
                    const auto& mmt = party.Measurements[static_cast<size_t>(rng.below(static_cast<int>(party.Measurements.size())))];
                    Locality::PMOIndex x;
                    x.party = party.id(); x.mmt = mmt.Index().mmt; x.outcome = rng.below(static_cast<int>(mmt.num_outcomes));
                    if (s.size() > 1) s += ",";
                    s += "[" + std::to_string(x.party) + "," + std::to_string(x.mmt) + "," + std::to_string(x.outcome) + "]";
                    ix.push_back(x);
                }
                const int alt = rng.below(2);
                auto t = alt ? lc->format_sequence(traditional, ix, false) : lc->format_sequence(natural, ix, false);
                trace().ev(J().str("e", "pmo").raw("ix", s + "]").i("alt", alt).raw("t", codes(t)).done());
            }
        }
    };
    template<typename S, typename C> std::unique_ptr<MatrixSystem> system_of(std::unique_ptr<Context> ctx) {
        return std::make_unique<S>(std::unique_ptr<C>(dynamic_cast<C*>(ctx.release())));
    }

    void polynomials(MatrixSystem& sys, Rng& rng, int count) {
        const auto& t = sys.Symbols();
        trace().ev(J().str("e", "words").raw("t", arr(t, [](const Symbol& y) {
            return J().b("has", y.has_sequence()).raw("q", y.has_sequence() ? el(y.sequence()) : el(HashedSequence{true})).raw("cq", y.has_sequence() ? el(y.sequence_conj()) : el(HashedSequence{true})).done(); })).done());
        auto c = [&] { return static_cast<double>(rng.coin() ? rng.range(-1, 1) : rng.range(-12, 12)); };
        auto m = [&] {
            std::complex<double> f;
            switch (rng.below(4)) { case 0: f = 1.0; break; case 1: f = c(); break; case 2: f = {0, c()}; break; default: f = {c(), c()}; }
            return Monomial{static_cast<symbol_name_t>(rng.below(static_cast<int>(t.size()))), f, rng.coin(1, 3)};
        };
        for (int k = 0; k < count; ++k) {
            const bool single = rng.coin(1, 3), plain = rng.coin(1, 3);
            Polynomial::storage_t d;
            Monomial one = m();
            if (!single) for (int q = rng.below(5); q > 0; --q) d.push_back(m());
            const Polynomial p = single ? Polynomial{} : sys.polynomial_factory()(std::move(d));
            const bool plus = rng.coin(1, 3), hash = rng.coin();
            bool as_ops = !plain && rng.coin(2, 3);
            int join = plain ? (hash ? 0 : 1) : rng.below(3);
            const bool braces = rng.coin();
            std::string text;
            std::stringstream ss;
            if (plain) {
                if (plus) ss << std::showpos;
                if (hash) ss << std::showbase;
                if (single) ss << one; else ss << p;
                text = ss.str();
                if (static_cast<bool>(ss.flags() & std::ios::showpos) != plus || static_cast<bool>(ss.flags() & std::ios::showbase) != hash) text += "?";
            } else {
                const bool table = as_ops || rng.coin();
                ContextualOS os = table ? ContextualOS{ss, sys.Context(), t} : ContextualOS{ss, sys.Context()};
                os.format_info.show_braces = braces;
                os.format_info.hash_before_symbol_id = hash;
                os.format_info.prefactor_join = static_cast<StringFormatContext::PrefactorJoin>(join);
                os.format_info.display_symbolic_as = as_ops ? StringFormatContext::DisplayAs::Operators : (table ? StringFormatContext::DisplayAs::SymbolIds : StringFormatContext::DisplayAs::Operators);
                if (single) os.format_info.first_in_polynomial = !plus;
                else if (rng.coin(1, 4)) { os << sys.polynomial_factory()({Monomial{1, 2.0}}); ss.str(""); }    // something was written before
                if (rng.coin()) { if (single) os << one; else os << p; text = ss.str(); }
                else text = single ? one.as_string(os) : p.as_string(os);
            }
            trace().ev(J().str("e", single ? "term" : "poly").raw("p", single ? "[" + mono(one) + "]" : poly(p))
                .raw("style", J().b("ops", as_ops).i("join", join).b("hash", hash).b("braces", braces).b("plus", plus && (plain || single)).done())
                .raw("t", codes(text)).done());
        }
    }

    // what a description of a matrix says: in words of the scenario, and by names of matrices and rulebooks where there are such
    void descriptions(MatrixSystem& sys, Rng& rng, const Scenario& sc, int count) {
        const auto& t = sys.Symbols();
        try {
            (void)sys.MomentMatrix.create(MomentMatrixIndex{0u});
            if (sc.n <= 4) (void)sys.MomentMatrix.create(MomentMatrixIndex{1u});
        } catch (const std::exception&) { return; }
        for (int k = rng.below(3); k > 0; --k) {
            auto b = std::make_unique<MomentRulebook>(sys, true);
            if (rng.coin()) { std::string n; for (int q = rng.below(6); q > 0; --q) n += static_cast<char>("aB 9_#"[rng.below(6)]); b->set_name(n); }
            (void)sys.Rulebook.add(std::move(b));
        }
        for (int k = 0; k < count; ++k) {
            const size_t level = static_cast<size_t>(rng.coin() ? rng.below(4) : rng.below(120));
            std::string x;
            switch (rng.below(4)) {
            case 0: {
                J j; j.str("e", "mmi").i("level", level);
                x = MomentMatrixIndex{level}.to_string(sys);
                trace().ev(j.raw("t", codes(x)).done());
            } break;
            case 1: {
                const auto& y = t[rng.below(static_cast<int>(t.size()))];
                if (!y.has_sequence()) break;
                J j; j.str("e", "lmi").i("level", level).raw("q", el(y.sequence()));
                x = LocalizingMatrixIndex{level, y.sequence()}.to_string(sys);
                trace().ev(j.raw("t", codes(x)).done());
            } break;
            case 2: {
                Polynomial::storage_t d;
                for (int q = rng.below(4); q > 0; --q) d.push_back(Monomial{static_cast<symbol_name_t>(rng.below(static_cast<int>(t.size()))), {static_cast<double>(rng.range(-3, 3)), static_cast<double>(rng.range(-1, 1))}, rng.coin(1, 3)});
                auto pp = sys.polynomial_factory()(std::move(d));
                J j; j.str("e", "plmi").i("level", level).raw("p", poly(pp)).raw("style", J().b("ops", true).i("join", 0).b("hash", false).b("braces", false).b("plus", false).done());
                x = PolynomialLocalizingMatrixIndex{level, std::move(pp)}.to_string(sys);
                trace().ev(j.raw("t", codes(x)).done());
            } break;
            default: {
                const int m = rng.range(-2, static_cast<int>(sys.size()) + 1), r = rng.range(-2, static_cast<int>(sys.Rulebook.size()) + 1);
                std::string ds = "[", ns = "[";
                for (size_t q = 0; q < sys.size(); ++q) ds += (q ? "," : "") + codes(sys[static_cast<ptrdiff_t>(q)].Description());
                for (size_t q = 0; q < sys.Rulebook.size(); ++q) ns += (q ? "," : "") + codes(sys.Rulebook.find(static_cast<ptrdiff_t>(q)).name());
                J j; j.str("e", "smi").i("m", m).i("r", r).raw("ds", ds + "]").raw("ns", ns + "]");
                try { x = SubstitutedMatrixIndex{m, r}.to_string(sys); j.raw("t", codes(x)); }
                catch (const std::exception& ex) { j.str("threw", ex.what()).raw("t", "[]"); }
                trace().ev(j.done());
            } break;
            }
        }
    }

    void session(const std::string& name, const Named& nm, Rng& rng, int count) {
        trace().begin(name);
        auto ctx = nm.sc.make();
        trace().ev(J().str("e", "ctx").raw("c", nm.json).done());
        {
            Printer p{*ctx, rng, nm.sc, {}, {}};
            for (int k = 0; k < count; ++k) { p.words(); if (rng.coin()) p.raw(); if (rng.coin()) p.indices(); }
        }
        std::unique_ptr<MatrixSystem> sys;
        if (nm.sc.kind == "locality") sys = system_of<Locality::LocalityMatrixSystem, Locality::LocalityContext>(std::move(ctx));
        else if (nm.sc.kind == "algebraic") sys = system_of<Algebraic::AlgebraicMatrixSystem, Algebraic::AlgebraicContext>(std::move(ctx));
        else if (nm.sc.kind == "inflation") sys = system_of<Inflation::InflationMatrixSystem, Inflation::InflationContext>(std::move(ctx));
        else if (nm.sc.kind == "pauli") sys = system_of<Pauli::PauliMatrixSystem, Pauli::PauliContext>(std::move(ctx));
        else sys = std::make_unique<MatrixSystem>(std::move(ctx));
        if (nm.sc.n <= 12) sys->generate_dictionary(nm.sc.n <= 5 ? 2 : 1);
        else sys->generate_dictionary(1);
        polynomials(*sys, rng, count);
        descriptions(*sys, rng, nm.sc, count / 2);
    }
}

int main(int argc, char** argv) {
    auto o = parse(argc, argv);
    install_handlers();
    trace().open(o);
    Rng rng{o.seed * 7919 + 18};
    const int rounds = o.thorough() ? 24 : 6, count = o.thorough() ? 60 : 40;
    for (int r = 0; r < rounds; ++r) {
        const auto tag = "#" + std::to_string(r);
        trace().begin("names" + tag);
        numbered_names(rng);
        for (int k = 0; k < 60; ++k) name_table(rng);
        trace().begin("parse" + tag);
        for (int k = 0; k < 250; ++k) parse_term(rng);
        for (int v = 0; v < 4; ++v) session("loc" + std::to_string(v) + tag, locality_names(rng, v == 3), rng, count);
        struct A { const char* n; int raw, mode; std::vector<Rule> rules; };
        const std::vector<A> algs{{"sa", 3, 0, {}}, {"bunched", 2, 1, {}}, {"inter", 2, 2, {}}, {"neg", 2, 0, {{{0,0},2,{}}, {{1,1},0,{}}, {{1,0},2,{0,1}}}},
                                  {"imag", 3, 0, {{{0,0},0,{}}, {{1,1},0,{}}, {{2,2},0,{}}, {{0,1},1,{2}}, {{1,2},1,{0}}, {{2,0},1,{1}}}}, {"unit", 2, 1, {{{0,2},0,{}}, {{2,0},0,{}}}}};
        for (const auto& a : algs) session(std::string("alg_") + a.n + tag, algebraic_names(rng, algebraic_scenario(a.n, a.raw, a.mode, a.rules), a.raw, a.mode, a.rules), rng, count);
        for (const auto& f : {free_scenario(2), free_scenario(12)}) session(f.name + tag, {f, f.json}, rng, count);
        for (const auto& f : {pauli_scenario(2), pauli_scenario(4), pauli_scenario(2, 2, true, true), pauli_scenario(11)}) session(f.name + tag, {f, f.json}, rng, count);
        for (const auto& f : {inflation_scenario({2, 2}, {{0, 1}}, 1), inflation_scenario({2, 2, 2}, {{0, 1}, {1, 2}, {0, 2}}, 2), inflation_scenario({3, 2, 0}, {{0, 1}, {1}}, 2),
                              inflation_scenario({2, 3}, {{0}, {0, 1}}, 3), inflation_scenario({4}, {{0}}, 1), inflation_scenario({2}, {{0}}, 11), inflation_scenario({0, 2}, {{0}}, 2),
                              inflation_scenario({3}, {{0}}, 10)})
            session(f.name + tag, {f, f.json}, rng, count);
    }
    trace().close();
    return 0;
}
