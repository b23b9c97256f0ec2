// Drives Collins-Gisin tensors, probability tensors and full correlators of locality and inflation systems as their symbol tables grow.
#include "ratios.h"
#include "dictionary/operator_sequence_generator.h"
#include "matrix/operator_matrix/moment_matrix.h"
#include "probability/collins_gisin.h"
#include "probability/full_correlator.h"
#include "probability/probability_tensor.h"
#include "probability/virtual_polynomial_view.h"
#include "scenarios/inflation/extended_matrix.h"
#include "scenarios/inflation/inflation_collins_gisin.h"
#include "scenarios/inflation/inflation_full_correlator.h"
#include "scenarios/inflation/inflation_probability_tensor.h"
#include "scenarios/locality/locality_collins_gisin.h"
#include "scenarios/locality/locality_full_correlator.h"
#include "scenarios/locality/locality_probability_tensor.h"
#include "scenarios/locality/tensor_conversion.h"
#include "probability/maintains_tensors.h"
#include <atomic>
#include <thread>
using namespace vf;
using Locality::PMIndex;
using Locality::PMOIndex;
using Inflation::OVIndex;
using Inflation::OVOIndex;

namespace {
    constexpr double tolerance = 4096.0;
    struct Ask { int g, out; };     // measurement, and its outcome or -1
    struct Axis { std::vector<int> outcomes; bool all = false; };

    struct Session {
        const Scenario& sc;
        const Options& o;
        Rng& rng;
        std::unique_ptr<MatrixSystem> sys;
        MaintainsTensors& mt;
        Locality::LocalityMatrixSystem* ls;
        Inflation::InflationMatrixSystem* is;
        std::vector<std::pair<int, int>> mmts;      // axis, outcomes
        std::vector<bool> every;                    // every outcome has its operator
        size_t axes = 0, seen = 0;
        bool binary = true;

        Session(const Scenario& sc, const Options& o, Rng& rng, int how)
            : sc{sc}, o{o}, rng{rng}, sys{make_system(sc, tolerance, how)}, mt{dynamic_cast<MaintainsTensors&>(*sys)},
              ls{dynamic_cast<Locality::LocalityMatrixSystem*>(sys.get())}, is{dynamic_cast<Inflation::InflationMatrixSystem*>(sys.get())} {
            if (ls) for (const auto& p : ls->localityContext.Parties) {
                for (const auto& m : p.Measurements) { mmts.emplace_back(static_cast<int>(axes), static_cast<int>(m.num_outcomes)); every.push_back(false); }
                ++axes;
            }
            else for (const auto& b : std::as_const(*is).InflationContext().Observables()) for (size_t v = 0; v < b.variant_count; ++v) {
                mmts.emplace_back(static_cast<int>(axes++), b.projective() ? static_cast<int>(b.outcomes) : 1);
                every.push_back(!b.projective());
            }
            for (auto& m : mmts) binary = binary && m.second == 2;
        }
        const SymbolTable& t() { return std::as_const(*sys).Symbols(); }
        const PolynomialFactory& fac() { return sys->polynomial_factory(); }

        void table() {
            if (t().size() == seen) return;
            seen = t().size();
            std::string s = "[";
            for (size_t k = 0; k < seen; ++k) {
                const auto& y = t()[static_cast<symbol_name_t>(k)];
                if (k) s += ",";
                s += J().b("h", y.is_hermitian()).b("ah", y.is_antihermitian()).i("re", y.basis_key().first).i("im", y.basis_key().second)
                    .b("has", y.has_sequence()).raw("q", y.has_sequence() ? el(y.sequence()) : el(HashedSequence{true})).done();
            }
            trace().ev(J().str("e", "tab").raw("t", s + "]").i("nre", static_cast<long long>(t().Basis.RealSymbolCount())).i("nim", static_cast<long long>(t().Basis.ImaginarySymbolCount())).done());
        }
        void guarded(J& j, const std::function<void()>& f) {
            try { f(); }
            catch (const std::exception& ex) { j.str("threw", ex.what()); }
        }
        void emit(J& j) { table(); trace().ev(j.done()); }

        // ---------------------------------------------------------------- growing the symbol table
        void mm(size_t level) { sys->MomentMatrix.create(level, rng.coin() ? MT::Never : MT::Always); table(); }
        void few() {    // a few words, or something without a word
            auto lock = sys->get_write_lock();
            auto& y = sys->Symbols();
            if (rng.coin(1, 4)) { const int k = rng.below(3); y.create(k != 0, k != 1); }
            for (int n = rng.range(1, 4); n > 0; --n) {
                std::vector<int> w;
                std::vector<int> at(axes, -1);
                const auto& c = ls->localityContext;
                for (const auto& p : c.Parties) if (rng.coin() && p.size()) w.push_back(p[static_cast<size_t>(rng.below(static_cast<int>(p.size())))]);
                y.merge_in(mk(c, w));
            }
        }
        void grow() {
            const int w = ls && rng.coin() ? 8 : rng.below(8);
            if (w == 8) { few(); table(); }
            else if (w < 2) { sys->generate_dictionary(1); table(); }
            else if (w < 5) mm(0 + rng.below(2));
            else if (w < 6 && sc.n <= 6) mm(2);
            else if (w < 7 && is && seen > 2 && seen < 120) {
                try {
                    std::vector<symbol_name_t> list;
                    for (int n = rng.range(1, 2); n > 0; --n) list.push_back(static_cast<symbol_name_t>(1 + rng.below(static_cast<int>(seen) - 1)));
                    is->ExtendedMatrices.create(Inflation::ExtendedMatrixIndex{1, std::span<const symbol_name_t>{list}}, MT::Never);
                } catch (const std::exception&) {}
                table();
            }
            else if (sc.n <= 5) { sys->generate_dictionary(2); table(); }
        }
        // ---------------------------------------------------------------- dumping tensors
        std::string cg_item(const CollinsGisin& cg, size_t off, const CollinsGisinEntry& x) {
            return J().i("o", static_cast<long long>(off)).raw("ix", ints(cg.offset_to_index(off))).raw("q", el(x.sequence)).i("id", x.symbol_id).i("re", x.real_index).b("al", x.is_alias).done();
        }
        template<typename T> std::string poly_item(const T& tensor, size_t off, const PolynomialElement& x) {
            return J().i("o", static_cast<long long>(off)).raw("ix", ints(tensor.offset_to_index(off))).raw("cg", terms(x.cgPolynomial)).b("has", x.hasSymbolPoly).raw("sy", terms(x.symbolPolynomial)).done();
        }
        template<typename T, typename F> std::string items(const T& tensor, F f) {
            const bool virt = tensor.StorageType == TensorStorageType::Virtual;
            std::string s = "[";
            auto add = [&](size_t off, const auto& x) { if (s.size() > 1) s += ","; s += f(off, x); };
            if (!virt) {
                const int how = rng.below(3);
                if (how == 0) { size_t k = 0; for (const auto& x : tensor.Data()) add(k++, x); }
                else if (how == 1) { size_t k = 0; for (auto it = tensor.begin(); it != tensor.end(); ++it, ++k) { if (it.offset() != k) break; add(k, *it); } }
                else for (size_t k = 0; k < tensor.ElementCount; ++k) { const auto ix = tensor.offset_to_index(k); auto v = tensor(ix); add(k, *v.operator->()); }
            } else if (tensor.ElementCount < 150) for (auto it = tensor.begin(); it != tensor.end(); ++it) add(it.offset(), *it);
            else {
                for (int n = 40; n > 0; --n) {
                    const auto k = static_cast<size_t>(rng.below(static_cast<int>(tensor.ElementCount)));
                    if (rng.coin()) { auto v = tensor.at(k); add(k, *v.operator->()); }
                    else { const auto ix = tensor.offset_to_index(k); auto v = tensor(ix); add(k, *v.operator->()); }
                }
            }
            return s + "]";
        }
        template<typename T> void header(J& j, const char* kind, const char* store, const T& tensor) {
            j.str("e", "tensor").str("kind", kind).str("store", store).raw("dims", ints(tensor.Dimensions)).i("count", static_cast<long long>(tensor.ElementCount))
             .b("virt", tensor.StorageType == TensorStorageType::Virtual);
        }
        void dump_cg() {
            J j;
            guarded(j, [&] {
                const bool ret = mt.RefreshCollinsGisin();
                const auto& cg = mt.CollinsGisin();
                header(j, "cg", "auto", cg);
                j.b("ret", ret).b("all", cg.HasAllSymbols()).raw("missing", ints(cg.MissingSymbols()))
                 .raw("items", items(cg, [&](size_t off, const CollinsGisinEntry& x) { return cg_item(cg, off, x); }));
            });
            emit(j);
        }
        template<typename T> void dump(J& j, const char* kind, const char* store, const T& tensor, bool ret) {
            header(j, kind, store, tensor);
            j.b("ret", ret).b("all", tensor.HasAllPolynomials()).raw("missing", "[]")
             .raw("items", items(tensor, [&](size_t off, const PolynomialElement& x) { return poly_item(tensor, off, x); }));
        }
        void dump_pt() {
            J j;
            guarded(j, [&] { const bool ret = mt.RefreshProbabilityTensor(); dump(j, "pt", "auto", mt.ProbabilityTensor(), ret); });
            emit(j);
        }
        void dump_fc() {
            J j;
            try { const bool ret = mt.RefreshFullCorrelator(); dump(j, "fc", "auto", mt.FullCorrelator(), ret); }
            catch (const std::logic_error&) { j = J(); j.str("e", "nofc"); }
            catch (const std::exception& ex) { j.str("threw", ex.what()); }
            emit(j);
        }
        void forced() {     // tensors of our own, with chosen storage
            mt.RefreshCollinsGisin();
            const bool virt = size_pt() > 700 || rng.coin();
            const auto st = virt ? TensorStorageType::Virtual : TensorStorageType::Explicit;
            const char* name = virt ? "virtual" : "explicit";
            J j;
            guarded(j, [&] {
                if (ls && (!binary || rng.coin())) { Locality::LocalityProbabilityTensor p{*ls, st}; dump(j, "pt", name, p, p.HasAllPolynomials()); }
                else if (ls) { Locality::LocalityFullCorrelator p{*ls, st}; dump(j, "fc", name, p, p.HasAllPolynomials()); }
                else if (binary) { Inflation::InflationFullCorrelator p{*is, st}; dump(j, "fc", name, p, p.HasAllPolynomials()); }
                else j.str("e", "none");
            });
            emit(j);
        }
        size_t size_cg() {
            std::vector<size_t> d(axes, 1);
            for (size_t k = 0; k < mmts.size(); ++k) d[mmts[k].first] += every[k] ? 1 : mmts[k].second - 1;
            size_t n = 1;
            for (auto x : d) n *= x;
            return n;
        }
        size_t size_pt() {
            std::vector<size_t> d(axes, 1);
            for (auto& m : mmts) d[m.first] += m.second;
            size_t n = 1;
            for (auto x : d) n *= x;
            return n;
        }

        // ---------------------------------------------------------------- queries
        std::vector<Ask> ask(bool cg, bool fix, bool bad) {
            std::vector<Ask> v;
            std::set<int> used;
            for (int n = rng.range(0, static_cast<int>(std::min<size_t>(axes, 3))); n > 0; --n) {
                const int g = rng.below(static_cast<int>(mmts.size()));
                if (!bad && used.count(mmts[g].first)) continue;
                used.insert(mmts[g].first);
                const int outs = cg && !every[g] ? mmts[g].second - 1 : mmts[g].second;
                v.push_back({g, fix && outs > 0 && rng.coin() ? rng.below(outs) : -1});
                if (bad && fix && rng.coin(1, 4)) v.back().out = outs + rng.below(2);
            }
            if (bad && ls && rng.coin()) v.push_back({static_cast<int>(mmts.size()) + rng.below(2), -1});
            std::stable_partition(v.begin(), v.end(), [](const Ask& a) { return a.out < 0; });
            return v;
        }
        std::string asked(const std::vector<Ask>& v) { return arr(v, [](const Ask& a) { return "[" + std::to_string(a.g) + "," + std::to_string(a.out) + "]"; }); }
        PMIndex pm(int g) {
            if (g >= static_cast<int>(mmts.size())) return PMIndex{0, 0, static_cast<size_t>(g)};
            const auto x = ls->localityContext.global_index_to_PM(static_cast<size_t>(g));
            return rng.coin() ? x : PMIndex{ls->localityContext, x.party, x.mmt};
        }
        OVIndex ov(int g) { return std::as_const(*is).InflationContext().index_to_obs_variant(static_cast<oper_name_t>(g)); }
        std::pair<std::vector<PMIndex>, std::vector<PMOIndex>> split_pm(const std::vector<Ask>& v) {
            std::pair<std::vector<PMIndex>, std::vector<PMOIndex>> r;
            for (auto& a : v) if (a.out < 0) r.first.push_back(pm(a.g)); else r.second.push_back(PMOIndex{pm(a.g), static_cast<uint32_t>(a.out)});
            return r;
        }
        std::pair<std::vector<OVIndex>, std::vector<OVOIndex>> split_ov(const std::vector<Ask>& v) {
            std::pair<std::vector<OVIndex>, std::vector<OVOIndex>> r;
            for (auto& a : v) if (a.out < 0) r.first.push_back(ov(a.g)); else r.second.push_back(OVOIndex{ov(a.g), static_cast<oper_name_t>(a.out)});
            return r;
        }
        template<typename R> void put_range(J& j, const R& r) {
            std::vector<size_t> off, pos;
            for (auto it = r.begin(); it != r.end(); ++it) { off.push_back(it.offset()); pos.push_back(it.block_offset()); if (off.size() > 5000) break; }
            j.str("res", "ok").raw("dims", ints(r.Dimensions())).i("size", static_cast<long long>(r.size())).raw("o", ints(off)).raw("p", ints(pos));
        }
        void range() {
            const bool cg = rng.coin();
            const auto v = ask(cg, true, rng.coin(1, 6));
            const bool free = std::all_of(v.begin(), v.end(), [](const Ask& a) { return a.out < 0; });
            J j; j.str("e", "range").str("kind", cg ? "cg" : "pt").raw("asked", asked(v));
            try {
                if (cg) mt.RefreshCollinsGisin(); else mt.RefreshProbabilityTensor();
                const int how = rng.below(3);
                if (cg && how == 0) {
                    std::vector<size_t> g; std::vector<oper_name_t> x;
                    for (auto& a : v) { g.push_back(static_cast<size_t>(a.g)); x.push_back(static_cast<oper_name_t>(a.out)); }
                    if (free && rng.coin()) put_range(j, mt.CollinsGisin().measurement_to_range(std::span<const size_t>{g}));
                    else put_range(j, mt.CollinsGisin().measurement_to_range(std::span<const size_t>{g}, std::span<const oper_name_t>{x}));
                } else if (ls) {
                    auto [f, x] = split_pm(v);
                    if (cg && free && how == 1) put_range(j, ls->LocalityCollinsGisin().measurement_to_range(std::span<const PMIndex>{f}));
                    else if (cg) put_range(j, ls->LocalityCollinsGisin().measurement_to_range(std::span<const PMIndex>{f}, std::span<const PMOIndex>{x}));
                    else if (free && how == 1) put_range(j, ls->LocalityProbabilityTensor().measurement_to_range(f));
                    else put_range(j, ls->LocalityProbabilityTensor().measurement_to_range(f, x));
                } else {
                    auto [f, x] = split_ov(v);
                    if (cg && free && how == 1) put_range(j, is->InflationCollinsGisin().measurement_to_range(std::span<const OVIndex>{f}));
                    else if (cg) put_range(j, is->InflationCollinsGisin().measurement_to_range(std::span<const OVIndex>{f}, std::span<const OVOIndex>{x}));
                    else if (free && how == 1) put_range(j, is->InflationProbabilityTensor().measurement_to_range(f));
                    else put_range(j, is->InflationProbabilityTensor().measurement_to_range(f, x));
                }
            }
            catch (const Moment::errors::BadCGError&) { j.str("res", "bad"); }
            catch (const Moment::errors::BadPTError&) { j.str("res", "bad"); }
            catch (const std::exception& ex) { j.str("threw", ex.what()); }
            emit(j);
        }
        std::vector<Ask> outcomes(bool bad) {
            auto v = ask(false, true, false);
            for (auto& a : v) a.out = rng.below(mmts[a.g].second);
            if (bad && !v.empty()) {
                const int how = rng.below(3);
                if (how == 0) v.push_back(v[0]);
                else if (how == 1 && ls) v[0].g = static_cast<int>(mmts.size());
                else v[0].out = mmts[v[0].g].second + rng.below(2);
            }
            return v;
        }
        void elem() {
            const auto v = outcomes(rng.coin(1, 8));
            J j; j.str("e", "elem").raw("asked", asked(v));
            try {
                mt.RefreshProbabilityTensor();
                if (ls) { auto x = split_pm(v).second; auto e = ls->LocalityProbabilityTensor().outcome_to_element(x); j.raw("cg", terms(e->cgPolynomial)); }
                else { auto x = split_ov(v).second; auto e = is->InflationProbabilityTensor().outcome_to_element(x); j.raw("cg", terms(e->cgPolynomial)); }
                j.str("res", "ok");
            }
            catch (const Moment::errors::BadPTError&) { j.str("res", "bad"); }
            catch (const std::exception& ex) { j.str("threw", ex.what()); }
            emit(j);
        }
        void corr() {
            if (!ls || !binary) return;
            auto v = ask(false, false, false);
            if (!v.empty() && rng.coin(1, 8)) v.push_back({v[0].g, -1});
            std::vector<PMIndex> p;
            for (auto& a : v) p.push_back(pm(a.g));
            const bool bad = rng.coin(1, 10) && ls;
            if (bad) { if (rng.coin()) p.push_back(PMIndex{static_cast<party_name_t>(axes), 0}); else p.push_back(PMIndex{0, static_cast<mmt_name_t>(ls->localityContext.Parties[0].Measurements.size())}); v.push_back({-1, -1}); }
            J j; j.str("e", "corr").raw("asked", arr(v, [](const Ask& a) { return std::to_string(a.g); }));
            try {
                mt.RefreshFullCorrelator();
                auto e = ls->LocalityFullCorrelator().mmt_to_element(p);
                j.str("res", "ok").raw("cg", terms(e->cgPolynomial));
            }
            catch (const Moment::errors::BadFCError&) { j.str("res", "bad"); }
            catch (const std::exception& ex) { j.str("threw", ex.what()); }
            emit(j);
        }
        void rules() {
            auto v = ask(false, true, false);
            bool cond = rng.coin();
            std::vector<Ask> given;
            for (auto& a : v) if (a.out >= 0) given.push_back(a);
            size_t n = 1;
            for (auto& a : v) if (a.out < 0) n *= static_cast<size_t>(mmts[a.g].second);
            if (n > 80) return;
            std::vector<double> val;
            std::string vs = "[";
            for (size_t k = 0; k < n; ++k) {
                const int num = rng.range(0, 4), den = 1 << rng.below(4);
                val.push_back(static_cast<double>(num) / den);
                vs += (k ? ",[" : "[") + std::to_string(num) + "," + std::to_string(den) + "]";
            }
            J j; j.str("e", "rules").raw("asked", asked(v)).b("cond", cond).raw("val", vs + "]");
            try {
                mt.RefreshProbabilityTensor();
                std::vector<Polynomial> out;
                if (ls) {
                    const auto& p = ls->LocalityProbabilityTensor();
                    auto [f, x] = split_pm(v);
                    if (cond) { auto c = p.outcome_to_element(x); out = p.explicit_value_rules(p.measurement_to_range(f, x), c, val); }
                    else out = p.explicit_value_rules(p.measurement_to_range(f, x), val);
                } else {
                    const auto& p = is->InflationProbabilityTensor();
                    auto [f, x] = split_ov(v);
                    if (cond) { auto c = p.outcome_to_element(x); out = p.explicit_value_rules(p.measurement_to_range(f, x), c, val); }
                    else out = p.explicit_value_rules(p.measurement_to_range(f, x), val);
                }
                j.str("res", "ok").raw("out", arr(out, [](const Polynomial& p) { return terms(p); }));
            }
            catch (const Moment::errors::BadPTError&) { j.str("res", "missing"); }
            catch (const std::exception& ex) { j.str("threw", ex.what()); }
            emit(j);
        }
        void conv() {
            if (!ls) return;
            std::vector<double> in;
            size_t n = 1;
            for (auto x : ls->localityContext.operators_per_party()) n *= x + 1;
            if (n > 200) return;
            if (rng.coin(1, 8)) n = rng.coin() ? n + 1 : n - 1;
            std::vector<int> iv;
            for (size_t k = 0; k < n; ++k) { iv.push_back(rng.range(-3, 3)); in.push_back(iv.back()); }
            const bool tofc = rng.coin();
            J j; j.str("e", "conv").b("tofc", tofc).raw("in", ints(iv));
            try {
                Locality::TensorConvertor c{ls->localityContext};
                auto out = tofc ? c.collins_gisin_to_full_correlator(in) : c.full_correlator_to_collins_gisin(in);
                j.str("res", "ok").raw("out", arr(out, [](double x) { return "[" + ratio(x) + "]"; }));
            }
            catch (const std::invalid_argument&) { j.str("res", "size"); }
            catch (const std::exception&) { j.str("res", "no"); }
            emit(j);
        }
        void view() {
            J j;
            guarded(j, [&] {
                mt.RefreshProbabilityTensor();
                const bool pt = !(ls && binary) || rng.coin();
                if (!pt) mt.RefreshFullCorrelator();
                const PolynomialTensor& p = pt ? static_cast<const PolynomialTensor&>(mt.ProbabilityTensor()) : static_cast<const PolynomialTensor&>(mt.FullCorrelator());
                const auto k = static_cast<size_t>(rng.below(static_cast<int>(p.ElementCount)));
                const auto ix = p.offset_to_index(k);
                Polynomial poly = p.CGPolynomial(ix);
                VirtualPolynomialView v{mt.CollinsGisin(), poly};
                std::string s = "[";
                for (auto it = v.begin(); it != v.end(); ++it) {
                    auto [q, f] = *it;
                    if (s.size() > 1) s += ",";
                    s += J().raw("q", el(q)).i("re", whole(f.real())).i("im", whole(f.imag())).done();
                }
                j.str("e", "view").str("kind", pt ? "pt" : "fc").i("o", static_cast<long long>(k)).b("size", v.size() == poly.size() && v.empty() == poly.empty()).raw("out", s + "]");
            });
            emit(j);
        }
        // Many threads want a tensor that does not yet exist: it is made once.
        static void race(const Scenario& sc, Rng& rng, int tries) {
            for (int n = 0; n < tries; ++n) {
                auto sys = make_system(sc, tolerance, 0);
                auto& mt = dynamic_cast<MaintainsTensors&>(*sys);
                if (rng.coin()) sys->MomentMatrix.create(1, MT::Never);
                constexpr int count = 6;
                const void* seen[count][2] = {};
                bool fine[count] = {};
                std::atomic<int> ready{0};
                std::vector<std::thread> pool;
                const int what = rng.below(3);
                for (int k = 0; k < count; ++k) pool.emplace_back([&, k] {
                    ++ready;
                    while (ready.load() < count) {}
                    auto lock = sys->get_read_lock();
                    if (what == 0 || (what == 2 && k % 2)) mt.RefreshCollinsGisin(lock); else mt.RefreshProbabilityTensor(lock);
                    seen[k][0] = &mt.CollinsGisin();
                    fine[k] = what == 0 || (what == 2 && k % 2) || &mt.ProbabilityTensor().collinsGisin == seen[k][0];
                    if (what == 1) seen[k][1] = &mt.ProbabilityTensor();
                });
                for (auto& x : pool) x.join();
                bool same = true;
                for (int k = 0; k < count; ++k) same = same && fine[k] && seen[k][0] == &mt.CollinsGisin() && seen[k][1] == seen[0][1];
                trace().ev(J().str("e", "race").i("what", what).b("same", same).done());
            }
        }
        void names() {
            if (!ls) return;
            const auto& c = ls->localityContext;
            std::string pms = "[", opl = "[", back = "[";
            bool same = true;
            std::vector<PMIndex> list;
            for (size_t g = 0; g < mmts.size(); ++g) {
                const auto x = c.global_index_to_PM(g);
                list.push_back(PMIndex{x.party, x.mmt});
                const auto& p = c.Parties[x.party];
                const auto& m = p.Measurements[x.mmt];
                if (g) { pms += ","; opl += ","; back += ","; }
                pms += "[" + std::to_string(x.party) + "," + std::to_string(x.mmt) + "," + std::to_string(x.global_mmt) + "]";
                std::vector<long long> a, b;
                for (int k = 0; k < m.num_operators(); ++k) {
                    a.push_back(p.measurement_outcome(x.mmt, static_cast<size_t>(k)));
                    b.push_back(p.measurement_of(static_cast<oper_name_t>(a.back())).Index().mmt);
                    same = same && &c.associated_party(static_cast<oper_name_t>(a.back())) == &p;
                }
                opl += ints(a); back += ints(b);
                const auto y = m.Index();
                same = same && y.party == x.party && y.mmt == x.mmt && y.global_mmt == g && PMIndex{c, x.party, x.mmt}.global_mmt == g && c.get_global_mmt_index(x.party, x.mmt) == g
                    && c.get_global_mmt_index(PMOIndex{x.party, x.mmt, 0}) == g;
            }
            auto filled = list;
            c.populate_global_mmt_index(filled);
            for (size_t g = 0; g < filled.size(); ++g) same = same && filled[g].global_mmt == g;
            auto back_index = c.PM_to_global_index(list);
            for (size_t g = 0; g < list.size(); ++g) same = same && back_index[g] == g;
            same = same && c.outcomes_per_measurement(list) == c.outcomes_per_measurement();
            int thrown = 0;
            const std::vector<PMIndex> far{PMIndex{static_cast<party_name_t>(axes), 0}}, past{PMIndex{0, static_cast<mmt_name_t>(c.Parties[0].Measurements.size())}};
            for (auto& x : {far, past}) {
                try { (void) c.PM_to_global_index(x); } catch (const std::range_error&) { ++thrown; }
                try { (void) c.outcomes_per_measurement(x); } catch (const std::range_error&) { ++thrown; }
            }
            trace().ev(J().str("e", "names").i("mmts", static_cast<long long>(c.measurement_count())).raw("mpp", ints(c.measurements_per_party())).raw("opm", ints(c.outcomes_per_measurement()))
                .raw("opp", ints(c.operators_per_party())).raw("outs", ints(c.outcomes_per_party())).raw("pm", pms + "]").raw("ops", opl + "]").raw("back", back + "]")
                .b("same", same).b("oob", thrown == 4).b("fc", ls->CanHaveFullCorrelator()).done());
        }

        void run(const std::string& name, int steps) {
            trace().begin(name);
            trace().ev(J().str("e", "ctx").raw("c", sc.json).str("order", fac().name() == "Sort by ID" ? "id" : "hash").done());
            table();
            names();
            if (ls && rng.coin()) {     // tensors that fill up slowly
                for (int n = 0; n < 6; ++n) {
                    if (rng.coin(3, 4)) dump_pt();
                    if (rng.coin()) dump_fc();
                    if (rng.coin()) dump_cg();
                    few(); table();
                }
            }
            for (int n = 0; n < steps; ++n) {
                const int w = rng.below(26);
                if (w < 3) grow();
                else if (w < 5) dump_cg();
                else if (w < 7) dump_pt();
                else if (w < 9) dump_fc();
                else if (w < 10) forced();
                else if (w < 15) range();
                else if (w < 18) elem();
                else if (w < 20) corr();
                else if (w < 23) rules();
                else if (w < 24) conv();
                else view();
            }
            trace().flush();
        }
    };
}

int main(int argc, char** argv) {
    Options o = parse(argc, argv);
    install_handlers();
    trace().open(o);
    Rng rng{o.seed * 49979687 + 9};
    std::vector<Scenario> v;
    v.push_back(locality_scenario({{2, 2}, {2, 2}}));
    v.push_back(locality_scenario({{2}, {2}, {2}}));
    v.push_back(locality_scenario({{2, 2}, {2, 2}, {2, 2}}));
    v.push_back(locality_scenario({{2, 2}, {2}, {2, 2}, {2}}));
    v.push_back(locality_scenario({{3, 2}, {2, 4}}));
    v.push_back(locality_scenario({{3}, {2, 3}, {2}}));
    v.push_back(locality_scenario({{2, 2, 2}, {2, 2, 2}}));
    v.push_back(locality_scenario({{2, 3, 2}}));
    v.push_back(locality_scenario({{2, 2}}));
    v.push_back(locality_scenario({{5, 3}, {4, 2}}));
    v.push_back(locality_scenario({{2}, {2, 2}, {2}, {2, 2}, {2}}));
    v.push_back(locality_scenario({{4, 4}, {3, 4, 4}}));
    v.push_back(locality_scenario({{11}, {11}, {11}}));
    v.push_back(locality_scenario({{2, 2, 2}, {2, 2, 2}, {2, 2, 2}, {2, 2, 2}, {2, 2, 2}}));
    v.push_back(locality_scenario({{1, 2}, {2, 1, 3}}));
    v.push_back(locality_scenario({{2, 2}, {}, {2}}));
    v.push_back(inflation_scenario({2, 2}, {{0, 1}}, 1));
    v.push_back(inflation_scenario({2, 2}, {{0, 1}}, 2));
    v.push_back(inflation_scenario({2, 2, 2}, {{0, 1}, {1, 2}}, 1));
    v.push_back(inflation_scenario({2, 3}, {{0, 1}}, 2));
    v.push_back(inflation_scenario({2, 0}, {{0, 1}}, 2));
    v.push_back(inflation_scenario({3, 2, 0}, {{0, 1}, {1, 2}}, 1));
    v.push_back(inflation_scenario({2, 2, 2}, {{0, 1}, {1, 2}, {0, 2}}, 1));
    v.push_back(inflation_scenario({2}, {{0}}, 3));
    v.push_back(inflation_scenario({3, 3}, {}, 1));
    v.push_back(inflation_scenario({2, 2, 2}, {{0, 1}, {1, 2}, {0, 2}}, 2));
    const int reps = o.thorough() ? 12 : 3, steps = o.thorough() ? 60 : 45;
    for (auto& sc : v)
        for (int r = 0; r < reps; ++r) {
            Session s{sc, o, rng, r % 3};
            if (s.size_cg() > 500 && r) continue;
            s.run(sc.name + "#" + std::to_string(r), s.size_cg() > 500 ? 15 : steps);
        }
    for (int k : {0, 2, 11, 19, 22}) {
        trace().begin("race_" + v[k].name);
        trace().ev(J().str("e", "ctx").raw("c", v[k].json).str("order", "hash").done());
        Session::race(v[k], rng, o.thorough() ? 300 : 60);
        trace().flush();
    }
    trace().close();
    return 0;
}
