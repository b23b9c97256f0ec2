// Runs several threads on shared objects under a scheduler, over many interleavings, and records each different history:
// what every thread asked for, and what it got, in the order of calls and returns.
#include <array>
#include <atomic>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include "systems.h"
#include "vsched.h"
#include "dictionary/osg_pair.h"
#include "multithreading/queue.h"
#include "probability/collins_gisin.h"
#include "probability/full_correlator.h"
#include "probability/maintains_tensors.h"
#include "probability/probability_tensor.h"
#include "scenarios/pauli/pauli_dictionary.h"
#include "scenarios/locality/locality_matrix_system.h"
#include "scenarios/symmetrized/group.h"
#include "scenarios/symmetrized/representation.h"
#include "matrix/matrix_basis.h"
#include "utilities/persistent_storage.h"
using namespace vf;

namespace {
    enum Op { PUSH, TRY, WAIT, ABORT, STORE, GET, FREE, SIZE, MAKE, FIND, COUNT, CALL };
    const char* const op_name[] = {"push", "try", "wait", "abort", "store", "get", "free", "size", "make", "find", "count"};

    // Calls and returns in the order they happen.  Not instrumented: the scheduler never stops a thread in here.
    struct Entry { int thread, ret, op, x, result; };
    Entry events[4096];
    int event_count = 0;
    constexpr int pending = -99;
    __attribute__((no_sanitize("thread"), noinline)) int called(int thread, int op, int x) {
        const int at = event_count++;
        events[at].thread = thread; events[at].ret = 0; events[at].op = op; events[at].x = x; events[at].result = pending;
        return at;
    }
    __attribute__((no_sanitize("thread"), noinline)) void returned(int at, int result) {
        const int k = event_count++;
        events[at].result = result;
        events[k] = events[at];
        events[k].ret = 1;
    }
    std::string current_kind, current_name;
    std::unordered_set<std::string> histories;
    int threads_now = 0;
    std::string extra = "[]";
    std::string history(bool stuck) {
        std::string s = "[";
        for (int k = 0; k < event_count; ++k) {
            const auto& e = events[k];
            if (k) s += ",";
            s += "[" + std::to_string(e.thread) + "," + std::to_string(e.ret) + ",\"" + op_name[e.op] + "\"," + std::to_string(e.x) + "," + std::to_string(e.result) + "]";
        }
        J j; j.str("e", "hist").str("kind", current_kind).i("threads", threads_now).b("stuck", stuck).raw("needs", extra).raw("h", s + "]");
        return j.done();
    }
    void finished() {
        auto h = history(false);
        if (histories.insert(h).second) trace().ev(h);
        event_count = 0;
    }
    void stuck_now() {
        trace().ev(history(true));
        trace().close();
        _exit(0);
    }
    void begin(const std::string& kind, const std::string& name, int threads) {
        current_kind = kind;
        current_name = name;
        threads_now = threads;
        histories.clear();
        trace().begin(name);
    }
    // Runs `body(thread)` in n threads
    template<typename F> void together(int n, F body) {
        std::vector<std::thread> t;
        for (int k = 0; k < n; ++k) t.emplace_back([&body, k] { body(k); });
        for (auto& x : t) x.join();
    }
    // over every interleaving with few preemptions, then over random ones
    template<typename F> void explore(F run, int bound, int most, int random, Rng& rng) {
        if (!vs::controlled()) { for (int k = 0; k < random; ++k) run(); return; }
        vs::explore_begin(bound);
        int k = 0;
        do run(); while (++k < most && vs::explore_again());
        vs::explore_end();
        trace().ev(J().str("e", "explored").i("runs", k).b("all", k < most).i("bound", bound).i("different", static_cast<long long>(histories.size())).done());
        for (int r = 0; r < random; ++r) { vs::random_schedule(rng.s + static_cast<uint64_t>(r)); run(); }
    }

    using Step = std::pair<int, int>;
    using Program = std::vector<std::vector<Step>>;
    void queue_program(const std::string& name, const Program& p, Rng& rng, bool thorough) {
        begin("queue", "queue_" + name, static_cast<int>(p.size()));
        explore([&] {
            auto q = std::make_unique<Multithreading::Queue<int>>();
            together(static_cast<int>(p.size()), [&](int t) {
                for (auto [op, x] : p[static_cast<size_t>(t)]) {
                    const int at = called(t + 1, op, x);
                    int r = 0;
                    switch (op) {
                        case PUSH: if (x & 1) q->push_back(x); else q->emplace_back(x); break;
                        case TRY: { auto n = q->try_pop_front(); r = n ? **n : -1; break; }
                        case WAIT: { auto n = q->wait_pop_front(); r = n ? **n : -1; break; }
                        default: q->abort(); break;
                    }
                    returned(at, r);
                }
            });
            finished();
        }, thorough ? 3 : 2, thorough ? 60000 : 2500, thorough ? 3000 : 200, rng);
    }
    void queues(Rng& rng, bool th) {
        queue_program("handover", {{{PUSH, 1}}, {{WAIT, 0}}}, rng, th);
        queue_program("stop", {{{ABORT, 0}}, {{WAIT, 0}}}, rng, th);
        queue_program("stop_all", {{{ABORT, 0}}, {{WAIT, 0}}, {{WAIT, 0}}}, rng, th);
        queue_program("two_each", {{{PUSH, 1}, {PUSH, 2}}, {{WAIT, 0}, {WAIT, 0}}}, rng, th);
        queue_program("two_makers", {{{PUSH, 1}}, {{PUSH, 2}}, {{WAIT, 0}, {WAIT, 0}}}, rng, th);
        queue_program("two_takers", {{{PUSH, 1}, {PUSH, 2}}, {{WAIT, 0}}, {{WAIT, 0}}}, rng, th);
        queue_program("try", {{{PUSH, 1}, {PUSH, 2}}, {{TRY, 0}, {TRY, 0}}, {{TRY, 0}}}, rng, th);
        queue_program("mixed", {{{PUSH, 1}, {TRY, 0}}, {{PUSH, 2}, {TRY, 0}}}, rng, th);
        queue_program("push_stop", {{{PUSH, 1}, {ABORT, 0}}, {{WAIT, 0}}, {{WAIT, 0}}}, rng, th);
        queue_program("stop_push", {{{ABORT, 0}, {PUSH, 1}}, {{TRY, 0}}, {{WAIT, 0}}}, rng, th);
        queue_program("late_stop", {{{PUSH, 1}, {PUSH, 2}, {PUSH, 3}}, {{WAIT, 0}, {ABORT, 0}}, {{WAIT, 0}, {WAIT, 0}}}, rng, th);
        queue_program("four", {{{PUSH, 1}, {PUSH, 3}}, {{PUSH, 2}}, {{WAIT, 0}, {TRY, 0}}, {{WAIT, 0}}}, rng, th);
    }
    void store_program(const std::string& name, const Program& p, Rng& rng, bool thorough) {
        begin("store", "store_" + name, static_cast<int>(p.size()));
        explore([&] {
            auto st = std::make_unique<PersistentStorage<int>>(make_signature({'t', 'e', 's', 't'}));
            const uint64_t base = st->store(std::make_shared<int>(50)) & ~static_cast<uint64_t>(0xffffffffu);
            together(static_cast<int>(p.size()), [&](int t) {
                for (auto [op, x] : p[static_cast<size_t>(t)]) {
                    const int at = called(t + 1, op, x);
                    int r = 0;
                    try {
                        switch (op) {
                            case STORE: r = static_cast<int>(st->store(std::make_shared<int>(x)) & 0xffffffffu); break;
                            case GET: r = *st->get(base + static_cast<uint64_t>(x)); break;
                            case FREE: st->release(base + static_cast<uint64_t>(x)); r = 1; break;
                            default: r = static_cast<int>(st->size()); break;
                        }
                    } catch (const errors::not_found_error&) { r = -1; }
                    returned(at, r);
                }
            });
            finished();
        }, thorough ? 3 : 2, thorough ? 20000 : 1200, thorough ? 3000 : 200, rng);
    }
    void stores(Rng& rng, bool th) {
        store_program("two", {{{STORE, 10}, {GET, 0}}, {{STORE, 20}, {SIZE, 0}}}, rng, th);
        store_program("free", {{{FREE, 0}}, {{GET, 0}, {FREE, 0}}, {{SIZE, 0}, {GET, 0}}}, rng, th);
        store_program("reuse", {{{STORE, 10}, {FREE, 1}, {STORE, 11}}, {{STORE, 20}, {FREE, 2}}, {{GET, 1}, {GET, 2}, {SIZE, 0}}}, rng, th);
    }

    // ------------------------------------------------------------------ one system, many threads
    // `call`: the way that looks first, and makes the matrix if it is not there
    struct Request { int key; std::vector<int> needs; std::function<int(MatrixSystem&)> make, find; std::function<const SymbolicMatrix*(MatrixSystem&)> call; };
    int offset_of(MatrixSystem& s, const SymbolicMatrix* m) {
        auto lock = s.get_read_lock();
        for (size_t k = 0; k < s.size(); ++k) if (&s[static_cast<ptrdiff_t>(k)] == m) return static_cast<int>(k);
        return -3;
    }
    // a matrix of an index in one of the collections of the system
    template<typename Coll, typename Index> Request request(int key, std::vector<int> needs, Coll coll, Index ix, MT p) {
        Request r;
        r.key = key; r.needs = std::move(needs);
        r.make = [coll, ix, p](MatrixSystem& s) { auto [off, m] = coll(s).create(ix, p); return &s.get(static_cast<ptrdiff_t>(off)) == &m ? static_cast<int>(off) : -4; };
        r.find = [coll, ix](MatrixSystem& s) { auto lock = s.get_read_lock(); return static_cast<int>(coll(s).find_index(ix)); };
        r.call = [coll, ix, p](MatrixSystem& s) -> const SymbolicMatrix* { return &coll(s)(ix, p); };
        return r;
    }
    void systems(const Scenario& sc, Rng& rng, int runs) {
        std::vector<Request> all;
        std::map<std::string, int> keys;
        auto probe = make_system(sc);
        const auto& context = probe->Context();
        const auto number = [&](const std::string& s) { return keys.try_emplace(s, static_cast<int>(keys.size()) + 1).first->second; };
        const auto mt = [&rng] { return rng.coin(1, 3) ? MT::Always : MT::Never; };
        const auto mm = [](MatrixSystem& s) -> auto& { return s.MomentMatrix; };
        const auto lm = [](MatrixSystem& s) -> auto& { return s.LocalizingMatrix; };
        const auto plm = [](MatrixSystem& s) -> auto& { return s.PolynomialLocalizingMatrix; };
        (void) probe->MomentMatrix.create(1, MT::Never);
        const int first = number("M1");
        for (size_t level : {1, 0, 2}) if (level < 2 || probe->osg_size(2) <= 10) all.push_back(request(number("M" + std::to_string(level)), {}, mm, level, mt()));
        std::vector<OperatorSequence> words;
        for (int k = 0; k < sc.n && words.size() < 3; ++k) {
            OperatorSequence w = mk(context, {k});
            if (w.zero() || w.empty()) continue;
            words.push_back(w);
            for (size_t level = 0; level <= 1; ++level) all.push_back(request(number("L" + std::to_string(level) + "." + std::to_string(k)), {}, lm, LocalizingMatrixIndex{level, w}, mt()));
        }
        // a sum of two of them
        for (size_t a = 0; a + 1 < words.size(); ++a) for (int level = 0; level <= 1; ++level) {
            const auto name = [&](size_t x) { return "L" + std::to_string(level) + "." + std::to_string(x); };
            Polynomial::storage_t d;
            double f = 1;
            for (size_t x : {a, a + 1}) { const auto it = probe->Symbols().where(words[x]); d.emplace_back(it->Id(), f, it.is_conjugated); f += 1; }
            auto p = probe->polynomial_factory()(std::move(d));
            all.push_back(request(number("P" + std::to_string(level) + "." + std::to_string(a)), {number(name(a)), number(name(a + 1))}, plm,
                                  PolynomialLocalizingMatrixIndex{{static_cast<size_t>(level), p}}, mt()));
        }
        if (sc.kind == "pauli") {
            const auto psys = [](MatrixSystem& s) -> auto& { return dynamic_cast<Pauli::PauliMatrixSystem&>(s); };
            const auto nmm = [psys](MatrixSystem& s) -> auto& { return psys(s).PauliMomentMatrices; };
            const auto nlm = [psys](MatrixSystem& s) -> auto& { return psys(s).PauliLocalizingMatrices; };
            const auto com = [psys](MatrixSystem& s) -> auto& { return psys(s).CommutatorMatrices; };
            const auto aco = [psys](MatrixSystem& s) -> auto& { return psys(s).AnticommutatorMatrices; };
            all.push_back(request(number("NM"), {}, nmm, Pauli::MomentMatrixIndex{2, 1}, mt()));
            all.push_back(request(first, {}, nmm, Pauli::MomentMatrixIndex{1, 0}, mt()));        // the same as the plain one
            all.push_back(request(number("NL"), {}, nlm, Pauli::LocalizingMatrixIndex{1, 1, words[0]}, mt()));
            all.push_back(request(number("L1.0"), {}, nlm, Pauli::LocalizingMatrixIndex{1, 0, words[0]}, mt()));
            all.push_back(request(number("NC"), {}, com, Pauli::CommutatorMatrixIndex{1, 1, words[1]}, mt()));
            all.push_back(request(number("NA"), {}, aco, Pauli::AnticommutatorMatrixIndex{1, 1, words[1]}, mt()));
        }
        // for each key, the keys it needs
        std::vector<std::string> needs(keys.size(), "[]");
        for (const auto& r : all) needs[static_cast<size_t>(r.key - 1)] = ints(r.needs);
        extra = arr(needs, [](const std::string& s) { return s; });
        begin("system", "system_" + sc.name, 3);
        for (int run = 0; run < runs; ++run) {
            if (vs::controlled()) vs::random_schedule(rng.s + static_cast<uint64_t>(run));
            // what each thread asks for
            std::array<std::vector<std::pair<int, Op>>, 3> plan;
            std::vector<int> few;
            for (int k = rng.range(1, 5); k > 0; --k) few.push_back(rng.below(static_cast<int>(all.size())));
            for (auto& p : plan) for (int k = rng.range(1, 4); k > 0; --k) p.emplace_back(few[static_cast<size_t>(rng.below(static_cast<int>(few.size())))], rng.coin(1, 4) ? FIND : rng.coin() ? MAKE : CALL);
            auto sys = make_system(sc);
            { const int at = called(1, MAKE, first); returned(at, static_cast<int>(sys->MomentMatrix.create(1, MT::Never).first)); }
            together(3, [&](int t) {
                for (auto [q, op] : plan[static_cast<size_t>(t)]) {
                    const auto& r = all[static_cast<size_t>(q)];
                    const int at = called(t + 1, op == CALL ? MAKE : op, r.key);
                    int got = -2;
                    const SymbolicMatrix* m = nullptr;
                    try { if (op == CALL) m = r.call(*sys); else got = op == MAKE ? r.make(*sys) : r.find(*sys); } catch (...) { }
                    if (m) got = offset_of(*sys, m);
                    returned(at, got);
                }
            });
            finished();
        }
        extra = "[]";
    }

    // ------------------------------------------------------------------ things made once and kept: "make" gives a number for the object got
    struct Objects {
        std::map<const void*, int> seen;
        std::mutex m;
        int operator()(const void* p) { std::lock_guard g{m}; return seen.try_emplace(p, static_cast<int>(seen.size()) + 1).first->second; }
    };
    // `self` is what tells objects apart (if not their address)
    const void* address(const void* p, int) { return p; }
    template<typename Make, typename Get, typename Look, typename Self = const void*(*)(const void*, int)>
    void kept(const std::string& name, Rng& rng, int keys, int runs, Make make, Get get, Look look, Self self = address) {
        begin("once", "once_" + name, 3);
        for (int run = 0; run < runs; ++run) {
            if (vs::controlled()) vs::random_schedule(rng.s + static_cast<uint64_t>(run));
            std::array<std::vector<int>, 3> plan;
            for (auto& p : plan) for (int k = rng.range(1, 4); k > 0; --k) p.push_back(rng.below(keys));
            auto shared = make();
            Objects id;
            together(3, [&](int t) {
                const void* first = nullptr;
                int key = -1, sum = 0;
                for (int q : plan[static_cast<size_t>(t)]) {
                    const int at = called(t + 1, MAKE, q);
                    const void* p = get(*shared, q);
                    const int s = look(p, q);
                    returned(at, id(self(p, q)));
                    const int at2 = called(t + 1, COUNT, q);
                    returned(at2, s);
                    if (!first) { first = p; key = q; sum = s; }
                }
                // what was got first is still there, unchanged
                const int at = called(t + 1, COUNT, key);
                returned(at, look(first, key) == sum ? sum : -2);
            });
            for (int q = 0; q < keys; ++q) { const int at = called(1, COUNT, q); returned(at, look(get(*shared, q), q)); }
            finished();
        }
    }
}

int main(int argc, char** argv) {
    auto o = parse(argc, argv);
    install_handlers();
    trace().open(o);
    if (vs::controlled()) vs::on_stuck = stuck_now;
    Rng rng{o.seed * 7919 + 23};
    const bool th = o.thorough();
    queues(rng, th);
    stores(rng, th);
    const int runs = th ? 1500 : 120;
    for (const auto& sc : {locality_scenario({{2, 2}, {2, 2}}), algebraic_scenario("free2", 2, 0, {}), algebraic_scenario("nonhermitian", 2, 2, {}), pauli_scenario(2)})
        systems(sc, rng, runs);
    // dictionaries
    for (const auto& sc : {locality_scenario({{2, 2}, {2, 2}}), algebraic_scenario("nonhermitian", 2, 2, {}), inflation_scenario({2, 2}, {{0, 1}}, 2)}) {
        kept("words_" + sc.name, rng, 3, runs, [&] { return make_system(sc); },
             [](MatrixSystem& s, int q) -> const void* { return &s.Context().dictionary().Level(static_cast<size_t>(q)); },
             [](const void* p, int) { int sum = 0; const auto& pair = *static_cast<const OSGPair*>(p); for (const auto& w : pair()) sum = static_cast<int>((sum * 31 + static_cast<long long>(w.hash()) * 7 + w.size()) % 1000003); for (const auto& w : pair.conjugate()) sum = static_cast<int>((sum * 31 + static_cast<long long>(w.hash())) % 1000003); return sum; });
    }
    {
        const auto sc = pauli_scenario(3);
        kept("neighbours", rng, 4, runs, [&] { return make_system(sc); },
             [](MatrixSystem& s, int q) -> const void* { return &dynamic_cast<const Pauli::PauliContext&>(s.Context()).pauli_dictionary().NearestNeighbour(Pauli::NearestNeighbourIndex{static_cast<size_t>(1 + q % 2), static_cast<size_t>(q / 2)}); },
             [](const void* p, int) { int sum = 0; for (const auto& w : (*static_cast<const OSGPair*>(p))()) sum = static_cast<int>((sum * 31 + static_cast<long long>(w.hash()) * 7 + w.size()) % 1000003); return sum; });
    }
    // bases of a matrix
    {
        const auto sc = algebraic_scenario("nonhermitian", 2, 2, {});
        kept("bases", rng, 8, 2 * runs, [&] { auto s = make_system(sc); (void) s->MomentMatrix.create(1, MT::Never); return s; },
             [](MatrixSystem& s, int q) -> const void* {
                 const auto& b = s[0].Basis;
                 switch (q) {
                     case 0: { auto x = b.Dense(); return &x.first; }
                     case 1: { auto x = b.Sparse(); return &x.first; }
                     case 2: { auto x = b.DenseMonolithic(); return &x.first; }
                     case 3: { auto x = b.SparseMonolithic(); return &x.first; }
                     case 4: { auto x = b.DenseComplex(); return &x.first; }
                     case 5: { auto x = b.SparseComplex(); return &x.first; }
                     case 6: { auto x = b.DenseMonolithicComplex(); return &x.first; }
                     default: { auto x = b.SparseMonolithicComplex(); return &x.first; }
                 }
             },
             [](const void* p, int q) {
                 double sum = 0; int k = 0;
                 const auto add = [&](const auto& m) { for (long r = 0; r < m.rows(); ++r) for (long c = 0; c < m.cols(); ++c) sum += (std::real(m.coeff(r, c)) + 2 * std::imag(m.coeff(r, c))) * ((++k) % 101); };
                 using namespace Eigen;
                 switch (q) {
                     case 0: for (const auto& m : *static_cast<const std::vector<MatrixXd>*>(p)) add(m); break;
                     case 1: for (const auto& m : *static_cast<const std::vector<SparseMatrix<double>>*>(p)) add(m); break;
                     case 2: add(*static_cast<const MatrixXd*>(p)); break;
                     case 3: add(*static_cast<const SparseMatrix<double>*>(p)); break;
                     case 4: for (const auto& m : *static_cast<const std::vector<MatrixXcd>*>(p)) add(m); break;
                     case 5: for (const auto& m : *static_cast<const std::vector<SparseMatrix<std::complex<double>>>*>(p)) add(m); break;
                     case 6: add(*static_cast<const MatrixXcd*>(p)); break;
                     default: add(*static_cast<const SparseMatrix<std::complex<double>>*>(p)); break;
                 }
                 return std::abs(static_cast<int>(sum)) % 1000003;
             },
             [](const void* p, int q) -> const void* {      // where its numbers are
                 using namespace Eigen;
                 switch (q) {
                     case 0: return static_cast<const std::vector<MatrixXd>*>(p)->data();
                     case 1: return static_cast<const std::vector<SparseMatrix<double>>*>(p)->data();
                     case 2: return static_cast<const MatrixXd*>(p)->data();
                     case 3: return static_cast<const SparseMatrix<double>*>(p)->valuePtr();
                     case 4: return static_cast<const std::vector<MatrixXcd>*>(p)->data();
                     case 5: return static_cast<const std::vector<SparseMatrix<std::complex<double>>>*>(p)->data();
                     case 6: return static_cast<const MatrixXcd*>(p)->data();
                     default: return static_cast<const SparseMatrix<std::complex<double>>*>(p)->valuePtr();
                 }
             });
    }
    // representations of a group: exchange of two operators
    {
        const auto sc = algebraic_scenario("free2", 2, 0, {});
        struct Both { std::unique_ptr<Context> context; std::unique_ptr<Symmetrized::Group> group; };
        kept("representations", rng, 3, runs, [&] {
                 auto b = std::make_unique<Both>();
                 b->context = sc.make();
                 std::vector<Symmetrized::repmat_t> elems(2, Symmetrized::repmat_t(3, 3));
                 elems[0].setIdentity();
                 elems[1].insert(0, 0) = 1; elems[1].insert(1, 2) = 1; elems[1].insert(2, 1) = 1;
                 elems[1].makeCompressed();
                 b->group = std::make_unique<Symmetrized::Group>(*b->context, std::make_unique<Symmetrized::Representation>(1, std::move(elems)));
                 return b; },
             [&rng](Both& b, int q) -> const void* { return &b.group->create_representation(static_cast<size_t>(q + 1), q == 1 ? MT::Always : MT::Never); },
             [](const void* p, int) {
                 const auto& r = *static_cast<const Symmetrized::Representation*>(p);
                 double sum = static_cast<double>(r.size() + r.dimension); int k = 0;
                 for (size_t e = 0; e < r.size(); ++e) for (long x = 0; x < r[e].rows(); ++x) for (long y = 0; y < r[e].cols(); ++y) sum += r[e].coeff(x, y) * ((++k) % 101);
                 return static_cast<int>(sum) % 1000003; });
    }
    // tensors of a system whose symbols are all known
    {
        const auto sc = locality_scenario({{2, 2}, {2}});
        kept("tensors", rng, 3, runs, [&] { auto s = make_system(sc); (void) s->MomentMatrix.create(1, MT::Never); return s; },
             [](MatrixSystem& s, int q) -> const void* {
                 auto& m = dynamic_cast<MaintainsTensors&>(s);
                 switch (q) {
                     case 0: (void) m.RefreshCollinsGisin(); return &m.CollinsGisin();
                     case 1: (void) m.RefreshFullCorrelator(); return &m.FullCorrelator();
                     default: (void) m.RefreshProbabilityTensor(); return &m.ProbabilityTensor();
                 } },
             [](const void* p, int q) {
                 const auto entries = [](const auto& tensor) {
                     int sum = 0;
                     for (const auto& x : tensor.Data()) for (const auto& mono : x.symbolPolynomial) sum = static_cast<int>((sum * 31 + mono.id * 7 + static_cast<long long>(mono.factor.real() + 10)) % 1000003);
                     return sum; };
                 if (q == 0) {
                     int sum = 0;
                     for (const auto& x : static_cast<const CollinsGisin*>(p)->Data()) sum = static_cast<int>((sum * 31 + x.symbol_id + 1) % 1000003);
                     return sum;
                 }
                 return q == 1 ? entries(*static_cast<const FullCorrelator*>(p)) : entries(*static_cast<const ProbabilityTensor*>(p)); });
    }
    if (vs::controlled()) queue_program("starved", {{{WAIT, 0}}, {{PUSH, 1}}, {{WAIT, 0}}}, rng, th);     // one waits for ever, rightly: ends here
    trace().close();
    return 0;
}
