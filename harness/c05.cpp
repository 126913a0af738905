// C05: histories of event dispatchers against a sequential model.
#include "models.hpp"
#include "perturb.hpp"

using namespace vf;
using events::Event;

struct Num : public Event {
    Num(int producer, int seq) : Event("Num"), producer(producer), seq(seq), by(std::this_thread::get_id()) {}
    int producer, seq;
    std::thread::id by;
};

struct Listener;
struct World {
    std::mutex m;
    std::vector<std::shared_ptr<Listener>> all;
    std::vector<std::string> errors;
    void error(const std::string &s) { std::lock_guard<std::mutex> l(m); if (errors.size() < 5) errors.push_back(s); }
};

struct Delivery { int producer, seq; std::thread::id thread; };

struct Listener : public events::EventListenerInterface {
    explicit Listener(int id) : id(id) {}
    int id;
    std::vector<Delivery> got;
    std::function<void(Listener &, const Num &)> action;
    void on_event(std::shared_ptr<Event> ev) override {
        auto n = std::static_pointer_cast<Num>(ev);
        got.push_back({n->producer, n->seq, std::this_thread::get_id()});
        run().tick();
        if (action) action(*this, *n);
    }
};

typedef std::shared_ptr<events::EventDispatcherInterface> Iface;   // the convenience overloads live here

// Several producers dispatch while the owner processes, adds and removes
// listeners. The listeners registered during the whole run get everything
// exactly once and in the order of each producer; a removed listener gets
// nothing from the processing after its removal.
static void producers(Rng &r) {
    int P = r.uni(1, 6), N = r.pick(std::vector<int>{1, 5, 40, 200});
    bool same = r.chance(0.5);
    std::shared_ptr<events::ThreadSafeEventDispatcher> disp;
    if (same) disp = std::make_shared<events::SameThreadEventDispatcher>();
    else disp = std::make_shared<events::ThreadSafeEventDispatcher>();
    perturb().seed = r.next() | 1;
    perturb().level = r.pick(std::vector<int>{0, 20, 80});
    std::thread::id me = std::this_thread::get_id();

    int L = r.uni(1, 4);
    std::vector<std::shared_ptr<Listener>> fixed;
    for (int i = 0; i < L; i++) { fixed.push_back(std::make_shared<Listener>(i)); disp->add_listener(fixed.back()); }

    std::atomic<int> done{0};
    std::vector<std::thread> ts;
    for (int p = 0; p < P; p++) {
        uint64_t s = r.next();
        ts.emplace_back([&, p, s] {
            Rng q(s);
            for (int i = 0; i < N; i++) {
                if (q.chance(0.5)) disp->dispatch(std::make_shared<Num>(p, i));
                else Iface(disp)->dispatch<Num>(p, i);
                if (q.chance(0.1)) std::this_thread::yield();
                if (q.chance(0.02)) std::this_thread::sleep_for(std::chrono::microseconds(q.uni(1, 200)));
            }
            done++;
        });
    }
    // the owner
    std::vector<std::shared_ptr<Listener>> temps, removed;
    std::vector<size_t> removed_at;
    int own_seq = 0, rounds = 0, adds = 0, removals = 0;
    std::vector<std::pair<std::shared_ptr<Listener>, size_t>> exact;   // temps: what a fixed listener had when it was added
    std::vector<size_t> exact_end;
    bool drained = false;
    while (!drained) {
        drained = done == P;
        rounds++;
        int a = r.uni(0, 9);
        if (a == 0 && temps.size() < 5) {
            auto l = std::make_shared<Listener>(100 + adds++);
            disp->add_listener(l);
            exact.push_back({l, fixed[0]->got.size()});
            exact_end.push_back(SIZE_MAX);
            temps.push_back(l);
        } else if (a == 1 && !temps.empty()) {
            size_t i = r.next() % temps.size();
            auto l = temps[i];
            disp->remove_listener(l);
            removals++;
            for (size_t e = 0; e < exact.size(); e++) if (exact[e].first == l) exact_end[e] = fixed[0]->got.size();
            temps.erase(temps.begin() + i);
        } else if (a == 2) {
            Iface(disp)->dispatch<Num>(-1, own_seq++);
            if (same) {
                // immediate delivery to every listener, before dispatch returns
                for (auto &f : fixed) {
                    bool has = false;
                    for (auto it = f->got.rbegin(); it != f->got.rend() && !has; ++it) has = it->producer == -1 && it->seq == own_seq - 1;
                    VF_CHECK(has, "not-immediate", "an event dispatched by the owner is not delivered when dispatch returns");
                }
            }
        }
        disp->process_events();
        if (r.chance(0.2)) std::this_thread::sleep_for(std::chrono::microseconds(r.uni(1, 100)));
    }
    for (auto &t : ts) t.join();
    disp->process_events();
    disp->process_events();
    run().count("rounds", rounds);
    uint64_t h = P * 131 + N;
    for (auto &f : fixed) {
        VF_CHECK(f->got.size() == size_t(P) * N + own_seq, "exactly-once", "listener got %zu of %d events", f->got.size(), P * N + own_seq);
        std::map<int, int> next;
        for (auto &g : f->got) {
            VF_CHECK(g.thread == me, "thread", "an event was delivered on a thread that does not process events");
            int &n = next[g.producer];
            if (g.seq != n) { run().fail("order", fmt("producer %d: event %d delivered when %d was due", g.producer, g.seq, n)); break; }
            n++;
        }
        VF_CHECK(f->got.size() == fixed[0]->got.size(), "listeners-differ", "listeners got different events");
        for (size_t i = 0; i < f->got.size() && i < fixed[0]->got.size(); i++)
            if (f->got[i].producer != fixed[0]->got[i].producer || f->got[i].seq != fixed[0]->got[i].seq) {
                run().fail("listeners-differ", "two listeners saw the events in different orders");
                break;
            }
    }
    // temporary listeners got exactly the events processed while registered
    for (size_t e = 0; e < exact.size(); e++) {
        auto &l = exact[e].first;
        size_t from = exact[e].second, to = std::min(exact_end[e], fixed[0]->got.size());
        bool ok = l->got.size() == to - from;
        for (size_t i = 0; ok && i < l->got.size(); i++)
            ok = l->got[i].producer == fixed[0]->got[from + i].producer && l->got[i].seq == fixed[0]->got[from + i].seq;
        VF_CHECK(ok, "registered-window", "a listener registered during events %zu..%zu got %zu events", from, to, l->got.size());
    }
    for (auto &g : fixed[0]->got) h = mix(h * 1000003 + g.producer * 4096 + g.seq);
    perturb().level = 0;
    run().count("events delivered", fixed[0]->got.size());
    run().count("listeners added or removed while producing", adds + removals);
    run().distinct(h);
    run().sample(fmt("%s dispatcher, %d producers x %d events, %d+%d listeners, %d rounds", same ? "same-thread" : "thread-safe", P, N, L, adds, rounds));
}

// A random single threaded history, including calls from inside callbacks and
// from helper threads that are joined, against a model.
static void history(Rng &r) {
    bool same = r.chance(0.6);
    std::shared_ptr<events::ThreadSafeEventDispatcher> disp;
    if (same) disp = std::make_shared<events::SameThreadEventDispatcher>();
    else disp = std::make_shared<events::ThreadSafeEventDispatcher>();
    struct St {
        std::shared_ptr<Listener> l;
        bool registered = true;
        // [must, may]: indexes of events that it has to get / may get
        std::set<int> must, may;
    };
    std::map<int, St> ls;
    int next_id = 0, next_ev = 0, depth = 0;
    std::string hist;
    std::set<int> queued;             // dispatched but not processed
    std::vector<int> processing;      // events of the batch being processed
    std::set<int> all_delivered;
    std::thread::id me = std::this_thread::get_id();
    std::map<int, int> cb_budget;

    // An event is processed: every registered listener must get it. Listeners
    // that come or go while a batch is processed may get the rest of it.
    auto start_batch = [&](const std::set<int> &evs) {
        for (auto &kv : ls)
            for (int e : evs) {
                if (kv.second.registered) kv.second.must.insert(e);
            }
    };
    std::function<void(bool)> dispatch;
    std::function<void()> add, remove;
    auto process_model = [&] {
        auto evs = queued;
        queued.clear();
        start_batch(evs);
    };
    int total_cb = 0;
    bool in_callback = false;
    auto callback = [&](Listener &, const Num &) {
        if (total_cb > 12 || depth > 2) return;
        if (!r.chance(0.25)) return;
        total_cb++;
        depth++;
        bool was = in_callback;
        in_callback = true;
        int a = r.uni(0, 3);
        if (a <= 1) dispatch(false);
        else if (a == 2) add();
        else remove();
        in_callback = was;
        depth--;
    };
    add = [&] {
        int id = next_id++;
        auto l = std::make_shared<Listener>(id);
        l->action = callback;
        St st;
        st.l = l;
        // inside a callback the rest of the current batch may or may not reach it
        if (in_callback) for (int e = 0; e < next_ev; e++) st.may.insert(e);
        ls[id] = st;
        hist += fmt(" add%d", id);
        disp->add_listener(l);
    };
    remove = [&] {
        std::vector<int> reg;
        for (auto &kv : ls) if (kv.second.registered) reg.push_back(kv.first);
        if (reg.empty()) return;
        int id = r.pick(reg);
        auto &st = ls[id];
        st.registered = false;
        hist += fmt(" remove%d", id);
        if (in_callback) {
            // whatever it has not got of the current batches becomes optional
            for (int e : st.must) st.may.insert(e);
            std::set<int> got;
            for (auto &g : st.l->got) got.insert(g.seq);
            std::set<int> m2;
            for (int e : st.must) if (got.count(e)) m2.insert(e);
            st.must = m2;
        }
        disp->remove_listener(st.l);
    };
    dispatch = [&](bool elsewhere) {
        int e = next_ev++;
        queued.insert(e);
        hist += fmt(" %s%d", elsewhere ? "remote" : "dispatch", e);
        if (elsewhere) {
            std::thread t([&] { Iface(disp)->dispatch<Num>(0, e); });
            t.join();
        } else {
            if (same) process_model();
            Iface(disp)->dispatch<Num>(0, e);
        }
    };
    int n = r.uni(3, 25);
    for (int i = 0, ops = r.uni(0, 3); i < ops; i++) add();
    for (int i = 0; i < n; i++) {
        switch (r.uni(0, 6)) {
            case 0: add(); break;
            case 1: remove(); break;
            case 2: case 3: dispatch(false); break;
            case 4: dispatch(true); break;
            case 5: {   // removal from a helper thread that ends before the next processing
                std::vector<int> reg;
                for (auto &kv : ls) if (kv.second.registered) reg.push_back(kv.first);
                if (reg.empty()) break;
                int id = r.pick(reg);
                ls[id].registered = false;
                hist += fmt(" remoteremove%d", id);
                std::thread t([&] { disp->remove_listener(ls[id].l); });
                t.join();
                break;
            }
            case 6: hist += " process"; process_model(); disp->process_events(); break;
        }
        // at the top level nothing is being processed: everything due has arrived
        for (auto &kv : ls) {
            std::map<int, int> got;
            int last = -1;
            for (auto &g : kv.second.l->got) { got[g.seq]++; (void)last; VF_CHECK(g.thread == me, "thread", "delivered on a foreign thread"); }
            for (int e : kv.second.must)
                if (!got.count(e)) { run().fail("lost", fmt("listener %d did not get event %d; history:%s", kv.first, e, hist.c_str())); throw Abort(); }
            for (auto &g : got) {
                if (g.second != 1) { run().fail("duplicated", fmt("listener %d got event %d %d times; history:%s", kv.first, g.first, g.second, hist.c_str())); throw Abort(); }
                if (!kv.second.must.count(g.first) && !kv.second.may.count(g.first)) {
                    run().fail("unexpected-delivery", fmt("listener %d got event %d it should not get; history:%s", kv.first, g.first, hist.c_str()));
                    throw Abort();
                }
            }
        }
        run().count("operations");
    }
    run().count("callbacks that called the dispatcher", total_cb);
    run().count("events dispatched", next_ev);
    run().distinct(hist + (same ? "s" : "t"));
    run().sample((same ? "same-thread:" : "thread-safe:") + hist);
}

// the plain dispatcher: immediate, every registered listener, in order of registration
static void plain(Rng &r) {
    events::EventDispatcher disp;
    std::vector<std::shared_ptr<Listener>> reg, gone;
    std::vector<int> trace;
    int ev = 0;
    std::string hist;
    for (int i = 0, ops = r.uni(5, 30); i < ops; i++) {
        int a = r.uni(0, 4);
        if (a == 0) {
            auto l = std::make_shared<Listener>(i);
            disp.add_listener(l);
            reg.push_back(l);
            hist += "a";
        } else if (a == 1 && !reg.empty()) {
            size_t k = r.next() % reg.size();
            disp.remove_listener(reg[k]);
            gone.push_back(reg[k]);
            reg.erase(reg.begin() + k);
            hist += "r";
        } else {
            std::map<int, size_t> before;
            for (auto &l : gone) before[l->id] = l->got.size();
            for (auto &l : reg) before[l->id] = l->got.size();
            static_cast<events::EventDispatcherInterface &>(disp).dispatch<Num>(0, ev++);
            hist += "d";
            for (auto &l : reg)
                VF_CHECK(l->got.size() == before[l->id] + 1 && l->got.back().seq == ev - 1, "plain-delivery", "a registered listener was called %zu times", l->got.size() - before[l->id]);
            for (auto &l : gone) VF_CHECK(l->got.size() == before[l->id], "plain-removed", "a removed listener was called");
        }
    }
    run().count("operations", hist.size());
    run().distinct("plain" + hist);
}

// Long queues: everything that piled up before the processing is delivered,
// also when more is queued than a batch usually has.
static void burst(Rng &r) {
    bool same = r.chance(0.5);
    std::shared_ptr<events::ThreadSafeEventDispatcher> disp;
    if (same) disp = std::make_shared<events::SameThreadEventDispatcher>();
    else disp = std::make_shared<events::ThreadSafeEventDispatcher>();
    std::vector<std::shared_ptr<Listener>> ls;
    int L = r.pick(std::vector<int>{1, 2, 3, 40});
    for (int i = 0; i < L; i++) { ls.push_back(std::make_shared<Listener>(i)); disp->add_listener(ls.back()); }
    int P = r.uni(1, 4), N = r.pick(std::vector<int>{300, 1500, 5000, L > 3 ? 5000 : 70000}) / P + 1;
    int rounds = r.uni(1, 2);
    for (int k = 0; k < rounds; k++) {
        std::vector<std::thread> ts;
        for (int p = 0; p < P; p++)
            ts.emplace_back([&, p, k] { for (int i = 0; i < N; i++) { disp->dispatch(std::make_shared<Num>(p, k * N + i)); if (i % 512 == 0) run().tick(); } });
        for (auto &t : ts) t.join();
        for (auto &l : ls) VF_CHECK(l->got.size() == size_t(k) * P * N, "processed-by-producer", "events were delivered without the owner");
        disp->process_events();
    }
    for (auto &l : ls) {
        VF_CHECK(l->got.size() == size_t(rounds) * P * N, "exactly-once", "listener got %zu of %d queued events", l->got.size(), rounds * P * N);
        std::map<int, int> next;
        for (auto &g : l->got) {
            int &n = next[g.producer];
            if (g.seq != n) { run().fail("order", fmt("producer %d: event %d delivered when %d was due", g.producer, g.seq, n)); break; }
            n++;
        }
    }
    run().count("events delivered", long(rounds) * P * N);
    run().maximum("events queued at once", double(P) * N);
    run().distinct(fmt("burst %d %d %d %d %d", same, L, P, N, rounds));
}

// The same event object dispatched again and again: every dispatch counts.
static void repeated(Rng &r) {
    bool same = r.chance(0.5), owner = r.chance(0.3);
    std::shared_ptr<events::ThreadSafeEventDispatcher> disp;
    if (same) disp = std::make_shared<events::SameThreadEventDispatcher>();
    else disp = std::make_shared<events::ThreadSafeEventDispatcher>();
    std::vector<std::shared_ptr<Listener>> ls;
    for (int i = 0, L = r.uni(1, 4); i < L; i++) { ls.push_back(std::make_shared<Listener>(i)); disp->add_listener(ls.back()); }
    std::vector<std::shared_ptr<Num>> pool;
    for (int i = 0, P = r.uni(1, 4); i < P; i++) pool.push_back(std::make_shared<Num>(0, i));
    std::vector<int> want;
    std::string hist;
    for (int k = 0, rounds = r.uni(1, 4); k < rounds; k++) {
        std::vector<int> seq(r.uni(0, 12));
        for (int &x : seq) { x = r.uni(0, (int)pool.size() - 1); want.push_back(x); hist += fmt(" %d", x); }
        auto feed = [&] { for (int x : seq) disp->dispatch(pool[x]); };
        if (owner) feed();
        else std::thread(feed).join();
        disp->process_events();
        hist += " |";
    }
    for (auto &l : ls) {
        std::vector<int> got;
        for (auto &g : l->got) got.push_back(g.seq);
        VF_CHECK(got == want, "repeated-event", "of %zu dispatches of %zu event objects %zu were delivered, or in another order; dispatched:%s", want.size(), pool.size(), got.size(), hist.c_str());
    }
    run().count("repeated dispatches", want.size());
    run().distinct(fmt("repeated %d %d", same, owner) + hist);
}

// Listeners that leave and come back, and listeners registered twice.
static void comeback(Rng &r) {
    bool same = r.chance(0.5);
    std::shared_ptr<events::ThreadSafeEventDispatcher> disp;
    if (same) disp = std::make_shared<events::SameThreadEventDispatcher>();
    else disp = std::make_shared<events::ThreadSafeEventDispatcher>();
    struct St { std::shared_ptr<Listener> l; int regs = 0; bool dirty = false; size_t seen = 0; };
    std::vector<St> ls(r.uni(1, 6));
    for (size_t i = 0; i < ls.size(); i++) ls[i].l = std::make_shared<Listener>(i);
    std::string hist;
    int ev = 0, twice = 0, returns = 0;
    auto step = [&] {   // one event, processed now
        disp->dispatch(std::make_shared<Num>(0, ev++));
        if (!same) disp->process_events();
        hist += "e";
        for (auto &s : ls) {
            s.dirty = false;
            size_t n = s.l->got.size() - s.seen;
            s.seen = s.l->got.size();
            if (s.regs == 0) VF_CHECK(n == 0, "removed-called", "a removed listener was called %zu times; history:%s", n, hist.c_str());
            else if (s.regs == 1) VF_CHECK(n == 1, "registered-called", "a registered listener was called %zu times for one event; history:%s", n, hist.c_str());
            else VF_CHECK(n >= 1, "registered-called", "a listener registered %d times was not called; history:%s", s.regs, hist.c_str());
            for (size_t i = s.seen - n; i < s.seen; i++) VF_CHECK(s.l->got[i].seq == ev - 1, "wrong-event", "event %d delivered instead of %d", s.l->got[i].seq, ev - 1);
        }
    };
    bool plain = r.chance(0.7);
    for (int i = 0, ops = r.uni(5, 60); i < ops; i++) {
        St &s = ls[r.next() % ls.size()];
        int a = r.uni(0, 3);
        if (a == 0 && !s.dirty && (s.regs == 0 || !plain)) {
            if (s.regs == 0 && s.seen) returns++;
            if (s.regs) twice++;
            s.regs++;
            hist += fmt(" +%d", s.l->id);
            disp->add_listener(s.l);
        } else if (a == 1 && s.regs) {
            s.regs = 0;
            s.dirty = true;   // takes effect with the next processing
            hist += fmt(" -%d", s.l->id);
            if (r.chance(0.3)) { std::thread t([&] { disp->remove_listener(s.l); }); t.join(); }
            else disp->remove_listener(s.l);
        } else if (a == 2)
            step();
    }
    step();
    run().count("listeners that came back", returns);
    run().count("listeners registered twice", twice);
    run().distinct(hist + (same ? "s" : "t"));
}

// Several threads process: each event still reaches each listener once.
struct Counter : public events::EventListenerInterface {
    explicit Counter(size_t n) : n(n) { for (auto &c : this->n) c = 0; }
    std::vector<std::atomic<int>> n;
    void on_event(std::shared_ptr<Event> ev) override { n[std::static_pointer_cast<Num>(ev)->seq]++; run().tick(); }
};
static void processors(Rng &r) {
    events::ThreadSafeEventDispatcher disp;
    int P = r.uni(1, 3), Q = r.uni(2, 4), N = r.pick(std::vector<int>{5, 50, 300}), L = r.uni(1, 3);
    perturb().seed = r.next() | 1;
    perturb().level = r.pick(std::vector<int>{0, 20, 80});
    std::vector<std::shared_ptr<Counter>> ls;
    for (int i = 0; i < L; i++) { ls.push_back(std::make_shared<Counter>(size_t(P) * N)); disp.add_listener(ls.back()); }
    std::atomic<int> done{0};
    std::vector<std::thread> ts;
    for (int p = 0; p < P; p++)
        ts.emplace_back([&, p] { for (int i = 0; i < N; i++) disp.dispatch(std::make_shared<Num>(p, p * N + i)); done++; });
    for (int q = 0; q < Q; q++)
        ts.emplace_back([&] { while (done < P) { disp.process_events(); std::this_thread::yield(); } });
    for (auto &t : ts) t.join();
    perturb().level = 0;
    disp.process_events();
    for (auto &l : ls)
        for (int i = 0; i < P * N; i++)
            if (l->n[i] != 1) { run().fail("exactly-once", fmt("an event was delivered %d times with %d processing threads", int(l->n[i]), Q)); return; }
    run().count("events delivered", P * N);
    run().distinct(r.next());
}

int main(int argc, char **argv) {
    return drive(argc, argv, "C05", {
        {"producers", 3000, 60000, producers},
        {"history", 60000, 1200000, history},
        {"plain", 3000, 50000, plain},
        {"burst", 64, 800, burst},
        {"repeated", 6000, 60000, repeated},
        {"comeback", 16000, 100000, comeback},
        {"processors", 400, 8000, processors},
    });
}
