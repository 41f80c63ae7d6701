// C02: simulated threads share geometries.
#include "ops.h"
#include <algorithm>

struct Step { int kind; int i; int to; Op op; uint64_t want; bool want_oom; FailPlan plan; };     // 0 op, 1 clone ref, 2 free ref, 3 send ref, 4 receive
struct Mail { std::vector<std::pair<int, Handle>> items; uint64_t clk[MAX_TASKS]; };
static std::vector<ObjSpec> specs;
static World world;                                    // borrowed objects keep their handle here; given ones too, but without a reference of main's
static std::vector<uint64_t> want_obs;
static Mail mail[MAX_TASKS];
static FailPlan cur_plan[MAX_TASKS];                    // what fails in the call a thread is making: the same as when it is made alone
static void arm() { heap_fail(cur_plan[task_self()]); }
static void disarm() { heap_nofail(); }

static void check_res(const Op &op, const OpRes &r, uint64_t want, bool want_oom, int task) {
    if (r.oom != want_oom) violate("wrong-result", "%s by thread %d %s, alone it does%s", op_name[op.kind], task, r.oom ? "reports exhaustion" : "succeeds", r.oom ? " not" : "");
    if (r.oom) PROBE("concurrent call reported exhaustion");
    if (r.h != want) violate("wrong-result", "%s by thread %d returns something else than when run alone: %s", op_name[op.kind], task, op_text(op).c_str());
}
struct TaskState { std::vector<std::pair<int, Handle>> refs; std::vector<Step> prog; };
static TaskState ts[MAX_TASKS];

static void task_body(int me) {
    TaskState &t = ts[me];
    auto find = [&](int i) { for (size_t k = 0; k < t.refs.size(); k++) if (t.refs[k].first == i) return (int)k; return -1; };
    for (auto &s : t.prog) {
        sched_point(0);
        switch (s.kind) {
        case 0: { logf("%s", op_text(s.op).c_str()); 
            std::vector<Handle> view = world.h;            // every thread goes through its own references
            for (auto &r : t.refs) view[r.first] = r.second;
            cur_plan[me] = s.plan;
            OpRes r = run_op(s.op, view); check_res(s.op, r, s.want, s.want_oom, me); break; }
        case 1: {
            int k = find(s.i); Handle h = k >= 0 ? t.refs[k].second : world.h[s.i];
            logf("takes another reference to %d", s.i);
            Handle c = h_clone(h); if (!c.p) violate("wrong-result", "clone returned nothing");
            t.refs.push_back({s.i, c}); break; }
        case 2: { int k = find(s.i); if (k < 0) break; logf("releases a reference to %d", s.i); Handle h = t.refs[k].second; t.refs.erase(t.refs.begin() + k); h_free(h); break; }
        case 3: {
            int k = find(s.i); if (k < 0) break; logf("sends a reference to %d to thread %d", s.i, s.to);
            auto x = t.refs[k]; t.refs.erase(t.refs.begin() + k);
            mail[s.to].items.push_back(x);
            uint64_t c[MAX_TASKS]; sync_release(c); for (int j = 0; j < MAX_TASKS; j++) mail[s.to].clk[j] = std::max(mail[s.to].clk[j], c[j]);
            PROBE("reference handed to another thread");
            break; }
        default: {
            if (mail[me].items.empty()) break;
            sync_acquire(mail[me].clk);
            auto v = std::move(mail[me].items); mail[me].items.clear();
            for (auto &x : v) {
                logf("received a reference to %d", x.first);
                if (h_observe(x.second, g_op_obs).total() != want_obs[x.first]) violate("wrong-result", "an object received from another thread does not show what it should");
                h_free(x.second);
            }
            break; }
        }
    }
    for (auto &r : t.refs) h_free(r.second);
    t.refs.clear();
}

// threads look at one very large object, take and release references to it and to its copies
static void large(void) {
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    Giant g = gen_giant(600, 5000); int nt = range(W, 2, 3);
    static const int part[] = {GL_SEARCH, GL_PRED, GL_WRITE, GL_OBSERVE};
    static uint64_t want[4]; static std::vector<int> prog[MAX_TASKS]; static std::vector<Handle> pr; static Handle h; static Giant G; G = g;
    // alone
    pr = giant_probes(g); h = build_giant(g); if (!h.p) violate("null-result", "building an object failed although memory is plentiful");
    uint64_t t0 = steps_now();
    for (int i = 0; i < 4; i++) { want[i] = giant_look(h, g, pr, part[i]); ev(want[i]); }
    uint64_t est = (steps_now() - t0) * 3 * nt;
    h_free(h); for (auto &p : pr) h_free(p);
    for (int t = 1; t <= nt; t++) { prog[t].clear(); int n = range(W, 1, 3); for (int i = 0; i < n; i++) prog[t].push_back((int)draw(W, 7)); }
    lib_reset(); tasks_begin();
    pr = giant_probes(g); h = build_giant(g);
    if (!h.p) violate("null-result", "building an object failed although memory is plentiful");
    bool given = draw(W, 2); static Handle mine[MAX_TASKS];
    for (int t = 1; t <= nt; t++) mine[t] = !given ? h : t == 1 ? h : h_clone(h);
    // with the settings of a freshly loaded library; another object is asked, this one is new to the threads
    { Handle k = build_giant(g); for (int i = 0; i < 4; i++) want[i] = giant_look(k, g, pr, part[i]); h_free(k); }
    for (int t = 1; t <= nt; t++) task_spawn([t, given]() {
        for (int a : prog[t]) {
            sched_point(0);
            if (a < 4) { if (giant_look(mine[t], G, pr, part[a]) != want[a]) violate("wrong-result", "a large object shows thread %d something else than it shows when used alone", t); }
            else if (a == 4) { Handle c = h_clone(mine[t]); if (!c.p) violate("wrong-result", "clone returned nothing"); h_free(c); }
            else if (a == 5) { Handle c = h_copy(mine[t]); if (!c.p) violate("wrong-result", "copy returned nothing"); if (giant_look(c, G, pr, GL_SEARCH) != want[0]) violate("wrong-result", "a copy made by thread %d shows something else", t); h_free(c); }
            else { Handle c = build_giant(G); if (!c.p) violate("wrong-result", "building returned nothing"); h_free(c); }
        }
        if (given) h_free(mine[t]);
    });
    SchedCfg sc; sc.mode = (int)draw(S, 4); sc.max_switch = 1u << draw(S, 9); sc.est_steps = (uint32_t)std::min<uint64_t>(est + 100, 1u << 30);
    step_limit(est * 20 + 20000000);
    tasks_run(sc);
    step_limit(0);
    if (!given) h_free(h);
    for (auto &p : pr) h_free(p);
    heap_check_leaks("leak", 0, "every thread released its references");
    ev(sched_switches());
}
SCENARIO(C02) {
    if (giant_turn(150)) { large(); return; }
    specs.clear(); world.h.clear(); want_obs.clear();
    for (auto &m : mail) { m.items.clear(); memset(m.clk, 0, sizeof m.clk); }
    for (auto &t : ts) { t.refs.clear(); t.prog.clear(); }
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    g_op_obs = OBS_WRITERS | OBS_INDEX | OBS_SEARCH;
    int nt = range(W, 2, MAX_TASKS - 1), no = range(W, 1, 4);
    GenCfg g; g.pts_huge = 80; g.pts_big = 24; g.kids_huge = 24; g.kids_big = 6; g.indexed = 6; g.meta = true;
    std::vector<bool> given;
    for (int i = 0; i < no; i++) { specs.push_back(gen_spec(g, true)); given.push_back(draw(W, 3) != 0); }
    // per thread: which given objects it holds a reference to at the start, and its program
    std::vector<std::vector<int>> start(nt + 1), held(nt + 1);
    for (int i = 0; i < no; i++) if (given[i]) { uint32_t mask = 1 + draw(W, (1u << nt) - 1); for (int t = 1; t <= nt; t++) if (mask >> (t - 1) & 1) start[t].push_back(i); }
    OpCfg oc; oc.g = g; oc.g.pts_huge = 30; oc.g.kids_huge = 8; oc.g.indexed = 0;
    uint64_t cs = nt; bool fails = draw(F, 4) == 3;
    op_call_begin = arm; op_call_end = disarm;
    for (int t = 1; t <= nt; t++) {
        auto h = start[t];
        int n = range(W, 1, 8);
        for (int k = 0; k < n; k++) {
            Step s; s.kind = 0; s.i = 0; s.to = 0; s.want = 0; s.want_oom = false;
            uint32_t a = draw(W, 10);
            std::vector<int> usable; for (int i = 0; i < no; i++) if (!given[i] || std::count(h.begin(), h.end(), i)) usable.push_back(i);
            if (a < 5 && !usable.empty()) {
                s.kind = 0; s.op = gen_op(usable.size(), oc);
                s.op.a = usable[s.op.a % usable.size()]; s.op.b = usable[s.op.b % usable.size()]; s.op.c = usable[s.op.c % usable.size()];
                if (fails && draw(F, 2)) switch (draw(F, 4)) {
                    case 0: s.plan.mode = FAIL_FROM; s.plan.k = draw(F, 12); break;
                    case 1: s.plan.mode = FAIL_SIZE; s.plan.k = 1u << (5 + draw(F, 8)); break;
                    default: s.plan.mode = FAIL_KTH; s.plan.k = draw(F, 16);
                }
            } else if (a < 7 && !usable.empty()) { s.kind = 1; s.i = usable[draw(W, (uint32_t)usable.size())]; h.push_back(s.i); }
            else if (a == 7 && !h.empty()) { size_t j = draw(W, (uint32_t)h.size()); s.kind = 2; s.i = h[j]; h.erase(h.begin() + j); }
            else if (a == 8 && !h.empty() && nt > 1) { size_t j = draw(W, (uint32_t)h.size()); s.kind = 3; s.i = h[j]; h.erase(h.begin() + j); s.to = 1 + (t - 1 + 1 + draw(W, nt - 1)) % nt; }
            else s.kind = 4;
            cs = hcomb(cs, s.kind * 32 + s.op.kind);
            ts[t].prog.push_back(s);
        }
    }
    note_case(cs);
    // the answers when run alone, on an identical world
    uint64_t s0 = steps_now();
    World alone;
    for (auto &s : specs) { Handle h = build_spec(s); if (!h.p) violate("null-result", "building an object failed although memory is plentiful"); alone.h.push_back(h); want_obs.push_back(h_observe(h, g_op_obs).total()); }
    uint64_t s1 = steps_now();
    for (int t = 1; t <= nt; t++) for (auto &s : ts[t].prog) if (s.kind == 0) { cur_plan[0] = s.plan; OpRes r = run_op(s.op, alone.h); s.want = r.h; s.want_oom = r.oom; ev(s.want); }
    uint64_t est = steps_now() - s1;
    free_world(alone);
    heap_check_leaks("leak", 0, "the sequential run");
    (void)s0;
    // the same program with threads, on a library as freshly loaded
    lib_reset();
    tasks_begin();
    for (auto &s : specs) { Handle h = build_spec(s); if (!h.p) violate("null-result", "building an object failed although memory is plentiful"); world.h.push_back(h); }
    std::vector<Handle> mine;
    for (int i = 0; i < no; i++) {
        if (!given[i]) { mine.push_back(world.h[i]); continue; }
        bool first = true;
        for (int t = 1; t <= nt; t++) for (int x : start[t]) if (x == i) {
            if (first) { ts[t].refs.push_back({i, world.h[i]}); first = false; }     // main's own reference moves to the thread
            else { Handle c = h_clone(world.h[i]); if (!c.p) violate("wrong-result", "clone returned nothing"); ts[t].refs.push_back({i, c}); }
        }
    }
    SchedCfg sc; sc.mode = (int)draw(S, 4); sc.max_switch = 1u << draw(S, 9); sc.est_steps = (uint32_t)std::min<uint64_t>(est + 100, 1u << 30);
    for (int t = 1; t <= nt; t++) task_spawn([t]() { task_body(t); });
    step_limit(est * 20 + 20000000);
    tasks_run(sc);
    step_limit(0);
    op_call_begin = op_call_end = nullptr;
    for (int t = 1; t <= nt; t++) for (auto &x : mail[t].items) {
        if (h_observe(x.second, g_op_obs).total() != want_obs[x.first]) violate("wrong-result", "an object kept alive by a reference in transit does not show what it should");
        h_free(x.second);
    }
    for (auto h : mine) h_free(h);
    heap_check_leaks("leak", 0, "every thread released its references");
    ev(sched_switches());
}
