// C01 failing allocations, C03 ownership, C04 immutability and copies, C12 reproducibility.
#include "ops.h"
#include <algorithm>
#include <set>

static GenCfg small_cfg() { GenCfg g; return g; }
static uint64_t opcase(const Op &o) { return hcomb(hcomb(o.kind, o.fmt), hcomb(o.v % 48, o.ix)); }

// ------------------------------------------------------------------ C01
static FailPlan next_plan;
static uint64_t last_requests, last_fired;
static void c01_begin() { heap_fail(next_plan); }
static void c01_end() { last_requests += heap_fail_requests(); last_fired += heap_fail_fired(); heap_nofail(); }
static FailPlan gen_plan(uint64_t n) {
    FailPlan p;
    uint32_t N = (uint32_t)(n ? n : 1);
    switch (draw(F, 8)) {
    case 0: case 1: case 2: case 3: p.mode = FAIL_KTH; p.k = draw(F, N); break;
    case 4: p.mode = FAIL_FROM; p.k = draw(F, N + 1); break;
    case 5: p.mode = FAIL_WINDOW; p.k = draw(F, N); p.n = 1 + draw(F, 4); break;
    case 6: p.mode = FAIL_RANDOM; p.num = 1; p.den = 2 + draw(F, 12); break;
    default: p.mode = FAIL_SIZE; p.k = 1u << (5 + draw(F, 10)); break;
    }
    return p;
}
static OpRes run_with(const Op &o, const std::vector<Handle> &w, const FailPlan &p, bool keep = false) {
    next_plan = p; last_requests = last_fired = 0;
    op_call_begin = c01_begin; op_call_end = c01_end;
    OpRes r = run_op(o, w, keep);
    op_call_begin = op_call_end = nullptr;
    return r;
}
static FailPlan count_only() { FailPlan p; p.mode = FAIL_KTH; p.k = ~0ull; return p; }

SCENARIO(C01) {
    if (giant_turn(60)) { c01_giant(); return; }
    WorldCfg wc; wc.g = small_cfg();
    wc.g.meta = true;
    g_op_obs = OBS_WRITERS | OBS_INDEX | OBS_SEARCH;
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    World w = gen_world(wc);
    std::vector<uint64_t> obs;
    auto take = [&](size_t i) { return h_observe(w.h[i], OBS_WRITERS | OBS_INDEX | OBS_MEMSIZE | OBS_SEARCH).total(); };
    for (size_t i = 0; i < w.h.size(); i++) obs.push_back(take(i));
    OpCfg oc; oc.g = small_cfg(); oc.mask = OPM_ALLOC;
    int nops = range(W, 1, 8);
    for (int i = 0; i < nops; i++) {
        Op o = gen_op(w.h.size(), oc);
        logf("%s", op_text(o).c_str());
        uint64_t mark = heap_mark();
        OpRes ref = run_with(o, w.h, count_only());
        uint64_t n = last_requests;
        if (ref.oom) violate("false-oom", "%s reports exhaustion although every request was granted", op_name[o.kind]);
        heap_check_leaks("leak", mark, "a call that succeeded and whose result was released");
        ev(ref.h); note_case(hcomb(opcase(o), n));
        if (n == 0) { PROBE("operation without any allocation"); continue; }
        int plans = range(F, 1, 6);
        for (int k = 0; k < plans; k++) {
            FailPlan p = gen_plan(n);
            mark = heap_mark();
            OpRes r = run_with(o, w.h, p);
            uint64_t fired = last_fired;
            logf("  plan mode=%d k=%llu of %llu: fired %llu -> %s", p.mode, (unsigned long long)p.k, (unsigned long long)n, (unsigned long long)fired, r.oom ? "oom" : "done");
            ev(r.h); ev(fired);
            if (r.oom && !fired) violate("false-oom", "%s reports exhaustion although every request was granted", op_name[o.kind]);
            if (!r.oom && r.h != ref.h) violate("partial-result", "%s with %llu failed request(s) returns something else than with plenty of memory, without reporting exhaustion", op_name[o.kind], (unsigned long long)fired);
            heap_check_leaks(r.oom ? "leak-on-failure" : "leak", mark, r.oom ? "a call that reported exhaustion" : "a call that succeeded and whose result was released");
            if (r.oom) PROBE("call reported exhaustion"); else if (fired) PROBE("call succeeded in spite of a failed request");
            for (uint32_t j : {o.a, o.b, o.c}) if (take(j) != obs[j]) violate("argument-changed", "%s that ran out of memory changed object %u", op_name[o.kind], j);
            if (k == plans - 1) {
                mark = heap_mark();
                OpRes again = run_with(o, w.h, count_only());
                if (again.oom) violate("false-oom", "%s still reports exhaustion after memory became available again", op_name[o.kind]);
                if (again.h != ref.h) violate("retry-differs", "%s repeated after a failure returns something else", op_name[o.kind]);
                heap_check_leaks("leak", mark, "a repeated call whose result was released");
            }
        }
        if (w.h.size() < 10 && draw(W, 3) == 2) {
            OpRes r = run_op(o, w.h, true);
            if (r.made && r.obj.p && !tg_geom_error(h_geom(r.obj))) { w.h.push_back(r.obj); obs.push_back(take(w.h.size() - 1)); }
            else if (r.made) h_free(r.obj);
        }
    }
    for (size_t i = 0; i < w.h.size(); i++) if (take(i) != obs[i]) violate("argument-changed", "an object that existed before the failures changed");
    free_world(w);
    heap_check_leaks("leak", 0, "everything was released");
}

// ------------------------------------------------------------------ C03
struct Node { HKind k; const void *p; std::vector<uint64_t> own; size_t own_bytes = 0; std::vector<int> parts; bool opaque = false, dead = false, err = false; };
struct Ref { Handle h; int node; bool interior; uint64_t obs; };
static std::vector<Node> nodes;
static std::vector<Ref> refs;
static void reach(int n, std::set<int> &s) { if (!s.insert(n).second) return; for (int p : nodes[n].parts) reach(p, s); }
static std::set<int> alive() { std::set<int> s; for (auto &r : refs) reach(r.node, s); return s; }
static size_t obtained(int n) { size_t b = nodes[n].own_bytes; for (int p : nodes[n].parts) b += obtained(p); return b; }
// the node whose memory p points to; the given one when p is inside a block
static int resolve(const void *p, int n) {
    uint64_t seq = heap_seq_of(p);
    if (seq) for (size_t i = 0; i < nodes.size(); i++) if (std::binary_search(nodes[i].own.begin(), nodes[i].own.end(), seq)) return (int)i;
    return n;
}
static uint64_t robs(Handle h) { return h_observe(h, OBS_WRITERS | OBS_INDEX | OBS_PRED).total(); }
static size_t msize(Handle h) {
    switch (h.k) { case HK_GEOM: return tg_geom_memsize((tg_geom*)h.p); case HK_RING: return tg_ring_memsize((tg_ring*)h.p); case HK_LINE: return tg_line_memsize((tg_line*)h.p); default: return tg_poly_memsize((tg_poly*)h.p); }
}
// how much more than it reports an object may hold: what is left of buffers that grew
static size_t slack(const tg_geom *g) {
    if (!g) return 0;
    size_t n = tg_geom_extra_json(g) || tg_geom_num_extra_coords(g) || tg_geom_typeof(g) >= TG_MULTIPOINT ? 24 : 0;
    if (tg_geom_typeof(g) >= TG_MULTIPOINT) for (int i = 0, k = tg_geom_num_geometries(g); i < k; i++) n += slack(tg_geom_geometry_at(g, i));
    return n;
}
static void c03_check_dead() {
    auto s = alive();
    for (size_t i = 0; i < nodes.size(); i++) if (!nodes[i].dead && !s.count((int)i)) {
        nodes[i].dead = true;
        for (uint64_t b : nodes[i].own) if (heap_is_live_seq(b)) violate("not-released", "the last reference to an object is gone but memory of it is still held");
        PROBE("object released with its last reference");
    }
}
static void c03_add(Handle h, uint64_t mark, std::vector<int> parts, bool opaque) {
    std::vector<std::pair<uint64_t, size_t>> live; heap_live(live, mark);
    std::sort(live.begin(), live.end());
    if (live.empty()) {
        // nothing was obtained: it is another reference to something that exists
        int n = -1; bool in = false;
        if (!parts.empty()) { n = resolve(h.p, parts[0]); in = nodes[n].p != h.p; }
        if (n < 0) violate("shared-instead-of-new", "a constructor returned an object without obtaining memory for it and without it being one of its arguments");
        refs.push_back({h, n, in, robs(h)});
        PROBE("constructor returned a reference to its argument");
        return;
    }
    Node nd; nd.k = h.k; nd.p = h.p; nd.opaque = opaque; nd.parts = parts;
    for (auto &b : live) { nd.own.push_back(b.first); nd.own_bytes += b.second; }
    nodes.push_back(nd);
    int id = (int)nodes.size() - 1;
    refs.push_back({h, id, false, robs(h)});
    size_t m = msize(h), o = obtained(id);
    if (tg_geom_error(h_geom(h))) return;
    // alone in its memory, and no request refused: the size is all of it
    if (opaque && parts.empty() && !last_fired && m + 32 + slack(h_geom(h)) < o) violate("memsize", "an object reports a size of %zu bytes, %zu were obtained for it", m, o);
    if (m > o) violate("memsize", "an object reports a size of %zu bytes but only %zu were obtained for it", m, o);
}
static void c03_free(size_t i) {
    Ref r = refs[i]; refs.erase(refs.begin() + i);
    h_free(r.h);
    c03_check_dead();
}
SCENARIO(C03) {
    if (giant_turn(60)) { c03_giant(); return; }
    nodes.clear(); refs.clear();
    g_op_obs = 0;
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    heap_reuse(draw(F, 2));
    GenCfg g = small_cfg(); g.meta = true; g.pts_huge = 120;
    int nops = range(W, 4, 30);
    uint64_t cs = 1;
    for (int i = 0; i < nops; i++) {
        uint32_t act = refs.size() < 2 ? 0 : draw(W, 12);
        uint64_t mark = heap_mark();
        if (refs.size() > 14) act = 9;
        cs = hcomb(cs, act);
        bool oom = act < 8 && draw(F, 10) == 9;
        FailPlan p; if (oom) { p.mode = FAIL_KTH; p.k = draw(F, 12); }
        if (act <= 1) {                                   // something new, parsed or built
            if (draw(W, 3) == 0 || refs.empty()) {
                Handle h = gen_handle(g, true); last_fired = 0;
                if (!h.p) violate("null-result", "building an object failed although memory is plentiful");
                c03_add(h, mark, {}, true);
            } else {
                OpCfg oc; oc.g = g; oc.mask = 1 << OP_PARSE | 1 << OP_RAWNEW | 1 << OP_NEWERR;
                Op o = gen_op(1, oc); logf("%s", op_text(o).c_str());
                std::vector<Handle> none(1, refs[0].h);
                OpRes r = run_with(o, none, p, true);
                if (r.made) c03_add(r.obj, mark, {}, true); else heap_check_leaks("leak-on-failure", mark, "a call that reported exhaustion");
            }
        } else if (act <= 4) {                            // compose
            std::vector<Handle> w; for (auto &r : refs) w.push_back(r.h);
            OpCfg oc; oc.g = g; oc.mask = 1 << OP_NEW;
            Op o = gen_op(w.size(), oc); logf("%s", op_text(o).c_str());
            g_op_parts.clear();
            OpRes r = run_with(o, w, p, true);
            if (r.made) {
                std::vector<int> parts;
                for (auto &x : g_op_parts) parts.push_back(resolve(x.second, refs[x.first].node));
                c03_add(r.obj, mark, parts, false);
                PROBE("object composed of shared parts");
            } else if (r.oom) heap_check_leaks("leak-on-failure", mark, "a call that reported exhaustion");
        } else if (act == 5) {                            // another reference
            size_t k = draw(W, (uint32_t)refs.size()); Handle h = h_clone(refs[k].h);
            if (!h.p) violate("null-result", "clone returned nothing");
            logf("clone of ref %zu", k);
            std::vector<std::pair<uint64_t, size_t>> live; heap_live(live, mark);
            if (h.p == refs[k].h.p) refs.push_back({h, refs[k].node, refs[k].interior, refs[k].obs}); else c03_add(h, mark, {refs[k].node}, true);
        } else if (act == 6) {                            // deep copy
            size_t k = draw(W, (uint32_t)refs.size()); logf("copy of ref %zu", k);
            heap_fail(p); Handle h = h_copy(refs[k].h); uint64_t fired = last_fired = heap_fail_fired(); heap_nofail();
            if (h.p) { c03_add(h, mark, {}, true); PROBE("deep copy"); }
            else if (fired) heap_check_leaks("leak-on-failure", mark, "a copy that reported exhaustion");
            else violate("null-result", "copy returned nothing although memory is plentiful");
        } else if (act == 7) {                            // a reference to a child
            size_t k = draw(W, (uint32_t)refs.size()); uint32_t sel = draw(W, 1 << 16);
            Handle h = refs[k].h, c; uint32_t what = draw(W, 4);
            if (what == 0) c = {HK_RING, (void*)h_pick_ring(h, sel)};
            if (what == 1) c = {HK_LINE, (void*)h_pick_line(h, sel)};
            if (what == 2) c = {HK_POLY, (void*)h_pick_poly(h, sel)};
            if (what == 3 && h.k == HK_GEOM) { int n = tg_geom_num_geometries(h_geom(h)); if (n) c = {HK_GEOM, (void*)tg_geom_geometry_at(h_geom(h), sel % n)}; }
            if (c.p) {
                int n = resolve(c.p, refs[k].node);
                Handle d = h_clone(c); logf("child of ref %zu cloned", k);
                if (!d.p) violate("null-result", "clone of a child returned nothing");
                refs.push_back({d, n, nodes[n].p != c.p, robs(d)});
                PROBE("reference to a child taken");
            }
        } else if (act == 8 && draw(W, 16) == 15) {       // very many references at once
            static const int many[] = {255, 256, 257, 32767, 32768, 65535, 65536, 65537};
            size_t k = draw(W, (uint32_t)refs.size()); int m = many[draw(W, 8)]; Handle h = refs[k].h;
            logf("%d more references to ref %zu", m, k);
            bool same = true; std::vector<Handle> v; std::vector<uint64_t> own;
            for (uint64_t b : nodes[refs[k].node].own) if (heap_is_live_seq(b)) own.push_back(b);      // a reference to a part keeps only the part
            for (int j = 0; j < m && same; j++) { Handle c = h_clone(h); if (!c.p) violate("null-result", "clone returned nothing"); v.push_back(c); same = c.p == h.p; }
            auto held = [&](const char *when) { for (uint64_t b : own) if (!heap_is_live_seq(b)) violate("released-early", "an object was released %s", when); };
            held("while many references were taken");
            for (size_t j = 0; j < v.size(); j++) { h_free(v[j]); if ((j & (j + 1)) == 0 || j + 2 >= v.size()) held("while some of many references were alive"); }
            if (robs(refs[k].h) != refs[k].obs) violate("object-changed", "an object changed while references to it were alive");
            PROBE("many references to one object");
        } else if (act == 8) {                            // use
            size_t k = draw(W, (uint32_t)refs.size());
            if (robs(refs[k].h) != refs[k].obs) violate("object-changed", "an object changed while references to it were alive");
        } else if (act == 11) {                           // free of nothing is nothing
            tg_geom_free(NULL); tg_ring_free(NULL); tg_line_free(NULL); tg_poly_free(NULL);
        } else {
            size_t k = draw(W, (uint32_t)refs.size()); logf("free ref %zu", k); c03_free(k);
        }
        ev(g_heap.live_blocks);
    }
    note_case(cs);
    for (auto &r : refs) if (robs(r.h) != r.obs) violate("object-changed", "an object changed while references to it were alive");
    while (!refs.empty()) {
        c03_free(draw(W, (uint32_t)refs.size()));
        if (!refs.empty() && draw(W, 4) == 3) { auto &r = refs[draw(W, (uint32_t)refs.size())]; if (robs(r.h) != r.obs) violate("object-changed", "an object changed when others were released"); }
    }
    heap_check_leaks("leak", 0, "every reference was released");
}

// ------------------------------------------------------------------ C04
static uint64_t deep_obs(Handle h) {
    uint64_t r = h_observe(h, OBS_WRITERS | OBS_INDEX | OBS_PRED).total();
    std::vector<Handle> w(1, h);
    Op o; o.kind = OP_NEAREST; o.rect = tg_rect{{1, 2}, {3, 4}}; o.v = 0x0101; o.stop = 12; r = hcomb(r, run_op(o, w).h);
    o = Op(); o.kind = OP_PAIRS; o.v = 1; o.w = 0x100; o.stop = 40; r = hcomb(r, run_op(o, w).h);
    tg_rect b = tg_geom_rect(h_geom(h));
    o = Op(); o.kind = OP_SEARCH; o.v = 0; o.rect = tg_rect{b.min, tg_rect_center(b)}; r = hcomb(r, run_op(o, w).h);
    return r;
}
static void churn() {
    // reuse whatever was just released for other contents
    std::vector<void*> v; int n = range(W, 1, 12);
    for (int i = 0; i < n; i++) {
        auto p = gen_ring_points(0, range(W, 4, 60), 2);
        v.push_back(tg_ring_new_ix(p.data(), (int)p.size(), gen_ix()));
    }
    for (auto p : v) tg_ring_free((tg_ring*)p);
}
SCENARIO(C04) {
    if (giant_turn(60)) { c04_giant(); return; }
    g_op_obs = OBS_WRITERS;
    heap_reuse(draw(F, 3) != 0);
    heap_fill((FillMode)draw(F, 6), draw(F, 1000));
    static const int spreads[] = {16, 2, 4, 8, 32, 4096, 1};
    tg_env_set_index_spread(spreads[draw(W, 7)]);
    WorldCfg wc; wc.g = small_cfg(); wc.g.meta = true; wc.n_lo = 1; wc.n_hi = 4;
    World w = gen_world(wc);
    std::vector<uint64_t> obs;
    for (auto &h : w.h) obs.push_back(deep_obs(h));
    OpCfg oc; oc.g = small_cfg();
    int nops = range(W, 2, 16); uint64_t cs = 1;
    auto check = [&](size_t i, const char *after) { if (deep_obs(w.h[i]) != obs[i]) violate("object-changed", "an object no longer shows what it did before %s", after); };
    for (int i = 0; i < nops; i++) {
        uint32_t act = draw(W, 8);
        if (act <= 3) {
            Op o = gen_op(w.h.size(), oc); logf("%s", op_text(o).c_str());
            cs = hcomb(cs, opcase(o));
            FailPlan p = count_only(); bool f = draw(F, 4) == 3;
            if (f) { p.mode = FAIL_KTH; p.k = draw(F, 10); }
            OpRes r = run_with(o, w.h, p, draw(W, 3) == 2 && w.h.size() < 8);
            if (f && last_fired) PROBE("operation hit by a failed allocation");
            if (r.made && r.obj.p) {
                if (tg_geom_error(h_geom(r.obj))) h_free(r.obj);
                else { w.h.push_back(r.obj); obs.push_back(deep_obs(r.obj)); }
            }
            for (uint32_t j : {o.a, o.b, o.c}) check(j, op_name[o.kind]);
        } else if (act <= 6) {
            size_t k = draw(W, (uint32_t)w.h.size());
            Handle h = h_copy(w.h[k]); logf("deep copy of %zu", k);
            if (!h.p) violate("null-result", "copy returned nothing although memory is plentiful");
            cs = hcomb(cs, 77 + h.k);
            if (h_observe(h, OBS_WRITERS | OBS_INDEX).s != h_observe(w.h[k], OBS_WRITERS | OBS_INDEX).s)
                violate("copy-differs", "a deep copy differs from its original in: %s", diff_obs(h_observe(h, OBS_WRITERS | OBS_INDEX), h_observe(w.h[k], OBS_WRITERS | OBS_INDEX)).c_str());
            if (deep_obs(h) != obs[k]) violate("copy-differs", "a deep copy answers predicates or searches differently from its original");
            if (act == 6) { w.h.push_back(h); obs.push_back(obs[k]); }
            else { h_free(w.h[k]); w.h[k] = h; churn(); PROBE("original released and its memory reused, copy kept"); check(k, "the release of the object it is a copy of"); }
        } else if (w.h.size() > 1) {
            size_t k = draw(W, (uint32_t)w.h.size());
            h_free(w.h[k]); w.h.erase(w.h.begin() + k); obs.erase(obs.begin() + k);
            churn();
            check(draw(W, (uint32_t)w.h.size()), "the release of another object");
        }
    }
    note_case(cs);
    for (size_t i = 0; i < w.h.size(); i++) check(i, "the whole program");
    free_world(w);
    heap_check_leaks("leak", 0, "everything was released");
}

// ------------------------------------------------------------------ C13
SCENARIO(C13) {
    if (giant_turn(40)) { c13_giant(); return; }
    WorldCfg wc; wc.g = small_cfg(); wc.g.meta = true; wc.n_lo = 1; wc.n_hi = 5;
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    static const int spreads[] = {16, 2, 4, 8, 32, 4096, 1};
    tg_env_set_index_spread(spreads[draw(W, 7)]);
    g_op_obs = OBS_WRITERS | OBS_INDEX | OBS_MEMSIZE | OBS_PRED | OBS_SEARCH;
    World w = gen_world(wc);
    OpCfg oc; oc.g = small_cfg(); oc.mask = 1 << OP_OBSERVE | 1 << OP_PRED | 1 << OP_XYRECT | 1 << OP_SEARCH | 1 << OP_PAIRS | 1 << OP_WRITE | 1 << OP_QUICK | 1 << OP_CLONE;
    int nops = range(W, 2, 14); uint64_t cs = 1;
    std::vector<Op> prog; std::vector<uint64_t> want;
    uint64_t mark = heap_mark();
    for (int i = 0; i < nops; i++) {
        prog.push_back(gen_op(w.h.size(), oc)); cs = hcomb(cs, opcase(prog[i]));
        OpRes r = run_with(prog[i], w.h, count_only());
        want.push_back(r.h); ev(r.h);
        if (last_requests) PROBE("reading call asked for memory");
        heap_check_leaks("leak", mark, "a call that only reads");
    }
    note_case(cs);
    // again, with nothing left from now on: releases and clones included
    int reps = range(F, 1, 2);
    for (int k = 0; k < reps; k++) {
        FailPlan p; uint32_t m = draw(F, 4);
        if (m <= 1) { p.mode = FAIL_FROM; p.k = 0; } else if (m == 2) { p.mode = FAIL_KTH; p.k = draw(F, 6); } else { p.mode = FAIL_RANDOM; p.num = 1; p.den = 2; }
        for (int i = 0; i < nops; i++) {
            logf("%s", op_text(prog[i]).c_str());
            FAULT("no memory left while reading");
            OpRes r = run_with(prog[i], w.h, p);
            if (r.h != want[i] || r.oom) violate("needs-memory", "%s of existing objects returns something else when no memory is left (%llu request(s) refused)", op_name[prog[i].kind], (unsigned long long)last_fired);
            heap_check_leaks("leak-on-failure", mark, "a call that only reads, with no memory left");
        }
    }
    FailPlan all; all.mode = FAIL_FROM; all.k = 0;
    std::vector<Handle> more;
    heap_fail(all);
    for (auto &h : w.h) { int n = (int)draw(W, 3); for (int i = 0; i < n; i++) { Handle c = h_clone(h); if (!c.p) violate("needs-memory", "another reference cannot be taken when no memory is left"); more.push_back(c); } }
    for (auto &h : more) h_free(h);
    free_world(w);
    heap_nofail();
    heap_check_leaks("leak", 0, "everything was released with no memory left");
}

// ------------------------------------------------------------------ C12
SCENARIO(C12) {
    if (giant_turn(80)) { c12_giant(); return; }
    static const int spreads[] = {16, 2, 4, 8, 32, 4096, 1, 0};
    int spread = spreads[draw(W, 8)]; enum tg_index ix = (enum tg_index)draw(W, 4); bool fixed = draw(W, 4) == 3;
    // the program: objects described by value, then operations on them
    std::vector<ObjSpec> specs;
    int n = range(W, 1, 4);
    for (int i = 0; i < n; i++) { GenCfg g = small_cfg(); specs.push_back(gen_spec(g, true)); }
    OpCfg oc; oc.g = small_cfg();
    int nops = range(W, 1, 12);
    std::vector<Op> prog; std::vector<int> keep; uint64_t cs = 1; size_t nw = n;
    bool docs = draw(W, 3) == 2;                       // a program that mostly parses
    for (int i = 0; i < nops; i++) { oc.mask = docs && draw(W, 3) ? 1u << OP_PARSE : OPM_ALL; prog.push_back(gen_op(nw, oc)); keep.push_back(draw(W, 4) == 3); cs = hcomb(cs, opcase(prog[i])); }
    // documents that differ little from an earlier one
    for (size_t i = 0, last = 0; i < prog.size(); i++) if (prog[i].kind == OP_PARSE) {
        if (last && draw(W, 2)) {
            prog[i].doc = prog[last - 1].doc; prog[i].fmt = prog[last - 1].fmt; prog[i].ix = prog[last - 1].ix;
            std::string &d = prog[i].doc; int k = (int)draw(W, 3);
            for (int j = 0; j < k && !d.empty(); j++) {
                size_t p = draw(W, (uint32_t)d.size());
                if (d[p] >= '0' && d[p] <= '9') d[p] = (char)('0' + draw(W, 10));
            }
            for (size_t p = 0; p < d.size() && prog[i].fmt == FMT_WKT; p++) if ((d[p] == 'Z' || d[p] == 'M') && p && d[p - 1] == ' ' && draw(W, 2)) d[p] = d[p] == 'Z' ? 'M' : 'Z';
        }
        last = i + 1;
    }
    note_case(cs);
    g_op_obs = OBS_ALL;
    auto configure = [&]() { tg_env_set_index(ix); tg_env_set_index_spread(spread); tg_env_set_print_fixed_floats(fixed); };
    auto play = [&](std::vector<uint64_t> &out, FillMode sf, uint64_t ss) {
        World w;
        configure();
        for (int i = 0; i < n; i++) {
            Handle h;
            run_on_fresh_stack([&]() { h = build_spec(specs[i]); }, sf, ss + i);
            if (!h.p) violate("null-result", "building an object failed although memory is plentiful");
            out.push_back(h.k); w.h.push_back(h);
        }
        for (size_t i = 0; i < prog.size(); i++) {
            OpRes r;
            run_on_fresh_stack([&]() { r = run_op(prog[i], w.h, keep[i]); }, sf, ss + 100 + i);
            out.push_back(r.h);
            if (r.made && r.obj.p) { if (w.h.size() < 10) { h_free(w.h[prog[i].a]); w.h[prog[i].a] = r.obj; } else h_free(r.obj); }
        }
        free_world(w);
    };
    std::vector<uint64_t> ref, got;
    heap_fill(FILL_ZERO, 0);
    play(ref, FILL_ZERO, 0);
    for (uint64_t h : ref) ev(h);
    int reps = range(F, 1, 3);
    for (int k = 0; k < reps; k++) {
        uint64_t mark = heap_mark();
        // another history: unrelated calls, some failing for lack of memory, some stopped, before the same program
        if (draw(F, 2)) {
            WorldCfg wc; wc.g = small_cfg(); wc.g.meta = true; World w = gen_world(wc);
            int m = range(F, 1, 6); OpCfg o2; o2.g = small_cfg();
            for (int i = 0; i < m; i++) {
                Op o = gen_op(w.h.size(), o2); FailPlan p = count_only(); if (draw(F, 3) == 2) { p.mode = FAIL_KTH; p.k = draw(F, 8); }
                run_with(o, w.h, p);
            }
            free_world(w);
            FAULT("unrelated calls before the program");
        }
        void *shift = NULL; if (draw(F, 2)) { shift = sim_malloc(1 + draw(F, 5000)); FAULT("addresses shifted"); }
        FillMode fill = (FillMode)draw(F, 6);
        if (draw(F, 2)) { heap_reuse(true); FAULT("freed memory handed out again"); }
        uint64_t fs = draw(F, 100000); heap_fill(fill, fs); FAULT("fresh memory filled with garbage");
        FillMode sf = (FillMode)draw(F, 5); FAULT("stack filled with garbage");
        char *iobuf = NULL;
        if (draw(F, 2)) { g_op_doc_cap = 4096; g_op_doc_buf = iobuf = (char*)lend(g_op_doc_cap); memset(iobuf, (int)draw(F, 256), g_op_doc_cap); FAULT("documents at one address"); }
        got.clear(); set_locale(draw_locale()); set_libc_memory(draw(F, 4) != 3);
        play(got, sf, draw(F, 100000)); set_locale(0); set_libc_memory(true);
        sim_free(shift);
        if (iobuf) { unlend(iobuf); g_op_doc_buf = NULL; }
        heap_reuse(false);
        for (size_t i = 0; i < ref.size(); i++) if (got[i] != ref[i]) {
            int j = (int)i - n;
            violate("not-reproducible", "%s returns something else when memory contents, addresses or history differ (%s)", j < 0 ? "building an object" : op_name[prog[j].kind], j < 0 ? "" : op_text(prog[j]).c_str());
        }
        heap_check_leaks("leak", mark, "a program that released everything");
    }
}
