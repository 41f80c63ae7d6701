// Very large objects: tens of thousands of points, parts or holes, deep indexes, deep nesting. The
// other generators stay small so that many histories can be tried; some code is reached only by size.
#include "ops.h"
#include <algorithm>
#include <cmath>

namespace {
struct Rng { uint64_t s; uint64_t next() { s = mix64(s + 0x9e3779b97f4a7c15ull); return s; } double coord() { uint64_t r = next(); return (double)(r % 1000) + (double)(r >> 32 & 7) / 8; } uint32_t below(uint32_t n) { return (uint32_t)(next() >> 20) % n; } };
MLine star(Rng &r, double cx, double cy, double rad, int n) {
    MLine l;
    for (int i = 0; i < n; i++) { double a = 6.283185307179586 * i / n, q = rad * (0.9 + (double)r.below(100) / 1000); l.push_back({{cx + q * cos(a), cy + q * sin(a), 0, 0}}); }
    l.push_back(l[0]); return l;
}
MGeom leaf(int type, Rng &r, int d) {
    MGeom g; g.type = type; g.z = d & 1; g.m = d & 2;
    double x = r.coord(), y = r.coord();
    auto at = [&](double a, double b) { MPos p = {{a, b, 0, 0}}; for (int i = 2; i < g.dims(); i++) p.v[i] = (double)r.below(50); return p; };
    if (type == TG_POINT) g.parts.push_back({at(x, y)});
    else if (type == TG_LINESTRING) { MLine l; int n = 2 + (int)r.below(2); for (int i = 0; i < n; i++) l.push_back(at(x + r.below(8), y + r.below(8))); g.parts.push_back(l); }
    else { double w = 1 + r.below(6), h = 1 + r.below(6); MLine l = {at(x, y), at(x + w, y), at(x + w, y + h)}; if (r.below(2)) l.push_back(at(x, y + h)); MPos e = at(x, y); l.push_back(e); g.parts.push_back(l); }
    return g;
}
enum { K_MP, K_MLS, K_GC, K_RING, K_LINE, K_HOLES, K_MPOLY, K_MIX, K_EXTRA, K_NEST, K_FEAT, NK };
const char *kname[NK] = {"multipoint", "multilinestring", "collection", "ring", "line", "polygon with many holes", "multipolygon", "collection of large parts", "geometry with extra coordinates", "nested collections", "feature collection"};
MGeom model(const Giant &G) {
    Rng r{G.seed}; MGeom g; int n = G.n;
    switch (G.kind) {
    case K_MP: g.type = TG_MULTIPOINT; for (int i = 0; i < n; i++) g.kids.push_back(leaf(TG_POINT, r, 0)); break;
    case K_MLS: g.type = TG_MULTILINESTRING; for (int i = 0; i < n; i++) g.kids.push_back(leaf(TG_LINESTRING, r, 0)); break;
    case K_GC: g.type = TG_GEOMETRYCOLLECTION; for (int i = 0; i < n; i++) g.kids.push_back(leaf(r.below(3) ? TG_POINT : TG_LINESTRING, r, 0)); break;
    case K_RING: g.type = TG_POLYGON; g.parts.push_back(star(r, 500, 500, 400, n)); break;
    case K_LINE: { g.type = TG_LINESTRING; MLine l; double x = 500, y = 500; for (int i = 0; i < n; i++) { l.push_back({{x, y, 0, 0}}); x += (double)r.below(9) - 4; y += (double)r.below(9) - 4; } g.parts.push_back(l); break; }
    case K_HOLES: {
        g.type = TG_POLYGON; g.parts.push_back(star(r, 500, 500, 900, n / 4 + 8));
        int side = std::max(1, (int)sqrt(n / 4)); double st = 900.0 / side;
        for (int i = 0; i < n / 4; i++) { double x = 50 + (i % side) * st, y = 50 + (i / side) * st; g.parts.push_back({{{x, y, 0, 0}}, {{x + st / 3, y, 0, 0}}, {{x + st / 3, y + st / 3, 0, 0}}, {{x, y, 0, 0}}}); }
        break; }
    case K_MPOLY: g.type = TG_MULTIPOLYGON; for (int i = 0; i < n; i++) g.kids.push_back(leaf(TG_POLYGON, r, 0)); break;
    case K_MIX: {
        g.type = TG_GEOMETRYCOLLECTION; Giant s = G; s.n = n / 3 + 4;
        for (int k : {K_RING, K_LINE, K_MP}) { s.kind = k; s.seed++; g.kids.push_back(model(s)); }
        break; }
    case K_EXTRA: {
        int t = 1 + (int)r.below(5), d = 1 + (int)r.below(3);
        if (t > 3) { Giant s = G; s.kind = t == 4 ? K_LINE : K_HOLES; g = model(s); g.z = d & 1; g.m = d & 2; for (auto &l : g.parts) for (auto &p : l) for (int i = 2; i < g.dims(); i++) p.v[i] = (double)(&p == &l.back() && t == 5 ? l[0].v[i] : r.below(50)); break; }
        g.type = t + 3; g.z = d & 1; g.m = d & 2; for (int i = 0; i < n; i++) g.kids.push_back(leaf(t, r, d)); break; }
    case K_NEST: {
        // levels of collections around each other, each with something of its own
        int d = std::min(n / 8 + 2, 480); g = leaf(TG_LINESTRING, r, 0);
        for (int i = 0; i < d; i++) { MGeom c; c.type = TG_GEOMETRYCOLLECTION; c.kids.push_back(std::move(g)); c.kids.push_back(leaf(TG_POINT, r, 0)); g = std::move(c); }
        break; }
    default:
        g.type = TG_GEOMETRYCOLLECTION; g.featcol = true;
        for (int i = 0; i < n; i++) { MGeom k = leaf(1 + (int)r.below(3), r, 0); k.feature = true; char id[24]; snprintf(id, sizeof id, "%d", i); k.fextra.push_back({"\"id\"", id}); g.kids.push_back(k); }
    }
    return g;
}
// about how many points one unit of n costs
int weight(int kind) { return kind == K_MPOLY || kind == K_FEAT ? 4 : kind == K_MLS || kind == K_GC || kind == K_EXTRA ? 2 : 1; }
tg_rect kid_box(const MGeom &m) {
    const MGeom *k = &m; while (!k->kids.empty()) k = &k->kids[k->kids.size() / 2];
    tg_rect r; bool any = false;
    for (auto &l : k->parts) for (size_t i = 0; i < l.size() && i < 3; i++) { tg_point p = {l[i].v[0], l[i].v[1]}; if (!any) { r.min = r.max = p; any = true; } r.min.x = std::min(r.min.x, p.x); r.min.y = std::min(r.min.y, p.y); r.max.x = std::max(r.max.x, p.x); r.max.y = std::max(r.max.y, p.y); }
    return r;
}
}

bool giant_turn(uint32_t one_in) { return draw(W, one_in) == one_in - 1; }
Giant gen_giant(int lo, int hi) {
    Giant g; g.kind = (int)draw(W, NK); g.ix = gen_ix(); g.seed = draw64(W); g.var = draw(W, 256);
    static const int edge[] = {1024, 1025, 4096, 4097, 8191, 16384, 32767, 32768, 32769, 65535, 65536, 65537};
    double u = draw(W, 1000) / 999.0; g.n = (int)(lo * pow((double)hi / lo, u));
    uint32_t e = draw(W, 48); if (e >= 36 && edge[e - 36] >= lo && edge[e - 36] <= hi) g.n = edge[e - 36];
    int w = weight(g.kind); if (g.n * w > hi * 2) g.n = hi * 2 / w;
    g.m = model(g);
    g.doc = g.kind == K_FEAT || draw(W, 3) == 2;
    if (g.doc) { g.fmt = g.kind == K_FEAT ? (draw(W, 2) ? FMT_GEOBIN : FMT_GEOJSON) : (Fmt)draw(W, NFMT); g.text = encode(g.m, g.fmt, draw(W, 64)); }
    logf("%s of %d, index %d, %s", kname[g.kind], g.n, (int)g.ix, g.doc ? fmt_name[g.fmt] : "by the constructors");
    note_case(hcomb(g.kind * 8 + (g.doc ? 1 + g.fmt : 0), g.n / 256));
    PROBE("very large object");
    return g;
}
Handle build_giant(const Giant &g) {
    if (g.doc) {
        tg_geom *x = parse_lent(g.text, g.fmt, g.ix);
        const char *e = tg_geom_error(x);
        if (e && !strcmp(e, "no memory")) { tg_geom_free(x); x = NULL; }
        else if (e) violate("rejected", "a valid %s document of %zu bytes is rejected: %s", fmt_name[g.fmt], g.text.size(), e);
        return {HK_GEOM, x};
    }
    if (g.kind == K_RING || g.kind == K_LINE) {
        std::vector<tg_point> p; for (auto &q : g.m.parts[0]) p.push_back({q.v[0], q.v[1]});
        tg_point *l = (tg_point*)lend_copy(p.data(), p.size() * sizeof(tg_point));
        Handle h; h.k = g.kind == K_RING ? HK_RING : HK_LINE;
        h.p = g.kind == K_RING ? (void*)tg_ring_new_ix(l, (int)p.size(), g.ix) : (void*)tg_line_new_ix(l, (int)p.size(), g.ix);
        unlend(l); return h;
    }
    return {HK_GEOM, build_api(g.m, g.ix, g.var)};
}
std::vector<Handle> giant_probes(const Giant &g) {
    tg_rect b = kid_box(g.m); std::vector<Handle> v;
    tg_point l[3] = {b.min, b.max, {b.max.x + 30, b.min.y + 11}};
    v.push_back({HK_LINE, tg_line_new_ix(l, 3, TG_NONE)});
    tg_point r[5] = {{b.min.x - 3, b.min.y - 3}, {b.max.x + 3, b.min.y - 3}, {b.max.x + 3, b.max.y + 3}, {b.min.x - 3, b.max.y + 3}, {b.min.x - 3, b.min.y - 3}};
    v.push_back({HK_RING, tg_ring_new_ix(r, 5, TG_NONE)});
    v.push_back({HK_GEOM, tg_geom_new_point(b.min)});
    for (auto &h : v) if (!h.p) violate("null-result", "building an object failed although memory is plentiful");
    return v;
}
uint64_t giant_look(Handle h, const Giant &G, const std::vector<Handle> &probes, int what) {
    const tg_geom *g = h_geom(h); uint64_t r = 1;
    if (what & GL_OBSERVE) r = hcomb(r, observe(g, OBS_INDEX | OBS_MEMSIZE).total());
    tg_rect all = tg_geom_rect(g), kb = kid_box(G.m); tg_point c = tg_rect_center(all);
    if (what & GL_SEARCH) {
        struct Cx { uint64_t h; int n, stop; } cx;
        auto hit = [](const tg_geom *k, int i, void *u) { Cx *x = (Cx*)u; x->h = hcomb(x->h, hcomb(i, tg_geom_typeof(k))); return ++x->n != x->stop; };
        tg_rect rs[] = {all, kb, {all.min, c}, {{all.max.x + 1, 0}, {all.max.x + 2, 1}}, {c, {c.x + 20, c.y + 20}}};
        for (int i = 0; i < 5; i++) for (int stop : {-1, 1, 100}) { cx = {1, 0, stop}; tg_geom_search(g, rs[i], hit, &cx); r = hcomb(hcomb(r, cx.h), cx.n); }
        if (h.k == HK_RING || h.k == HK_LINE) {
            auto pair = [](tg_segment, int a, tg_segment, int b, void *u) { Cx *x = (Cx*)u; x->h = hcomb(x->h, hcomb(a, b)); return ++x->n != x->stop; };
            for (auto &p : probes) for (int stop : {-1, 2}) {
                cx = {1, 0, stop};
                if (p.k == HK_RING && h.k == HK_RING) tg_ring_ring_search((tg_ring*)h.p, (tg_ring*)p.p, pair, &cx);
                else if (p.k == HK_RING) tg_ring_line_search((tg_ring*)p.p, (tg_line*)h.p, pair, &cx);
                else if (p.k == HK_LINE && h.k == HK_RING) tg_ring_line_search((tg_ring*)h.p, (tg_line*)p.p, pair, &cx);
                else if (p.k == HK_LINE) tg_line_line_search((tg_line*)h.p, (tg_line*)p.p, pair, &cx);
                r = hcomb(hcomb(r, cx.h), cx.n);
            }
        }
    }
    if (what & GL_PRED) {
        for (tg_point p : {kb.min, c, tg_point{all.max.x, all.min.y}}) r = hcomb(r, tg_geom_intersects_xy(g, p.x, p.y));
        for (tg_rect q : {kb, tg_rect{c, {c.x + 0.25, c.y + 0.25}}, tg_rect{all.max, all.max}}) r = hcomb(r, tg_geom_intersects_rect(g, q));
        for (auto &p : probes) {
            const tg_geom *q = h_geom(p);
            for (auto f : {tg_geom_intersects, tg_geom_disjoint, tg_geom_covers, tg_geom_contains, tg_geom_within, tg_geom_coveredby}) r = hcomb(r, f(g, q) * 2 + f(q, g));
        }
    }
    if (what & GL_WRITE) {
        char *b = (char*)lend(512);
        for (int f = 0; f < NFMT; f++) { memset(b, 9, 512); r = hcomb(r, lib_write_buf(g, (Fmt)f, b, 512)); r = hcomb(r, hash_bytes(b, 512)); }
        unlend(b);
    }
    return r;
}
static void free_all(std::vector<Handle> &v) { for (auto &h : v) h_free(h); v.clear(); }
static Handle must(Handle h) { if (!h.p) violate("null-result", "building an object failed although memory is plentiful"); return h; }

// ------------------------------------------------------------------ C01
void c01_giant() {
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    Giant g = gen_giant(800, 20000);
    auto pr = giant_probes(g);
    uint64_t mark = heap_mark();
    FailPlan p; p.mode = FAIL_KTH; p.k = ~0ull;
    heap_fail(p); Handle ref = must(build_giant(g)); uint64_t n = heap_fail_requests(); heap_nofail();
    uint64_t want = giant_look(ref, g, pr);
    heap_fail(p); Handle c = must(h_copy(ref)); uint64_t nc = heap_fail_requests(); heap_nofail();
    if (giant_look(c, g, pr) != want) violate("copy-differs", "a deep copy answers differently from its original");
    h_free(c);
    int plans = range(F, 2, 6);
    for (int i = 0; i < plans; i++) {
        bool copy = draw(F, 3) == 2; uint64_t N = copy ? nc : n;
        if (!N) continue;
        FailPlan q; q.mode = FAIL_KTH; q.k = (uint64_t)draw(F, 1 << 16) * N >> 16;
        switch (draw(F, 6)) { case 0: q.mode = FAIL_FROM; break; case 1: q.k = N - 1 - draw(F, (uint32_t)std::min<uint64_t>(N, 12)); break; case 2: q.mode = FAIL_SIZE; q.k = 1u << (10 + draw(F, 12)); break; default:; }
        uint64_t m2 = heap_mark();
        heap_fail(q); Handle h = copy ? h_copy(ref) : build_giant(g); uint64_t fired = heap_fail_fired(); heap_nofail();
        logf("  %s, mode %d k %llu of %llu: fired %llu -> %s", copy ? "copy" : "build", q.mode, (unsigned long long)q.k, (unsigned long long)N, (unsigned long long)fired, h.p ? "done" : "oom");
        if (!h.p) { if (!fired) violate("false-oom", "exhaustion is reported although every request was granted"); FAULT("allocation failed in a very large object"); heap_check_leaks("leak-on-failure", m2, "a large object that could not be made"); }
        else { if (giant_look(h, g, pr) != want) violate("partial-result", "a large object made with %llu failed request(s) differs from one made with plenty of memory, without reporting exhaustion", (unsigned long long)fired); h_free(h); heap_check_leaks("leak", m2, "a large object that was released"); }
        if (giant_look(ref, g, pr) != want) violate("argument-changed", "a large object changed when making another one failed");
        ev(fired); ev(h.p != NULL);
    }
    h_free(ref);
    heap_check_leaks("leak", mark, "everything was released");
    free_all(pr);
    heap_check_leaks("leak", 0, "everything was released");
}
// ------------------------------------------------------------------ C03
void c03_giant() {
    heap_fill((FillMode)draw(F, 5), draw(F, 1000)); heap_reuse(draw(F, 2));
    Giant g = gen_giant(800, 30000);
    auto pr = giant_probes(g);
    uint64_t mark = heap_mark();
    Handle h = must(build_giant(g));
    uint64_t want = giant_look(h, g, pr);
    std::vector<std::pair<uint64_t, size_t>> own; heap_live(own, mark);
    size_t total = 0; for (auto &x : own) total += x.second;
    auto size = [](Handle x) { return x.k == HK_RING ? tg_ring_memsize((tg_ring*)x.p) : x.k == HK_LINE ? tg_line_memsize((tg_line*)x.p) : tg_geom_memsize((tg_geom*)x.p); };
    if (size(h) > total) violate("memsize", "an object reports a size of %zu bytes but only %zu were obtained for it", size(h), total);
    if (!g.doc && size(h) + 64 < total) violate("memsize", "an object reports a size of %zu bytes, %zu were obtained for it", size(h), total);
    // a reference to a part outlives the whole, others come and go
    std::vector<Handle> refs{h}, kids; std::vector<uint64_t> kobs;
    int n = h.k == HK_GEOM ? tg_geom_num_geometries(h_geom(h)) : 0;
    for (int i = (int)draw(W, 4); i > 0; i--) {
        uint32_t sel = draw(W, 1 << 16); Handle c;
        if (n && draw(W, 2)) c = {HK_GEOM, (void*)tg_geom_geometry_at(h_geom(h), sel % n)};
        else if (const tg_ring *r = h_pick_ring(h, sel | sel << 16)) c = {HK_RING, (void*)r};
        else if (const tg_line *l = h_pick_line(h, sel)) c = {HK_LINE, (void*)l};
        if (!c.p) continue;
        Handle k = must(h_clone(c)); kids.push_back(k); kobs.push_back(h_observe(k, OBS_INDEX | OBS_SEARCH).total());
    }
    for (int i = (int)draw(W, 4); i > 0; i--) refs.push_back(must(draw(W, 2) ? h_clone(h) : h_copy(refs[draw(W, (uint32_t)refs.size())])));
    while (!refs.empty()) {
        size_t i = draw(W, (uint32_t)refs.size());
        if (giant_look(refs[i], g, pr, refs.size() > 1 ? GL_OBSERVE : GL_ALL) != giant_look(refs[i], g, pr, refs.size() > 1 ? GL_OBSERVE : GL_ALL)) violate("object-changed", "an object gives different answers to the same questions");
        if (refs.size() == 1 && giant_look(refs[i], g, pr) != want) violate("object-changed", "an object changed while references to it were alive");
        h_free(refs[i]); refs.erase(refs.begin() + i);
    }
    for (size_t i = 0; i < kids.size(); i++) { if (h_observe(kids[i], OBS_INDEX | OBS_SEARCH).total() != kobs[i]) violate("released-early", "a part changed when the whole was released although a reference to it is alive"); h_free(kids[i]); }
    heap_check_leaks("leak", mark, "every reference was released");
    free_all(pr);
    heap_check_leaks("leak", 0, "everything was released");
}
// ------------------------------------------------------------------ C04
void c04_giant() {
    heap_reuse(draw(F, 2)); heap_fill((FillMode)draw(F, 6), draw(F, 1000));
    static const int spreads[] = {16, 2, 4, 8, 32, 4096, 3};
    tg_env_set_index_spread(spreads[draw(W, 7)]);
    Giant g = gen_giant(800, 30000);
    auto pr = giant_probes(g);
    Handle h = must(build_giant(g));
    uint64_t want = giant_look(h, g, pr);
    Handle c = must(h_copy(h));
    if (giant_look(c, g, pr) != want) violate("copy-differs", "a deep copy answers differently from its original");
    if (giant_look(h, g, pr) != want) violate("object-changed", "an object no longer shows what it did before it was copied");
    if (draw(W, 2)) {
        h_free(h); h = {};
        // its memory goes to other objects
        Giant o = gen_giant(800, 4000); Handle x = must(build_giant(o));
        if (giant_look(c, g, pr) != want) violate("object-changed", "a deep copy no longer shows what it did before the original was released");
        h_free(x); FAULT("memory of a released object reused");
    } else {
        OpCfg oc; oc.g = GenCfg(); oc.mask = 1 << OP_SEARCH | 1 << OP_XYRECT | 1 << OP_WRITE | 1 << OP_NEAREST | 1 << OP_CLONE | 1 << OP_PARSE | 1 << OP_NEW; g_op_obs = 0;
        int n = range(W, 1, 5);
        for (int i = 0; i < n; i++) {
            Op o = gen_op(1, oc); FailPlan p; bool f = draw(F, 3) == 2; if (f) { p.mode = FAIL_KTH; p.k = draw(F, 4); heap_fail(p); }
            run_op(o, {draw(W, 2) ? c : h}); heap_nofail();
        }
        if (giant_look(h, g, pr) != want) violate("object-changed", "an object no longer shows what it did before it was used");
        if (giant_look(c, g, pr) != want) violate("object-changed", "a deep copy no longer shows what it did before it was used");
    }
    if (h.p) h_free(h);
    h_free(c); free_all(pr);
    heap_check_leaks("leak", 0, "everything was released");
}
// ------------------------------------------------------------------ C12
void c12_giant() {
    Giant g = gen_giant(800, 12000);
    if (draw(W, 3) == 2) {
        // the same few calls over and over, failing ones among them, are forgotten
        auto few = [&]() {
            std::vector<uint64_t> r; auto pr = giant_probes(g);
            static const char *good[] = {"POINT(1 2)", "GEOMETRYCOLLECTION(POINT(1 2),LINESTRING(1 2,3 4))", "{\"type\":\"Point\",\"coordinates\":[1,2]}", "{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"geometry\":null,\"id\":3}]}", "POLYGON((0 0,9 0,9 9,0 0),(1 1,2 1,2 2,1 1))", "MULTIPOLYGON(((0 0,9 0,9 9,0 0)))", "0101000000000000000000F03F0000000000000040"};
            for (auto d : good) for (Fmt f : {FMT_WKB, FMT_HEX, FMT_GEOBIN}) {
                tg_geom *x = parse_lent(d, NFMT, TG_DEFAULT); if (!x) violate("null-result", "parsing failed although memory is plentiful");
                std::string s = lib_write(x, f); tg_geom *y = parse_lent(s, f, TG_DEFAULT);
                r.push_back(observe(x, OBS_ALL).total()); r.push_back(observe(y, OBS_ALL).total()); tg_geom_free(x); tg_geom_free(y);
            }
            Handle h = must(build_giant(g)); r.push_back(giant_look(h, g, pr)); h_free(h);
            free_all(pr); return r;
        };
        auto before = few(); for (auto x : before) ev(x);
        GenCfg gc; gc.kids_huge = 6; gc.pts_huge = 12; gc.indexed = 0; gc.meta = true;
        OpCfg oc; oc.g = gc; oc.mask = 1 << OP_PARSE | 1 << OP_NEW | 1 << OP_COPY | 1 << OP_WRITE | 1 << OP_RAWNEW | 1 << OP_NEWERR | 1 << OP_QUICK | 1 << OP_PRED | 1 << OP_SEARCH | 1 << OP_NEAREST | 1 << OP_PAIRS;
        g_op_obs = 0; World w; w.h.push_back(must(gen_handle(gc, true))); w.h.push_back(must(gen_handle(gc, true)));
        int kinds = range(W, 1, 3);
        for (int k = 0; k < kinds; k++) {
            Op o; FailPlan p; p.mode = FAIL_KTH; bool f = draw(F, 3) == 2; p.k = draw(F, 12);
            if (draw(W, 2)) { o = gen_op(2, oc); if (o.kind == OP_PARSE && draw(F, 2)) damage(o.doc, 1, o.fmt < NFMT ? (Fmt)o.fmt : FMT_WKT); }
            else {
                // documents that are refused somewhere inside
                static const char *bad[] = {"GEOMETRYCOLLECTION(POINT(1 2),", "MULTIPOLYGON(((0 0,1 1,2 0,0 0)),((0 0", "{\"type\":\"GeometryCollection\",\"geometries\":[{\"type\":\"Point\"", "{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\"}]}", "01070000000100000001070000000200000001", "\1\7\0\0\0", "\4", "\2"};
                o.kind = OP_PARSE; o.fmt = NFMT; uint32_t b = draw(W, 8); o.doc = bad[b];
                if (b == 5) { MGeom m; m.type = TG_GEOMETRYCOLLECTION; Giant s = g; s.kind = K_GC; s.n = 3; m.kids.push_back(model(s)); o.doc = encode(m, (Fmt)(FMT_WKB), 0); o.doc.resize(o.doc.size() - 1 - draw(W, (uint32_t)o.doc.size() - 5)); o.fmt = FMT_WKB; }
                if (b >= 6) { MGeom m; Giant s = g; s.kind = b == 6 ? K_FEAT : K_MPOLY; s.n = 2; m = model(s); o.doc = encode(m, FMT_GEOBIN, 0); o.doc.resize(o.doc.size() - 1 - draw(W, (uint32_t)o.doc.size() - 1)); o.fmt = FMT_GEOBIN; }
            }
            int times = draw(W, 8) == 7 ? 66000 : 1100 + (int)draw(W, 3000);
            logf("%d times %s%s", times, op_text(o).c_str(), f ? ", failing" : "");
            uint64_t first = 0, t0 = steps_now();
            for (int i = 0; i < times && steps_now() - t0 < 300000000; i++) {
                if (f) heap_fail(p);
                OpRes r = run_op(o, w.h);
                heap_nofail();
                if (!i) first = r.h; else if (r.h != first) violate("not-reproducible", "%s returns something else when it is made for the %dth time (%s)", op_name[o.kind], i + 1, op_text(o).c_str());
            }
            FAULT("the same call made thousands of times");
        }
        free_world(w);
        auto after = few();
        if (after != before) violate("not-reproducible", "ordinary calls return something else after thousands of other calls");
        heap_check_leaks("leak", 0, "everything was released");
        return;
    }
    std::vector<uint64_t> ref;
    int reps = range(F, 2, 3);
    for (int k = 0; k < reps; k++) {
        FillMode sf = k ? (FillMode)draw(F, 5) : FILL_ZERO; uint64_t fs = k ? draw(F, 100000) : 0;
        heap_fill(k ? (FillMode)draw(F, 6) : FILL_ZERO, fs); if (k) { heap_reuse(draw(F, 2)); FAULT("fresh memory filled with garbage"); FAULT("stack filled with garbage"); }
        void *shift = k && draw(F, 2) ? sim_malloc(1 + draw(F, 5000)) : NULL;
        uint64_t mark = heap_mark();
        auto pr = giant_probes(g); Handle h, c; std::vector<uint64_t> got;
        run_on_fresh_stack([&]() { h = must(build_giant(g)); }, sf, fs);
        for (int part : {GL_OBSERVE, GL_SEARCH, GL_PRED, GL_WRITE}) run_on_fresh_stack([&]() { got.push_back(giant_look(h, g, pr, part)); }, sf, fs + part);
        run_on_fresh_stack([&]() { c = must(h_copy(h)); got.push_back(giant_look(c, g, pr)); }, sf, fs + 20);
        h_free(h); h_free(c); free_all(pr);
        heap_check_leaks("leak", mark, "a program that released everything");
        sim_free(shift);
        if (!k) { ref = got; for (auto x : got) ev(x); }
        else for (size_t i = 0; i < got.size(); i++) if (got[i] != ref[i]) { static const char *nm[] = {"accessors", "searches", "predicates", "writers", "a deep copy"}; violate("not-reproducible", "%s of a large object: other answers when memory contents, addresses or history differ", nm[i]); }
    }
    heap_reuse(false);
}
// ------------------------------------------------------------------ C13
void c13_giant() {
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    static const int spreads[] = {16, 2, 4, 8, 32, 4096, 3};
    tg_env_set_index_spread(spreads[draw(W, 7)]);
    Giant g = gen_giant(800, 30000);
    auto pr = giant_probes(g);
    Handle h = must(build_giant(g)), c = {};
    if (draw(W, 2)) c = must(h_copy(h));
    uint64_t want[4], mark = heap_mark(); int i = 0;
    for (int part : {GL_OBSERVE, GL_SEARCH, GL_PRED, GL_WRITE}) { want[i] = giant_look(h, g, pr, part); ev(want[i++]); }
    heap_check_leaks("leak", mark, "calls that only read");
    FailPlan p; p.mode = FAIL_FROM; p.k = 0; if (draw(F, 4) == 3) { p.mode = FAIL_RANDOM; p.num = 1; p.den = 2; }
    FAULT("no memory left while reading");
    static const char *nm[] = {"looking at", "searching", "asking predicates of", "writing"};
    for (Handle x : {h, c}) if (x.p) {
        i = 0;
        for (int part : {GL_OBSERVE, GL_SEARCH, GL_PRED, GL_WRITE}) {
            heap_fail(p); uint64_t r = giant_look(x, g, pr, part); uint64_t fired = heap_fail_fired(); heap_nofail();
            if (r != want[i]) violate("needs-memory", "%s a large object returns something else when no memory is left (%llu request(s) refused)", nm[i], (unsigned long long)fired);
            heap_check_leaks("leak-on-failure", mark, "calls that only read, with no memory left"); i++;
        }
    }
    p = FailPlan(); p.mode = FAIL_FROM; p.k = 0; heap_fail(p);
    Handle k = h_clone(h); if (!k.p) violate("needs-memory", "another reference cannot be taken when no memory is left");
    h_free(h); if (c.p) h_free(c);
    h_free(k); free_all(pr);
    heap_nofail();
    heap_check_leaks("leak", 0, "everything was released with no memory left");
}
// ------------------------------------------------------------------ C14
void c14_giant() {
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    static const int spreads[] = {16, 2, 4, 8, 32, 4096, 3};
    int s0 = spreads[draw(W, 7)], s1 = spreads[draw(W, 7)]; enum tg_index d0 = (enum tg_index)draw(W, 4);
    Giant g = gen_giant(800, 30000);
    lib_reset(); if (d0 != TG_DEFAULT) tg_env_set_index(d0);
    tg_env_set_index_spread(s0);
    auto pr = giant_probes(g);
    Handle h = must(build_giant(g)); uint64_t want = giant_look(h, g, pr);
    tg_env_set_index_spread(s1); tg_env_set_index((enum tg_index)(1 + draw(W, 3))); FAULT("setting changed while objects are alive");
    if (giant_look(h, g, pr) != want) violate("object-changed", "a large object made earlier is another one after settings were changed");
    Handle c = must(h_copy(h));
    if (giant_look(c, g, pr) != want) violate("object-changed", "a copy made under other settings differs from its original");
    if (draw(W, 2)) { Giant o = g; Handle x = must(build_giant(o)); h_free(x); }
    // back again: the history leaves no trace
    if (draw(W, 2)) tg_env_set_print_fixed_floats(true), tg_env_set_print_fixed_floats(false);
    tg_env_set_index(d0 == TG_DEFAULT ? TG_NATURAL : d0); tg_env_set_index_spread(s0);
    Handle b = must(build_giant(g));
    if (giant_look(b, g, pr) != want) violate("history-matters", "a large object differs from the same one made before settings were changed and changed back");
    for (Handle x : {h, c, b}) h_free(x);
    free_all(pr);
    heap_check_leaks("leak", 0, "everything was released");
}
