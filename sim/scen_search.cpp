// C05 searches, C06 nearest segments.
#include "ops.h"
#include <algorithm>
#include <cmath>
#include <set>

static const int spreads[] = {16, 2, 3, 4, 8, 32, 64, 4096};
static void gen_env() {
    tg_env_set_index_spread(spreads[draw(W, 8)]);
    tg_env_set_index(gen_ix());
}
static bool rects_meet(tg_rect a, tg_rect b) { return !(a.min.y > b.max.y || a.max.y < b.min.y || a.min.x > b.max.x || a.max.x < b.min.x); }
static void box_of(const MGeom &m, tg_rect &r, bool &any) {
    for (auto &p : m.parts) { for (auto &q : p) {
        tg_point a = {q.v[0], q.v[1]};
        if (!any) { r.min = r.max = a; any = true; }
        r.min.x = std::min(r.min.x, a.x); r.min.y = std::min(r.min.y, a.y); r.max.x = std::max(r.max.x, a.x); r.max.y = std::max(r.max.y, a.y);
    } if (m.type == TG_POLYGON) break; }     // a polygon's box is that of its exterior
    for (auto &k : m.kids) box_of(k, r, any);
}
// exact for small integers
static long long cross(tg_point a, tg_point b, tg_point c) { return (long long)(b.x - a.x) * (long long)(c.y - a.y) - (long long)(b.y - a.y) * (long long)(c.x - a.x); }
static bool on(tg_point a, tg_point b, tg_point c) { return std::min(a.x, b.x) <= c.x && c.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= c.y && c.y <= std::max(a.y, b.y); }
static int sgn(long long v) { return (v > 0) - (v < 0); }
static bool segs_meet_exact(tg_segment s, tg_segment t) {
    int d1 = sgn(cross(t.a, t.b, s.a)), d2 = sgn(cross(t.a, t.b, s.b)), d3 = sgn(cross(s.a, s.b, t.a)), d4 = sgn(cross(s.a, s.b, t.b));
    if (d1 * d2 < 0 && d3 * d4 < 0) return true;
    return (d1 == 0 && on(t.a, t.b, s.a)) || (d2 == 0 && on(t.a, t.b, s.b)) || (d3 == 0 && on(s.a, s.b, t.a)) || (d4 == 0 && on(s.a, s.b, t.b));
}
static bool segs_meet_lib(tg_segment s, tg_segment t) { return tg_segment_intersects_segment(s, t); }

// ------------------------------------------------------------------ C05
struct Hit { int a, b; bool operator<(const Hit &o) const { return a != o.a ? a < o.a : b < o.b; } bool operator==(const Hit &o) const { return a == o.a && b == o.b; } };
struct Search;
struct Ctx {
    Search *s; std::vector<Hit> hits; int stop = -1; bool stopped = false; bool nested = false; int depth = 0;
};
struct Search {
    bool pairs = false;
    const tg_geom *g = NULL; tg_rect rect;                        // children
    const tg_ring *ra = NULL, *rb = NULL; int how = 0;            // pairs: 0 ring/ring 1 ring/line 2 line/line
    std::vector<Hit> full;                                        // what an unstopped, undisturbed run delivers
    std::vector<Handle> spare;                                    // references callbacks may release
    std::vector<Handle> world;
    std::vector<Op> prog;                                         // what callbacks do
};
static void run_search(Ctx &c);
static uint32_t nested_ops, nested_searches, nested_max = 60;
static void callback_work(Ctx &c) {
    if (c.nested || c.depth > 1) return;
    Search &s = *c.s;
    if (!s.spare.empty() && draw(F, 3) == 2) { h_free(s.spare.back()); s.spare.pop_back(); FAULT("callback released a reference"); }
    if (draw(F, 2) && !s.full.empty() && nested_searches < nested_max) {
        nested_searches++;
        Ctx n; n.s = &s; n.nested = true; n.depth = c.depth + 1; n.stop = draw(F, 3) ? -1 : (int)draw(F, (uint32_t)s.full.size());
        run_search(n);
        size_t want = n.stop < 0 ? s.full.size() : (size_t)n.stop + 1;
        if (n.hits.size() != want || !std::equal(n.hits.begin(), n.hits.end(), s.full.begin())) violate("nested-search", "a search started from a callback of the same search delivers something else");
        FAULT("callback started the same search again");
    }
    if (!s.prog.empty() && nested_ops < 40 && draw(F, 3) == 2) {
        nested_ops++;
        const Op &o = s.prog[draw(F, (uint32_t)s.prog.size())];
        bool oom = draw(F, 3) == 2; FailPlan p; p.mode = FAIL_KTH; p.k = draw(F, 8);
        if (oom) heap_fail(p);
        run_op(o, s.world);
        if (oom) heap_nofail();
        FAULT("callback used the library");
    }
}
// the library hands out children of every multi type as geometries
static int num_children(const tg_geom *g) {
    switch (tg_geom_typeof(g)) {
    case TG_MULTIPOINT: return tg_geom_num_points(g);
    case TG_MULTILINESTRING: return tg_geom_num_lines(g);
    case TG_MULTIPOLYGON: return tg_geom_num_polys(g);
    default: return tg_geom_num_geometries(g);
    }
}
static bool is_child(const tg_geom *g, int i, const tg_geom *c) {
    if (!c) return false;
    switch (tg_geom_typeof(g)) {
    case TG_MULTIPOINT: { tg_point p = tg_geom_point_at(g, i), q = tg_geom_point(c); return memcmp(&p, &q, sizeof p) == 0; }
    case TG_MULTILINESTRING: return tg_geom_line(c) && tg_geom_line(c) == tg_geom_line_at(g, i);
    case TG_MULTIPOLYGON: return tg_geom_poly(c) && tg_geom_poly(c) == tg_geom_poly_at(g, i);
    default: return c == tg_geom_geometry_at(g, i);
    }
}
static bool on_child(const tg_geom *g, int idx, void *u) {
    Ctx &c = *(Ctx*)u;
    if (c.stopped) violate("called-after-stop", "the callback was called again after it asked to stop");
    if (idx < 0 || idx >= num_children(c.s->g) || !is_child(c.s->g, idx, g)) violate("wrong-child", "child %d was delivered with the wrong index", idx);
    c.hits.push_back({idx, 0});
    callback_work(c);
    if (c.stop >= 0 && (int)c.hits.size() > c.stop) { c.stopped = true; return false; }
    return true;
}
static bool same_seg(tg_segment a, tg_segment b) { return memcmp(&a, &b, sizeof a) == 0; }
static bool on_pair(tg_segment a, int ai, tg_segment b, int bi, void *u) {
    Ctx &c = *(Ctx*)u;
    if (c.stopped) violate("called-after-stop", "the callback was called again after it asked to stop");
    if (ai < 0 || bi < 0 || ai >= tg_ring_num_segments(c.s->ra) || bi >= tg_ring_num_segments(c.s->rb)) violate("wrong-index", "segment pair %d,%d does not exist", ai, bi);
    if (!same_seg(a, tg_ring_segment_at(c.s->ra, ai)) || !same_seg(b, tg_ring_segment_at(c.s->rb, bi))) violate("wrong-segment", "segment pair %d,%d was delivered with other coordinates", ai, bi);
    c.hits.push_back({ai, bi});
    callback_work(c);
    if (c.stop >= 0 && (int)c.hits.size() > c.stop) { c.stopped = true; return false; }
    return true;
}
static void run_search(Ctx &c) {
    Search &s = *c.s;
    if (!s.pairs) tg_geom_search(s.g, s.rect, on_child, &c);
    else if (s.how == 0) tg_ring_ring_search(s.ra, s.rb, on_pair, &c);
    else if (s.how == 1) tg_ring_line_search(s.ra, (const tg_line*)s.rb, on_pair, &c);
    else tg_line_line_search((const tg_line*)s.ra, (const tg_line*)s.rb, on_pair, &c);
}
// must: hits that have to be delivered; may: all that are allowed
static void verify_search(Search &s, const std::vector<Hit> &must, const std::vector<Hit> &may, const char *what) {
    Ctx c; c.s = &s; c.nested = true;
    run_search(c);
    s.full = c.hits;
    std::vector<Hit> sorted = c.hits; std::sort(sorted.begin(), sorted.end());
    for (size_t i = 1; i < sorted.size(); i++) if (sorted[i] == sorted[i - 1]) violate("delivered-twice", "%s: hit %d,%d was delivered twice", what, sorted[i].a, sorted[i].b);
    auto text = [&](Hit h) { if (!s.pairs) return std::string(); tg_segment x = tg_ring_segment_at(s.ra, h.a), y = tg_ring_segment_at(s.rb, h.b); char t[300];
        snprintf(t, sizeof t, "; (%.17g %.17g,%.17g %.17g) and (%.17g %.17g,%.17g %.17g)", x.a.x, x.a.y, x.b.x, x.b.y, y.a.x, y.a.y, y.b.x, y.b.y); return std::string(t); };
    for (auto &h : must) if (!std::binary_search(sorted.begin(), sorted.end(), h)) violate("hit-missed", "%s: hit %d,%d was not delivered (%zu of %zu were)%s", what, h.a, h.b, sorted.size(), must.size(), text(h).c_str());
    for (auto &h : sorted) if (!std::binary_search(may.begin(), may.end(), h)) violate("false-hit", "%s: %d,%d was delivered although it does not intersect%s", what, h.a, h.b, text(h).c_str());
    ev(s.full.size()); for (auto &h : s.full) ev((uint64_t)h.a << 32 | (uint32_t)h.b);
    // stops
    size_t n = s.full.size(); int tries = n <= 12 ? (int)n : range(F, 3, n > 5000 ? 5 : 12);
    for (int i = 0; i < tries; i++) {
        nested_searches = 0;
        Ctx d; d.s = &s; d.stop = n <= 12 ? i : (int)draw(F, (uint32_t)n); d.nested = draw(F, 3) != 0;
        run_search(d);
        FAULT("callback asked to stop");
        if (d.hits.size() != (size_t)d.stop + 1 || !std::equal(d.hits.begin(), d.hits.end(), s.full.begin())) violate("stopped-not-prefix", "%s: stopped at hit %d, %zu were delivered, or others than in the full run", what, d.stop, d.hits.size());
    }
    // callbacks that use the library, no stop
    Ctx e; e.s = &s; nested_ops = nested_searches = 0;
    if (n <= 400) { run_search(e); if (e.hits != s.full) violate("disturbed", "%s: callbacks that use the library disturb the search", what); }
}
static MGeom gen_collection(int style) {
    // many children: points, short lines, small polygons
    MGeom g; uint32_t kind = draw(W, 6);
    int n = 1 + sizeish(W, 12, 150, 1400); if (draw(W, 3) == 2) n += 60;
    GenCfg gc; gc.coords = style; gc.extras = false; gc.empties = false; gc.pts_small = 4; gc.pts_big = 5; gc.pts_huge = 8; gc.kids_small = 2; gc.kids_big = gc.kids_huge = 3; gc.depth = 1;
    static const int types[] = {TG_MULTIPOINT, TG_MULTIPOINT, TG_MULTILINESTRING, TG_MULTIPOLYGON, TG_GEOMETRYCOLLECTION, TG_GEOMETRYCOLLECTION};
    g.type = types[kind];
    if (n > 300 && g.type == TG_MULTIPOLYGON) n = 300;
    for (int i = 0; i < n; i++) {
        MGeom k;
        if (i && draw(W, 12) == 11) k = g.kids[draw(W, (uint32_t)i)];           // the same place again
        else if (g.type == TG_GEOMETRYCOLLECTION && n < 100) k = gen_geom(gc);
        else k = gen_geom(gc, g.type == TG_GEOMETRYCOLLECTION ? 1 + (int)draw(W, 2) : g.type - 3);
        g.kids.push_back(k);
    }
    if (g.type == TG_GEOMETRYCOLLECTION && draw(W, 3) == 2) { g.featcol = true; for (auto &k : g.kids) { k.feature = true; } }
    return g;
}
static Handle make(const MGeom &g, enum tg_index ix) {
    Handle h;
    if (g.featcol) { std::string d = encode(g, draw(W, 2) ? FMT_GEOJSON : FMT_GEOBIN); logf("%s", show(d).c_str()); h.p = parse_lent(d, NFMT, ix); }
    else if (draw(W, 3) == 2) { std::string d = encode(g, (Fmt)draw(W, NFMT)); logf("%s", show(d).c_str()); h.p = parse_lent(d, NFMT, ix); }
    else h.p = build_api(g, ix, draw(W, 256));
    if (!h.p) violate("null-result", "building an object failed although memory is plentiful");
    if (tg_geom_error(h_geom(h))) violate("rejected", "a valid document is rejected: %s", tg_geom_error(h_geom(h)));
    return h;
}
static void fill_callbacks(Search &s, Handle h) {
    s.world = {h};
    // pairs of a large series with itself are too much to do for every hit
    int self = h.k == HK_RING || h.k == HK_LINE ? tg_ring_num_segments((const tg_ring*)h.p) : 0;
    OpCfg oc; oc.mask = 1 << OP_OBSERVE | 1 << OP_PRED | 1 << OP_XYRECT | 1 << OP_SEARCH | 1 << OP_PAIRS | 1 << OP_NEAREST | 1 << OP_PARSE | 1 << OP_CLONE | 1 << OP_COPY | 1 << OP_WRITE | 1 << OP_RAWNEW;
    if (h.k == HK_GEOM && num_children(h_geom(h)) > 200) oc.mask &= ~(1u << OP_OBSERVE | 1u << OP_PRED | 1u << OP_COPY);
    if (self > 400) oc.mask &= ~(1u << OP_OBSERVE | 1u << OP_PRED | 1u << OP_PAIRS);
    g_op_obs = OBS_INDEX;
    int n = (int)draw(W, 4);
    for (int i = 0; i < n; i++) s.prog.push_back(gen_op(1, oc));
}
static void child_search(const Giant *big) {
    int style = (int)draw(W, 4); if (style == 2 && draw(W, 2)) style = 0;
    MGeom g = big ? big->m : gen_collection(style);
    gen_env();
    Handle h = big ? build_giant(*big) : make(g, gen_ix());
    if (!h.p) violate("null-result", "building an object failed although memory is plentiful");
    nested_max = big ? 3 : 60;
    size_t n = g.kids.size();
    if (n >= 64) PROBE("search over an indexed collection");
    if (n >= 1024) PROBE("search over a collection index with two levels");
    std::vector<tg_rect> kr(n); tg_rect all = {}; bool anyall = false;
    for (size_t i = 0; i < n; i++) { bool any = false; box_of(g.kids[i], kr[i], any); if (!any) harness_error("empty child"); }
    box_of(g, all, anyall);
    if (draw(W, 3) == 2) { Handle c = h_copy(h); if (!c.p) violate("null-result", "copy returned nothing although memory is plentiful"); h_free(h); h = c; PROBE("search over a deep copy"); }
    if ((size_t)num_children(h_geom(h)) != n) violate("wrong-child", "the %s has %d children instead of %zu", tg_geom_type_string((enum tg_geom_type)g.type), num_children(h_geom(h)), n);
    int searches = range(W, 1, 5);
    for (int i = 0; i < searches; i++) {
        Search s; s.g = h_geom(h); if (!big) fill_callbacks(s, h);
        for (int k = (int)draw(W, 3); k > 0; k--) s.spare.push_back(h_clone(h));
        switch (draw(W, 7)) {
        case 0: s.rect = all; break;
        case 1: { tg_rect k = kr[draw(W, (uint32_t)n)]; s.rect = {k.max, k.max}; break; }           // touches a corner
        case 2: { tg_rect k = kr[draw(W, (uint32_t)n)]; s.rect = {{k.max.x, k.min.y - 1}, {k.max.x + 1, k.max.y + 1}}; break; }  // touches an edge
        case 3: { tg_rect k = kr[draw(W, (uint32_t)n)], l = kr[draw(W, (uint32_t)n)]; s.rect = {{std::min(k.min.x, l.min.x), std::min(k.min.y, l.min.y)}, {std::max(k.min.x, l.min.x), std::max(k.min.y, l.min.y)}}; break; }
        case 4: s.rect = {{all.max.x + 1, all.min.y}, {all.max.x + 2, all.max.y}}; break;          // nothing
        case 5: if (big) { tg_rect k = kr[draw(W, (uint32_t)n)]; s.rect = {k.min, {k.min.x + draw(W, 60), k.min.y + draw(W, 60)}}; break; } [[fallthrough]];
        default: s.rect = gen_rect(style);
        }
        std::vector<Hit> must; for (size_t j = 0; j < n; j++) if (rects_meet(kr[j], s.rect)) must.push_back({(int)j, 0});
        char what[120]; snprintf(what, sizeof what, "search of %zu children for [%g %g,%g %g]", n, s.rect.min.x, s.rect.min.y, s.rect.max.x, s.rect.max.y);
        logf("%s, %zu expected", what, must.size());
        note_case(hcomb(hcomb(g.type * 2 + g.featcol, n / 8), must.size() * 16 + s.prog.size()));
        verify_search(s, must, must, what);
        for (auto &x : s.spare) h_free(x);
    }
    h_free(h);
}
static Handle make_series(bool line, int style, tg_rect *near) {
    int n = sizeish(W, 10, 70, 260); enum tg_index ix = gen_ix();
    auto p = line ? gen_line_points(style, n) : gen_ring_points(style, n, (int)draw(W, 3));
    if (style == 0) for (auto &q : p) { q.x = std::round(q.x); q.y = std::round(q.y); }
    if (!line) p.back() = p.front();
    (void)near;
    Handle h; h.k = line ? HK_LINE : HK_RING;
    h.p = line ? (void*)tg_line_new_ix(p.data(), (int)p.size(), ix) : (void*)tg_ring_new_ix(p.data(), (int)p.size(), ix);
    if (!h.p) violate("null-result", "building an object failed although memory is plentiful");
    if (draw(W, 5) == 4) { Handle c = h_copy(h); if (!c.p) violate("null-result", "copy returned nothing"); h_free(h); h = c; }
    return h;
}
// a long series on a small grid, so that it crosses itself and others
static Handle long_series(bool line, bool small) {
    int n = small ? range(W, 2, 80) : 400 + (int)(draw(W, 100) * draw(W, 100)); enum tg_index ix = gen_ix(); int step = range(W, 1, 12);
    uint64_t seed = draw64(W); std::vector<tg_point> p; double x = 0, y = 0;
    for (int i = 0; i < n || i < 3; i++) { seed = mix64(seed + i); x += (double)(seed % (2 * step + 1)) - step; y += (double)((seed >> 32) % (2 * step + 1)) - step; p.push_back({x, y}); }
    if (!line) p.push_back(p[0]);
    Handle h; h.k = line ? HK_LINE : HK_RING;
    h.p = line ? (void*)tg_line_new_ix(p.data(), (int)p.size(), ix) : (void*)tg_ring_new_ix(p.data(), (int)p.size(), ix);
    if (!h.p) violate("null-result", "building an object failed although memory is plentiful");
    if (!small) PROBE("long series in a pair search");
    return h;
}
static void pair_search(bool big) {
    int style = big || draw(W, 3) ? 0 : (int)draw(W, 7);
    int how = (int)draw(W, 3); nested_max = big ? 3 : 60; bool first = draw(W, 2);
    tg_env_set_index_spread(spreads[draw(W, 8)]);
    Handle a = big ? long_series(how == 2, !first) : make_series(how == 2, style, NULL);
    if (draw(W, 3) == 2) tg_env_set_index_spread(spreads[draw(W, 8)]);
    Handle b = big ? long_series(how >= 1, first) : draw(W, 8) == 7 && how != 1 ? h_clone(a) : make_series(how >= 1, style, NULL);
    Search s; s.pairs = true; s.how = how; s.ra = (const tg_ring*)a.p; s.rb = (const tg_ring*)b.p;
    fill_callbacks(s, a);
    for (int k = (int)draw(W, 3); k > 0; k--) s.spare.push_back(h_clone(k & 1 ? a : b));
    int na = tg_ring_num_segments(s.ra), nb = tg_ring_num_segments(s.rb);
    if (tg_ring_index_num_levels(s.ra) > 0 && tg_ring_index_num_levels(s.rb) > 0) PROBE("both sides of a pair search indexed");
    else if (tg_ring_index_num_levels(s.ra) > 0 || tg_ring_index_num_levels(s.rb) > 0) PROBE("one side of a pair search indexed");
    else PROBE("no side of a pair search indexed");
    if (tg_ring_index_num_levels(s.ra) != tg_ring_index_num_levels(s.rb)) PROBE("indexes of different depth");
    bool exact = style == 0;
    if (exact) PROBE("pair search checked with exact arithmetic");
    std::vector<Hit> must, may;
    for (int i = 0; i < na; i++) { tg_segment x = tg_ring_segment_at(s.ra, i); for (int j = 0; j < nb; j++) {
        tg_segment y = tg_ring_segment_at(s.rb, j);
        bool p = exact ? segs_meet_exact(x, y) : segs_meet_lib(x, y), q = exact ? p : segs_meet_lib(y, x);
        if (p && q) must.push_back({i, j});
        if (p || q) may.push_back({i, j});
    } }
    char what[100]; snprintf(what, sizeof what, "%s search of %d and %d segments", how == 0 ? "ring/ring" : how == 1 ? "ring/line" : "line/line", na, nb);
    logf("%s, %zu expected", what, must.size());
    note_case(hcomb(hcomb(how, na * 512 + nb), hcomb(tg_ring_index_num_levels(s.ra) * 8 + tg_ring_index_num_levels(s.rb), must.size())));
    verify_search(s, must, may, what);
    for (auto &x : s.spare) h_free(x);
    h_free(a); h_free(b);
}
SCENARIO(C05) {
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    if (giant_turn(40)) {
        if (draw(W, 2)) pair_search(true);
        else { Giant g = gen_giant(1000, 40000); if (g.m.kids.empty()) pair_search(true); else child_search(&g); }
    }
    else if (draw(W, 2)) child_search(NULL); else pair_search(false);
    heap_check_leaks("leak", 0, "everything was released");
}

// ------------------------------------------------------------------ C06
struct Near {
    const tg_ring *r; std::vector<double> fin;          // the distance the caller computes for each segment
    tg_point q; int dist_kind; int refine; bool rects;
    std::vector<int> state;                             // refinements still to come, per segment
    std::vector<std::pair<int, double>> got; int stop = -1; bool stopped = false; bool nested = false;
    std::vector<Handle> world; std::vector<Op> prog; int depth = 0;
    uint64_t ordhash = 1; uint32_t seg_calls = 0;
    std::vector<int> *find; 
};
static double seg_point(tg_segment s, tg_point p) {
    double dx = s.b.x - s.a.x, dy = s.b.y - s.a.y, l = dx * dx + dy * dy, t = l > 0 ? ((p.x - s.a.x) * dx + (p.y - s.a.y) * dy) / l : 0;
    t = std::max(0.0, std::min(1.0, t));
    double ex = s.a.x + t * dx - p.x, ey = s.a.y + t * dy - p.y;
    return std::sqrt(ex * ex + ey * ey);
}
static double box_point(tg_rect r, tg_point p) {
    double dx = std::max(0.0, std::max(r.min.x - p.x, p.x - r.max.x)), dy = std::max(0.0, std::max(r.min.y - p.y, p.y - r.max.y));
    return std::max(dx, dy);
}
static double value_of(tg_segment s, tg_point q, int kind) {
    tg_rect r = {{std::min(s.a.x, s.b.x), std::min(s.a.y, s.b.y)}, {std::max(s.a.x, s.b.x), std::max(s.a.y, s.b.y)}};
    switch (kind) {
    case 0: return box_point(r, q);
    case 1: { double d = seg_point(s, q); return std::max(d, box_point(r, q)); }
    case 2: return 0;                                                            // all the same
    case 3: return (double)(hash_bytes(&s, sizeof s) % 17);                      // unrelated to where it is, many ties
    case 4: return -1 - (double)(hash_bytes(&s, sizeof s) % 1000) / 7;           // negative
    default: return std::floor(box_point(r, q));
    }
}
static double bound_of(tg_rect r, tg_point q, int kind) {
    switch (kind) { case 0: case 1: return box_point(r, q); case 2: case 3: return 0; case 4: return -1000; default: return std::floor(box_point(r, q)); }
}
static uint64_t hpos(const void *p, size_t n) { return hash_bytes(p, n); }
static double cb_rect(tg_rect r, int *more, void *u) {
    Near &n = *(Near*)u;
    double d = bound_of(r, n.q, n.dist_kind);
    if (n.refine && *more == 0 && hpos(&r, sizeof r) % (uint32_t)n.refine == 0) { *more = 1 + (int)(hpos(&r, sizeof r) >> 40 & 1); PROBE("distance to a rectangle refined"); return d - 3; }
    if (*more > 0) { --*more; return *more ? d - 1 : d; }
    return d;
}
static double cb_seg(tg_segment s, int *more, void *u) {
    Near &n = *(Near*)u; n.seg_calls++;
    double d = value_of(s, n.q, n.dist_kind);
    if (n.refine && *more == 0 && hpos(&s, sizeof s) % (uint32_t)n.refine == 0) { *more = 1 + (int)(hpos(&s, sizeof s) >> 40 & 3); PROBE("distance to a segment refined"); return d - 2; }
    if (*more > 0) { --*more; return *more ? d - 1.0 / (1 + *more) : d; }
    return d;
}
static bool nearest(Near &n, bool line);
static bool cb_iter(tg_segment s, double d, int i, void *u) {
    Near &n = *(Near*)u;
    if (n.stopped) violate("called-after-stop", "the callback was called again after it asked to stop");
    if (i < 0 || i >= tg_ring_num_segments(n.r)) violate("wrong-index", "segment %d does not exist", i);
    if (!same_seg(s, tg_ring_segment_at(n.r, i))) violate("wrong-segment", "segment %d was delivered with other coordinates", i);
    if (memcmp(&d, &n.fin[i], 8) != 0 && d != n.fin[i]) violate("wrong-distance", "segment %d was delivered with distance %.17g, the caller had computed %.17g", i, d, n.fin[i]);
    if (!n.got.empty() && d < n.got.back().second) violate("out-of-order", "segment %d at %.17g was delivered after %.17g", i, d, n.got.back().second);
    n.got.push_back({i, d});
    if (!n.nested && draw(F, 6) == 5) {
        uint32_t k = draw(F, 3);
        if (k == 0 && !n.prog.empty()) { run_op(n.prog[draw(F, (uint32_t)n.prog.size())], n.world); FAULT("callback used the library"); }
        else if (k == 1) { Near m = n; m.got.clear(); m.nested = true; m.stop = (int)draw(F, 6); m.stopped = false; nearest(m, draw(F, 2)); FAULT("callback started another traversal"); }
    }
    if (n.stop >= 0 && (int)n.got.size() > n.stop) { n.stopped = true; FAULT("callback asked to stop"); return false; }
    return true;
}
static bool nearest(Near &n, bool line) {
    if (line) return tg_line_nearest_segment((const tg_line*)n.r, n.rects ? cb_rect : NULL, cb_seg, cb_iter, &n);
    return tg_ring_nearest_segment(n.r, n.rects ? cb_rect : NULL, cb_seg, cb_iter, &n);
}
static void check_prefix(Near &n, size_t nseg, bool complete) {
    std::set<int> seen; for (auto &g : n.got) if (!seen.insert(g.first).second) violate("delivered-twice", "segment %d was delivered twice", g.first);
    if (complete && seen.size() != nseg) violate("segment-missed", "%zu of %zu segments were delivered by a traversal that reports success", seen.size(), nseg);
    if (n.got.empty()) return;
    double last = n.got.back().second;
    for (size_t i = 0; i < nseg; i++) if (!seen.count((int)i) && n.fin[i] < last) violate("out-of-order", "segment %zu at %.17g was skipped, %.17g was delivered", i, n.fin[i], last);
}
SCENARIO(C06) {
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    tg_env_set_index_spread(spreads[draw(W, 8)]);
    bool line = draw(W, 2);
    int style = (int)draw(W, 4);
    int np = sizeish(W, 20, 200, 1500); if (draw(W, 4) == 3) np += 250;
    bool big = giant_turn(80); if (big) { np = 2000 + (int)(draw(W, 140) * draw(W, 140)); PROBE("traversal of a long series"); }
    auto p = line ? gen_line_points(style, np) : gen_ring_points(style, np, (int)draw(W, 3));
    enum tg_index ix = gen_ix();
    Handle h; h.k = line ? HK_LINE : HK_RING;
    h.p = line ? (void*)tg_line_new_ix(p.data(), (int)p.size(), ix) : (void*)tg_ring_new_ix(p.data(), (int)p.size(), ix);
    if (!h.p) violate("null-result", "building an object failed although memory is plentiful");
    if (draw(W, 4) == 3) { Handle c = h_copy(h); if (!c.p) violate("null-result", "copy returned nothing although memory is plentiful"); h_free(h); h = c; PROBE("traversal of a deep copy"); }
    Near base; base.r = (const tg_ring*)h.p; base.world = {h};
    OpCfg oc; oc.mask = 1 << OP_SEARCH | 1 << OP_PAIRS | 1 << OP_NEAREST | 1 << OP_PARSE | 1 << OP_CLONE | 1 << OP_RAWNEW | 1 << OP_XYRECT; g_op_obs = 0;
    int npr = (int)draw(W, 3); for (int i = 0; i < npr; i++) base.prog.push_back(gen_op(1, oc));
    size_t nseg = tg_ring_num_segments(base.r);
    int rounds = range(W, 1, big ? 2 : 4);
    for (int t = 0; t < rounds; t++) {
        Near n = base;
        n.q = {gen_coord(style), gen_coord(style)}; n.dist_kind = (int)draw(W, 6); n.rects = draw(W, 4) != 0;
        static const int ref[] = {0, 0, 1, 2, 7}; n.refine = ref[draw(W, 5)];
        n.fin.resize(nseg); for (size_t i = 0; i < nseg; i++) n.fin[i] = value_of(tg_ring_segment_at(n.r, (int)i), n.q, n.dist_kind);
        note_case(hcomb(hcomb(nseg, tg_ring_index_num_levels(n.r)), n.dist_kind * 64 + n.rects * 32 + n.refine));
        logf("nearest of %zu segments, %d levels, distance %d, rectangles %d, refine %d", nseg, tg_ring_index_num_levels(n.r), n.dist_kind, n.rects, n.refine);
        Near full = n;
        FailPlan count; count.mode = FAIL_KTH; count.k = ~0ull;
        uint64_t mark = heap_mark();
        full.nested = true;
        heap_fail(count); bool ok = nearest(full, line); uint64_t req = heap_fail_requests(); heap_nofail();
        if (!ok) violate("false-oom", "the traversal reports exhaustion although memory is plentiful");
        check_prefix(full, nseg, true);
        heap_check_leaks("leak", mark, "a traversal");
        ev(full.got.size()); for (auto &g : full.got) ev(g.first);
        if (req) PROBE("traversal whose queue outgrew its initial space");
        // with callbacks that use the library
        if (nseg <= 400) {
            Near again = n; mark = heap_mark();
            if (!nearest(again, line)) violate("false-oom", "the traversal reports exhaustion although memory is plentiful");
            check_prefix(again, nseg, true);
            if (again.got != full.got) violate("disturbed", "callbacks that use the library disturb the traversal");
            heap_check_leaks("leak", mark, "a traversal");
        }
        int k = range(F, 2, big ? 3 : 6);
        for (int i = 0; i < k; i++) {
            Near m = n; m.nested = draw(F, 2); mark = heap_mark();
            uint32_t what = draw(F, 3);
            if (what != 1) m.stop = (int)draw(F, (uint32_t)nseg + 2);
            if ((big || nseg > 400) && (m.stop < 0 || m.stop > 30)) m.nested = true;
            FailPlan fp; bool fail = what >= 1 && req;
            if (fail) { fp.mode = draw(F, 3) ? FAIL_KTH : FAIL_FROM; fp.k = draw(F, (uint32_t)req); m.nested = true; heap_fail(fp); }
            bool r = nearest(m, line);
            uint64_t fired = fail ? heap_fail_fired() : 0; heap_nofail();
            if (!r && !fired) violate("false-oom", "a traversal that was stopped reports exhaustion");
            if (r) check_prefix(m, nseg, !m.stopped); else check_prefix(m, nseg, false);
            if (m.stopped && m.got.size() != (size_t)m.stop + 1) violate("called-after-stop", "stopped at %d, %zu delivered", m.stop, m.got.size());
            for (size_t j = 0; j < m.got.size(); j++) if (m.got[j] != full.got[j]) violate("not-a-prefix", "what was delivered before the traversal ended early is not what a complete one starts with");
            if (fired && !r) PROBE("traversal ran out of memory");
            if (fired && !r && !m.got.empty()) PROBE("traversal ran out of memory after some segments were delivered");
            heap_check_leaks(r ? "leak" : "leak-on-failure", mark, "a traversal that ended early");
        }
    }
    h_free(h);
    heap_check_leaks("leak", 0, "everything was released");
}
