// C15 every query finishes, with work bounded by the sizes of its arguments, and less with an index.
#include "ops.h"
#include <cmath>
#include <algorithm>

namespace {
uint64_t rsz(const tg_ring *r) { return r ? 4 + tg_ring_num_points(r) : 2; }
uint64_t psz(const tg_poly *p) { if (!p) return 2; uint64_t s = 4 + rsz(tg_poly_exterior(p)); for (int i = 0; i < tg_poly_num_holes(p); i++) s += rsz(tg_poly_hole_at(p, i)); return s; }
uint64_t gsz(const tg_geom *g) {
    uint64_t s = 4; if (!g) return s;
    switch (tg_geom_typeof(g)) {
    case TG_LINESTRING: return s + rsz((const tg_ring*)tg_geom_line(g));
    case TG_POLYGON: return s + psz(tg_geom_poly(g));
    case TG_MULTIPOINT: return s + 4 * tg_geom_num_points(g);
    case TG_MULTILINESTRING: for (int i = 0; i < tg_geom_num_lines(g); i++) s += 4 + rsz((const tg_ring*)tg_geom_line_at(g, i)); return s;
    case TG_MULTIPOLYGON: for (int i = 0; i < tg_geom_num_polys(g); i++) s += 4 + psz(tg_geom_poly_at(g, i)); return s;
    case TG_GEOMETRYCOLLECTION: for (int i = 0; i < tg_geom_num_geometries(g); i++) s += 4 + gsz(tg_geom_geometry_at(g, i)); return s;
    default: return s;
    }
}
std::map<std::string, double> worst;
// a call under its limit; what it used
uint64_t limited(const char *what, double limit, const std::function<void()> &f) {
    uint64_t t0 = steps_now(), lim = (uint64_t)std::min(limit, 1.9e9);
    step_limit(lim); f(); step_limit(0);
    uint64_t u = steps_now() - t0; ev(u);
    if (g_verbose) { double r = (double)u / limit, &w = worst[what]; if (r > w) { w = r; printf("  %s: %llu of %.0f (%.3f)\n", what, (unsigned long long)u, limit, r); } }
    if (u > lim) violate("work", "%s took %llu memory accesses, more than %llu", what, (unsigned long long)u, (unsigned long long)lim);
    return u;
}
// shapes that are hard for queries: everything overlaps, repeats, or is not a number
std::vector<tg_point> hard_points(int n, bool close) {
    std::vector<tg_point> p; uint32_t kind = draw(F, 8);
    for (int i = 0; i < n; i++) {
        double x, y;
        switch (kind) {
        case 0: x = i % 2 ? 10 : -10; y = 0; break;                              // one segment, over and over
        case 1: x = i; y = i % 2 ? 1000 : -1000; break;                          // comb
        case 2: x = i % 2 ? 100 : 0; y = i * 1e-3; break;                        // zigzag across the whole width
        case 3: x = 1; y = 2; break;                                             // one point
        case 4: x = i & 1 ? 5e-324 : 0; y = i & 2 ? 1.7976931348623157e308 : -1.7976931348623157e308; break;
        case 5: x = draw(F, 5) ? range(F, -10, 10) : NAN; y = draw(F, 5) ? range(F, -10, 10) : draw(F, 2) ? INFINITY : -INFINITY; break;
        case 6: x = draw(F, 3); y = draw(F, 3); break;                           // nine places
        default: x = cos(i * 2.5) * 10; y = sin(i * 2.5) * 10;                   // star of long strokes
        }
        p.push_back({x, y});
    }
    FAULT("degenerate or hostile coordinates");
    if (close) p.push_back(p[0]);
    return p;
}
Handle hard_handle() {
    uint32_t k = draw(W, 4); int n = sizeish(W, 8, 60, 700); enum tg_index ix = gen_ix();
    auto p = hard_points(std::max(n, 4), k != 1);
    if (k == 1) return {HK_LINE, tg_line_new_ix(p.data(), (int)p.size(), ix)};
    tg_ring *r = tg_ring_new_ix(p.data(), (int)p.size(), ix);
    if (k == 0) return {HK_RING, r};
    int nh = k == 2 ? 0 : range(W, 1, 4); std::vector<tg_ring*> h;
    for (int i = 0; i < nh; i++) { auto q = hard_points(range(W, 4, 40), true); h.push_back(tg_ring_new_ix(q.data(), (int)q.size(), ix)); }
    tg_poly *y = tg_poly_new(r, h.data(), nh); tg_ring_free(r);
    for (auto x : h) tg_ring_free(x);
    return {HK_POLY, y};
}
int stop_at, calls; uint64_t stopped;
bool stop_now() { if (++calls >= stop_at) { stopped = steps_now(); return false; } return true; }
bool on_pair(tg_segment, int, tg_segment, int, void *) { return stop_now(); }
bool on_child(const tg_geom *, int, void *) { return stop_now(); }
bool on_near(tg_segment, double, int, void *) { return stop_now(); }
double near_rect(tg_rect r, int *, void *) { return std::min(fabs(r.min.x), fabs(r.max.x)); }
double near_seg(tg_segment s, int *, void *) { return fabs(s.a.x) + fabs(s.b.y); }
// all of it, and again with a stop in the middle: what is left to do after the stop does not depend on the sizes
void stoppable(const char *what, double limit, const std::function<void()> &f) {
    stop_at = 1 << 30; calls = 0;
    limited(what, limit, f);
    int n = calls; if (!n) return;
    stop_at = 1 + (int)draw(F, (uint32_t)n); calls = 0; stopped = 0;
    limited(what, limit, f); FAULT("search stopped by its caller");
    if (!stopped) violate("not-repeatable", "%s delivered less when it was repeated", what);
    uint64_t late = steps_now() - stopped;
    if (late > 4000) violate("late-stop", "%s went on for %llu memory accesses after it was told to stop", what, (unsigned long long)late);
}
}

static void general(uint64_t) {
    static const int spreads[] = {16, 2, 4, 8, 32, 4096, 3};
    tg_env_set_index_spread(spreads[draw(W, 7)]);
    WorldCfg wc; wc.g.meta = true; wc.n_lo = 1; wc.n_hi = 3; wc.g.pts_big = 60; wc.g.pts_huge = 700;
    World w = gen_world(wc);
    int hard = range(W, 0, 2);
    for (int i = 0; i < hard; i++) { Handle h = hard_handle(); if (!h.p) violate("null-result", "building an object failed although memory is plentiful"); w.h.push_back(h); }
    uint64_t cs = 1; for (auto &h : w.h) cs = hcomb(cs, hcomb(h.k * 8 + tg_geom_typeof(h_geom(h)), gsz(h_geom(h)) / 8));
    note_case(cs);
    int rounds = range(W, 1, 6);
    static bool (*const pred[])(const tg_geom*, const tg_geom*) = {tg_geom_intersects, tg_geom_equals, tg_geom_covers, tg_geom_contains, tg_geom_touches, tg_geom_within, tg_geom_coveredby, tg_geom_disjoint};
    static const char *pname[] = {"intersects", "equals", "covers", "contains", "touches", "within", "coveredby", "disjoint"};
    for (int k = 0; k < rounds; k++) {
        Handle A = w.h[draw(W, (uint32_t)w.h.size())], B = w.h[draw(W, (uint32_t)w.h.size())];
        const tg_geom *a = h_geom(A), *b = h_geom(B); double sa = (double)gsz(a), sb = (double)gsz(b);
        int q = (int)draw(W, 8);
        limited(pname[q], (q == 4 ? 1000 : 300) * sa * sb + 20000, [&]() { pred[q](a, b); });
        tg_rect r = gen_rect(gen_style());
        if (draw(F, 6) == 5) { double bad[] = {NAN, INFINITY, -INFINITY}; (draw(F, 2) ? r.min.x : r.max.y) = bad[draw(F, 3)]; FAULT("query with a coordinate that is not a number"); }
        limited("intersects with a rectangle", 1500 * sa + 20000, [&]() { tg_geom_intersects_rect(a, r); });
        limited("intersects with a point", 200 * sa + 5000, [&]() { tg_geom_intersects_xy(a, r.min.x, r.max.y); });
        tg_rect sr = draw(W, 2) ? r : tg_geom_rect(a);
        stoppable("search of children", 100 * sa + 5000, [&]() { tg_geom_search(a, sr, on_child, NULL); });
        const tg_ring *ra = h_pick_ring(A, draw(W, 1 << 16)), *rb = h_pick_ring(B, draw(W, 1 << 16));
        const tg_line *la = h_pick_line(A, draw(W, 1 << 16)), *lb = h_pick_line(B, draw(W, 1 << 16));
        double na = ra ? tg_ring_num_points(ra) : la ? tg_line_num_points(la) : 0, nb = rb ? tg_ring_num_points(rb) : lb ? tg_line_num_points(lb) : 0;
        double pl = 400 * (na + 2) * (nb + 2) + 20000;
        if (ra && rb) stoppable("search of segment pairs", pl, [&]() { tg_ring_ring_search(ra, rb, on_pair, NULL); });
        else if (ra && lb) stoppable("search of segment pairs", pl, [&]() { tg_ring_line_search(ra, lb, on_pair, NULL); });
        else if (la && lb && !rb) stoppable("search of segment pairs", pl, [&]() { tg_line_line_search(la, lb, on_pair, NULL); });
        double nl = 400 * (na + 4) * log2(na + 4) + 20000;
        auto near = [&]() { return ra ? tg_ring_nearest_segment(ra, near_rect, near_seg, on_near, NULL) : la ? tg_line_nearest_segment(la, near_rect, near_seg, on_near, NULL) : true; };
        stoppable("nearest segments", nl, [&]() { near(); });
        FailPlan p; p.mode = FAIL_KTH; p.k = draw(F, 6); heap_fail(p);
        stop_at = 1 << 30; calls = 0;
        limited("nearest segments with an allocation failing", nl, [&]() { near(); });
        heap_nofail();
        Handle c{};
        limited("clone", 300, [&]() { c = h_clone(A); }); limited("release of a clone", 300, [&]() { h_free(c); });
        limited("copy", 300 * sa + 5000, [&]() { c = h_copy(A); });
        if (!c.p) violate("null-result", "copy returned nothing although memory is plentiful");
        limited("release", 60 * sa + 5000, [&]() { h_free(c); });
        limited("memory size", 100 * sa + 2000, [&]() { tg_geom_memsize(a); });
        limited("bounding box", 40 * sa + 2000, [&]() { tg_geom_rect(a); });
        int f = (int)draw(W, NFMT); size_t len = 0;
        len = lib_write_buf(a, (Fmt)f, NULL, 0);
        size_t cap = draw(F, 3) ? len + 1 : draw(F, (uint32_t)len + 1); char *buf = (char*)lend(cap);
        limited(fmt_name[f], 100.0 * (double)len + 20 * sa + 5000, [&]() { lib_write_buf(a, (Fmt)f, buf, cap); });
        unlend(buf); if (cap <= len) FAULT("short buffer");
    }
    free_world(w);
}

// large regular shapes: an index saves most of the work, however the object came to be
static void indexed(uint64_t) {
    int n = 1000 * range(W, 1, 4) + (int)draw(W, 200); double wob = draw(W, 3) * 0.01, cx = range(W, -50, 50), cy = range(W, -50, 50);
    int spread = range(W, 8, 24); tg_env_set_index_spread(spread);
    note_case(hcomb(n / 100, spread * 4 + (int)(wob * 100)));
    std::vector<tg_point> p;
    for (int i = 0; i < n; i++) { double a = i * 6.283185307179586 / n, r = 100 * (1 + wob * sin(a * 8)); p.push_back({cx + r * cos(a), cy + r * sin(a)}); }
    p.push_back(p[0]);
    // the other ring may be much smaller or larger, so that the two indexes differ in depth
    static const double scale[] = {1, 0.03, 0.1, 0.3, 2};
    int nq = std::max(60, std::min((int)(n * scale[draw(W, 5)]), 10000000 / n));    // (the plain answer has to stay affordable)
    std::vector<tg_point> q; double dx = range(W, 20, 90), dy = range(W, -60, 60), rq = draw(W, 3) ? 100 : 40;
    for (int i = 0; i < nq; i++) { double a = i * 6.283185307179586 / nq; q.push_back({cx + dx + rq * cos(a), cy + dy + rq * sin(a)}); }
    q.push_back(q[0]);
    // the same ring without an index, with each, and as the library hands it out by other ways
    MGeom m; m.type = TG_POLYGON; MLine l; for (auto &z : p) l.push_back({{z.x, z.y, 0, 0}}); m.parts.push_back(l);
    std::vector<std::pair<std::string, tg_geom*>> v;
    for (int ix = TG_NATURAL; ix <= TG_YSTRIPES; ix++) {
        static const char *nm[] = {"", "", "natural", "ystripes"};
        tg_ring *r = tg_ring_new_ix(p.data(), (int)p.size(), (tg_index)ix);
        tg_geom *g = tg_geom_new_polygon((tg_poly*)r); tg_ring_free(r);
        v.push_back({nm[ix], g});
        v.push_back({std::string("copy of ") + nm[ix], tg_geom_copy(g)});
        Fmt f = (Fmt)draw(W, NFMT); std::string d = encode(m, f, 0);
        v.push_back({std::string(fmt_name[f]) + " with " + nm[ix], parse_lent(d, f, (tg_index)ix)});
        tg_poly *y = tg_poly_new((tg_ring*)tg_geom_poly(g), NULL, 0);
        v.push_back({std::string("polygon of ") + nm[ix], (tg_geom*)y});
    }
    tg_ring *r0 = tg_ring_new_ix(p.data(), (int)p.size(), TG_NONE);
    tg_ring *o0 = tg_ring_new_ix(q.data(), (int)q.size(), TG_NONE), *o1;
    if (draw(W, 3) == 2) tg_env_set_index_spread(range(W, 8, 24));
    o1 = tg_ring_new_ix(q.data(), (int)q.size(), TG_NATURAL); tg_env_set_index_spread(spread);
    int ln = range(W, 30, 200), at = (int)draw(W, n - 300);
    tg_line *part = tg_line_new_ix(p.data() + at, ln, gen_ix());
    std::vector<tg_point> probe; for (int i = 0; i < 24; i++) probe.push_back({cx + range(W, -110, 110), cy + range(W, -110, 110)});
    auto points = [&](const tg_geom *g) { uint64_t t = steps_now(); for (auto &z : probe) tg_geom_intersects_xy(g, z.x, z.y); return steps_now() - t; };
    auto rects = [&](const tg_geom *g) { uint64_t t = steps_now(); for (auto &z : probe) tg_geom_intersects_rect(g, tg_rect{z, {z.x + 3, z.y + 3}}); return steps_now() - t; };
    auto covers = [&](const tg_geom *g) { uint64_t t = steps_now(); tg_geom_covers(g, (tg_geom*)part); return steps_now() - t; };
    auto count = [](tg_segment, int, tg_segment, int, void *u) { ++*(int*)u; return true; };
    auto join = [&](const tg_geom *g, const tg_ring *o) { uint64_t t = steps_now(); int c = 0; tg_ring_ring_search(tg_poly_exterior(tg_geom_poly(g)), o, count, &c); ev(c); return steps_now() - t; };
    auto back = [&](const tg_geom *g, const tg_ring *o) { uint64_t t = steps_now(); int c = 0; tg_ring_ring_search(o, tg_poly_exterior(tg_geom_poly(g)), count, &c); ev(c); return steps_now() - t; };
    auto meets = [&](const tg_geom *g, const tg_ring *o) { uint64_t t = steps_now(); tg_geom_intersects(g, (tg_geom*)o); return steps_now() - t; };
    const tg_geom *g0 = (tg_geom*)r0;
    struct { const char *what; uint64_t plain; double most; } base[] = {
        {"points in an indexed polygon", points(g0), 0.6}, {"rectangles against an indexed polygon", rects(g0), 0.5}, {"a line covered by an indexed polygon", covers(g0), 0.6},
        {"pairs of segments of indexed rings", join(g0, o0), 0.03}, {"pairs of segments of indexed rings, exchanged", back(g0, o0), 0.03}, {"intersection of indexed polygons", meets(g0, o0), 1.5}};
    uint64_t first[6] = {0};
    for (size_t i = 0; i < v.size(); i++) {
        tg_geom *g = v[i].second;
        if (!g || tg_geom_error(g)) violate("null-result", "building an object failed although memory is plentiful");
        uint64_t u[6] = {points(g), rects(g), covers(g), join(g, o1), back(g, o1), meets(g, o1)};
        for (int k = 0; k < 6; k++) {
            ev(u[k]);
            if (g_verbose) printf("  n %d spread %d %s %s: %llu of %llu plain (%.3f)\n", n, spread, v[i].first.c_str(), base[k].what, (unsigned long long)u[k], (unsigned long long)base[k].plain, (double)u[k] / (double)base[k].plain);
            if ((double)u[k] > base[k].most * (double)base[k].plain + (k == 3 || k == 4 ? 150.0 * (n + nq) : 4000)) violate("index-useless", "%s (%s): %llu memory accesses, %llu without an index", base[k].what, v[i].first.c_str(), (unsigned long long)u[k], (unsigned long long)base[k].plain);
            if (i % 4 == 0) first[k] = u[k];
            else if (u[k] > 3 * first[k] + 4000) violate("index-lost", "%s: %llu memory accesses for the %s polygon, %llu for the one made directly", base[k].what, (unsigned long long)u[k], v[i].first.c_str(), (unsigned long long)first[k]);
        }
    }
    PROBE("large indexed shapes compared with plain ones");
    for (auto &x : v) tg_geom_free(x.second);
    tg_ring_free(r0); tg_ring_free(o0); tg_ring_free(o1); tg_line_free(part);
    // many children
    int nc = 1000 * (draw(W, 3) == 2 ? range(W, 20, 70) : range(W, 1, 4)); std::vector<tg_point> c; for (int i = 0; i < nc; i++) c.push_back({(double)draw(W, 1000), (double)draw(W, 1000)});
    tg_geom *mp = tg_geom_new_multipoint(c.data(), nc), *mc = tg_geom_copy(mp);
    for (tg_geom *g : {mp, mc}) for (int i = 0; i < 5; i++) {
        double x = (double)draw(W, 1000), y = (double)draw(W, 1000); int hits = 0;
        uint64_t t = steps_now(); tg_geom_search(g, tg_rect{{x, y}, {x + 20, y + 20}}, [](const tg_geom *, int, void *u) { ++*(int*)u; return true; }, &hits); t = steps_now() - t;
        if (g_verbose) printf("  search among %d: %llu, %d hits\n", nc, (unsigned long long)t, hits);
        ev(t); if (t > (uint64_t)nc * 5 + 6000) violate("index-useless", "a search of %d children that finds %d took %llu memory accesses", nc, hits, (unsigned long long)t);
    }
    tg_geom_free(mp); tg_geom_free(mc);
}
// very large objects and small questions
static void large(void) {
    static const int spreads[] = {16, 2, 4, 8, 32, 4096, 3};
    tg_env_set_index_spread(spreads[draw(W, 7)]);
    Giant G = gen_giant(800, 50000); auto pr = giant_probes(G);
    uint64_t s0 = steps_now();
    Handle A = build_giant(G); if (!A.p) violate("null-result", "building an object failed although memory is plentiful");
    const tg_geom *a = h_geom(A); double sa = (double)gsz(a); uint64_t made = steps_now() - s0;
    if (g_verbose) printf("  size %.0f, made in %llu\n", sa, (unsigned long long)made);
    double deep = 1; for (const MGeom *m = &G.m; !m->kids.empty(); m = &m->kids[0]) deep++;
    if ((double)made > (G.doc ? 8.0 * (double)G.text.size() * (3 * deep + 40) + 300 * sa : 700 * sa) + 50000) violate("work", "making an object of size %.0f took %llu memory accesses", sa, (unsigned long long)made);
    // nested collections ask every level for the box of what is inside
    double nest = deep > 4 ? deep : 1;
    Handle C{};
    limited("clone", 300, [&]() { C = h_clone(A); }); limited("release of a clone", 300, [&]() { h_free(C); });
    limited("memory size", 100 * sa + 2000, [&]() { tg_geom_memsize(a); });
    limited("bounding box", 40 * sa + 2000, [&]() { tg_geom_rect(a); });
    limited("copy", 300 * sa + 5000, [&]() { C = h_copy(A); });
    if (!C.p) violate("null-result", "copy returned nothing although memory is plentiful");
    for (Handle X : {A, C}) {
        const tg_geom *x = h_geom(X); tg_rect all = tg_geom_rect(x);
        for (int i = 0; i < 4; i++) {
            tg_rect r; r.min = {all.min.x + (all.max.x - all.min.x) * draw(W, 100) / 100.0, all.min.y + (all.max.y - all.min.y) * draw(W, 100) / 100.0}; r.max = {r.min.x + draw(W, 30), r.min.y + draw(W, 30)};
            limited("intersects with a point", 200 * sa * nest + 5000, [&]() { tg_geom_intersects_xy(x, r.min.x, r.max.y); });
            limited("intersects with a rectangle", 1500 * sa * nest + 20000, [&]() { tg_geom_intersects_rect(x, r); });
            tg_rect w = draw(W, 4) == 3 ? all : r;
            stoppable("search of children", 100 * sa * nest + 5000, [&]() { tg_geom_search(x, w, on_child, NULL); });
            // few of many children: an index saves most of the work
            if (G.kind <= 2 || G.kind == 6) { stop_at = 1 << 30; calls = 0; uint64_t t = steps_now(); tg_geom_search(x, tg_rect{r.min, r.min}, on_child, NULL); t = steps_now() - t; int nk = (int)G.m.kids.size();
                if (g_verbose) printf("  %d of %d children: %llu\n", calls, nk, (unsigned long long)t);
                if ((double)t > 4.0 * nk + 12000 + 400.0 * calls) violate("index-useless", "a search of %d children that finds %d took %llu memory accesses", nk, calls, (unsigned long long)t); }
        }
        for (auto &p : pr) for (auto f : {tg_geom_intersects, tg_geom_covers, tg_geom_within, tg_geom_disjoint}) limited("predicates with something small", 3000 * sa * nest + 50000, [&]() { f(x, h_geom(p)); });
        if (X.k == HK_RING || X.k == HK_LINE) {
            double nl = 400 * (sa + 4) * log2(sa + 4) + 20000;
            stoppable("nearest segments", nl, [&]() { X.k == HK_RING ? tg_ring_nearest_segment((tg_ring*)X.p, near_rect, near_seg, on_near, NULL) : tg_line_nearest_segment((tg_line*)X.p, near_rect, near_seg, on_near, NULL); });
            // the first few of them
            stop_at = 3; calls = 0; limited("the three nearest segments", nl, [&]() { X.k == HK_RING ? tg_ring_nearest_segment((tg_ring*)X.p, near_rect, near_seg, on_near, NULL) : tg_line_nearest_segment((tg_line*)X.p, near_rect, near_seg, on_near, NULL); });
        }
        for (int f = 0; f < NFMT; f++) {
            size_t len = lib_write_buf(x, (Fmt)f, NULL, 0);
            size_t cap = draw(F, (uint32_t)len + 2); char *buf = (char*)lend(cap);
            limited(fmt_name[f], 100.0 * (double)len + 20 * sa * nest + 5000, [&]() { lib_write_buf(x, (Fmt)f, buf, cap); });
            if (cap <= len) FAULT("short buffer");
            double nl = 60.0 * (double)cap + 2000;
            if (f == FMT_GEOBIN) { limited("quick box reader", nl, [&]() { tg_geobin_rect((uint8_t*)buf, cap); }); limited("quick box reader", nl, [&]() { double a[4], b[4]; tg_geobin_fullrect((uint8_t*)buf, cap, a, b); }); limited("quick point reader", nl, [&]() { tg_geobin_point((uint8_t*)buf, cap); }); }
            unlend(buf);
        }
    }
    limited("release", 60 * sa + 5000, [&]() { h_free(C); });
    h_free(A); for (auto &p : pr) h_free(p);
}
SCENARIO(C15) {
    worst.clear();
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    if (giant_turn(30)) large();
    else if (draw(W, 24) == 23) indexed(index); else general(index);
    heap_check_leaks("leak", 0, "everything was released");
}
