// C17 the index spares work and changes no answer. Replicas of one process go through the same
// history, each with index settings, explicit indexes, refused requests and restarts of its own; a
// restart loses everything but the stored documents, which are read back under other settings.
// All replicas have to give the answers of the one that never uses an index.
#include "ops.h"
#include <algorithm>
#include <cmath>

extern "C" { enum tg_index tg_index_with_spread(enum tg_index ix, int spread) __attribute__((weak)); }
namespace {
// ---------------------------------------------------------------- shapes that have something to do with each other
struct Frame { int style; double scale, off; std::vector<tg_point> pool; std::vector<MLine> rings; };
Frame fr;
double snap(double v) {           // grid units to coordinates
    switch (fr.style) {
    case 0: return std::floor(v) * fr.scale;
    case 1: return std::floor(v * 4) * 0.1 * fr.scale;
    case 2: return v * fr.scale;
    default: return (fr.off + std::floor(v * 8) * 0.001) * fr.scale;
    }
}
double unit(int span) { return draw(W, span * 8) / 8.0 - span / 2.0; }
MPos at(double x, double y) { double a = snap(x), b = snap(y); MPos p = {{a == 0 ? 0 : a, b == 0 ? 0 : b, 0, 0}}; return p; }
MPos pooled() { auto &p = fr.pool[draw(W, (uint32_t)fr.pool.size())]; MPos q = {{p.x, p.y, 0, 0}}; return q; }
int npts() { return sizeish(W, 12, 60, HAVE_ACCESS_HOOK ? 250 : 700); }
MLine ring() {
    MLine l; int n = std::max(3, npts()), kind = (int)draw(W, 9);
    double cx = unit(12), cy = unit(12);
    switch (kind) {
    case 0: case 1: {       // box with points on its edges
        double w = 1 + draw(W, 12), h = 1 + draw(W, 12); int per = std::max(1, n / 4);
        double c[5][2] = {{0, 0}, {w, 0}, {w, h}, {0, h}, {0, 0}};
        for (int s = 0; s < 4; s++) for (int i = 0; i < per; i++) l.push_back(at(cx + c[s][0] + (c[s + 1][0] - c[s][0]) * i / per, cy + c[s][1] + (c[s + 1][1] - c[s][1]) * i / per));
        break; }
    case 2: case 3: {       // round, smooth or notched
        double r = 2 + draw(W, 8); bool notch = draw(W, 2);
        for (int i = 0; i < n; i++) { double a = 6.283185307179586 * i / n, q = notch ? r * (0.3 + draw(W, 8) / 10.0) : r; l.push_back(at(cx + q * std::cos(a), cy + q * std::sin(a))); }
        break; }
    case 4: {               // staircase up and straight back
        int k = std::max(1, n / 2); double st = 12.0 / k;
        for (int i = 0; i < k; i++) { l.push_back(at(cx + i * st, cy + i * st)); l.push_back(at(cx + (i + 1) * st, cy + i * st)); }
        l.push_back(at(cx + 12, cy + 12)); break; }
    case 5: {               // comb: teeth of equal or mixed heights
        int k = std::max(1, n / 4); double st = 12.0 / k; bool mix = draw(W, 2);
        l.push_back(at(cx, cy)); l.push_back(at(cx + 12, cy));
        for (int i = k; i > 0; i--) { double h = mix ? 1 + draw(W, 8) : 6; l.push_back(at(cx + i * st, cy + h)); l.push_back(at(cx + (i - 0.5) * st, cy + h)); l.push_back(at(cx + (i - 0.5) * st, cy + 1)); l.push_back(at(cx + (i - 1) * st, cy + 1)); }
        break; }
    case 6: for (int i = 0; i < n; i++) l.push_back(pooled()); break;
    case 7:                 // flat
        { bool up = draw(W, 2); for (int i = 0; i < n; i++) { double t = unit(16); l.push_back(up ? at(cx, t) : at(t, cy)); } break; }
    default:                // an earlier ring, resized or moved by its own width
        if (fr.rings.empty()) { for (int i = 0; i < n; i++) l.push_back(at(unit(16), unit(16))); break; }
        l = fr.rings[draw(W, (uint32_t)fr.rings.size())]; l.pop_back();
        double x0 = l[0].v[0], x1 = x0, y0 = l[0].v[1], y1 = y0;
        for (auto &p : l) { x0 = std::min(x0, p.v[0]); x1 = std::max(x1, p.v[0]); y0 = std::min(y0, p.v[1]); y1 = std::max(y1, p.v[1]); }
        uint32_t how = draw(W, 5), k = draw(W, (uint32_t)l.size());
        for (auto &p : l) switch (how) {
        case 0: break;
        case 1: p.v[0] = (x0 + x1) / 2 + (p.v[0] - (x0 + x1) / 2) * 0.5; p.v[1] = (y0 + y1) / 2 + (p.v[1] - (y0 + y1) / 2) * 0.5; break;
        case 2: p.v[0] += x1 - x0; break;
        case 3: p.v[1] += y1 - y0; break;
        default: if (&p == &l[k]) p = pooled();
        }
        if (draw(W, 2)) std::rotate(l.begin(), l.begin() + k, l.end());
        for (auto &p : l) { p.v[0] += 0.0; p.v[1] += 0.0; }
    }
    if (draw(W, 2)) std::reverse(l.begin(), l.end());
    l.push_back(l[0]);
    fr.rings.push_back(l); for (int i = 0; i < 3; i++) { auto &p = l[draw(W, (uint32_t)l.size())]; fr.pool.push_back({p.v[0], p.v[1]}); }
    return l;
}
MLine line() {
    MLine l; int n = std::max(2, npts());
    switch (draw(W, 4)) {
    case 0: for (int i = 0; i < n; i++) l.push_back(pooled()); break;
    case 1: { double x = unit(12), y = unit(12); for (int i = 0; i < n; i++) { l.push_back(at(x, y)); uint32_t d = draw(W, 9); x += (int)(d % 3) - 1; y += (int)(d / 3) - 1; } break; }
    default:                // along an earlier ring
        if (fr.rings.empty()) { l.push_back(pooled()); l.push_back(pooled()); break; }
        auto &r = fr.rings[draw(W, (uint32_t)fr.rings.size())]; size_t a = draw(W, (uint32_t)r.size() - 1), k = 1 + draw(W, (uint32_t)r.size() - 1);
        for (size_t i = 0; i <= k; i++) l.push_back(r[(a + i) % (r.size() - 1)]);
        if (draw(W, 3) == 2) { MPos &e = l.back(); e.v[0] = (e.v[0] + l[l.size() - 2].v[0]) / 2; e.v[1] = (e.v[1] + l[l.size() - 2].v[1]) / 2; }
    }
    if (draw(W, 2)) std::reverse(l.begin(), l.end());
    return l;
}
MGeom shape(int type, int depth) {
    MGeom g; g.type = type;
    switch (type) {
    case TG_POINT: g.parts.push_back({pooled()}); break;
    case TG_LINESTRING: g.parts.push_back(line()); break;
    case TG_POLYGON: for (int i = (int)draw(W, 3) == 2 ? 1 + (int)draw(W, 3) : 0; i >= 0; i--) g.parts.push_back(ring()); break;
    default:
        int n = 1 + (int)draw(W, 4); if (draw(W, 8) == 7) n = 64 + (int)draw(W, 40);
        if (n > 8 && type != TG_MULTIPOINT) {   // many small ones
            for (int i = 0; i < n; i++) { MGeom k; double x = unit(40), y = unit(40); k.type = type == TG_GEOMETRYCOLLECTION ? 1 + (int)draw(W, 3) : type - 3;
                if (k.type == TG_POINT) k.parts.push_back({at(x, y)}); else { MLine l = {at(x, y), at(x + 1, y), at(x + 1, y + 1)}; if (k.type == TG_POLYGON) l.push_back(l[0]); k.parts.push_back(l); } g.kids.push_back(k); }
            break;
        }
        for (int i = 0; i < n; i++) g.kids.push_back(shape(type == TG_GEOMETRYCOLLECTION ? 1 + (int)draw(W, depth ? 7 : 6) : type - 3, depth - 1));
    }
    return g;
}
// further coordinates, and parts that are empty
void dress(MGeom &g, bool z, bool m) {
    if (g.type == TG_GEOMETRYCOLLECTION) { for (auto &k : g.kids) dress(k, draw(W, 3) == 2, draw(W, 4) == 3); if (draw(W, 4) == 3) { MGeom e; e.type = 1 + (int)draw(W, 6); e.empty = !e.multi(); g.kids.insert(g.kids.begin() + draw(W, (uint32_t)g.kids.size() + 1), e); } return; }
    g.z = z; g.m = m; if (!z && !m) return;
    for (auto &k : g.kids) dress(k, z, m);
    for (auto &l : g.parts) for (auto &p : l) { p.v[2] = std::floor(p.v[0]) + 1; p.v[3] = p.v[1] * 0.5; }
}
size_t weight(const MGeom &g) { size_t n = 1; for (auto &l : g.parts) n += l.size(); for (auto &k : g.kids) n += weight(k); return n; }

// ---------------------------------------------------------------- the history
enum { A_BUILD, A_COPY, A_CLONE, A_FREE, A_WRAP, A_ASK, A_RESTART };
struct Act { int kind = 0; ObjSpec s; uint32_t a = 0, b = 0, c = 0, sel = 0; std::vector<tg_point> pts; std::vector<tg_rect> rects; };
struct Ans { const char *what; uint32_t i; uint64_t v; };
struct Obj { Handle h; std::string doc; size_t w; };
uint64_t bits(double d) { d += 0.0; uint64_t u; memcpy(&u, &d, 8); return u; }

struct Hits { std::vector<uint64_t> v; int n = 0; };
bool hit_child(const tg_geom *, int i, void *u) { ((Hits*)u)->v.push_back(i); return true; }
bool hit_pair(tg_segment a, int ai, tg_segment b, int bi, void *u) { ((Hits*)u)->v.push_back(hcomb(hcomb((uint64_t)ai << 32 | (uint32_t)bi, bits(a.a.x)), bits(b.b.y))); return true; }
struct Near { tg_point q; uint64_t seq = 1; std::vector<uint64_t> set; };
double n_rect(tg_rect r, int *, void *u) { Near *s = (Near*)u; double dx = std::max(0.0, std::max(r.min.x - s->q.x, s->q.x - r.max.x)), dy = std::max(0.0, std::max(r.min.y - s->q.y, s->q.y - r.max.y)); return std::max(dx, dy); }
double n_seg(tg_segment g, int *, void *u) { return n_rect(tg_segment_rect(g), NULL, u); }
bool n_iter(tg_segment, double d, int i, void *u) { Near *s = (Near*)u; s->seq = hcomb(s->seq, bits(d)); s->set.push_back(hcomb(i, bits(d))); return true; }
uint64_t sorted(std::vector<uint64_t> &v) { std::sort(v.begin(), v.end()); uint64_t h = v.size(); for (auto x : v) h = hcomb(h, x); return h; }

void ask(const Act &a, const Obj &A, const Obj &B, std::vector<Ans> &out) {
    const tg_geom *ga = h_geom(A.h), *gb = h_geom(B.h);
    auto add = [&](const char *w, uint32_t i, uint64_t v) { out.push_back({w, i, v}); };
    static const struct { const char *n; bool (*f)(const tg_geom*, const tg_geom*); } pr[] = {{"intersects", tg_geom_intersects}, {"disjoint", tg_geom_disjoint}, {"contains", tg_geom_contains},
        {"within", tg_geom_within}, {"covers", tg_geom_covers}, {"coveredby", tg_geom_coveredby}, {"touches", tg_geom_touches}, {"equals", tg_geom_equals}};
    bool heavy = A.w * B.w > (HAVE_ACCESS_HOOK ? 8000u : 200000u);
    if (!heavy) for (auto &p : pr) { add(p.n, 0, p.f(ga, gb)); add(p.n, 1, p.f(gb, ga)); }
    else PROBE("pair of objects too large for all predicates");
    for (uint32_t i = 0; i < a.pts.size(); i++) {
        add("intersects_xy", i, tg_geom_intersects_xy(ga, a.pts[i].x, a.pts[i].y));
        if (i < 4) { tg_geom *p = tg_geom_new_point(a.pts[i]); if (!p) violate("null-result", "building a point failed although memory is plentiful");
            add("covers point", i, tg_geom_covers(ga, p)); add("contains point", i, tg_geom_contains(ga, p)); add("touches point", i, tg_geom_touches(ga, p)); add("point within", i, tg_geom_within(p, ga)); tg_geom_free(p); }
    }
    for (uint32_t i = 0; i < a.rects.size(); i++) {
        add("intersects_rect", i, tg_geom_intersects_rect(ga, a.rects[i]));
        Hits h; tg_geom_search(ga, a.rects[i], hit_child, &h); add("children found", i, sorted(h.v));
    }
    const tg_ring *ra = h_pick_ring(A.h, a.sel), *rb = h_pick_ring(B.h, a.sel >> 4); const tg_line *la = ra ? NULL : h_pick_line(A.h, a.sel), *lb = rb ? NULL : h_pick_line(B.h, a.sel >> 4);
    if (!heavy && (ra || la) && (rb || lb)) {
        Hits h;
        if (ra && rb) tg_ring_ring_search(ra, rb, hit_pair, &h); else if (ra) tg_ring_line_search(ra, lb, hit_pair, &h);
        else if (rb) tg_ring_line_search(rb, la, hit_pair, &h); else tg_line_line_search(la, lb, hit_pair, &h);
        add("segment pairs found", 0, sorted(h.v));
    }
    if (!a.pts.empty()) {
        Near n; n.q = a.pts[0]; bool ok = true;
        if (ra) ok = tg_ring_nearest_segment(ra, n_rect, n_seg, n_iter, &n); else if (la) ok = tg_line_nearest_segment(la, n_rect, n_seg, n_iter, &n);
        if (!ok) violate("null-result", "a nearest-segment traversal failed although memory is plentiful");
        add("distances of segments", 0, n.seq); add("segments by distance", 0, sorted(n.set));
    }
    if (ra) { add("area", 0, bits(tg_ring_area(ra))); add("perimeter", 0, bits(tg_ring_perimeter(ra))); add("clockwise", 0, tg_ring_clockwise(ra)); add("convex", 0, tg_ring_convex(ra)); add("number of segments", 0, tg_ring_num_segments(ra)); }
    if (la) { add("length", 0, bits(tg_line_length(la))); add("clockwise", 1, tg_line_clockwise(la)); add("number of segments", 1, tg_line_num_segments(la)); }
    tg_rect r = tg_geom_rect(ga); add("bounding box", 0, bits(r.min.x)); add("bounding box", 1, bits(r.min.y)); add("bounding box", 2, bits(r.max.x)); add("bounding box", 3, bits(r.max.y));
    add("dimensions", 0, tg_geom_dims(ga)); add("empty", 0, tg_geom_is_empty(ga)); add("number of further coordinates", 0, tg_geom_num_extra_coords(ga));
    if (const double *x = tg_geom_extra_coords(ga)) { uint64_t h = 1; for (int i = 0; i < tg_geom_num_extra_coords(ga); i++) h = hcomb(h, bits(x[i])); add("further coordinates", 0, h); }
    if (const tg_poly *y = h_pick_poly(A.h, a.sel)) { tg_rect b = tg_poly_rect(y); add("polygon", 0, hcomb(tg_poly_num_holes(y), tg_poly_clockwise(y))); add("polygon", 1, hcomb(hcomb(bits(b.min.x), bits(b.min.y)), hcomb(bits(b.max.x), bits(b.max.y)))); }
    Fmt f = (Fmt)(a.sel % NFMT); std::string d = lib_write(ga, f); add(fmt_name[f], 0, hash_bytes(d.data(), d.size()));
}

const int spreads[] = {16, 2, 3, 5, 8, 32, 100, 4096};
struct Sett { enum tg_index ix; int spread; };
Sett draw_sett() { Sett s; s.ix = (enum tg_index)(1 + draw(F, 3)); s.spread = spreads[draw(F, 8)]; tg_env_set_index(s.ix); tg_env_set_index_spread(s.spread); return s; }
}

static void c17_giant() {
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    Giant g = gen_giant(500, HAVE_ACCESS_HOOK ? 12000 : 60000);
    g.ix = TG_NONE; auto pr = giant_probes(g);
    tg_env_set_index(TG_NONE);
    Handle h = build_giant(g); if (!h.p) violate("null-result", "building an object failed although memory is plentiful");
    uint64_t want = giant_look(h, g, pr, GL_PRED | GL_WRITE); h_free(h);
    for (int i = range(W, 2, 4); i > 0; i--) {
        Sett s = draw_sett(); g.ix = (enum tg_index)draw(F, 4);
        if (tg_index_with_spread && g.ix && draw(F, 2)) g.ix = tg_index_with_spread(g.ix, spreads[draw(F, 8)]);
        FAULT("index settings changed");
        h = build_giant(g); if (!h.p) violate("null-result", "building an object failed although memory is plentiful");
        if (giant_look(h, g, pr, GL_PRED | GL_WRITE) != want) violate("index-changes-answer", "a very large object answers differently with index %d (default %d, spread %d) than without an index", (int)g.ix, (int)s.ix, s.spread);
        if (draw(F, 2)) { Handle c = h_copy(h); h_free(h); h = c; if (!h.p || giant_look(h, g, pr, GL_PRED | GL_WRITE) != want) violate("index-changes-answer", "the copy of a very large object with index %d (default %d, spread %d) answers differently than without an index", (int)g.ix, (int)s.ix, s.spread); }
        h_free(h);
    }
    for (auto &p : pr) h_free(p);
    heap_check_leaks("leak", 0, "everything was released");
}

SCENARIO(C17) {
    if (giant_turn(60)) { c17_giant(); return; }
    heap_fill((FillMode)draw(F, 5), draw(F, 1000)); heap_reuse(draw(F, 2));
    static const double scales[] = {1, 1, 1, 1, 1e-30, 1e-9, 1e12, 1e30};
    fr = Frame(); fr.style = (int)draw(W, 4); fr.scale = scales[draw(W, 8)]; fr.off = draw(W, 2) ? 1e7 : 0;
    for (int i = 0; i < 6; i++) { MPos p = at(unit(16), unit(16)); fr.pool.push_back({p.v[0], p.v[1]}); }
    // the history, the same for all
    std::vector<Act> acts; int n = range(W, 4, 14), nobj = 0; uint64_t cs = fr.style;
    for (int i = 0; i < n; i++) {
        Act a; uint32_t k = draw(W, 14);
        a.kind = nobj < 2 ? A_BUILD : k <= 5 ? A_ASK : k <= 8 ? A_BUILD : k == 9 ? A_COPY : k == 10 ? A_CLONE : k == 11 ? A_WRAP : k == 12 ? A_RESTART : A_FREE;
        if (i + 1 == n && nobj >= 2) a.kind = A_ASK;
        a.a = draw(W, 64); a.b = draw(W, 64); a.c = draw(W, 64); a.sel = draw(W, 1 << 12);
        if (a.kind == A_BUILD) {
            a.s.kind = draw(W, 8); a.s.var = draw(W, 256);
            if (a.s.kind == 4 || a.s.kind == 5) { MLine l = a.s.kind == 4 ? ring() : line(); for (auto &p : l) a.s.pts.push_back({p.v[0], p.v[1]}); }
            else { a.s.m = shape(a.s.kind == 3 ? (int)TG_POLYGON : 1 + (int)draw(W, 7), 1); if (a.s.kind != 3 && draw(W, 3) == 2) dress(a.s.m, draw(W, 2), draw(W, 3) == 2); }
            if (a.s.kind >= 6) { a.s.fmt = (Fmt)draw(W, NFMT); a.s.doc = encode(a.s.m, a.s.fmt, draw(W, 64)); }
            nobj++; cs = hcomb(cs, a.s.m.shape());
        }
        if (a.kind == A_ASK) {
            int np = range(W, 2, 12);
            for (int j = 0; j < np; j++) { tg_point p; switch (draw(W, 3)) {
                case 0: { MPos q = pooled(); p = {q.v[0], q.v[1]}; break; }
                case 1: { MPos q = at(unit(16), unit(16)); p = {q.v[0], q.v[1]}; break; }
                default: {      // on, or at the height of, an edge or the top of a ring
                    if (fr.rings.empty()) { MPos q = pooled(); p = {q.v[0], q.v[1]}; break; }
                    auto &r = fr.rings[draw(W, (uint32_t)fr.rings.size())]; size_t k2 = draw(W, (uint32_t)r.size() - 1); bool top = draw(W, 2);
                    if (top) for (size_t t = 0; t + 1 < r.size(); t++) if (draw(W, 2) ? r[t].v[1] > r[k2].v[1] : r[t].v[1] < r[k2].v[1]) k2 = t;
                    p = {(r[k2].v[0] + r[k2 + 1].v[0]) / 2, (r[k2].v[1] + r[k2 + 1].v[1]) / 2}; } }
                a.pts.push_back(p); }
            for (int j = 0; j < 3; j++) { MPos p = draw(W, 2) ? pooled() : at(unit(16), unit(16)), q = draw(W, 2) ? pooled() : at(unit(16), unit(16));
                a.rects.push_back({{std::min(p.v[0], q.v[0]), std::min(p.v[1], q.v[1])}, {std::max(p.v[0], q.v[0]), std::max(p.v[1], q.v[1])}}); }
        }
        cs = hcomb(cs, a.kind); acts.push_back(a);
    }
    note_case(cs);
    int reps = 1 + range(W, 2, 4);
    std::vector<Ans> want;
    for (int rep = 0; rep < reps; rep++) {
        lib_reset();
        Sett st = {TG_NONE, 16};
        if (rep) { st = draw_sett(); set_locale(draw_locale()); } else tg_env_set_index(TG_NONE);
        logf("replica %d: default index %d, spread %d", rep, (int)st.ix, st.spread);
        std::vector<Obj> w; std::vector<Ans> got; uint64_t mark = heap_mark();
        auto pick_ix = [&]() {
            if (!rep) return TG_NONE;
            enum tg_index ix = (enum tg_index)draw(F, 4);
            if (ix && tg_index_with_spread && draw(F, 2)) ix = tg_index_with_spread(ix, spreads[draw(F, 8)]);
            return ix;
        };
        // a construction that may be refused memory, and is then tried again
        auto make = [&](auto f) {
            if (rep && draw(F, 4) == 3) {
                FailPlan p; p.mode = draw(F, 2) ? FAIL_FROM : FAIL_KTH; p.k = draw(F, 10);
                heap_fail(p); Handle h = f(); bool fired = heap_fail_fired(); heap_nofail();
                if (fired) FAULT("allocation failed while a replica made an object");
                if (h.p) return h;
                if (!fired) violate("null-result", "building an object failed although memory is plentiful");
            }
            Handle h = f(); if (!h.p) violate("null-result", "building an object failed although memory is plentiful");
            return h;
        };
        auto keep = [&](Handle h, size_t wt) { w.push_back({h, lib_write(h_geom(h), FMT_GEOBIN), wt}); };
        for (size_t ai = 0; ai < acts.size(); ai++) {
            const Act &a = acts[ai];
            if (rep && draw(F, 6) == 5) { st = draw_sett(); FAULT("index settings changed"); logf("  settings: index %d spread %d", (int)st.ix, st.spread); }
            size_t x = w.empty() ? 0 : a.a % w.size(), y = w.empty() ? 0 : a.b % w.size(), z = w.empty() ? 0 : a.c % w.size();
            switch (a.kind) {
            case A_BUILD: {
                ObjSpec s = a.s; s.ix = pick_ix(); logf("  build, kind %u, index %d", s.kind, (int)s.ix);
                Handle h = make([&] { return build_spec(s); });
                keep(h, s.kind == 4 || s.kind == 5 ? s.pts.size() : weight(s.m)); break; }
            case A_COPY: if (w.size() < 8) { Handle h = make([&] { return h_copy(w[x].h); }); keep(h, w[x].w); } break;
            case A_CLONE: { Handle h = h_clone(w[x].h); h_free(w[x].h); w[x].h = h; break; }
            case A_FREE: if (w.size() > 2) { h_free(w[x].h); w.erase(w.begin() + x); } break;
            case A_WRAP: {
                if (w.size() >= 8 || w[x].w + w[y].w + w[z].w > 1500) break;
                Handle h = make([&] { const tg_geom *k[3] = {h_geom(w[x].h), h_geom(w[y].h), h_geom(w[z].h)}; return Handle{HK_GEOM, tg_geom_new_geometrycollection(k, 1 + (int)(a.sel % 3))}; });
                size_t wt = w[x].w + w[y].w + w[z].w; keep(h, wt); break; }
            case A_RESTART: {
                // a crash: every object is gone, the stored documents are not
                for (auto &o : w) h_free(o.h);
                heap_check_leaks("leak", mark, "a replica ended");
                lib_reset(); if (rep) { st = draw_sett(); set_locale(draw_locale()); FAULT("replica restarted under other settings"); } else tg_env_set_index(TG_NONE);
                for (auto &o : w) {
                    enum tg_index ix = pick_ix();
                    o.h = make([&] { tg_geom *g = parse_lent(o.doc, FMT_GEOBIN, ix); const char *e = tg_geom_error(g); if (e && !strcmp(e, "no memory")) { tg_geom_free(g); g = NULL; } return Handle{HK_GEOM, g}; });
                    if (const char *e = tg_geom_error(h_geom(o.h))) violate("not-readable", "a stored geometry cannot be read back: %s", e);
                }
                logf("  restart, index %d spread %d", (int)st.ix, st.spread); break; }
            case A_ASK: {
                size_t at0 = got.size();
                ask(a, w[x], w[y], got); if (!rep) break;
                for (size_t i = at0; i < got.size(); i++) {
                    if (i >= want.size() || want[i].what != got[i].what) harness_error("replicas do not ask the same questions");
                    if (want[i].v != got[i].v) violate("index-changes-answer", "%s (%u) of objects %zu and %zu after %zu steps: %llx without an index, %llx with default index %d, spread %d", got[i].what, got[i].i, x, y, ai,
                        (unsigned long long)want[i].v, (unsigned long long)got[i].v, (int)st.ix, st.spread);
                    ev(got[i].v);
                }
                PROBEN("answers compared", got.size() - at0); break; }
            }
        }
        for (auto &o : w) h_free(o.h);
        heap_check_leaks("leak", mark, "everything was released");
        if (!rep) want = got;
        note_interleaving(hcomb(cs, hcomb(st.ix, st.spread)));
    }
}
