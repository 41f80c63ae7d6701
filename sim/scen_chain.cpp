// C16: what a failed call leaves behind - no object, or an error object - may be handed on without checking.
// A chain of calls, none of whose results is looked at before the next call, is run with plentiful memory and
// documents some of which are broken, and again with failing allocations.
#include "ops.h"
#include <algorithm>

namespace {
enum SK { S_RING, S_LINE, S_PARSE, S_ERR, S_POLY, S_GLINE, S_GPOLY, S_GC, S_CLONE, S_COPY, S_PART, S_DROP, S_ASK, S_EMPTY, NSK };
const char *sname[NSK] = {"ring", "line", "parse", "error", "polygon of", "geometry of line", "geometry of polygon", "collection of", "clone of", "copy of", "part of", "release", "ask", "empty"};
struct Step { SK k = S_RING; std::vector<uint32_t> in; uint32_t v = 0; Op parse; std::vector<tg_point> pts; enum tg_index ix = TG_DEFAULT; std::string msg; bool nomsg = false; FailPlan p; bool fail = false; tg_rect rect = {}; };
enum Cls { ABSENT, ERROR, NORMAL };
struct Slot { Handle h; Cls c = ABSENT; std::string msg; uint64_t obs = 0; Cls c0 = ABSENT; uint64_t obs0 = 0; };      // c0, obs0: when it was made (it may have been released since)

uint64_t calls;
bool on_geom(const tg_geom*, int, void*) { calls++; return true; }
bool on_pair(tg_segment, int, tg_segment, int, void*) { calls++; return true; }
bool on_near(tg_segment, double, int, void*) { calls++; return true; }
double d_rect(tg_rect, int*, void*) { calls++; return 1; }
double d_seg(tg_segment, int*, void*) { calls++; return 1; }
bool zero(tg_rect r) { return r.min.x == 0 && r.min.y == 0 && r.max.x == 0 && r.max.y == 0; }
bool zero(tg_point p) { return p.x == 0 && p.y == 0; }

#define WANT(e, what) do { if (!(e)) violate("failed-result-answers", "%s given to %s does not answer as nothing: %s", who, what, #e); } while (0)
// everything that can be asked of no geometry, or of an error
void ask_bad_geom(const tg_geom *g, const char *msg, const char *who, const Op &o) {
    const char *e = tg_geom_error(g);
    if (!e || strcmp(e, msg)) violate("failed-result-message", "%s has the message '%s' instead of '%s'", who, e ? e : "(none)", msg);
    bool abs = !g;
    // whatever part is asked for, it is not there
    int i = (int)(o.v % 5) - 1;
    WANT(tg_geom_is_empty(g), "tg_geom_is_empty"); WANT(zero(tg_geom_rect(g)), "tg_geom_rect"); WANT(zero(tg_geom_point(g)), "tg_geom_point");
    WANT(!tg_geom_line(g), "tg_geom_line"); WANT(!tg_geom_poly(g), "tg_geom_poly");
    WANT(!tg_geom_num_points(g) && !tg_geom_num_lines(g) && !tg_geom_num_polys(g) && !tg_geom_num_geometries(g), "the counts of children");
    WANT(zero(tg_geom_point_at(g, i)), "tg_geom_point_at"); WANT(!tg_geom_line_at(g, i), "tg_geom_line_at"); WANT(!tg_geom_poly_at(g, i), "tg_geom_poly_at"); WANT(!tg_geom_geometry_at(g, i), "tg_geom_geometry_at");
    WANT(!tg_geom_extra_json(g), "tg_geom_extra_json"); WANT(!tg_geom_extra_coords(g) && !tg_geom_num_extra_coords(g), "tg_geom_extra_coords");
    WANT(!tg_geom_has_z(g) && !tg_geom_has_m(g) && tg_geom_z(g) == 0 && tg_geom_m(g) == 0, "tg_geom_z and tg_geom_m");
    WANT(!tg_geom_is_feature(g) && !tg_geom_is_featurecollection(g), "tg_geom_is_feature");
    WANT(!tg_geom_intersects_xy(g, o.rect.min.x, o.rect.min.y), "tg_geom_intersects_xy"); WANT(!tg_geom_intersects_rect(g, o.rect), "tg_geom_intersects_rect");
    double *mn = (double*)lend(32), *mx = (double*)lend(32); for (int k = 0; k < 4; k++) mn[k] = mx[k] = 0;
    int n = tg_geom_fullrect(g, mn, mx); WANT(n == (abs ? 0 : 2) || n == 0, "tg_geom_fullrect"); for (int k = 0; k < 4; k++) WANT(mn[k] == 0 && mx[k] == 0, "tg_geom_fullrect");
    unlend(mn); unlend(mx);
    calls = 0; tg_geom_search(g, tg_rect{{-1e300, -1e300}, {1e300, 1e300}}, on_geom, NULL); WANT(!calls, "tg_geom_search");
    if (abs) {
        WANT(tg_geom_typeof(g) == 0, "tg_geom_typeof"); WANT(tg_geom_dims(g) == 0, "tg_geom_dims"); WANT(tg_geom_memsize(g) == 0, "tg_geom_memsize");
        WANT(!tg_geom_clone(g), "tg_geom_clone"); WANT(!tg_geom_copy(g), "tg_geom_copy");
    } else { WANT(tg_geom_memsize(g) > strlen(msg), "tg_geom_memsize"); }
    static const size_t caps[] = {0, 1, 2, 16, 200};
    size_t cap = caps[o.w % 5];
    for (int f = 0; f < NFMT; f++) {
        size_t full = lib_write_buf(g, (Fmt)f, NULL, 0);
        if (abs) WANT(full == 0, "a writer"); else WANT(full < 100, "a writer");
        if (!cap) continue;
        uint8_t *b = (uint8_t*)lend(cap); memset(b, 0xA5, cap);
        size_t m = lib_write_buf(g, (Fmt)f, b, cap);
        WANT(m == full, "a writer");
        if (abs) for (size_t k = 0; k < cap; k++) WANT(b[k] == 0xA5 || (k == 0 && b[k] == 0), "a writer");
        unlend(b);
    }
}
void ask_pred(const tg_geom *a, const tg_geom *b, const char *who) {
    WANT(!tg_geom_intersects(a, b), "tg_geom_intersects"); WANT(!tg_geom_covers(a, b), "tg_geom_covers"); WANT(!tg_geom_contains(a, b), "tg_geom_contains"); WANT(!tg_geom_touches(a, b), "tg_geom_touches");
    WANT(!tg_geom_equals(a, b), "tg_geom_equals"); WANT(!tg_geom_within(a, b), "tg_geom_within"); WANT(!tg_geom_coveredby(a, b), "tg_geom_coveredby"); WANT(tg_geom_disjoint(a, b), "tg_geom_disjoint");
}
void ask_absent_ring(uint32_t v) {
    const char *who = "no ring"; int i = (int)(v % 4) - 1;
    const tg_ring *r = NULL;
    WANT(!tg_ring_clone(r) && !tg_ring_copy(r), "tg_ring_clone and tg_ring_copy"); WANT(!tg_ring_memsize(r) && !tg_ring_num_points(r) && !tg_ring_num_segments(r) && !tg_ring_points(r), "the counts of points");
    WANT(zero(tg_ring_rect(r)), "tg_ring_rect"); WANT(zero(tg_ring_point_at(r, i)), "tg_ring_point_at"); tg_segment s = tg_ring_segment_at(r, i); WANT(zero(s.a) && zero(s.b), "tg_ring_segment_at");
    WANT(!tg_ring_convex(r) && !tg_ring_clockwise(r), "tg_ring_convex and tg_ring_clockwise"); WANT(!tg_ring_index_spread(r) && !tg_ring_index_num_levels(r) && !tg_ring_index_level_num_rects(r, i) && zero(tg_ring_index_level_rect(r, i, i)), "the index accessors");
    WANT(tg_ring_area(r) == 0 && tg_ring_perimeter(r) == 0, "tg_ring_area and tg_ring_perimeter");
    calls = 0; tg_ring_nearest_segment(r, d_rect, d_seg, on_near, NULL); WANT(!calls, "tg_ring_nearest_segment");
}
void ask_absent_line(uint32_t v) {
    const char *who = "no line"; int i = (int)(v % 4) - 1;
    const tg_line *r = NULL;
    WANT(!tg_line_clone(r) && !tg_line_copy(r), "tg_line_clone and tg_line_copy"); WANT(!tg_line_memsize(r) && !tg_line_num_points(r) && !tg_line_num_segments(r) && !tg_line_points(r), "the counts of points");
    WANT(zero(tg_line_rect(r)), "tg_line_rect"); WANT(zero(tg_line_point_at(r, i)), "tg_line_point_at"); tg_segment s = tg_line_segment_at(r, i); WANT(zero(s.a) && zero(s.b), "tg_line_segment_at");
    WANT(!tg_line_clockwise(r), "tg_line_clockwise"); WANT(!tg_line_index_spread(r) && !tg_line_index_num_levels(r) && !tg_line_index_level_num_rects(r, i) && zero(tg_line_index_level_rect(r, i, i)), "the index accessors");
    WANT(tg_line_length(r) == 0, "tg_line_length");
    calls = 0; tg_line_nearest_segment(r, d_rect, d_seg, on_near, NULL); WANT(!calls, "tg_line_nearest_segment");
}
void ask_absent_poly(uint32_t v) {
    const char *who = "no polygon"; int i = (int)(v % 4) - 1;
    const tg_poly *p = NULL;
    WANT(!tg_poly_clone(p) && !tg_poly_copy(p), "tg_poly_clone and tg_poly_copy"); WANT(!tg_poly_memsize(p) && !tg_poly_num_holes(p) && !tg_poly_exterior(p) && !tg_poly_hole_at(p, i), "the accessors");
    WANT(zero(tg_poly_rect(p)) && !tg_poly_clockwise(p), "tg_poly_rect");
}
uint64_t obs_of(Handle h) { return h_observe(h, OBS_WRITERS | OBS_INDEX | OBS_MEMSIZE).total(); }
void settle(Slot &s) {
    const tg_geom *g = h_geom(s.h);
    if (!s.h.p) { s.c = ABSENT; s.obs = 0; s.msg.clear(); return; }
    const char *e = tg_geom_error(g);
    if (e) { s.c = ERROR; s.msg = e; s.obs = hash_bytes(e, strlen(e)); return; }
    s.c = NORMAL; s.obs = obs_of(s.h);
}
const char *cname(Cls c) { return c == ABSENT ? "no object" : c == ERROR ? "an error" : "an object"; }
// what a slot has where a ring, line, polygon is asked for
const tg_ring *as_ring(const Slot &s) { return s.h.k == HK_RING ? (const tg_ring*)s.h.p : NULL; }

void run_chain(const std::vector<Step> &prog, std::vector<Slot> &sl, const std::vector<Slot> *ref, bool faults) {
    for (size_t i = 0; i < prog.size(); i++) {
        const Step &t = prog[i];
        Slot out; uint64_t mark = heap_mark();
        bool exp_absent = false, exp_err = false, same = true; std::string exp_msg;
        auto in = [&](size_t k) -> Slot& { return sl[t.in[k]]; };
        for (size_t k = 0; k < t.in.size(); k++) if (ref && (in(k).c0 != (*ref)[t.in[k]].c0 || in(k).obs0 != (*ref)[t.in[k]].obs0)) same = false;
        if (faults && t.fail && t.k != S_ASK) { heap_fail(t.p); }
        uint64_t fired = 0, asked = 0;
        switch (t.k) {
        case S_RING: case S_LINE: {
            tg_point *p = (tg_point*)lend_copy(t.pts.data(), t.pts.size() * sizeof(tg_point));
            out.h.k = t.k == S_RING ? HK_RING : HK_LINE;
            out.h.p = t.k == S_RING ? (void*)tg_ring_new_ix(p, (int)t.pts.size(), t.ix) : (void*)tg_line_new_ix(p, (int)t.pts.size(), t.ix);
            unlend(p); break; }
        case S_PARSE: { out.h.k = HK_GEOM; out.h.p = parse_lent(t.parse.doc, t.parse.fmt, t.parse.ix); break; }
        case S_EMPTY: { out.h.k = HK_GEOM; tg_geom *(*f[])(void) = {tg_geom_new_point_empty, tg_geom_new_linestring_empty, tg_geom_new_polygon_empty, tg_geom_new_geometrycollection_empty}; out.h.p = f[t.v % 4](); break; }
        case S_ERR: { out.h.k = HK_GEOM; char *m = (char*)lend_copy(t.msg.c_str(), t.msg.size() + 1); out.h.p = tg_geom_new_error(t.nomsg ? NULL : m); unlend(m); if (t.nomsg) exp_absent = true; else { exp_err = true; exp_msg = t.msg; } break; }
        case S_POLY: {
            out.h.k = HK_POLY;
            std::vector<const tg_ring*> hs; const tg_ring *ext = as_ring(in(0)); if (!ext) exp_absent = true;
            for (size_t k = 1; k < t.in.size(); k++) { hs.push_back(as_ring(in(k))); if (!hs.back()) exp_absent = true; }
            const tg_ring **hp = hs.empty() ? NULL : (const tg_ring**)lend_copy(hs.data(), hs.size() * sizeof(hs[0]));
            out.h.p = tg_poly_new(ext, hp, (int)hs.size());
            if (hp) unlend(hp);
            break; }
        case S_GLINE: { out.h.k = HK_GEOM; const tg_line *l = in(0).h.k == HK_LINE ? (const tg_line*)in(0).h.p : NULL; exp_absent = !l; out.h.p = tg_geom_new_linestring(l); break; }
        case S_GPOLY: { out.h.k = HK_GEOM; const tg_poly *l = in(0).h.k == HK_POLY ? (const tg_poly*)in(0).h.p : NULL; exp_absent = !l; out.h.p = tg_geom_new_polygon(l); break; }
        case S_GC: {
            out.h.k = HK_GEOM; std::vector<const tg_geom*> gs; std::vector<Slot*> ss;
            for (size_t k = 0; k < t.in.size(); k++) if (in(k).h.p) { gs.push_back(h_geom(in(k).h)); ss.push_back(&in(k)); }
            const tg_geom **gp = gs.empty() ? NULL : (const tg_geom**)lend_copy(gs.data(), gs.size() * sizeof(gs[0]));
            tg_geom *g = tg_geom_new_geometrycollection(gp, (int)gs.size()); out.h.p = g;
            if (gp) unlend(gp);
            if (g) {
                if (tg_geom_num_geometries(g) != (int)gs.size()) violate("failed-result-composed", "a collection of %zu geometries has %d", gs.size(), tg_geom_num_geometries(g));
                for (size_t k = 0; k < gs.size(); k++) {
                    const tg_geom *c = tg_geom_geometry_at(g, (int)k); const char *e = tg_geom_error(c);
                    if (ss[k]->c == ERROR && (!c || !e || ss[k]->msg != e)) violate("failed-result-composed", "an error with the message '%s' as child %zu of a collection has the message '%s'", ss[k]->msg.c_str(), k, e ? e : "(none)");
                    if (ss[k]->c == NORMAL && (!c || e)) violate("failed-result-composed", "child %zu of a collection is %s", k, e);
                    if (ss[k]->c == ERROR) PROBE("an error object inside a collection");
                }
            }
            break; }
        case S_CLONE: case S_COPY: {
            Slot &a = in(0); out.h = t.k == S_CLONE ? h_clone(a.h) : h_copy(a.h);
            out.h.k = a.h.k;
            if (a.c == ABSENT) exp_absent = true;
            if (a.c == ERROR) { exp_err = true; exp_msg = a.msg; }
            break; }
        case S_PART: {                                     // whatever there is inside, cloned
            Slot &a = in(0); const tg_geom *g = h_geom(a.h);
            switch (t.v % 6) {
            case 0: out.h.k = HK_LINE; out.h.p = tg_line_clone(tg_geom_line(g)); break;
            case 1: out.h.k = HK_POLY; out.h.p = tg_poly_clone(tg_geom_poly(g)); break;
            case 2: out.h.k = HK_RING; out.h.p = tg_ring_clone(tg_poly_exterior(tg_geom_poly(g))); break;
            case 3: out.h.k = HK_RING; out.h.p = tg_ring_clone(tg_poly_hole_at(tg_geom_poly(g), 0)); break;
            case 4: out.h.k = HK_GEOM; out.h.p = tg_geom_clone(tg_geom_geometry_at(g, 0)); break;
            default: out.h.k = HK_POLY; out.h.p = tg_poly_clone(tg_geom_poly_at(g, 0)); break;
            }
            if (a.c != NORMAL) exp_absent = true;
            break; }
        case S_DROP: { Slot &a = in(0); h_free(a.h); a.h.p = NULL; a.c = ABSENT; a.obs = 0; a.msg.clear(); break; }
        default: break;
        }
        if (faults && t.fail && t.k != S_ASK) { fired = heap_fail_fired(); heap_nofail(); if (fired) FAULT("request refused inside an unchecked chain"); }
        if (t.k == S_ASK) {
            heap_fail(FailPlan{FAIL_FROM, 0}); Op o; o.v = t.v; o.w = t.v / 7; o.rect = t.rect;
            Slot &a = in(0), &b = in(1); const tg_geom *ga = h_geom(a.h), *gb = h_geom(b.h);
            auto bad = [&](Slot &s, const tg_geom *g) { if (s.c == ABSENT) { ask_bad_geom(g, "no memory", "a missing geometry", o); if (s.h.k == HK_RING) ask_absent_ring(t.v); if (s.h.k == HK_LINE) ask_absent_line(t.v); if (s.h.k == HK_POLY) ask_absent_poly(t.v); }
                else if (s.c == ERROR) ask_bad_geom(g, s.msg.c_str(), "an error object", o); };
            bad(a, ga); bad(b, gb);
            if (a.c != NORMAL || b.c != NORMAL) {
                const char *who = a.c == ABSENT || b.c == ABSENT ? "a missing geometry" : "an error object";
                ask_pred(ga, gb, who); ask_pred(gb, ga, who);
                // pair searches in which a side is missing
                const tg_ring *ra = h_pick_ring(a.h, t.v), *rb = h_pick_ring(b.h, t.v / 3); const tg_line *la = h_pick_line(a.h, t.v), *lb = h_pick_line(b.h, t.v / 5);
                if (a.c != NORMAL) ra = NULL, la = NULL;
                if (b.c != NORMAL) rb = NULL, lb = NULL;
                calls = 0;
                if (!ra || !rb) { tg_ring_ring_search(ra, rb, on_pair, NULL); tg_ring_ring_search(rb, ra, on_pair, NULL); }
                if (!ra || !lb) tg_ring_line_search(ra, lb, on_pair, NULL);
                if (!rb || !la) tg_ring_line_search(rb, la, on_pair, NULL);
                if (!la || !lb) { tg_line_line_search(la, lb, on_pair, NULL); tg_line_line_search(lb, la, on_pair, NULL); }
                WANT(!calls, "a pair search");
                PROBE("a failed result used as an argument");
            }
            asked = heap_fail_requests(); heap_nofail();
            if (asked) violate("failed-result-acquires", "asking something of a failed result requests memory %llu times", (unsigned long long)asked);
            heap_check_leaks("failed-result-acquires", mark, "questions to a failed result");
        }
        settle(out); out.c0 = out.c; out.obs0 = out.obs;
        if (t.k != S_ASK && t.k != S_DROP) {
            logf("%s%zu %s -> %s%s%s", faults ? "  with faults " : "", i, sname[t.k], cname(out.c), out.c == ERROR ? " " : "", out.msg.c_str());
            if (exp_absent && out.c != ABSENT) violate("failed-result-accepted", "'%s' of a missing part gives %s", sname[t.k], cname(out.c));
            bool oom_err = fired && out.c == ERROR && strstr(out.msg.c_str(), "no memory");
            if (exp_err && !(out.c == ERROR && out.msg == exp_msg) && !(fired && (out.c == ABSENT || oom_err))) violate("failed-result-message", "'%s' of an error with the message '%s' gives %s %s", sname[t.k], exp_msg.c_str(), cname(out.c), out.msg.c_str());
            if (!exp_absent && !exp_err && out.c == ABSENT && !fired && t.k != S_PART && !(t.k == S_PARSE && t.parse.doc.empty() && t.parse.fmt == NFMT)) violate("failed-result-spreads", "'%s' gives no object although memory is plentiful and nothing is missing", sname[t.k]);
            if (ref && same && !(out.c == (*ref)[i].c0 && out.obs == (*ref)[i].obs0) && !(fired && (out.c == ABSENT || oom_err))) violate("failed-result-differs", "'%s' gives %s, with plentiful memory %s%s", sname[t.k], cname(out.c), cname((*ref)[i].c0), out.c == NORMAL ? " that is different" : "");
            if (out.c == ABSENT) { heap_check_leaks("leak-on-failure", mark, "a call that gave no object"); if (i) PROBE("a call gave no object"); }
            if (exp_absent) PROBE("a failed result handed on");
        }
        sl.push_back(out);
        ev(hcomb(out.c, out.obs));
        // everything else is as it was
        if (t.k != S_DROP && i && draw(W, 4) == 0) for (int c = 0; c < 3; c++) { size_t k = draw(W, (uint32_t)i); Slot now; now.h = sl[k].h; settle(now); if (now.c != sl[k].c || now.obs != sl[k].obs) violate("object-changed", "'%s' changed object %zu", sname[t.k], k); }
    }
    for (size_t k = 0; k < sl.size(); k++) { Slot now; now.h = sl[k].h; settle(now); if (now.c != sl[k].c || now.obs != sl[k].obs) violate("object-changed", "object %zu changed in the course of the chain", k); }
}
}

SCENARIO(C16) {
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    heap_reuse(draw(F, 2));
    GenCfg g; g.meta = true; g.pts_huge = 100; g.kids_huge = 70;
    OpCfg oc; oc.g = g; oc.mask = 1 << OP_PARSE;
    std::vector<Step> prog; std::vector<HKind> kind; std::vector<uint32_t> weight; uint64_t cs = 1;    // weight: so that collections of collections stay small
    int n = range(W, 3, 24);
    auto pick = [&](int k) -> int { std::vector<int> v; for (size_t i = 0; i < kind.size(); i++) if ((int)kind[i] == k) v.push_back((int)i); return v.empty() ? -1 : v[draw(W, (uint32_t)v.size())]; };
    for (int i = 0; i < n; i++) {
        Step t; uint32_t r = i < 2 ? draw(W, 5) : draw(W, 24); HKind hk = HK_GEOM; uint32_t wt = 1;
        t.fail = draw(F, 3) != 0; t.p.mode = draw(F, 3) ? FAIL_KTH : FAIL_FROM; t.p.k = draw(F, 3) ? draw(F, 3) : draw(F, 14);
        t.v = draw(W, 1 << 16);
        int a;
        if (r <= 1) { t.k = S_RING; hk = HK_RING; t.pts = gen_ring_points(gen_style(), sizeish(W, 8, 40, 200), (int)draw(W, 6)); t.ix = gen_ix(); }
        else if (r == 2) { t.k = S_LINE; hk = HK_LINE; t.pts = gen_line_points(gen_style(), sizeish(W, 8, 40, 200)); t.ix = gen_ix(); }
        else if (r == 3) { t.k = S_PARSE; t.parse = gen_op(1, oc); wt = 1 + (uint32_t)t.parse.doc.size() / 200; }
        else if (r == 4) { t.k = S_ERR; int m = (int)draw(W, 5); t.nomsg = m == 4; t.msg = m == 0 ? "" : m == 1 ? "bad" : m == 2 ? "no memory" : std::string(1 + draw(W, 300), 'e'); }
        else if (r <= 8 && (a = pick(HK_RING)) >= 0) { t.k = S_POLY; hk = HK_POLY; t.in.push_back(a); int h = (int)draw(W, 4); for (int k = 0; k < h; k++) t.in.push_back(pick(HK_RING)); }
        else if (r == 9 && (a = pick(HK_LINE)) >= 0) { t.k = S_GLINE; t.in.push_back(a); }
        else if (r <= 11 && (a = pick(HK_POLY)) >= 0) { t.k = S_GPOLY; t.in.push_back(a); }
        else if (r <= 13 && (a = pick(HK_GEOM)) >= 0) { t.k = S_GC; t.in.push_back(a); int h = draw(W, 8) ? (int)draw(W, 4) : 60 + (int)draw(W, 20); uint32_t sum = weight[a]; for (int k = 0; k < h; k++) { uint32_t x = draw(W, (uint32_t)kind.size()); if (sum + weight[x] > 1500) continue; sum += weight[x]; t.in.push_back(x); } wt = 2 * sum; }
        else if (r == 14) { t.k = S_CLONE; t.in.push_back(draw(W, (uint32_t)kind.size())); hk = kind[t.in[0]]; wt = weight[t.in[0]]; }
        else if (r == 15) { t.k = S_COPY; t.in.push_back(draw(W, (uint32_t)kind.size())); hk = kind[t.in[0]]; wt = weight[t.in[0]]; }
        else if (r <= 17) { t.k = S_PART; t.in.push_back(draw(W, (uint32_t)kind.size())); const HKind ks[] = {HK_LINE, HK_POLY, HK_RING, HK_RING, HK_GEOM, HK_POLY}; hk = ks[t.v % 6]; wt = weight[t.in[0]]; }
        else if (r == 18 && i > 3) { t.k = S_DROP; t.in.push_back(draw(W, (uint32_t)kind.size())); }
        else if (r == 19) { t.k = S_EMPTY; }
        else { t.k = S_ASK; t.rect = gen_rect(gen_style()); uint32_t m = (uint32_t)kind.size(); if (!m) continue; t.in = {draw(W, m), draw(W, m)}; }
        if (t.k == S_DROP || t.k == S_ASK) hk = HK_GEOM;
        prog.push_back(t); kind.push_back(hk); weight.push_back(wt); cs = hcomb(cs, t.k * 4 + hk); for (uint32_t x : t.in) cs = hcomb(cs, x);
    }
    note_case(cs);
    std::vector<Slot> ref; run_chain(prog, ref, NULL, false);
    int rounds = range(F, 1, 3);
    for (int k = 0; k < rounds; k++) {
        std::vector<Slot> sl; run_chain(prog, sl, &ref, true);
        for (auto &s : sl) h_free(s.h);
        if (k + 1 < rounds) for (auto &t : prog) { t.fail = draw(F, 3) != 0; t.p.k = draw(F, 3) ? draw(F, 3) : draw(F, 14); }
    }
    for (size_t k = 0; k < ref.size(); k++) { Slot now; now.h = ref[k].h; settle(now); if (now.c != ref[k].c || now.obs != ref[k].obs) violate("object-changed", "object %zu changed while other objects were made and released", k); }
    for (auto &s : ref) h_free(s.h);
    heap_check_leaks("leak", 0, "everything was released");
}
