// C10: geometries in simulated storage, across processes with other settings, crashes, lost tails
// and damaged records; what comes back is compared with the reference model of what was stored.
#include "ops.h"
#include <algorithm>
#include <cmath>

// ------------------------------------------------------------------ the simulated disk
struct Rec { size_t off, len; Fmt f; MGeom m; bool damaged; int gen; int bd; double bn[4], bx[4]; };
struct Disk { std::string data; size_t synced = 0; std::vector<Rec> recs; };

static void each_coord(MGeom &m, const std::function<void(double&)> &f) {
    for (auto &l : m.parts) for (auto &q : l) for (int d = 0; d < m.dims(); d++) f(q.v[d]);
    for (auto &k : m.kids) each_coord(k, f);
}
static bool finite(const MGeom &m) { bool ok = true; each_coord(const_cast<MGeom&>(m), [&](double &v) { if (!std::isfinite(v)) ok = false; }); return ok; }
// the text formats carry no sign of zero: the library writes 0 for both
static void plus_zero(MGeom &m) { each_coord(m, [](double &v) { if (v == 0) v = 0; }); }
static bool has_meta(const MGeom &m) { if (m.feature || m.featcol || !m.gextra.empty() || !m.fextra.empty()) return true; for (auto &k : m.kids) if (has_meta(k)) return true; return false; }
static bool some_empty(const MGeom &m) { if (m.is_empty()) return true; for (auto &k : m.kids) if (some_empty(k)) return true; return false; }
static MGeom stored_as(const MGeom &m, Fmt f) {
    MGeom r = project(m, f);
    if (f == FMT_WKT || f == FMT_GEOJSON) plus_zero(r);
    return r;
}
static void edge_coords(MGeom &m, bool inf) {
    static const double sp[] = {5e-324, -0.0, 1e-310, 1e308, -1.7976931348623157e308, 0.1 + 0.2, 1e15, 1e16, 123456789.123456789, 1e-6, 1e-7, 4503599627370497.5, 9007199254740992.0, -2.2250738585072009e-308, 1e23, 8.41e21};
    uint32_t den = 2 + draw(W, 6);
    for (auto &l : m.parts) for (auto &q : l) for (int d = 0; d < m.dims(); d++) if (draw(W, den) == den - 1) { uint32_t k = draw(W, inf ? 18 : 16); q.v[d] = k < 16 ? sp[k] : k == 16 ? INFINITY : -INFINITY; }
    for (auto &k : m.kids) edge_coords(k, inf);
    if (m.type == TG_POLYGON) for (auto &l : m.parts) for (int d = 0; d < 2; d++) l.back().v[d] = l.front().v[d];
}
// any bit pattern a binary64 number can have, except NaN
static void bit_coords(MGeom &m) {
    for (auto &l : m.parts) for (auto &q : l) for (int d = 0; d < m.dims(); d++) { uint64_t u = draw64(W); if ((u >> 52 & 0x7ff) == 0x7ff) u &= ~(1ull << 61); memcpy(&q.v[d], &u, 8); }
    for (auto &k : m.kids) bit_coords(k);
    if (m.type == TG_POLYGON) for (auto &l : m.parts) for (int d = 0; d < 2; d++) l.back().v[d] = l.front().v[d];
}

// ------------------------------------------------------------------ a process using the library
struct Live { tg_geom *g; MGeom m; };
static std::vector<Live> live;
static Disk disk;
static int generation;
static const int spreads[] = {16, 2, 3, 4, 8, 32, 64, 4096, 1, 0};
static void start_process() {
    generation++; set_locale(draw_locale());
    tg_env_set_index_spread(spreads[draw(W, 10)]);
    tg_env_set_index((enum tg_index)draw(W, 4));
    tg_env_set_print_fixed_floats(draw(W, 4) == 3);
    logf("process %d starts", generation);
}
static void end_process(bool crash) {
    for (auto &l : live) tg_geom_free(l.g);
    live.clear();
    if (!crash) heap_check_leaks("leak", 0, "a process that released everything");
    lib_reset();
    heap_reset();
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
}
static void check_same(const tg_geom *g, const MGeom &m, const char *how) {
    std::string d = diff_model(g, m, true, true);
    if (!d.empty()) violate("changed-in-storage", "%s: %s", how, d.c_str());
    // Z and M of the full box
    double mn[4], mx[4]; int n = tg_geom_fullrect(g, mn, mx);
    tg_rect r = tg_geom_rect(g);
    if (n < 2 || mn[0] != r.min.x || mn[1] != r.min.y || mx[0] != r.max.x || mx[1] != r.max.y) violate("box", "%s: the full bounding box differs from the plain one", how);
    if (m.type != TG_GEOMETRYCOLLECTION && !m.is_empty()) {
        if (n != m.dims()) violate("box", "%s: bounding box of %d dimensions, the geometry has %d", how, n, m.dims());
        double lo[4], hi[4]; bool any = false;
        std::function<void(const MGeom&)> rec = [&](const MGeom &x) {
            for (auto &l : x.parts) for (auto &q : l) { for (int i = 0; i < n; i++) { if (!any || q.v[i] < lo[i]) lo[i] = q.v[i]; if (!any || q.v[i] > hi[i]) hi[i] = q.v[i]; } any = true; }
            for (auto &k : x.kids) rec(k);
        };
        rec(m);
        for (int i = 2; i < n; i++) if (mn[i] != lo[i] || mx[i] != hi[i]) violate("box", "%s: dimension %d of the bounding box is %.17g..%.17g, expected %.17g..%.17g", how, i, mn[i], mx[i], lo[i], hi[i]);
    }
}
static void check_quick(const tg_geom *g, const std::string &bytes, const char *how) {
    uint8_t *b = (uint8_t*)lend_copy(bytes.data(), bytes.size());
    double mn[4], mx[4], qn[4], qx[4];
    int n = tg_geom_fullrect(g, mn, mx), q = tg_geobin_fullrect(b, bytes.size(), qn, qx);
    if (n != q) violate("quick-reader", "%s: the quick reader sees %d dimensions, the geometry has %d", how, q, n);
    for (int i = 0; i < n; i++) if (!(mn[i] == qn[i] && mx[i] == qx[i])) violate("quick-reader", "%s: the quick reader sees %.17g..%.17g in dimension %d, the geometry has %.17g..%.17g", how, qn[i], qx[i], i, mn[i], mx[i]);
    tg_rect r = tg_geobin_rect(b, bytes.size());
    if (r.min.x != mn[0] || r.min.y != mn[1] || r.max.x != mx[0] || r.max.y != mx[1]) violate("quick-reader", "%s: tg_geobin_rect differs from the box of the geometry", how);
    tg_point p = tg_geobin_point(b, bytes.size()), c = bytes[0] == 1 ? r.min : tg_rect_center(r);
    if (!((p.x == c.x || (p.x != p.x && c.x != c.x)) && (p.y == c.y || (p.y != p.y && c.y != c.y)))) violate("quick-reader", "%s: tg_geobin_point is (%.17g %.17g), the centre of the box is (%.17g %.17g)", how, p.x, p.y, c.x, c.y);
    unlend(b);
    PROBE("quick reader compared");
}
// the writing client: starts with some buffer and grows it until the document fits
static std::string client_write(const tg_geom *g, Fmt f) {
    size_t cap = (size_t)draw(F, 5) * 40; int rounds = 0;
    for (;;) {
        char *b = cap ? (char*)lend(cap) : NULL;
        size_t n = lib_write_buf(g, f, b, cap);
        if (n + fmt_text(f) <= cap) { std::string s(b, n); unlend(b); return s; }
        if (b) unlend(b);
        if (n > (256u << 20) || ++rounds > 2) violate("writer-length", "writing %s never fits the reported length (%zu)", fmt_name[f], n);
        cap = n + fmt_text(f) + draw(F, 3);
        FAULT("write into a short buffer, repeated");
    }
}
static void append(const std::string &bytes, Fmt f, const MGeom &m, const tg_geom *g) {
    uint32_t n = (uint32_t)bytes.size();
    disk.data.append((char*)&n, 4); disk.data += (char)f;
    Rec r{disk.data.size(), bytes.size(), f, m, false, generation, 0, {}, {}};
    r.bd = tg_geom_fullrect(g, r.bn, r.bx);
    disk.recs.push_back(r);
    disk.data += bytes;
    ev(hash_bytes(bytes.data(), bytes.size()));
}
static Fmt pick_fmt(const MGeom &m) { if (finite(m)) return (Fmt)draw(W, NFMT); Fmt bin[] = {FMT_WKB, FMT_HEX, FMT_GEOBIN}; return bin[draw(W, 3)]; }
static void store(const Live &l) {
    Fmt f = pick_fmt(l.m);
    std::string s = client_write(l.g, f);
    logf("store type %d as %s, %zu bytes: %s", l.m.type, fmt_name[f], s.size(), show(s, 200).c_str());
    if (f == FMT_GEOBIN) check_quick(l.g, s, "bytes just written");
    append(s, f, stored_as(l.m, f), l.g);
    OPCOUNT("store");
}
static void keep(tg_geom *g, const MGeom &m) {
    if (live.size() >= 8) { size_t i = draw(W, (uint32_t)live.size()); tg_geom_free(live[i].g); live.erase(live.begin() + i); }
    live.push_back({g, m});
}
static void create(uint64_t index) {
    GenCfg c; c.meta = false;
    uint32_t how = draw(W, 8);
    if (how >= 5) c.meta = true;
    MGeom m;
    if (draw(W, 40) == 39 || index % 512 == 7) {                    // very many parts
        m.type = TG_MULTIPOINT + (int)draw(W, 3); int n = 1000 + (int)draw(W, 400);
        for (int i = 0; i < n; i++) { MGeom k; k.type = m.type - 3; double x = i % 100, y = i / 100; MLine l; l.push_back({{x, y, 0, 0}}); if (k.type > TG_POINT) l.push_back({{x + 1, y, 0, 0}}); if (k.type == TG_POLYGON) { l.push_back({{x, y + 1, 0, 0}}); l.push_back(l[0]); } k.parts.push_back(l); m.kids.push_back(k); }
        PROBE("geometry with more than a thousand parts");
    } else if (giant_turn(60)) { Giant G = gen_giant(500, 3000); m = G.m; if (has_meta(m)) { c.meta = true; how = 7; } }
    else m = gen_geom(c);
    uint32_t e = draw(W, 6);
    if (e == 4) edge_coords(m, how < 5); else if (e == 5) bit_coords(m);
    Live l;
    if (how < 4) { l.g = build_api(m, gen_ix(), draw(W, 256)); l.m = m; if (has_meta(m)) harness_error("metadata"); }
    else {
        Fmt f = has_meta(m) ? (draw(W, 2) && finite(m) ? FMT_GEOJSON : FMT_GEOBIN) : pick_fmt(m);
        if (f == FMT_GEOJSON && !finite(m)) f = FMT_GEOBIN;
        l.m = stored_as(m, f); if (f == FMT_WKT || f == FMT_GEOJSON) plus_zero(m);
        std::string s = encode(m, f, draw(W, 64));
        l.g = parse_lent(s, draw(W, 3) == 2 ? NFMT : f, gen_ix());
        if (l.g && tg_geom_error(l.g)) violate("rejected", "a valid %s document is rejected: %s; %s", fmt_name[f], tg_geom_error(l.g), show(s, 300).c_str());
        if (f == FMT_GEOBIN && l.g && !some_empty(m)) check_quick(l.g, s, "bytes made by another writer");
    }
    if (!l.g) violate("null-result", "an object could not be made although memory is plentiful");
    note_case(hcomb(m.shape(), how));
    check_same(l.g, l.m, "a new object");
    store(l);
    keep(l.g, l.m);
}
// what a damaged or torn record may become: an error or something sound
static void read_any(const std::string &s, Fmt f) {
    uint64_t mark = heap_mark();
    tg_geom *g = parse_lent(s, draw(W, 2) ? NFMT : f, gen_ix());
    if (!g) violate("false-oom", "a damaged record: exhaustion is reported although memory is plentiful");
    if (!tg_geom_error(g)) {
        std::string d = wellformed(g); if (!d.empty()) violate("malformed", "a damaged record was accepted as a malformed geometry: %s", d.c_str());
        observe(g, OBS_WRITERS); PROBE("damaged record accepted as something sound");
    } else PROBE("damaged record rejected");
    tg_geom_free(g);
    heap_check_leaks("leak", mark, "reading a damaged record");
}
static void load(Rec &r, bool keep_it) {
    std::string s = disk.data.substr(r.off, r.len);
    if (r.damaged) { read_any(s, r.f); return; }
    char how[96]; snprintf(how, sizeof how, "%s record of process %d read by process %d", fmt_name[r.f], r.gen, generation);
    enum tg_index ix = gen_ix();
    int parser = draw(W, 3) == 2 ? (int)NFMT : (int)r.f;
    tg_geom *g = NULL;
    if (draw(F, 8) == 7) {                                          // memory runs out; the reader tries again
        FailPlan p; p.mode = draw(F, 2) ? FAIL_KTH : FAIL_FROM; p.k = draw(F, 12);
        uint64_t mark = heap_mark(); heap_fail(p); g = parse_lent(s, parser, ix); uint64_t fired = heap_fail_fired(); heap_nofail();
        if (fired) FAULT("allocation failed while reading a record");
        if (g && tg_geom_error(g)) { if (!fired) violate("changed-in-storage", "%s is rejected: %s", how, tg_geom_error(g)); tg_geom_free(g); g = NULL; }
        if (!g) { if (!fired) violate("false-oom", "%s: exhaustion is reported although memory is plentiful", how); heap_check_leaks("leak-on-failure", mark, "a reader that ran out of memory"); }
    }
    if (!g) g = parse_lent(s, parser, ix);
    if (!g) violate("false-oom", "%s: exhaustion is reported although memory is plentiful", how);
    if (tg_geom_error(g)) violate("changed-in-storage", "%s is rejected: %s; %s", how, tg_geom_error(g), show(s, 300).c_str());
    check_same(g, r.m, how);
    double bn[4], bx[4]; int bd = tg_geom_fullrect(g, bn, bx);
    if (bd != r.bd) violate("box", "%s: a bounding box of %d dimensions, %d when it was written", how, bd, r.bd);
    for (int i = 0; i < bd; i++) if (bn[i] != r.bn[i] || bx[i] != r.bx[i]) violate("box", "%s: dimension %d of the bounding box is %.17g..%.17g, it was %.17g..%.17g when it was written", how, i, bn[i], bx[i], r.bn[i], r.bx[i]);
    if (r.f == FMT_GEOBIN) check_quick(g, s, how);
    ev(observe(g, OBS_WRITERS).total());
    OPCOUNT("load");
    if (r.gen != generation) PROBE("record read by a later process");
    if (keep_it) keep(g, r.m); else tg_geom_free(g);
}
static std::vector<double> slice(const tg_geom *g, size_t from, size_t n, int per) {
    const double *x = tg_geom_extra_coords(g); int ne = tg_geom_num_extra_coords(g);
    if ((from + n) * per > (size_t)ne) violate("changed-in-storage", "%d extra coordinates, %zu expected", ne, (from + n) * per);
    return std::vector<double>(x + from * per, x + (from + n) * per);
}
// new objects from the parts of others, with the model following along
static void derive() {
    if (live.empty()) return;
    Live &a = live[draw(W, (uint32_t)live.size())];
    Live r{NULL, {}};
    uint32_t k = draw(W, 5);
    const char *how = "";
    if (k == 0) { how = "a deep copy"; r.g = tg_geom_copy(a.g); r.m = a.m; }
    else if (k == 1) { how = "a clone"; r.g = tg_geom_clone(a.g); r.m = a.m; }
    else if (k == 2) {                                              // compose a collection
        how = "a composed collection";
        std::vector<const tg_geom*> v; r.m.type = TG_GEOMETRYCOLLECTION; int n = 1 + (int)draw(W, 4);
        for (int i = 0; i < n; i++) { Live &l = live[draw(W, (uint32_t)live.size())]; if (has_meta(l.m) || l.m.npos() > 4000) continue; v.push_back(l.g); r.m.kids.push_back(l.m); }
        // nested too deeply is beyond what the formats take back
        std::function<int(const MGeom&)> dep = [&](const MGeom &m) { int d = 0; for (auto &x : m.kids) d = std::max(d, dep(x)); return d + 1; };
        if (dep(r.m) > 12 || r.m.npos() > 20000) return;
        r.g = tg_geom_new_geometrycollection(v.data(), (int)v.size());
    } else if (k == 3) {                                            // compose a multi from what fits
        how = "a composed multi geometry";
        int want = a.m.type; if (want > TG_POLYGON || a.m.empty || a.m.type < 1) return;
        r.m.type = want + 3;
        std::vector<tg_point> ps; std::vector<const tg_line*> ls; std::vector<const tg_poly*> qs;
        // extra coordinates are given for the whole; only sources of the same kind are combined
        r.m.z = a.m.z; r.m.m = a.m.m;
        std::vector<double> ex;
        for (auto &l : live) if (l.m.type == want && !l.m.empty && l.m.z == a.m.z && l.m.m == a.m.m) {
            MGeom kid; kid.type = want; kid.z = l.m.z; kid.m = l.m.m; kid.parts = l.m.parts; r.m.kids.push_back(kid);
            if (want == TG_POINT) { ps.push_back(tg_geom_point(l.g)); if (l.m.z) ex.push_back(tg_geom_z(l.g)); if (l.m.m) ex.push_back(tg_geom_m(l.g)); }
            else { if (want == TG_LINESTRING) ls.push_back(tg_geom_line(l.g)); else qs.push_back(tg_geom_poly(l.g)); const double *x = tg_geom_extra_coords(l.g); ex.insert(ex.end(), x, x + tg_geom_num_extra_coords(l.g)); }
        }
        int n = (int)r.m.kids.size(), ne = (int)ex.size(); bool z = r.m.z, m = r.m.m;
        if (want == TG_POINT) r.g = z && m ? tg_geom_new_multipoint_zm(ps.data(), n, ex.data(), ne) : z ? tg_geom_new_multipoint_z(ps.data(), n, ex.data(), ne) : m ? tg_geom_new_multipoint_m(ps.data(), n, ex.data(), ne) : tg_geom_new_multipoint(ps.data(), n);
        else if (want == TG_LINESTRING) r.g = z && m ? tg_geom_new_multilinestring_zm(ls.data(), n, ex.data(), ne) : z ? tg_geom_new_multilinestring_z(ls.data(), n, ex.data(), ne) : m ? tg_geom_new_multilinestring_m(ls.data(), n, ex.data(), ne) : tg_geom_new_multilinestring(ls.data(), n);
        else r.g = z && m ? tg_geom_new_multipolygon_zm(qs.data(), n, ex.data(), ne) : z ? tg_geom_new_multipolygon_z(qs.data(), n, ex.data(), ne) : m ? tg_geom_new_multipolygon_m(qs.data(), n, ex.data(), ne) : tg_geom_new_multipolygon(qs.data(), n);
    } else {                                                        // split off one child
        how = "a child taken out of its parent";
        if (!a.m.multi() || a.m.kids.empty()) return;
        int i = (int)draw(W, (uint32_t)a.m.kids.size());
        r.m = a.m.kids[i];
        if (a.m.type == TG_GEOMETRYCOLLECTION) r.g = tg_geom_clone(tg_geom_geometry_at(a.g, i));
        else {
            size_t from = 0; for (int j = 0; j < i; j++) from += a.m.kids[j].npos();
            std::vector<double> ex; int per = (int)a.m.z + a.m.m;
            if (per) ex = slice(a.g, from, r.m.npos(), per);
            int ne = (int)ex.size(); bool z = a.m.z, m = a.m.m;
            if (a.m.type == TG_MULTIPOINT) { tg_point p = tg_geom_point_at(a.g, i); r.g = z && m ? tg_geom_new_point_zm(p, ex[0], ex[1]) : z ? tg_geom_new_point_z(p, ex[0]) : m ? tg_geom_new_point_m(p, ex[0]) : tg_geom_new_point(p); }
            else if (a.m.type == TG_MULTILINESTRING) { const tg_line *p = tg_geom_line_at(a.g, i); r.g = z && m ? tg_geom_new_linestring_zm(p, ex.data(), ne) : z ? tg_geom_new_linestring_z(p, ex.data(), ne) : m ? tg_geom_new_linestring_m(p, ex.data(), ne) : tg_geom_new_linestring(p); }
            else { const tg_poly *p = tg_geom_poly_at(a.g, i); r.g = z && m ? tg_geom_new_polygon_zm(p, ex.data(), ne) : z ? tg_geom_new_polygon_z(p, ex.data(), ne) : m ? tg_geom_new_polygon_m(p, ex.data(), ne) : tg_geom_new_polygon(p); }
        }
    }
    if (!r.g) violate("null-result", "%s could not be made although memory is plentiful", how);
    OPCOUNT("derive");
    // the sources may go at any time
    if (draw(W, 3) == 2) { size_t i = &a - live.data(); tg_geom_free(live[i].g); live.erase(live.begin() + i); }
    check_same(r.g, r.m, how);
    if (draw(W, 3)) store(r);
    keep(r.g, r.m);
}
static void crash() {
    end_process(true);
    size_t keep_bytes = disk.synced;
    if (disk.data.size() > disk.synced) {
        keep_bytes += draw(F, (uint32_t)(disk.data.size() - disk.synced) + 1);
        if (keep_bytes < disk.data.size()) FAULT("crash: unsynced tail lost");
        // blocks of the unsynced part reach the disk in any order
        if (draw(F, 3) == 2) for (size_t b = disk.synced; b < keep_bytes; b += 16) if (draw(F, 4) == 3) { for (size_t i = b; i < std::min(b + 16, keep_bytes); i++) disk.data[i] = 0; for (auto &r : disk.recs) if (r.off < b + 16 && r.off + r.len > b) r.damaged = true; FAULT("crash: block of the unsynced part never written"); }
        disk.data.resize(keep_bytes);
    }
    // recovery: a record that is not complete is parsed as far as it reaches, as a reader without
    // a checksum would, and has to be recognised as damaged or be something sound
    std::vector<Rec> ok;
    for (auto &r : disk.recs) {
        if (r.off + r.len <= keep_bytes) { ok.push_back(r); continue; }
        if (r.off < keep_bytes) {
            std::string s = disk.data.substr(r.off, keep_bytes - r.off);
            if (!r.damaged && !s.empty()) {
                tg_geom *g = parse_lent(s, draw(W, 3) == 2 ? (int)NFMT : (int)r.f, gen_ix());
                if (!g) violate("false-oom", "a torn record: exhaustion is reported although memory is plentiful");
                if (!tg_geom_error(g)) violate("torn-accepted", "the first %zu of %zu bytes of a %s record are taken for a record", s.size(), r.len, fmt_name[r.f]);
                tg_geom_free(g);
                PROBE("torn record recognised");
            } else read_any(s, r.f);
        }
    }
    disk.recs = ok;
    // the file is cut back to the last complete record
    size_t end = 0; for (auto &r : disk.recs) end = std::max(end, r.off + r.len);
    disk.data.resize(std::max(end, std::min(disk.synced, keep_bytes))); disk.synced = disk.data.size();
    FAULT("crash and restart");
    end_process(false);
}
static void rot() {
    if (disk.recs.empty()) return;
    Rec &r = disk.recs[draw(F, (uint32_t)disk.recs.size())];
    if (!r.len || r.off + r.len > disk.synced) return;
    int n = 1 + (int)draw(F, 3);
    std::string s = disk.data.substr(r.off, r.len), was = s;
    for (int i = 0; i < n; i++) { size_t p = draw(F, (uint32_t)r.len); if (draw(F, 2)) s[p] = (char)(s[p] ^ (1 << draw(F, 8))); else s[p] = (char)draw(F, 256); }
    if (s == was) return;
    disk.data.replace(r.off, r.len, s); r.damaged = true;
    FAULT("record damaged in storage");
}
SCENARIO(C10) {
    live.clear(); disk = Disk(); generation = 0;
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    start_process();
    int n = range(W, 3, 18);
    for (int i = 0; i < n; i++) {
        uint32_t k = draw(W, 16);
        if (i == 0 || k < 4) create(index);
        else if (k < 8) { if (!disk.recs.empty()) load(disk.recs[draw(W, (uint32_t)disk.recs.size())], true); }
        else if (k < 11) derive();
        else if (k < 12) { disk.synced = disk.data.size(); OPCOUNT("sync"); }
        else if (k < 13) { rot(); }
        else if (k < 14) { disk.synced = disk.data.size(); end_process(false); start_process(); OPCOUNT("restart"); }
        else if (k < 15) { crash(); start_process(); }
        else if (!live.empty()) { size_t j = draw(W, (uint32_t)live.size()); check_same(live[j].g, live[j].m, "a live object"); tg_geom_free(live[j].g); live.erase(live.begin() + j); }
    }
    // faults have stopped: a last process reads everything that was stored and not damaged
    disk.synced = disk.data.size(); end_process(false); start_process();
    for (auto &r : disk.recs) load(r, false);
    end_process(false);
    tg_env_set_print_fixed_floats(false);
}
