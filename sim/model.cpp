#include "model.h"
#include <cmath>
#include <algorithm>

const char *fmt_name[NFMT] = {"wkt", "geojson", "wkb", "hex", "geobin"};

bool MGeom::is_empty() const {
    if (empty) return true;
    if (multi()) { for (auto &k : kids) if (!k.is_empty()) return false; return true; }
    return false;
}
uint64_t MGeom::shape() const {
    uint64_t h = type * 64 + z * 32 + m * 16 + empty * 8 + feature * 4 + featcol * 2 + unlocated;
    for (auto &p : parts) h = hcomb(h, p.size());
    for (auto &k : kids) h = hcomb(h, k.shape());
    return hcomb(h, fextra.size() * 8 + gextra.size());
}
size_t MGeom::npos() const { size_t n = 0; for (auto &p : parts) n += p.size(); for (auto &k : kids) n += k.npos(); return n; }

// ------------------------------------------------------------------ generator
int gen_style() { return (int)draw(W, 7); }
double gen_coord(int st) {
    switch (st) {
    case 0: return range(W, 0, 20) - 10;
    case 1: return (range(W, 0, 800) - 400) * 0.25;
    case 2: { double u = (double)(draw64(W) >> 11) / 9007199254740992.0; return u * 360 - 180; }
    case 3: return (range(W, 0, 360000000) - 180000000) / 1e6;
    case 4: { double u = 1 + (double)draw(W, 1 << 20) / (1 << 20); int e = range(W, 0, 600) - 300; return (draw(W, 2) ? -1 : 1) * std::ldexp(u, e); }
    case 5: return 1e9 + range(W, 0, 4000) * 0.001;
    default: {
        static const double sp[] = {0, -0.0, 1, -1, 0.1, 1e-5, 1e21, 123456789012345680.0, 1.7976931348623157e308, -1.7976931348623157e308,
            2.2250738585072014e-308, 1e-7, 9007199254740993.0, 0.30000000000000004, 5e-324, 3.141592653589793, 1e22, 1e-300, 100, 12345.678};
        return sp[draw(W, sizeof sp / sizeof *sp)];
    }
    }
}
enum tg_index gen_ix() { return (enum tg_index)draw(W, 4); }
tg_rect gen_rect(int style) {
    double a = gen_coord(style), b = gen_coord(style), c = gen_coord(style), d = gen_coord(style);
    if (draw(W, 8) == 7) { c = a; d = b; }
    tg_rect r; r.min.x = std::min(a, c); r.min.y = std::min(b, d); r.max.x = std::max(a, c); r.max.y = std::max(b, d);
    return r;
}
std::vector<tg_point> gen_line_points(int st, int n) {
    if (n < 2) n = 2;
    std::vector<tg_point> p;
    uint32_t kind = draw(W, 3);           // random, walk, repeated points
    double x = gen_coord(st), y = gen_coord(st);
    for (int i = 0; i < n; i++) {
        p.push_back(tg_point{x, y});
        if (kind == 0 || st >= 4) { x = gen_coord(st); y = gen_coord(st); }
        else if (kind == 1) { uint32_t d = draw(W, 9); x += (int)(d % 3) - 1; y += (int)(d / 3) - 1; }
        else if (draw(W, 3)) { x = gen_coord(st); y = gen_coord(st); }
    }
    return p;
}
std::vector<tg_point> gen_ring_points(int st, int n, int kind) {
    if (n < 4) n = 4;
    std::vector<tg_point> p;
    if (kind == 0) {                      // star shaped: simple polygon
        double cx = gen_coord(st), cy = gen_coord(st), r0 = 1 + draw(W, 20);
        int jit = (int)draw(W, 3);
        for (int i = 0; i < n - 1; i++) {
            double a = 6.283185307179586 * i / (n - 1), r = r0 * (jit ? 0.3 + draw(W, 100) / 100.0 : 1);
            double x = cx + r * std::cos(a), y = cy + r * std::sin(a);
            if (jit == 2) { x = std::floor(x); y = std::floor(y); }
            p.push_back(tg_point{x, y});
        }
        if (draw(W, 2)) std::reverse(p.begin(), p.end());
    } else if (kind == 1) {               // rectangle, possibly with extra points on its edges
        double x = gen_coord(st), y = gen_coord(st), w = 1 + draw(W, 10), h = 1 + draw(W, 10);
        int per = std::max(1, (n - 1) / 4);
        tg_point c[5] = {{x, y}, {x + w, y}, {x + w, y + h}, {x, y + h}, {x, y}};
        for (int s = 0; s < 4; s++) for (int i = 0; i < per; i++)
            p.push_back(tg_point{c[s].x + (c[s + 1].x - c[s].x) * i / per, c[s].y + (c[s + 1].y - c[s].y) * i / per});
    } else {                              // anything closed
        for (int i = 0; i < n - 1; i++) { double x = gen_coord(st), y = gen_coord(st); p.push_back(tg_point{x, y}); }
    }
    p.push_back(p[0]);
    return p;
}

static MPos mk(const tg_point &p, const MGeom &g, int st) {
    MPos q = {{p.x, p.y, 0, 0}};
    for (int i = 2; i < g.dims(); i++) q.v[i] = gen_coord(st);
    return q;
}
static std::string gen_str() {
    static const char *w[] = {"\"a\"", "\"name\"", "\"k1\"", "\"\"", "\"x y\"", "\"\\u00e9\"", "\"\\n\\\"q\\\"\"", "\"\xc3\xa9\xe2\x82\xac\"", "\"b\\\\c\"", "\"0\"",
        "\"\xf0\x9f\x98\x80\"", "\"\\ud83d\\ude00\"", "\"\\\\\"", "\"\\\\\\\"]\"", "\"}{\"", "\"\\/\\b\\f\\t\\r\""};
    return w[draw(W, 16)];
}
std::string gen_json_value(int depth) {
    switch (draw(W, depth > 0 ? 8 : 5)) {
    case 0: { char b[32]; snprintf(b, sizeof b, "%d", (int)draw(W, 2000) - 1000); return b; }
    case 1: return gen_str();
    case 2: return draw(W, 2) ? "true" : "false";
    case 3: return "null";
    case 4: { static const char *n[] = {"0", "-1.5", "1e10", "2.5E-3", "-0", "123456789012345678901234567890"}; return n[draw(W, 6)]; }
    case 5: case 6: {
        std::string s = "{"; int n = (int)draw(W, 4);
        for (int i = 0; i < n; i++) { char k[32]; snprintf(k, sizeof k, "%s\"k%d\":", i ? "," : "", i); s += k; s += gen_json_value(depth - 1); }
        return s + "}"; }
    default: {
        std::string s = "["; int n = (int)draw(W, 4);
        for (int i = 0; i < n; i++) { if (i) s += ","; s += gen_json_value(depth - 1); }
        return s + "]"; }
    }
}
static void gen_foreign(Members &m, const char *prefix) {
    int n = (int)draw(W, 3);
    for (int i = 0; i < n; i++) {
        char k[40];
        static const char *names[] = {"bbox", "crs", "title", "x"};
        snprintf(k, sizeof k, "\"%s%s%d\"", prefix, names[draw(W, 4)], i);
        if (draw(W, 3) == 2) { static const char *plain[] = {"\"bbox\"", "\"crs\"", "\"title\"", "\"x\""}; snprintf(k, sizeof k, "%s", plain[i ? 3 : draw(W, 3)]); }
        m.push_back({k, gen_json_value(2)});
    }
}
static void gen_feature_meta(MGeom &g) {
    g.feature = true;
    uint32_t k = draw(W, 4);
    if (k == 1) g.fextra.push_back({"\"id\"", gen_str()});
    if (k == 2) { char b[24]; snprintf(b, sizeof b, "%d", (int)draw(W, 100000)); g.fextra.push_back({"\"id\"", b}); }
    uint32_t pk = draw(W, 4);
    if (pk == 1) g.fextra.push_back({"\"properties\"", "null"});
    if (pk == 2) { std::string v = "{"; int n = (int)draw(W, 4); for (int i = 0; i < n; i++) { char kk[24]; snprintf(kk, sizeof kk, "%s\"p%d\":", i ? "," : "", i); v += kk; v += gen_json_value(2); } v += "}"; g.fextra.push_back({"\"properties\"", v}); }
    if (pk == 3) g.fextra.push_back({"\"properties\"", "{\"name\":\"" + std::string(draw(W, 400), 'n') + "\"}"});
    if (draw(W, 3) == 2) gen_foreign(g.fextra, "f");
    if (draw(W, 2)) std::reverse(g.fextra.begin(), g.fextra.end());
}
static MGeom gen_plain(const GenCfg &c, int type, int depth, int st, bool z, bool m) {
    MGeom g; g.type = type; g.z = z; g.m = m;
    auto npts = [&]() { return sizeish(W, c.pts_small, c.pts_big, c.pts_huge); };
    auto nkids = [&]() { return sizeish(W, c.kids_small, c.kids_big, c.kids_huge); };
    auto mkline = [&](const std::vector<tg_point> &p, const MGeom &d) { MLine l; for (auto &q : p) l.push_back(mk(q, d, st)); return l; };
    bool emp = c.empties && draw(W, 10) == 9;
    if (emp && type != TG_GEOMETRYCOLLECTION) { g.empty = !g.multi(); g.z = g.m = false; return g; }
    switch (type) {
    case TG_POINT: { double x = gen_coord(st), y = gen_coord(st); g.parts.push_back({mk(tg_point{x, y}, g, st)}); break; }
    case TG_LINESTRING: g.parts.push_back(mkline(gen_line_points(st, npts()), g)); break;
    case TG_POLYGON: {
        int nh = sizeish(W, 1, 4, 8);
        for (int i = 0; i <= nh; i++) g.parts.push_back(mkline(gen_ring_points(st, npts(), (int)draw(W, 3)), g));
        for (auto &r : g.parts) { r.back() = r.front(); for (int d = 2; d < g.dims(); d++) r.back().v[d] = gen_coord(st); }
        break; }
    case TG_MULTIPOINT: case TG_MULTILINESTRING: case TG_MULTIPOLYGON: {
        GenCfg cc = c; cc.empties = false; cc.indexed = 0;
        int n = 1 + nkids();
        if (c.indexed && draw(W, (uint32_t)c.indexed) == (uint32_t)c.indexed - 1) n = 64 + (int)draw(W, 80);
        if (n > 12) { cc.pts_small = 4; cc.pts_big = 5; cc.pts_huge = 40; }
        for (int i = 0; i < n; i++) g.kids.push_back(gen_plain(cc, type - 3, 0, st, z, m));
        break; }
    default: {
        GenCfg cc = c;
        int n = emp ? 0 : 1 + nkids();
        if (!emp && c.indexed && draw(W, 2u * c.indexed) == 2u * c.indexed - 1) n = 64 + (int)draw(W, 80);
        cc.indexed = 0;
        if (n > 12) { cc.pts_small = 4; cc.pts_big = 5; cc.pts_huge = 20; cc.kids_big = 3; cc.kids_huge = 5; }
        g.z = g.m = false;
        for (int i = 0; i < n; i++) {
            int t = 1 + (int)draw(W, depth > 0 && n <= 12 ? 7 : n > 12 ? 3 : 6);
            bool kz = c.extras && draw(W, 4) == 3, km = c.extras && draw(W, 6) == 5;
            g.kids.push_back(gen_plain(cc, t, depth - 1, st, kz, km));
        }
    } }
    return g;
}
MGeom gen_geom(const GenCfg &c, int only) {
    int st = c.coords >= 0 ? c.coords : gen_style();
    int type = only ? only : 1 + (int)draw(W, 7);
    bool z = c.extras && draw(W, 3) == 2, m = c.extras && draw(W, 4) == 3;
    MGeom g = gen_plain(c, type, c.depth, st, z, m);
    if (c.meta) {
        uint32_t k = draw(W, 6);
        if (k == 1 || k == 2) { gen_feature_meta(g); }
        if (k == 3) gen_foreign(g.gextra, "g");
        if (k == 4) { gen_feature_meta(g); gen_foreign(g.gextra, "g"); }
        if (k == 5 && !only) {
            MGeom fc; fc.type = TG_GEOMETRYCOLLECTION; fc.featcol = true;
            int n = sizeish(W, 3, 6, c.kids_huge);
            GenCfg cc = c; cc.meta = false; if (n > 6) { cc.pts_big = 8; cc.pts_huge = 12; cc.kids_big = cc.kids_huge = 3; cc.depth = 0; }
            for (int i = 0; i < n; i++) {
                MGeom f = gen_geom(cc);
                gen_feature_meta(f);
                if (draw(W, 4) == 3) gen_foreign(f.gextra, "g");
                fc.kids.push_back(f);
            }
            if (draw(W, 3) == 2) gen_foreign(fc.gextra, "c");
            return fc;
        }
        if (g.feature && g.gextra.empty() && draw(W, 8) == 7) {   // "geometry": null
            MGeom u; u.type = TG_POINT; u.empty = true; u.feature = true; u.unlocated = true; u.fextra = g.fextra;
            return u;
        }
    }
    return g;
}

// ------------------------------------------------------------------ building through the API
static std::vector<tg_point> xy(const MLine &l) { std::vector<tg_point> p; for (auto &q : l) p.push_back(tg_point{q.v[0], q.v[1]}); return p; }
static void extra(const MLine &l, const MGeom &g, std::vector<double> &out) {
    for (auto &q : l) for (int d = 2; d < g.dims(); d++) out.push_back(q.v[d]);
}
// position values in the order of the format: with M only, v[2] holds M
static tg_poly *build_poly(const MGeom &m, enum tg_index ix) {
    std::vector<tg_ring*> rings;
    bool ok = true;
    for (auto &r : m.parts) { auto p = xy(r); tg_ring *x = tg_ring_new_ix(p.data(), (int)p.size(), ix); if (!x) { ok = false; break; } rings.push_back(x); }
    tg_poly *poly = ok ? tg_poly_new(rings[0], rings.data() + 1, (int)rings.size() - 1) : NULL;
    for (auto r : rings) tg_ring_free(r);
    return poly;
}
static void kid_extras(const MGeom &m, std::vector<double> &ex) { for (auto &k : m.kids) for (auto &p : k.parts) extra(p, m, ex); }
tg_geom *build_api(const MGeom &m, enum tg_index ix, uint32_t variant) {
    std::vector<double> ex;
    bool three = m.z || m.m;
    switch (m.type) {
    case TG_POINT: {
        if (m.empty) return tg_geom_new_point_empty();
        const MPos &q = m.parts[0][0]; tg_point p = {q.v[0], q.v[1]};
        if (m.z && m.m) return tg_geom_new_point_zm(p, q.v[2], q.v[3]);
        if (m.z) return tg_geom_new_point_z(p, q.v[2]);
        if (m.m) return tg_geom_new_point_m(p, q.v[2]);
        return tg_geom_new_point(p); }
    case TG_LINESTRING: {
        if (m.empty) return tg_geom_new_linestring_empty();
        auto p = xy(m.parts[0]);
        tg_line *l = tg_line_new_ix(p.data(), (int)p.size(), ix); if (!l) return NULL;
        if (!three && (variant & 1)) return (tg_geom*)l;
        extra(m.parts[0], m, ex);
        tg_geom *g = m.z && m.m ? tg_geom_new_linestring_zm(l, ex.data(), (int)ex.size()) : m.z ? tg_geom_new_linestring_z(l, ex.data(), (int)ex.size())
            : m.m ? tg_geom_new_linestring_m(l, ex.data(), (int)ex.size()) : tg_geom_new_linestring(l);
        tg_line_free(l); return g; }
    case TG_POLYGON: {
        if (m.empty) return tg_geom_new_polygon_empty();
        if (!three && (variant & 2) && m.parts.size() == 1) { auto p = xy(m.parts[0]); return (tg_geom*)tg_ring_new_ix(p.data(), (int)p.size(), ix); }
        tg_poly *l = build_poly(m, ix); if (!l) return NULL;
        if (!three && (variant & 1)) return (tg_geom*)l;
        for (auto &r : m.parts) extra(r, m, ex);
        tg_geom *g = m.z && m.m ? tg_geom_new_polygon_zm(l, ex.data(), (int)ex.size()) : m.z ? tg_geom_new_polygon_z(l, ex.data(), (int)ex.size())
            : m.m ? tg_geom_new_polygon_m(l, ex.data(), (int)ex.size()) : tg_geom_new_polygon(l);
        tg_poly_free(l); return g; }
    case TG_MULTIPOINT: {
        if (m.kids.empty()) return variant & 4 ? tg_geom_new_multipoint(NULL, 0) : tg_geom_new_multipoint_empty();
        std::vector<tg_point> p; for (auto &k : m.kids) p.push_back(tg_point{k.parts[0][0].v[0], k.parts[0][0].v[1]});
        kid_extras(m, ex);
        int n = (int)p.size();
        return m.z && m.m ? tg_geom_new_multipoint_zm(p.data(), n, ex.data(), (int)ex.size()) : m.z ? tg_geom_new_multipoint_z(p.data(), n, ex.data(), (int)ex.size())
            : m.m ? tg_geom_new_multipoint_m(p.data(), n, ex.data(), (int)ex.size()) : tg_geom_new_multipoint(p.data(), n); }
    case TG_MULTILINESTRING: {
        if (m.kids.empty()) return variant & 4 ? tg_geom_new_multilinestring(NULL, 0) : tg_geom_new_multilinestring_empty();
        std::vector<tg_line*> v; tg_geom *g = NULL; bool ok = true;
        for (auto &k : m.kids) { auto p = xy(k.parts[0]); tg_line *l = tg_line_new_ix(p.data(), (int)p.size(), ix); if (!l) { ok = false; break; } v.push_back(l); }
        kid_extras(m, ex);
        int n = (int)v.size();
        if (ok) g = m.z && m.m ? tg_geom_new_multilinestring_zm(v.data(), n, ex.data(), (int)ex.size()) : m.z ? tg_geom_new_multilinestring_z(v.data(), n, ex.data(), (int)ex.size())
            : m.m ? tg_geom_new_multilinestring_m(v.data(), n, ex.data(), (int)ex.size()) : tg_geom_new_multilinestring(v.data(), n);
        for (auto l : v) tg_line_free(l);
        return g; }
    case TG_MULTIPOLYGON: {
        if (m.kids.empty()) return variant & 4 ? tg_geom_new_multipolygon(NULL, 0) : tg_geom_new_multipolygon_empty();
        std::vector<tg_poly*> v; tg_geom *g = NULL; bool ok = true;
        for (auto &k : m.kids) { tg_poly *l = build_poly(k, ix); if (!l) { ok = false; break; } v.push_back(l); }
        kid_extras(m, ex);
        int n = (int)v.size();
        if (ok) g = m.z && m.m ? tg_geom_new_multipolygon_zm(v.data(), n, ex.data(), (int)ex.size()) : m.z ? tg_geom_new_multipolygon_z(v.data(), n, ex.data(), (int)ex.size())
            : m.m ? tg_geom_new_multipolygon_m(v.data(), n, ex.data(), (int)ex.size()) : tg_geom_new_multipolygon(v.data(), n);
        for (auto l : v) tg_poly_free(l);
        return g; }
    default: {
        if (m.kids.empty()) return variant & 4 ? tg_geom_new_geometrycollection(NULL, 0) : tg_geom_new_geometrycollection_empty();
        std::vector<tg_geom*> v; bool ok = true; tg_geom *g = NULL; uint32_t x = variant;
        for (auto &k : m.kids) { x = x * 1664525 + 1013904223; tg_geom *c = build_api(k, ix, x >> 16); if (!c) { ok = false; break; } v.push_back(c); }
        if (ok) g = tg_geom_new_geometrycollection(v.data(), (int)v.size());
        for (auto c : v) tg_geom_free(c);
        return g; }
    }
}

// ------------------------------------------------------------------ encoders
static void num(std::string &s, double v) {
    char b[40];
    if (v == 0) { s += std::signbit(v) ? "-0" : "0"; return; }
    for (int p = 15; p <= 17; p++) { snprintf(b, sizeof b, "%.*g", p, v); if (strtod(b, NULL) == v) break; }
    s += b;
}
static void wpos(std::string &s, const MPos &q, int dims) { for (int d = 0; d < dims; d++) { if (d) s += ' '; num(s, q.v[d]); } }
static void wline(std::string &s, const MLine &l, int dims, uint32_t st) {
    s += '('; bool f = true;
    for (auto &q : l) { if (!f) s += st & 2 ? ", " : ","; f = false; wpos(s, q, dims); }
    s += ')';
}
static const char *tname[] = {"", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION"};
std::string enc_wkt(const MGeom &m, uint32_t st) {
    std::string s = tname[m.type];
    if (st & 1) for (auto &c : s) c = (char)tolower(c);
    bool emp = m.empty || (m.multi() && m.kids.empty());
    if (m.z || m.m) { if (m.m || (st & 4)) s += m.z && m.m ? " ZM" : m.z ? " Z" : " M"; }
    if (emp) return s + " EMPTY";
    if (st & 2) s += " ";
    int d = m.dims();
    switch (m.type) {
    case TG_POINT: case TG_LINESTRING: wline(s, m.parts[0], d, st); break;
    case TG_POLYGON: s += '('; for (size_t i = 0; i < m.parts.size(); i++) { if (i) s += ','; wline(s, m.parts[i], d, st); } s += ')'; break;
    case TG_MULTIPOINT: s += '('; for (size_t i = 0; i < m.kids.size(); i++) { if (i) s += ','; const MGeom &k = m.kids[i]; if (k.parts.empty()) s += "EMPTY"; else if (st & 8) wline(s, k.parts[0], k.dims(), st); else wpos(s, k.parts[0][0], k.dims()); } s += ')'; break;
    case TG_MULTILINESTRING: s += '('; for (size_t i = 0; i < m.kids.size(); i++) { if (i) s += ','; if (m.kids[i].parts.empty()) s += "EMPTY"; else wline(s, m.kids[i].parts[0], m.kids[i].dims(), st); } s += ')'; break;
    case TG_MULTIPOLYGON: s += '('; for (size_t i = 0; i < m.kids.size(); i++) { if (i) s += ','; s += '('; for (size_t j = 0; j < m.kids[i].parts.size(); j++) { if (j) s += ','; wline(s, m.kids[i].parts[j], m.kids[i].dims(), st); } s += ')'; } s += ')'; break;
    default: s += '('; for (size_t i = 0; i < m.kids.size(); i++) { if (i) s += ','; s += enc_wkt(m.kids[i], st); } s += ')';
    }
    return s;
}
static void jpos(std::string &s, const MPos &q, int dims) { s += '['; for (int d = 0; d < dims; d++) { if (d) s += ','; num(s, q.v[d]); } s += ']'; }
static void jline(std::string &s, const MLine &l, int dims) { s += '['; for (size_t i = 0; i < l.size(); i++) { if (i) s += ','; jpos(s, l[i], dims); } s += ']'; }
static const char *jname[] = {"", "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection"};
static void jmembers(std::string &s, const Members &m, const char *ws) { for (auto &x : m) { s += ","; s += ws; s += x.first; s += ":"; s += ws; s += x.second; } }
std::string enc_geojson(const MGeom &m, uint32_t st) {
    const char *ws = st & 1 ? " " : st & 2 ? "\n\t" : "";
    std::string s;
    if (m.featcol) {
        s = "{\"type\":\"FeatureCollection\",\"features\":[";
        for (size_t i = 0; i < m.kids.size(); i++) { if (i) s += ','; s += ws; s += enc_geojson(m.kids[i], st); }
        s += "]"; jmembers(s, m.gextra, ws); return s + "}";
    }
    std::string g;
    if (m.unlocated) g = "null";
    else {
        g = std::string("{\"type\":\"") + jname[m.type] + "\"," + ws;
        int d = m.dims();
        if (m.type == TG_GEOMETRYCOLLECTION) {
            g += "\"geometries\":[";
            for (size_t i = 0; i < m.kids.size(); i++) { if (i) g += ','; g += enc_geojson(m.kids[i], st); }
            g += "]";
        } else {
            g += "\"coordinates\":"; g += ws;
            if (m.empty) g += "[]";
            else switch (m.type) {
            case TG_POINT: jpos(g, m.parts[0][0], d); break;
            case TG_LINESTRING: jline(g, m.parts[0], d); break;
            case TG_POLYGON: g += '['; for (size_t i = 0; i < m.parts.size(); i++) { if (i) g += ','; jline(g, m.parts[i], d); } g += ']'; break;
            case TG_MULTIPOINT: g += '['; for (size_t i = 0; i < m.kids.size(); i++) { if (i) g += ','; if (m.kids[i].parts.empty()) g += "[]"; else jpos(g, m.kids[i].parts[0][0], m.kids[i].dims()); } g += ']'; break;
            case TG_MULTILINESTRING: g += '['; for (size_t i = 0; i < m.kids.size(); i++) { if (i) g += ','; if (m.kids[i].parts.empty()) g += "[]"; else jline(g, m.kids[i].parts[0], m.kids[i].dims()); } g += ']'; break;
            default: g += '['; for (size_t i = 0; i < m.kids.size(); i++) { if (i) g += ','; g += '['; for (size_t j = 0; j < m.kids[i].parts.size(); j++) { if (j) g += ','; jline(g, m.kids[i].parts[j], m.kids[i].dims()); } g += ']'; } g += ']';
            }
        }
        jmembers(g, m.gextra, ws);
        g += "}";
    }
    if (!m.feature) return g;
    s = std::string("{\"type\":\"Feature\",") + ws + "\"geometry\":" + ws + g;
    jmembers(s, m.fextra, ws);
    return s + "}";
}
static void put(std::string &s, const void *p, size_t n, bool be) { const char *c = (const char*)p; if (be) for (size_t i = n; i--;) s += c[i]; else s.append(c, n); }
static void pu32(std::string &s, uint32_t v, bool be) { put(s, &v, 4, be); }
static void pd(std::string &s, double v, bool be) { put(s, &v, 8, be); }
static void bline(std::string &s, const MLine &l, int d, bool be) { pu32(s, (uint32_t)l.size(), be); for (auto &q : l) for (int i = 0; i < d; i++) pd(s, q.v[i], be); }
std::string enc_wkb(const MGeom &m, uint32_t st) {
    std::string s; bool be = st & 1;
    s += (char)!be;
    uint32_t t = m.type + (m.z && m.m ? 3000 : m.z ? 1000 : m.m ? 2000 : 0);
    if (m.type == TG_GEOMETRYCOLLECTION) t += 1000 * (st >> 4 & 3);     // a collection has no dimensions of its own
    if (st & 2) t |= 0x20000000;
    pu32(s, t, be);
    if (st & 2) pu32(s, 4326, be);
    int d = m.dims();
    switch (m.type) {
    case TG_POINT: if (m.empty) { for (int i = 0; i < d; i++) pd(s, NAN, be); } else for (int i = 0; i < d; i++) pd(s, m.parts[0][0].v[i], be); break;
    case TG_LINESTRING: if (m.empty) pu32(s, 0, be); else bline(s, m.parts[0], d, be); break;
    case TG_POLYGON: if (m.empty) pu32(s, 0, be); else { pu32(s, (uint32_t)m.parts.size(), be); for (auto &r : m.parts) bline(s, r, d, be); } break;
    default: pu32(s, (uint32_t)m.kids.size(), be); for (size_t i = 0; i < m.kids.size(); i++) s += enc_wkb(m.kids[i], st & 8 && i & 1 ? st ^ 1 : st);
    }
    return s;
}
// bounding box on all dimensions, as docs/GEOBIN.md describes the MBR section
struct Box { int dims = 2; double mn[4], mx[4]; bool any[4] = {0, 0, 0, 0}; };
static void box_add(Box &b, const MGeom &m) {
    if (m.dims() > b.dims) b.dims = m.dims();
    // the box of a polygon is that of its exterior ring: holes lie inside it (Z and M may not)
    for (auto &l : m.parts) for (auto &q : l) for (int d = m.type == TG_POLYGON && &l != &m.parts[0] ? 2 : 0; d < m.dims(); d++) {
        if (!b.any[d]) { b.mn[d] = b.mx[d] = q.v[d]; b.any[d] = true; }
        else { if (q.v[d] < b.mn[d]) b.mn[d] = q.v[d]; if (q.v[d] > b.mx[d]) b.mx[d] = q.v[d]; }
    }
    for (auto &k : m.kids) box_add(b, k);
}
static bool any_empty(const MGeom &m) { if (m.is_empty()) return true; for (auto &k : m.kids) if (any_empty(k)) return true; return false; }
static std::string xjson_of(const MGeom &m);
std::string enc_geobin(const MGeom &m) {
    std::string x = xjson_of(m);
    if (m.type == TG_POINT && !m.feature && x.empty()) return enc_wkb(m, 0);
    std::string s; s += (char)(m.featcol ? 4 : m.feature ? 3 : 2);
    Box b; box_add(b, m);
    s += (char)b.dims;
    for (int i = 0; i < b.dims; i++) pd(s, b.any[i] ? b.mn[i] : 0, false);
    for (int i = 0; i < b.dims; i++) pd(s, b.any[i] ? b.mx[i] : 0, false);
    s += x; s += '\0';
    if (m.featcol) { pu32(s, (uint32_t)m.kids.size(), false); for (auto &k : m.kids) s += enc_geobin(k); }
    else { MGeom p = m; p.feature = false; s += enc_wkb(p, 0); }
    return s;
}
std::string encode(const MGeom &m, Fmt f, uint32_t st) {
    switch (f) {
    case FMT_WKT: return enc_wkt(m, st);
    case FMT_GEOJSON: return enc_geojson(m, st);
    case FMT_WKB: return enc_wkb(m, st);
    case FMT_GEOBIN: return enc_geobin(m);
    default: {
        std::string b = enc_wkb(m, st), h; const char *d = st & 4 ? "0123456789abcdef" : "0123456789ABCDEF";
        for (uint8_t c : b) { h += d[c >> 4]; h += d[c & 15]; }
        return h; }
    }
}

// ------------------------------------------------------------------ the library's writers and readers
size_t lib_write_buf(const tg_geom *g, Fmt f, void *dst, size_t n) {
    switch (f) {
    case FMT_WKT: return tg_geom_wkt(g, (char*)dst, n);
    case FMT_GEOJSON: return tg_geom_geojson(g, (char*)dst, n);
    case FMT_WKB: return tg_geom_wkb(g, (uint8_t*)dst, n);
    case FMT_HEX: return tg_geom_hex(g, (char*)dst, n);
    default: return tg_geom_geobin(g, (uint8_t*)dst, n);
    }
}
std::string lib_write(const tg_geom *g, Fmt f) {
    size_t n = lib_write_buf(g, f, NULL, 0);
    if (n > (64u << 20)) violate("writer-length", "writing %s reports a length of %zu", fmt_name[f], n);
    char *b = (char*)lend(n + 1);
    size_t k = lib_write_buf(g, f, b, n + 1);
    if (k != n) violate("writer-length", "writing %s reports %zu without a buffer and %zu with one", fmt_name[f], n, k);
    std::string s(b, n);
    unlend(b);
    return s;
}
tg_geom *lib_parse(const void *p, size_t n, Fmt f, enum tg_index ix) {
    if (ix == TG_DEFAULT) switch (f) {                 // the entry points without an index argument
    case FMT_WKT: return tg_parse_wktn((const char*)p, n);
    case FMT_GEOJSON: return tg_parse_geojsonn((const char*)p, n);
    case FMT_WKB: return tg_parse_wkb((const uint8_t*)p, n);
    case FMT_HEX: return tg_parse_hexn((const char*)p, n);
    default: return tg_parse_geobin((const uint8_t*)p, n);
    }
    switch (f) {
    case FMT_WKT: return tg_parse_wktn_ix((const char*)p, n, ix);
    case FMT_GEOJSON: return tg_parse_geojsonn_ix((const char*)p, n, ix);
    case FMT_WKB: return tg_parse_wkb_ix((const uint8_t*)p, n, ix);
    case FMT_HEX: return tg_parse_hexn_ix((const char*)p, n, ix);
    default: return tg_parse_geobin_ix((const uint8_t*)p, n, ix);
    }
}
tg_geom *parse_lent(const std::string &doc, int f, enum tg_index ix) {
    if (f < NFMT && fmt_text((Fmt)f) && doc.size() % 3 == 0 && doc.find('\0') == std::string::npos) {
        // a zero-terminated string
        char *p = (char*)lend_copy(doc.c_str(), doc.size() + 1); tg_geom *g;
        if (f == FMT_WKT) g = ix == TG_DEFAULT ? tg_parse_wkt(p) : tg_parse_wkt_ix(p, ix);
        else if (f == FMT_GEOJSON) g = ix == TG_DEFAULT ? tg_parse_geojson(p) : tg_parse_geojson_ix(p, ix);
        else g = ix == TG_DEFAULT ? tg_parse_hex(p) : tg_parse_hex_ix(p, ix);
        unlend(p);
        return g;
    }
    void *p = lend_copy(doc.data(), doc.size());
    tg_geom *g = f == NFMT ? ix == TG_DEFAULT ? tg_parse(p, doc.size()) : tg_parse_ix(p, doc.size(), ix) : lib_parse(p, doc.size(), (Fmt)f, ix);
    unlend(p);
    return g;
}

// ------------------------------------------------------------------ projection and comparison
static void strip_meta(MGeom &m) { m.feature = m.featcol = m.unlocated = false; m.fextra.clear(); m.gextra.clear(); for (auto &k : m.kids) strip_meta(k); }
static void m_to_z(MGeom &m) { if (m.m && !m.z) { m.z = true; m.m = false; } for (auto &k : m.kids) m_to_z(k); }
static void norm_meta(MGeom &m) {
    // "properties" that is null or {} is kept as such or dropped; duplicates do not occur
    Members f; for (auto &x : m.fextra) if (!(x.first == "\"properties\"" && (x.second == "null" || x.second == "{}"))) f.push_back(x);
    m.fextra = f; for (auto &k : m.kids) norm_meta(k);
}
MGeom project(const MGeom &m, Fmt f) {
    MGeom r = m;
    if (f == FMT_WKT || f == FMT_WKB || f == FMT_HEX) strip_meta(r);
    if (f == FMT_GEOJSON) m_to_z(r);
    norm_meta(r);
    return r;
}
static std::string obj(const Members &m) { std::string s = "{"; for (size_t i = 0; i < m.size(); i++) { if (i) s += ","; s += m[i].first + ":" + m[i].second; } return s + "}"; }
static std::string xjson_of(const MGeom &m0) {
    MGeom m = m0; norm_meta(m);
    if (m.feature) {
        if (!m.gextra.empty()) return "[" + (m.fextra.empty() ? std::string("{}") : obj(m.fextra)) + "," + obj(m.gextra) + "]";
        return m.fextra.empty() ? "" : obj(m.fextra);
    }
    return m.gextra.empty() ? "" : obj(m.gextra);
}
// top level members (or elements) of a JSON object/array, sorted
static std::vector<std::string> split_json(const std::string &s) {
    std::vector<std::string> out; std::string cur; int depth = 0; bool str = false;
    for (size_t i = 0; i < s.size(); i++) {
        char c = s[i];
        if (str) { cur += c; if (c == '\\' && i + 1 < s.size()) cur += s[++i]; else if (c == '"') str = false; continue; }
        if (c == '"') { str = true; cur += c; continue; }
        if (c == '{' || c == '[') { if (depth++ > 0) cur += c; continue; }
        if (c == '}' || c == ']') { if (--depth > 0) cur += c; continue; }
        if (c == ',' && depth == 1) { out.push_back(cur); cur.clear(); continue; }
        if (c == ' ' || c == '\n' || c == '\t') continue;
        cur += c;
    }
    if (!cur.empty()) out.push_back(cur);
    return out;
}
static std::string canon_json(const std::string &s) {
    if (s.empty()) return s;
    auto v = split_json(s);
    if (s[0] == '[') { std::string r = "["; for (auto &x : v) r += canon_json(x) + ";"; return r + "]"; }
    if (s[0] != '{') return s;
    std::sort(v.begin(), v.end());
    std::string r = "{"; for (auto &x : v) r += x + ";"; return r + "}";
}
std::string show(const std::string &s, size_t max) {
    std::string r; for (uint8_t c : s) { if (r.size() >= max) { r += "..."; break; } if (c >= 32 && c < 127) r += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } }
    return r;
}
static bool deq(double a, double b, bool sz) { if (sz) return memcmp(&a, &b, 8) == 0 || (a != a && b != b); return a == b || (a != a && b != b); }
static std::string fmt(const char *f, ...) { char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static std::string diff_points(const tg_point *p, int n, const MLine &l, bool sz, const char *what) {
    if (n != (int)l.size()) return fmt("%s has %d points, expected %d", what, n, (int)l.size());
    for (int i = 0; i < n; i++) if (!deq(p[i].x, l[i].v[0], sz) || !deq(p[i].y, l[i].v[1], sz))
        return fmt("%s point %d is (%.17g %.17g), expected (%.17g %.17g)", what, i, p[i].x, p[i].y, l[i].v[0], l[i].v[1]);
    return "";
}
static std::string diff_poly(const tg_poly *p, const MGeom &m, bool sz) {
    if (!p) return "polygon missing";
    if (tg_poly_num_holes(p) != (int)m.parts.size() - 1) return fmt("%d holes, expected %d", tg_poly_num_holes(p), (int)m.parts.size() - 1);
    for (size_t i = 0; i < m.parts.size(); i++) {
        const tg_ring *r = i ? tg_poly_hole_at(p, (int)i - 1) : tg_poly_exterior(p);
        if (!r) return "ring missing";
        std::string d = diff_points(tg_ring_points(r), tg_ring_num_points(r), m.parts[i], sz, "ring");
        if (!d.empty()) return d;
    }
    return "";
}
static void collect_extra(const MGeom &m, int dims, std::vector<double> &ex) {
    for (auto &l : m.parts) for (auto &q : l) for (int d = 2; d < dims; d++) ex.push_back(q.v[d]);
    for (auto &k : m.kids) collect_extra(k, dims, ex);
}
std::string diff_model(const tg_geom *g, const MGeom &m, bool sz, bool meta) {
    if (!g) return "no geometry";
    if (tg_geom_error(g)) return fmt("error '%s'", tg_geom_error(g));
    if ((int)tg_geom_typeof(g) != m.type) return fmt("type %d, expected %d", tg_geom_typeof(g), m.type);
    if (tg_geom_is_empty(g) != m.is_empty()) return fmt("is_empty %d, expected %d", tg_geom_is_empty(g), m.is_empty());
    bool none = m.empty || (m.multi() && m.kids.empty());
    bool has_dims = m.type != TG_GEOMETRYCOLLECTION && !none;
    if (has_dims || none) {
        bool ez = has_dims && m.z, em = has_dims && m.m;
        if (tg_geom_has_z(g) != ez || tg_geom_has_m(g) != em) return fmt("has z/m %d/%d, expected %d/%d (type %d)", tg_geom_has_z(g), tg_geom_has_m(g), ez, em, m.type);
        if (tg_geom_dims(g) != 2 + ez + em) return fmt("dims %d, expected %d", tg_geom_dims(g), 2 + ez + em);
    }
    std::string d;
    switch (m.type) {
    case TG_POINT:
        if (!m.empty) {
            const MPos &q = m.parts[0][0]; tg_point p = tg_geom_point(g);
            if (!deq(p.x, q.v[0], sz) || !deq(p.y, q.v[1], sz)) return fmt("point (%.17g %.17g), expected (%.17g %.17g)", p.x, p.y, q.v[0], q.v[1]);
            if (m.z && !deq(tg_geom_z(g), q.v[2], sz)) return fmt("z %.17g, expected %.17g", tg_geom_z(g), q.v[2]);
            if (m.m && !deq(tg_geom_m(g), q.v[2 + m.z], sz)) return fmt("m %.17g, expected %.17g", tg_geom_m(g), q.v[2 + m.z]);
        }
        break;
    case TG_LINESTRING:
        if (!m.empty) { const tg_line *l = tg_geom_line(g); if (!l) return "line missing"; d = diff_points(tg_line_points(l), tg_line_num_points(l), m.parts[0], sz, "line"); if (!d.empty()) return d; }
        break;
    case TG_POLYGON:
        if (!m.empty) { d = diff_poly(tg_geom_poly(g), m, sz); if (!d.empty()) return d; }
        break;
    case TG_MULTIPOINT: {
        int n = tg_geom_num_points(g); if (n != (int)m.kids.size()) return fmt("%d points, expected %d", n, (int)m.kids.size());
        for (int i = 0; i < n; i++) { tg_point p = tg_geom_point_at(g, i); MLine &l = const_cast<MGeom&>(m).kids[i].parts[0]; d = diff_points(&p, 1, l, sz, "multipoint"); if (!d.empty()) return d; }
        break; }
    case TG_MULTILINESTRING: {
        int n = tg_geom_num_lines(g); if (n != (int)m.kids.size()) return fmt("%d lines, expected %d", n, (int)m.kids.size());
        for (int i = 0; i < n; i++) { const tg_line *l = tg_geom_line_at(g, i); if (!l) return "line missing"; d = diff_points(tg_line_points(l), tg_line_num_points(l), m.kids[i].parts[0], sz, "line"); if (!d.empty()) return d; }
        break; }
    case TG_MULTIPOLYGON: {
        int n = tg_geom_num_polys(g); if (n != (int)m.kids.size()) return fmt("%d polygons, expected %d", n, (int)m.kids.size());
        for (int i = 0; i < n; i++) { d = diff_poly(tg_geom_poly_at(g, i), m.kids[i], sz); if (!d.empty()) return d; }
        break; }
    default: {
        int n = tg_geom_num_geometries(g); if (n != (int)m.kids.size()) return fmt("%d geometries, expected %d", n, (int)m.kids.size());
        for (int i = 0; i < n; i++) { d = diff_model(tg_geom_geometry_at(g, i), m.kids[i], sz, meta); if (!d.empty()) return fmt("child %d: ", i) + d; }
    } }
    if (has_dims && m.type != TG_POINT && (m.z || m.m)) {
        std::vector<double> ex; collect_extra(m, m.dims(), ex);
        int n = tg_geom_num_extra_coords(g); const double *x = tg_geom_extra_coords(g);
        if (n != (int)ex.size()) return fmt("%d extra coordinates, expected %d", n, (int)ex.size());
        for (int i = 0; i < n; i++) if (!deq(x[i], ex[i], sz)) return fmt("extra coordinate %d is %.17g, expected %.17g", i, x[i], ex[i]);
    }
    // bounding boxes
    Box b; box_add(b, m);
    if (b.any[0] && !any_empty(m)) {         // what an empty child adds to the box is not specified
        tg_rect r = tg_geom_rect(g);
        if (r.min.x != b.mn[0] || r.min.y != b.mn[1] || r.max.x != b.mx[0] || r.max.y != b.mx[1])
            return fmt("bounding box (%.17g %.17g %.17g %.17g), expected (%.17g %.17g %.17g %.17g)", r.min.x, r.min.y, r.max.x, r.max.y, b.mn[0], b.mn[1], b.mx[0], b.mx[1]);
    }
    if (meta) {
        if (tg_geom_is_feature(g) != m.feature) return fmt("is_feature %d, expected %d", tg_geom_is_feature(g), m.feature);
        if (tg_geom_is_featurecollection(g) != m.featcol) return fmt("is_featurecollection %d, expected %d", tg_geom_is_featurecollection(g), m.featcol);
        const char *x = tg_geom_extra_json(g);
        std::string got = canon_json(x ? x : ""), want = canon_json(xjson_of(m));
        if (got != want) return "extra json " + show(got) + ", expected " + show(want);
    } else if (tg_geom_is_feature(g) || tg_geom_is_featurecollection(g) || tg_geom_extra_json(g)) return "unexpected feature metadata";
    return "";
}

// ------------------------------------------------------------------ observation
static uint64_t hd(uint64_t h, double d) { uint64_t u; memcpy(&u, &d, 8); if (d != d) u = 0x7ff8dead; return hcomb(h, u); }
static uint64_t hrect(uint64_t h, tg_rect r) { return hd(hd(hd(hd(h, r.min.x), r.min.y), r.max.x), r.max.y); }
static uint64_t hring(const tg_ring *r, int what, uint64_t &ixh) {
    if (!r) return 7;
    uint64_t h = 3; int n = tg_ring_num_points(r);
    h = hcomb(h, n);
    h = hcomb(h, hash_bytes(tg_ring_points(r), sizeof(tg_point) * n));
    h = hrect(h, tg_ring_rect(r));
    int ns = tg_ring_num_segments(r); h = hcomb(h, ns);
    for (int i = 0; i < ns; i += 1 + ns / 16) { tg_segment s = tg_ring_segment_at(r, i); h = hd(hd(hd(hd(h, s.a.x), s.a.y), s.b.x), s.b.y); }
    if (n) { tg_point p = tg_ring_point_at(r, n - 1); h = hd(hd(h, p.x), p.y); }
    h = hcomb(h, tg_ring_convex(r)); h = hcomb(h, tg_ring_clockwise(r)); h = hd(hd(h, tg_ring_area(r)), tg_ring_perimeter(r));
    if (what & OBS_INDEX) {
        int nl = tg_ring_index_num_levels(r);
        ixh = hcomb(ixh, tg_ring_index_spread(r)); ixh = hcomb(ixh, nl);
        for (int l = 0; l < nl; l++) { int nr = tg_ring_index_level_num_rects(r, l); ixh = hcomb(ixh, nr); for (int i = 0; i < nr; i += 1 + nr / 32) ixh = hrect(ixh, tg_ring_index_level_rect(r, l, i)); }
    }
    if (what & OBS_MEMSIZE) h = hcomb(h, tg_ring_memsize(r));
    return h;
}
static uint64_t hline(const tg_line *r, int what, uint64_t &ixh) {
    if (!r) return 7;
    uint64_t h = 4; int n = tg_line_num_points(r);
    h = hcomb(h, n);
    h = hcomb(h, hash_bytes(tg_line_points(r), sizeof(tg_point) * n));
    h = hrect(h, tg_line_rect(r));
    int ns = tg_line_num_segments(r); h = hcomb(h, ns);
    for (int i = 0; i < ns; i += 1 + ns / 16) { tg_segment s = tg_line_segment_at(r, i); h = hd(hd(hd(hd(h, s.a.x), s.a.y), s.b.x), s.b.y); }
    if (n) { tg_point p = tg_line_point_at(r, n - 1); h = hd(hd(h, p.x), p.y); }
    h = hcomb(h, tg_line_clockwise(r)); h = hd(h, tg_line_length(r));
    if (what & OBS_INDEX) {
        int nl = tg_line_index_num_levels(r);
        ixh = hcomb(ixh, tg_line_index_spread(r)); ixh = hcomb(ixh, nl);
        for (int l = 0; l < nl; l++) { int nr = tg_line_index_level_num_rects(r, l); ixh = hcomb(ixh, nr); for (int i = 0; i < nr; i += 1 + nr / 32) ixh = hrect(ixh, tg_line_index_level_rect(r, l, i)); }
    }
    if (what & OBS_MEMSIZE) h = hcomb(h, tg_line_memsize(r));
    return h;
}
static uint64_t hpoly(const tg_poly *p, int what, uint64_t &ixh) {
    if (!p) return 9;
    uint64_t h = hring(tg_poly_exterior(p), what, ixh);
    int n = tg_poly_num_holes(p); h = hcomb(h, n);
    for (int i = 0; i < n; i++) h = hcomb(h, hring(tg_poly_hole_at(p, i), what, ixh));
    h = hrect(h, tg_poly_rect(p)); h = hcomb(h, tg_poly_clockwise(p));
    if (what & OBS_MEMSIZE) h = hcomb(h, tg_poly_memsize(p));
    return h;
}
static uint64_t hgeom(const tg_geom *g, int what, uint64_t &ixh, uint64_t &mem) {
    if (!g) return 11;
    uint64_t h = tg_geom_typeof(g);
    const char *tn = tg_geom_type_string(tg_geom_typeof(g)); h = hcomb(h, hash_bytes(tn, strlen(tn)));
    h = hcomb(h, tg_geom_is_feature(g)); h = hcomb(h, tg_geom_is_featurecollection(g)); h = hcomb(h, tg_geom_is_empty(g));
    h = hcomb(h, tg_geom_dims(g)); h = hcomb(h, tg_geom_has_z(g)); h = hcomb(h, tg_geom_has_m(g));
    h = hrect(h, tg_geom_rect(g));
    double *mn = (double*)lend(32), *mx = (double*)lend(32);
    for (int i = 0; i < 4; i++) mn[i] = mx[i] = 0;
    int fd = tg_geom_fullrect(g, mn, mx); h = hcomb(h, fd);
    for (int i = 0; i < fd && i < 4; i++) h = hd(hd(h, mn[i]), mx[i]);
    unlend(mn); unlend(mx);
    tg_point p = tg_geom_point(g); h = hd(hd(h, p.x), p.y);
    h = hd(hd(h, tg_geom_z(g)), tg_geom_m(g));
    int ne = tg_geom_num_extra_coords(g); h = hcomb(h, ne);
    const double *ex = tg_geom_extra_coords(g); h = hcomb(h, ex != NULL); if (ne > 0 && ex) h = hcomb(h, hash_bytes(ex, 8 * (size_t)ne));
    const char *xj = tg_geom_extra_json(g); h = hcomb(h, xj ? hash_bytes(xj, strlen(xj)) : 0);
    const char *er = tg_geom_error(g); h = hcomb(h, er ? hash_bytes(er, strlen(er)) : 0);
    h = hcomb(h, hline(tg_geom_line(g), what, ixh));
    h = hcomb(h, hpoly(tg_geom_poly(g), what, ixh));
    int n = tg_geom_num_points(g); h = hcomb(h, n);
    for (int i = -1; i <= n; i++) { tg_point q = tg_geom_point_at(g, i); h = hd(hd(h, q.x), q.y); }
    n = tg_geom_num_lines(g); h = hcomb(h, n);
    for (int i = -1; i <= n; i++) h = hcomb(h, hline(tg_geom_line_at(g, i), what, ixh));
    n = tg_geom_num_polys(g); h = hcomb(h, n);
    for (int i = -1; i <= n; i++) h = hcomb(h, hpoly(tg_geom_poly_at(g, i), what, ixh));
    n = tg_geom_num_geometries(g); h = hcomb(h, n);
    for (int i = -1; i <= n; i++) h = hcomb(h, hgeom(tg_geom_geometry_at(g, i), what & ~OBS_MEMSIZE, ixh, mem));
    if (what & OBS_MEMSIZE) mem = hcomb(mem, tg_geom_memsize(g));
    return h;
}
Obs observe(const tg_geom *g, int what) {
    Obs o; uint64_t ix = 1, mem = 1;
    o.add("accessors", hgeom(g, what, ix, mem));
    if (what & OBS_INDEX) o.add("index", ix);
    if (what & OBS_MEMSIZE) o.add("memsize", mem);
    if (what & OBS_WRITERS) for (int f = 0; f < NFMT; f++) { std::string s = lib_write(g, (Fmt)f); o.add(fmt_name[f], hash_bytes(s.data(), s.size())); }
    if (what & OBS_PRED) {
        uint64_t h = 1;
        h = hcomb(h, tg_geom_intersects(g, g)); h = hcomb(h, tg_geom_covers(g, g)); h = hcomb(h, tg_geom_contains(g, g)); h = hcomb(h, tg_geom_touches(g, g)); h = hcomb(h, tg_geom_equals(g, g));
        tg_rect r = tg_geom_rect(g); tg_point c = tg_rect_center(r);
        h = hcomb(h, tg_geom_intersects_xy(g, c.x, c.y)); h = hcomb(h, tg_geom_intersects_rect(g, r));
        tg_rect half = {r.min, c}; h = hcomb(h, tg_geom_intersects_rect(g, half));
        o.add("predicates", h);
    }
    if (what & (OBS_PRED | OBS_SEARCH)) {
        // the hits of searches, in the order of their delivery
        tg_rect r = tg_geom_rect(g); tg_point c = tg_rect_center(r);
        struct Cx { uint64_t h; int n, stop; } cx = {1, 0, -1};
        auto hit = [](const tg_geom *, int i, void *u) { Cx *x = (Cx*)u; x->h = hcomb(x->h, i); return ++x->n != x->stop; };
        tg_geom_search(g, tg_rect{r.min, c}, hit, &cx);
        cx.stop = cx.n + 3;
        tg_geom_search(g, r, hit, &cx);
        cx.stop = -1;
        tg_geom_search(g, r, hit, &cx);
        o.add("search", cx.h);
    }
    return o;
}
std::string diff_obs(const Obs &a, const Obs &b) {
    if (a.s.size() != b.s.size()) return "different sections";
    std::string r;
    for (size_t i = 0; i < a.s.size(); i++) if (a.s[i] != b.s[i]) { if (!r.empty()) r += ","; r += a.s[i].first; }
    return r;
}

// ------------------------------------------------------------------ well-formedness
static std::string wf_ring(const tg_ring *r, bool ring, const char *what) {
    if (!r) return std::string(what) + " missing";
    int n = tg_ring_num_points(r);
    if (!ring && n < 2) return fmt("%s with %d point(s)", what, n);
    if (ring) {
        if (n < 3) return fmt("%s with %d point(s)", what, n);
        tg_point a = tg_ring_point_at(r, 0), b = tg_ring_point_at(r, n - 1);
        if (!(a.x == b.x && a.y == b.y)) return fmt("%s not closed", what);
    }
    int ns = tg_ring_num_segments(r);
    if (ns < 0 || ns > n) return fmt("%s with %d points and %d segments", what, n, ns);
    return "";
}
static std::string wf_poly(const tg_poly *p, size_t &np) {
    if (!p) return "polygon missing";
    std::string d = wf_ring(tg_poly_exterior(p), true, "exterior ring"); if (!d.empty()) return d;
    np += tg_ring_num_points(tg_poly_exterior(p));
    int n = tg_poly_num_holes(p); if (n < 0) return "negative number of holes";
    for (int i = 0; i < n; i++) { d = wf_ring(tg_poly_hole_at(p, i), true, "hole"); if (!d.empty()) return d; np += tg_ring_num_points(tg_poly_hole_at(p, i)); }
    return "";
}
std::string wellformed(const tg_geom *g) {
    if (!g) return "child missing";
    if (tg_geom_error(g)) return "an error object inside an accepted geometry";
    int t = tg_geom_typeof(g);
    if (t < 1 || t > 7) return fmt("type %d", t);
    size_t np = 0; std::string d;
    bool emp = tg_geom_is_empty(g);
    switch (t) {
    case TG_POINT: np = 0; break;
    case TG_LINESTRING: if (!emp || tg_geom_line(g)) { d = wf_ring((const tg_ring*)tg_geom_line(g), false, "line"); if (!d.empty()) return d; np = tg_line_num_points(tg_geom_line(g)); } break;
    case TG_POLYGON: if (!emp || tg_geom_poly(g)) { d = wf_poly(tg_geom_poly(g), np); if (!d.empty()) return d; } break;
    case TG_MULTIPOINT: np = tg_geom_num_points(g); if ((int)np < 0) return "negative count"; break;
    case TG_MULTILINESTRING: { int n = tg_geom_num_lines(g); for (int i = 0; i < n; i++) { d = wf_ring((const tg_ring*)tg_geom_line_at(g, i), false, "line"); if (!d.empty()) return d; np += tg_line_num_points(tg_geom_line_at(g, i)); } break; }
    case TG_MULTIPOLYGON: { int n = tg_geom_num_polys(g); for (int i = 0; i < n; i++) { d = wf_poly(tg_geom_poly_at(g, i), np); if (!d.empty()) return d; } break; }
    default: { int n = tg_geom_num_geometries(g); if (n < 0) return "negative count"; for (int i = 0; i < n; i++) { d = wellformed(tg_geom_geometry_at(g, i)); if (!d.empty()) return d; } }
    }
    if (t != TG_POINT && t != TG_GEOMETRYCOLLECTION && np) {
        int want = (int)np * (tg_geom_dims(g) - 2), got = tg_geom_num_extra_coords(g);
        if (got != want) return fmt("%d extra coordinates for %d points of %d dimensions", got, (int)np, tg_geom_dims(g));
        if (want && !tg_geom_extra_coords(g)) return "extra coordinates missing";
        if (!want && tg_geom_extra_coords(g)) return "extra coordinates for a geometry without any";
    }
    return "";
}
