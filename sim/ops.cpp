#include "ops.h"
#include <cmath>
#include <algorithm>

const char *op_name[NOPS] = {"observe", "predicates", "rect/xy predicates", "search children", "search segment pairs", "nearest segments", "parse", "construct from parts", "clone", "copy", "write", "quick bounding box", "error object", "new ring/line"};
void (*op_call_begin)(void);
void (*op_call_end)(void);
int g_op_obs = OBS_WRITERS | OBS_INDEX;
std::vector<std::pair<uint32_t, const void*>> g_op_parts;
char *g_op_doc_buf; size_t g_op_doc_cap;
static inline void B() { if (op_call_begin) op_call_begin(); }
static inline void E() { if (op_call_end) op_call_end(); }

Handle h_clone(Handle h) {
    switch (h.k) {
    case HK_GEOM: return {h.k, tg_geom_clone((tg_geom*)h.p)};
    case HK_RING: return {h.k, tg_ring_clone((tg_ring*)h.p)};
    case HK_LINE: return {h.k, tg_line_clone((tg_line*)h.p)};
    default: return {h.k, tg_poly_clone((tg_poly*)h.p)};
    }
}
Handle h_copy(Handle h) {
    switch (h.k) {
    case HK_GEOM: return {h.k, tg_geom_copy((tg_geom*)h.p)};
    case HK_RING: return {h.k, tg_ring_copy((tg_ring*)h.p)};
    case HK_LINE: return {h.k, tg_line_copy((tg_line*)h.p)};
    default: return {h.k, tg_poly_copy((tg_poly*)h.p)};
    }
}
void h_free(Handle h) {
    switch (h.k) {
    case HK_GEOM: tg_geom_free((tg_geom*)h.p); break;
    case HK_RING: tg_ring_free((tg_ring*)h.p); break;
    case HK_LINE: tg_line_free((tg_line*)h.p); break;
    default: tg_poly_free((tg_poly*)h.p);
    }
}
const tg_geom *h_geom(Handle h) { return (const tg_geom*)h.p; }
Obs h_observe(Handle h, int what) { return observe(h_geom(h), what); }

const tg_poly *h_pick_poly(Handle h, uint32_t sel) {
    const tg_geom *g = h_geom(h);
    if (h.k == HK_POLY || h.k == HK_RING) return (const tg_poly*)h.p;
    if (h.k == HK_LINE) return NULL;
    for (int d = 0; d < 4; d++) switch (tg_geom_typeof(g)) {
    case TG_POLYGON: return tg_geom_poly(g);
    case TG_MULTIPOLYGON: { int n = tg_geom_num_polys(g); return n ? tg_geom_poly_at(g, sel % n) : NULL; }
    case TG_GEOMETRYCOLLECTION: { int n = tg_geom_num_geometries(g); if (!n) return NULL; g = tg_geom_geometry_at(g, sel % n); break; }
    default: return NULL;
    }
    return NULL;
}
const tg_line *h_pick_line(Handle h, uint32_t sel) {
    const tg_geom *g = h_geom(h);
    if (h.k == HK_LINE) return (const tg_line*)h.p;
    if (h.k != HK_GEOM) return NULL;
    for (int d = 0; d < 4; d++) switch (tg_geom_typeof(g)) {
    case TG_LINESTRING: return tg_geom_line(g);
    case TG_MULTILINESTRING: { int n = tg_geom_num_lines(g); return n ? tg_geom_line_at(g, sel % n) : NULL; }
    case TG_GEOMETRYCOLLECTION: { int n = tg_geom_num_geometries(g); if (!n) return NULL; g = tg_geom_geometry_at(g, sel % n); break; }
    default: return NULL;
    }
    return NULL;
}
const tg_ring *h_pick_ring(Handle h, uint32_t sel) {
    if (h.k == HK_RING) return (const tg_ring*)h.p;
    const tg_poly *p = h_pick_poly(h, sel >> 8);
    if (!p) return NULL;
    int n = tg_poly_num_holes(p); uint32_t i = sel % (n + 1);
    return i ? tg_poly_hole_at(p, i - 1) : tg_poly_exterior(p);
}

// closed, or left open (the library then closes it with a segment of its own)
static std::vector<tg_point> any_ring(int st, int n) {
    uint32_t k = draw(W, 4);
    auto p = gen_ring_points(st, n, k == 3 ? 0 : (int)k);
    if (k == 3) { p.pop_back(); PROBE("ring left open by the caller"); }
    return p;
}
ObjSpec gen_spec(const GenCfg &gc, bool parsed) {
    ObjSpec s;
    s.kind = draw(W, parsed ? 8 : 6); s.ix = gen_ix();
    if (s.kind == 4) { int st = gen_style(); s.pts = any_ring(st, sizeish(W, gc.pts_small, gc.pts_big, gc.pts_huge)); return s; }
    if (s.kind == 5) { int st = gen_style(); s.pts = gen_line_points(st, sizeish(W, gc.pts_small, gc.pts_big, gc.pts_huge)); return s; }
    GenCfg c = gc; c.meta = s.kind >= 6;
    if (s.kind == 3) { c.empties = c.extras = false; s.m = gen_geom(c, TG_POLYGON); return s; }
    s.m = gen_geom(c); const MGeom &m = s.m;
    if (s.kind >= 6) {
        s.fmt = m.feature || m.featcol || !m.gextra.empty() ? (draw(W, 2) ? FMT_GEOBIN : FMT_GEOJSON) : (Fmt)draw(W, NFMT);
        s.doc = encode(m, s.fmt, draw(W, 64));
    } else s.var = draw(W, 256);
    return s;
}
Handle build_spec(const ObjSpec &s) {
    auto lent = [&](auto f) { tg_point *p = (tg_point*)lend_copy(s.pts.data(), s.pts.size() * sizeof(tg_point)); void *r = f(p, (int)s.pts.size()); unlend(p); return r; };
    if (s.kind == 4) return {HK_RING, lent([&](tg_point *p, int n) { return (void*)(s.ix == TG_DEFAULT && n & 1 ? tg_ring_new(p, n) : tg_ring_new_ix(p, n, s.ix)); })};
    if (s.kind == 5) return {HK_LINE, lent([&](tg_point *p, int n) { return (void*)(s.ix == TG_DEFAULT && n & 1 ? tg_line_new(p, n) : tg_line_new_ix(p, n, s.ix)); })};
    if (s.kind == 3) {
        std::vector<tg_ring*> r; bool ok = true;
        for (auto &l : s.m.parts) { std::vector<tg_point> p; for (auto &q : l) p.push_back({q.v[0], q.v[1]}); tg_ring *x = tg_ring_new_ix(p.data(), (int)p.size(), s.ix); if (!x) { ok = false; break; } r.push_back(x); }
        tg_poly *p = ok ? tg_poly_new(r[0], r.data() + 1, (int)r.size() - 1) : NULL;
        for (auto x : r) tg_ring_free(x);
        return {HK_POLY, p};
    }
    if (s.kind >= 6) {
        tg_geom *g = parse_lent(s.doc, s.fmt, s.ix);
        if (!g) return {HK_GEOM, NULL};
        if (!tg_geom_error(g)) return {HK_GEOM, g};
        tg_geom_free(g);
        return {HK_GEOM, build_api(project(s.m, FMT_WKT), s.ix, 0)};
    }
    return {HK_GEOM, build_api(s.m, s.ix, s.var)};
}
Handle gen_handle(const GenCfg &gc, bool parsed) { return build_spec(gen_spec(gc, parsed)); }
World gen_world(const WorldCfg &c) {
    World w; int n = range(W, c.n_lo, c.n_hi);
    for (int i = 0; i < n; i++) {
        Handle h = gen_handle(c.g, c.parsed);
        if (!h.p) violate("null-result", "building an object failed although memory is plentiful");
        w.h.push_back(h);
    }
    return w;
}
void free_world(World &w) { for (auto &h : w.h) h_free(h); w.h.clear(); }

// damage that keeps most of the grammar: whole tokens, groups, names and type codes
static void damage_token(std::string &d, Fmt f) {
    if (f == FMT_WKB || f == FMT_GEOBIN || f == FMT_HEX) {
        std::string h, &b = f == FMT_HEX ? h : d;
        if (f == FMT_HEX) for (size_t i = 0; i + 1 < d.size(); i += 2) { char t[3] = {d[i], d[i + 1], 0}; h += (char)strtol(t, NULL, 16); }
        // headers: byte order, then a type code
        std::vector<size_t> at;
        for (size_t i = 0; i + 5 <= b.size(); i++) if ((uint8_t)b[i] <= 1) {
            uint8_t *q = (uint8_t*)&b[i + 1]; uint32_t le = q[0] | q[1] << 8 | q[2] << 16 | (uint32_t)q[3] << 24, be = (uint32_t)q[0] << 24 | q[1] << 16 | q[2] << 8 | q[3];
            uint32_t c = b[i] ? le : be; if ((c & 0x1fffffff) >= 1 && (c & 0x1fffffff) % 1000 <= 7 && (c & 0x1fffffff) < 4000) at.push_back(i);
        }
        if (at.empty()) return;
        size_t i = at[draw(F, (uint32_t)at.size())];
        static const uint32_t flag[] = {0, 0x80000000, 0x40000000, 0xc0000000, 0x20000000, 1000, 2000, 3000};
        switch (draw(F, 4)) {
        case 0: b[i] = (char)draw(F, 3); break;
        case 1: { uint32_t c = draw(F, 9) + flag[draw(F, 8)]; for (int k = 0; k < 4; k++) b[i + 1 + (b[i] == 1 ? k : 3 - k)] = (char)(c >> 8 * k); break; }
        case 2: { uint32_t c = draw(F, 4); if (i + 9 > b.size()) return; for (int k = 0; k < 4; k++) b[i + 5 + (b[i] == 1 ? k : 3 - k)] = (char)(c >> 8 * k); break; }    // the count
        default: { size_t j = at[draw(F, (uint32_t)at.size())]; if (i < j) b.erase(i, j - i); else if (j < i) b.insert(i, b.substr(j, i - j)); }                                // a child lost or repeated
        }
        FAULT("type, count or child of a binary document changed");
        if (f == FMT_HEX) { d.clear(); for (char c : h) { char t[3]; snprintf(t, 3, "%02X", (uint8_t)c); d += t; } }
        return;
    }
    std::vector<size_t> open; for (size_t i = 0; i < d.size(); i++) if (strchr("([{", d[i]) && d[i]) open.push_back(i);
    auto close_of = [&](size_t i) { int dep = 0; for (size_t k = i; k < d.size(); k++) { if (strchr("([{", d[k]) && d[k]) dep++; else if (strchr(")]}", d[k]) && d[k] && --dep == 0) return k; } return (size_t)0; };
    auto group = [&](size_t &a, size_t &b) { if (open.empty()) return false; a = open[draw(F, (uint32_t)open.size())]; b = close_of(a); return b > a; };
    size_t a, b, a2, b2;
    switch (draw(F, 9)) {
    case 0: if (group(a, b)) { d.erase(b, 1); d.erase(a, 1); } break;                                    // brackets of a group gone
    case 1: if (group(a, b)) { d.insert(b, 1, d[b]); d.insert(a, 1, d[a]); } break;                      // twice
    case 2: if (group(a, b)) d.erase(a, b - a + 1); break;                                               // whole group gone
    case 3: if (group(a, b)) d.insert(a, d.substr(a, b - a + 1) + (draw(F, 2) ? "," : "")); break;       // repeated
    case 4: if (group(a, b)) { static const char *v[] = {"", "1", "null", "{}", "[]", "\"x\"", "EMPTY", "()", "1 2", "nan", "true", "[[]]"}; d.replace(a, b - a + 1, v[draw(F, 12)]); } break;
    case 5: if (group(a, b) && group(a2, b2)) { std::string g2 = d.substr(a2, b2 - a2 + 1); d.replace(a, b - a + 1, g2); } break;      // one in place of another
    case 6: if (group(a, b)) { char o = "([{"[draw(F, 3)]; d[a] = o; d[b] = o == '(' ? ')' : o == '[' ? ']' : '}'; } break;
    default: {                                                                                           // another type or member name
        static const char *nm[] = {"Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection", "FeatureCollection", "Feature", "coordinates", "geometries", "geometry", "features", "type", "properties", "id",
            "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION", "EMPTY", "ZM", "Z", "M"};
        int lo = f == FMT_WKT ? 16 : 0, hi = f == FMT_WKT ? 27 : 16;
        std::vector<std::pair<size_t, int>> at;
        for (int k = lo; k < hi; k++) for (size_t i = d.find(nm[k]); i != std::string::npos; i = d.find(nm[k], i + 1)) at.push_back({i, k});
        if (at.empty()) return;
        auto x = at[draw(F, (uint32_t)at.size())]; std::string w = nm[x.second], v = nm[lo + draw(F, (uint32_t)(hi - lo))];
        switch (draw(F, 5)) { case 0: v = ""; break; case 1: { char t[8]; snprintf(t, 8, "\\u%04x", (uint8_t)w[0]); v = t + w.substr(1); break; } case 2: v = w + " " + v; break; default:; }
        d.replace(x.first, w.size(), v); }
    }
    FAULT("group or name of a text document changed");
}
// one token of a text document replaced by one at the edge of the grammar, on either side of it
void odd_token(std::string &d, Fmt f) {
    bool js = f == FMT_GEOJSON;
    if (js && draw(F, 2)) {
        static const char *in[] = {"\\\"", "\\\\", "\\/", "\\b\\f\\n\\r\\t", "\\u00e9", "\\uD83D\\uDE00", "\\u0000", "\\ud800", "\\u12", "\\u12g4", "\\x", "\\", "\x01", "\n", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80",
            "\xc0\x80", "\xc3", "\xed\xa0\x80", "\xf4\x8f\xbf\xbe", "\xf4\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xe2\x82", "\xff", "\x80", "\"", "\\\\\\\"", "{", "]", ","};
        std::vector<std::pair<size_t, size_t>> at;
        for (size_t i = 0; i < d.size(); i++) if (d[i] == '"') { size_t k = i + 1; while (k < d.size() && d[k] != '"') k += d[k] == '\\' ? 2 : 1; if (k < d.size()) at.push_back({i, k}); i = k; }
        if (at.empty()) return;
        auto x = at[draw(F, (uint32_t)at.size())]; std::string v = in[draw(F, 32)];
        switch (draw(F, 3)) { case 0: d.insert(x.second, v); break; case 1: d.insert(x.first + 1, v); break; default: d.replace(x.first + 1, x.second - x.first - 1, v); }
    } else {
        static const char *in[] = {"1e", "1e+", "1E-", "1e5", "-2E+03", "1.", ".5", "-.5", "01", "-01", "00", "-", "+1", "--1", "1e400", "-1e400", "1e-400", "-0", "0e0", "0.0e-0", "1e5.5", "1.2.3", "0x10", "1_0", "nan", "NaN", "-nan", "inf", "Infinity", "-Infinity",
            "1e0000000000000000000000001", "0.00000000000000000000000000000000000000001", "123456789012345678901234567890", "4.9406564584124654e-324", "2.2250738585072011e-308", "1.7976931348623159e308", "9007199254740993", "true", "null", "[1]", "\"1\"", "", " ", "1 ", "1\t", "1\v", "1\xc2\xa0"};
        std::vector<std::pair<size_t, size_t>> at; bool str = false;
        for (size_t i = 0; i < d.size(); i++) {
            if (js && d[i] == '"') str = !str;
            if (!str && ((d[i] >= '0' && d[i] <= '9') || d[i] == '-')) { size_t k = i; while (k < d.size() && strchr("0123456789+-.eE", d[k]) && d[k]) k++; at.push_back({i, k}); i = k - 1; }
        }
        if (at.empty()) return;
        auto x = at[draw(F, (uint32_t)at.size())]; d.replace(x.first, x.second - x.first, in[draw(F, sizeof in / sizeof *in)]);
    }
    FAULT("token replaced by one at the edge of the grammar");
}
void damage(std::string &d, int n, Fmt f) {
    for (int i = 0; i < n && !d.empty(); i++) {
        switch (draw(F, 10)) {
        case 7: case 8: case 9: damage_token(d, f); break;
        case 0: d.resize(draw(F, (uint32_t)d.size())); FAULT("document truncated"); break;
        case 1: d[draw(F, (uint32_t)d.size())] ^= (char)(1u << draw(F, 8)); FAULT("bit flipped"); break;
        case 2: {
            static const char txt[] = "0123456789()[]{},.\"-+eE zmZM:nft \\";
            if (f == FMT_WKT || f == FMT_GEOJSON) d[draw(F, (uint32_t)d.size())] = txt[draw(F, sizeof txt - 1)];
            else if (f == FMT_HEX) d[draw(F, (uint32_t)d.size())] = "0123456789ABCDEFfg"[draw(F, 18)];
            else d[draw(F, (uint32_t)d.size())] = (char)(draw(F, 4) ? draw(F, 9) : draw(F, 256));
            FAULT("byte replaced"); break; }
        case 3: {
            size_t a = draw(F, (uint32_t)d.size()), k = 1 + draw(F, 16); if (a + k > d.size()) k = d.size() - a;
            d.erase(a, k); FAULT("bytes lost"); break; }
        case 4: {
            size_t a = draw(F, (uint32_t)d.size()), k = 1 + draw(F, 16); if (a + k > d.size()) k = d.size() - a;
            d.insert(draw(F, (uint32_t)d.size() + 1), d.substr(a, k)); FAULT("bytes duplicated"); break; }
        case 5: {
            size_t a = draw(F, (uint32_t)d.size()), k = 1 + draw(F, 64); if (a + k > d.size()) k = d.size() - a;
            memset(&d[a], draw(F, 2) ? 0 : 0xff, k); FAULT("sector wiped"); break; }
        default: {
            if (d.size() < 4) break;
            size_t a = draw(F, (uint32_t)d.size() - 3);
            static const uint32_t v[] = {0, 1, 2, 3, 0xffffffff, 0x7fffffff, 0x80000000, 0x08000000, 0x10000001, 65536, 1000, 4};
            uint32_t x = v[draw(F, 12)];
            if (f == FMT_WKB || f == FMT_GEOBIN) { memcpy(&d[a], &x, 4); FAULT("32-bit field overwritten"); }
            else if (f == FMT_HEX) { char b[9]; snprintf(b, 9, "%02X%02X%02X%02X", x & 255, x >> 8 & 255, x >> 16 & 255, x >> 24); a &= ~(size_t)1; for (int j = 0; j < 8 && a + j < d.size(); j++) d[a + j] = b[j]; FAULT("32-bit field overwritten"); }
            else { char b[16]; snprintf(b, 16, "%u", x); d.insert(a, b); FAULT("number inserted"); }
            break; }
        }
    }
}

Op gen_op(size_t nw, const OpCfg &c) {
    Op o;
    std::vector<int> ks; for (int i = 0; i < NOPS; i++) if (c.mask >> i & 1) ks.push_back(i);
    o.kind = ks[draw(W, (uint32_t)ks.size())];
    o.a = draw(W, (uint32_t)nw);
    GenCfg g = c.g;
    switch (o.kind) {
    case OP_OBSERVE: break;
    case OP_PRED: o.b = draw(W, (uint32_t)nw); break;
    case OP_XYRECT: o.rect = gen_rect(gen_style()); break;
    case OP_SEARCH: o.rect = gen_rect(gen_style()); o.stop = (int)draw(W, 8) - 1; o.v = draw(W, 4); break;
    case OP_PAIRS: o.b = draw(W, (uint32_t)nw); o.v = draw(W, 1 << 16); o.w = draw(W, 1 << 16); o.stop = (int)draw(W, 8) - 1; break;
    case OP_NEAREST: o.rect = gen_rect(gen_style()); o.v = draw(W, 1 << 16); o.stop = (int)draw(W, 4) ? -1 : (int)draw(W, 20); o.w = draw(W, 4); break;
    case OP_PARSE: {
        o.fmt = (int)draw(W, NFMT + 1); o.ix = gen_ix();
        Fmt f = o.fmt == NFMT ? (Fmt)draw(W, NFMT) : (Fmt)o.fmt;
        g.meta = f == FMT_GEOJSON || f == FMT_GEOBIN;
        MGeom m = gen_geom(g);
        o.doc = encode(m, f, draw(W, 64));
        if (c.bad_docs && draw(W, 5) == 4) {
            size_t k = draw(W, (uint32_t)o.doc.size());
            switch (draw(W, 4)) {
            case 0: o.doc.resize(k); break;
            case 1: o.doc[draw(W, 4) ? k : 0] = (char)(draw(W, 2) ? draw(W, 256) : 192 + draw(W, 64)); break;
            case 2: damage(o.doc, 1, f); break;
            default: o.doc.erase(k, 1 + draw(W, 8));
            }
        }
        if (c.bad_docs && draw(W, 24) == 23) o.fmt = (int)draw(W, NFMT + 1);    // the wrong parser
        break; }
    case OP_NEW:
        o.b = draw(W, (uint32_t)nw); o.c = draw(W, (uint32_t)nw); o.v = draw(W, 1 << 16); o.w = draw(W, 1 << 16);
        { int n = (int)draw(W, 12); for (int i = 0; i < n; i++) o.pts.push_back({gen_coord(1), gen_coord(1)}); }
        { int n = (int)draw(W, 30); for (int i = 0; i < n; i++) o.ex.push_back(gen_coord(1)); }
        break;
    case OP_CLONE: case OP_COPY: break;
    case OP_WRITE: o.fmt = (int)draw(W, NFMT); o.v = draw(W, 3) ? draw(W, 200) : draw(W, 4000); break;
    case OP_QUICK: {
        g.meta = true; MGeom m = gen_geom(g); o.doc = enc_geobin(m);
        if (c.bad_docs && draw(W, 4) == 3) o.doc.resize(draw(W, (uint32_t)o.doc.size()));
        o.v = draw(W, 6); break; }
    case OP_NEWERR: o.doc = std::string(draw(W, 40), 'e'); break;
    case OP_RAWNEW: {
        o.v = draw(W, 2); o.ix = gen_ix(); int st = gen_style(), n = sizeish(W, g.pts_small, g.pts_big, g.pts_huge);
        o.pts = o.v ? gen_line_points(st, n) : any_ring(st, n); break; }
    }
    return o;
}
std::string op_text(const Op &o) {
    char b[256]; snprintf(b, sizeof b, "%s(a=%u b=%u c=%u v=%u w=%u ix=%d stop=%d", op_name[o.kind], o.a, o.b, o.c, o.v, o.w, o.ix, o.stop);
    std::string s = b;
    if (o.kind == OP_PARSE || o.kind == OP_WRITE) s += std::string(" ") + (o.fmt == NFMT ? "auto" : fmt_name[o.fmt]);
    if (!o.doc.empty()) s += " doc=" + show(o.doc);
    if (!o.pts.empty()) s += " npts=" + std::to_string(o.pts.size());
    return s + ")";
}

// ------------------------------------------------------------------ running
static uint64_t hdbl(uint64_t h, double d) { uint64_t u; memcpy(&u, &d, 8); if (d != d) u = 1; return hcomb(h, u); }
struct CbState { uint64_t h = 1; int n = 0, stop = -1; tg_point q; int more_at = 0; int mores = 0; };
static bool cb_child(const tg_geom *g, int idx, void *u) {
    CbState *s = (CbState*)u; s->h = hcomb(s->h, idx * 16 + tg_geom_typeof(g)); s->n++;
    return s->stop < 0 || s->n <= s->stop;
}
static bool cb_pair(tg_segment a, int ai, tg_segment b, int bi, void *u) {
    CbState *s = (CbState*)u; s->h = hcomb(s->h, (uint64_t)ai << 32 | (uint32_t)bi); s->h = hdbl(hdbl(s->h, a.a.x), b.b.y); s->n++;
    return s->stop < 0 || s->n <= s->stop;
}
static double nr_rect(tg_rect r, int *, void *u) {
    CbState *s = (CbState*)u;
    double dx = std::max(0.0, std::max(r.min.x - s->q.x, s->q.x - r.max.x)), dy = std::max(0.0, std::max(r.min.y - s->q.y, s->q.y - r.max.y));
    return std::max(dx, dy);
}
static double nr_seg(tg_segment g, int *more, void *u) {
    CbState *s = (CbState*)u;
    tg_rect r = tg_segment_rect(g);
    double d = nr_rect(r, NULL, u);
    if (*more > 0) { *more = *more - 1; return *more ? d * 0.75 : d; }      // refine step by step
    if (s->more_at && ++s->mores % s->more_at == 0) { *more = 1 + s->mores % 2; return d * 0.5; }
    return d;
}
static bool nr_iter(tg_segment g, double d, int i, void *u) {
    CbState *s = (CbState*)u; s->h = hcomb(s->h, i); s->h = hdbl(hdbl(s->h, d), g.a.x); s->n++;
    return s->stop < 0 || s->n <= s->stop;
}

static tg_geom *op_new(const Op &o, const std::vector<Handle> &w, HKind &k, bool &skip, bool &expect_null) {
    const double *ex = o.ex.data(); int nex = (int)o.ex.size();
    std::vector<const tg_line*> ls; std::vector<const tg_poly*> ps; std::vector<const tg_geom*> gs; std::vector<const tg_ring*> rs;
    uint32_t ids[3] = {o.a, o.b, o.c}; int cnt = 1 + (o.w >> 4) % 7;
    g_op_parts.clear();
    std::vector<uint32_t> rsrc, lsrc, psrc;
    for (int i = 0; i < cnt; i++) {
        Handle h = w[ids[i % 3]];
        if (const tg_line *l = h_pick_line(h, o.v + i)) ls.push_back(l), lsrc.push_back(ids[i % 3]);
        if (const tg_poly *p = h_pick_poly(h, o.v + i)) ps.push_back(p), psrc.push_back(ids[i % 3]);
        if (const tg_ring *r = h_pick_ring(h, o.v + i * 257)) rs.push_back(r), rsrc.push_back(ids[i % 3]);
        gs.push_back(h_geom(h));
    }
    double *lex = (double*)lend_copy(ex, nex * 8);
    tg_point *lp = (tg_point*)lend_copy(o.pts.data(), o.pts.size() * sizeof(tg_point));
    void *arr = NULL;
    int np = (int)o.pts.size();
    tg_point p0 = np ? o.pts[0] : tg_point{1, 2};
    tg_geom *g = NULL; k = HK_GEOM; skip = false; expect_null = false;
    uint32_t what = o.v % 12, z = (o.v / 12) % 4;
    auto parts = [&](auto &v, std::vector<uint32_t> &src, size_t n) { for (size_t i = 0; i < n && i < v.size(); i++) g_op_parts.push_back({src[i], (const void*)v[i]}); };
    if (what <= 1) parts(rs, rsrc, rs.size());
    if (what == 2) parts(ls, lsrc, 1);
    if (what == 3) parts(ps, psrc, 1);
    if (what == 5) parts(ls, lsrc, ls.size());
    if (what == 6) parts(ps, psrc, ps.size());
    if (what >= 7 && what <= 9) for (int i = 0; i < cnt; i++) g_op_parts.push_back({ids[i % 3], gs[i]});
    auto arrcopy = [&](const void *p, size_t n) { arr = lend_copy(p, n * sizeof(void*)); return arr; };
    switch (what) {
    case 0: case 1:
        if (rs.empty()) { skip = true; break; }
        { tg_ring **a = (tg_ring**)arrcopy(rs.data(), rs.size()); B(); g = (tg_geom*)tg_poly_new(a[0], a + 1, (int)rs.size() - 1); E(); k = HK_POLY; } break;
    case 2:
        if (ls.empty()) { skip = true; break; }
        B(); g = z == 0 ? tg_geom_new_linestring(ls[0]) : z == 1 ? tg_geom_new_linestring_z(ls[0], lex, nex) : z == 2 ? tg_geom_new_linestring_m(ls[0], lex, nex) : tg_geom_new_linestring_zm(ls[0], lex, nex); E(); break;
    case 3:
        if (ps.empty()) { skip = true; break; }
        B(); g = z == 0 ? tg_geom_new_polygon(ps[0]) : z == 1 ? tg_geom_new_polygon_z(ps[0], lex, nex) : z == 2 ? tg_geom_new_polygon_m(ps[0], lex, nex) : tg_geom_new_polygon_zm(ps[0], lex, nex); E(); break;
    case 4:
        B(); g = z == 0 ? tg_geom_new_multipoint(lp, np) : z == 1 ? tg_geom_new_multipoint_z(lp, np, lex, nex) : z == 2 ? tg_geom_new_multipoint_m(lp, np, lex, nex) : tg_geom_new_multipoint_zm(lp, np, lex, nex); E(); break;
    case 5: {
        tg_line **a = (tg_line**)arrcopy(ls.data(), ls.size()); int n = (int)ls.size();
        B(); g = z == 0 ? tg_geom_new_multilinestring(a, n) : z == 1 ? tg_geom_new_multilinestring_z(a, n, lex, nex) : z == 2 ? tg_geom_new_multilinestring_m(a, n, lex, nex) : tg_geom_new_multilinestring_zm(a, n, lex, nex); E(); break; }
    case 6: {
        tg_poly **a = (tg_poly**)arrcopy(ps.data(), ps.size()); int n = (int)ps.size();
        B(); g = z == 0 ? tg_geom_new_multipolygon(a, n) : z == 1 ? tg_geom_new_multipolygon_z(a, n, lex, nex) : z == 2 ? tg_geom_new_multipolygon_m(a, n, lex, nex) : tg_geom_new_multipolygon_zm(a, n, lex, nex); E(); break; }
    case 7: case 8: case 9: {
        tg_geom **a = (tg_geom**)arrcopy(gs.data(), gs.size());
        B(); g = tg_geom_new_geometrycollection(a, (int)gs.size()); E(); break; }
    case 10:
        B(); g = z == 0 ? tg_geom_new_point(p0) : z == 1 ? tg_geom_new_point_z(p0, 3) : z == 2 ? tg_geom_new_point_m(p0, 4) : tg_geom_new_point_zm(p0, 5, 6); E(); break;
    default:
        B();
        switch (o.w % 7) {
        case 0: g = tg_geom_new_point_empty(); break;
        case 1: g = tg_geom_new_linestring_empty(); break;
        case 2: g = tg_geom_new_polygon_empty(); break;
        case 3: g = tg_geom_new_multipoint_empty(); break;
        case 4: g = tg_geom_new_multilinestring_empty(); break;
        case 5: g = tg_geom_new_multipolygon_empty(); break;
        default: g = tg_geom_new_geometrycollection_empty();
        }
        E();
    }
    unlend(lex); unlend(lp); if (arr) unlend(arr);
    return g;
}

OpRes run_op(const Op &o, const std::vector<Handle> &w, bool keep) {
    OpRes r; uint64_t h = 100 + o.kind;
    Handle A = w[o.a]; const tg_geom *ga = h_geom(A);
    Handle made; bool creates = false, skip = false;
    count_dyn("op", op_name[o.kind]);
    switch (o.kind) {
    case OP_OBSERVE: { B(); Obs ob = h_observe(A, g_op_obs); E(); h = hcomb(h, ob.total()); break; }
    case OP_PRED: {
        const tg_geom *gb = h_geom(w[o.b]);
        B();
        h = hcomb(h, tg_geom_equals(ga, gb)); h = hcomb(h, tg_geom_intersects(ga, gb)); h = hcomb(h, tg_geom_disjoint(ga, gb));
        h = hcomb(h, tg_geom_contains(ga, gb)); h = hcomb(h, tg_geom_within(ga, gb)); h = hcomb(h, tg_geom_covers(ga, gb));
        h = hcomb(h, tg_geom_coveredby(ga, gb)); h = hcomb(h, tg_geom_touches(ga, gb));
        E(); break; }
    case OP_XYRECT:
        B(); h = hcomb(h, tg_geom_intersects_rect(ga, o.rect)); h = hcomb(h, tg_geom_intersects_xy(ga, o.rect.min.x, o.rect.max.y));
        { tg_rect b = tg_geom_rect(ga); tg_point p = {o.rect.min.x, o.rect.max.y}; tg_rect e = tg_rect_expand_point(b, p);
          h = hcomb(hcomb(h, tg_rect_intersects_point(b, p)), tg_point_intersects_rect(p, b)); h = hdbl(hdbl(hdbl(hdbl(h, e.min.x), e.min.y), e.max.x), e.max.y); }
        E(); break;
    case OP_SEARCH: {
        CbState s; s.stop = o.stop;
        tg_rect rc = o.v & 1 ? tg_geom_rect(ga) : o.rect;
        B(); tg_geom_search(ga, rc, cb_child, &s); E();
        h = hcomb(h, s.h); break; }
    case OP_PAIRS: {
        CbState s; s.stop = o.stop;
        const tg_ring *ra = h_pick_ring(A, o.v), *rb = h_pick_ring(w[o.b], o.w);
        const tg_line *la = h_pick_line(A, o.v), *lb = h_pick_line(w[o.b], o.w);
        B();
        if (ra && rb) tg_ring_ring_search(ra, rb, cb_pair, &s);
        else if (ra && lb) tg_ring_line_search(ra, lb, cb_pair, &s);
        else if (la && lb) tg_line_line_search(la, lb, cb_pair, &s);
        else if (la && rb) tg_ring_line_search(rb, la, cb_pair, &s);
        E();
        h = hcomb(h, s.h); break; }
    case OP_NEAREST: {
        CbState s; s.stop = o.stop; s.q = o.rect.min; s.more_at = o.w == 3 ? 3 : 0;
        const tg_ring *ra = h_pick_ring(A, o.v); const tg_line *la = h_pick_line(A, o.v);
        bool ok = true, any = ra || la;
        B();
        if (ra) ok = tg_ring_nearest_segment(ra, nr_rect, nr_seg, nr_iter, &s);
        else if (la) ok = tg_line_nearest_segment(la, nr_rect, nr_seg, nr_iter, &s);
        E();
        if (any && !ok) r.oom = true;
        h = hcomb(hcomb(h, ok), s.h); break; }
    case OP_PARSE: {
        bool fixed = g_op_doc_buf && o.doc.size() < g_op_doc_cap;
        void *p = fixed ? memcpy(g_op_doc_buf, o.doc.data(), o.doc.size()) : lend_copy(o.doc.data(), o.doc.size());
        B(); tg_geom *g = o.fmt == NFMT ? tg_parse_ix(p, o.doc.size(), o.ix) : lib_parse(p, o.doc.size(), (Fmt)o.fmt, o.ix); E();
        if (!fixed) unlend(p);
        const char *e = tg_geom_error(g);
        if (!g) r.oom = true;
        else if (e && !strcmp(e, "no memory")) { r.oom = true; tg_geom_free(g); g = NULL; }
        if (g) { made = {HK_GEOM, g}; }
        creates = true; break; }
    case OP_NEW: {
        HKind k; bool en; tg_geom *g = op_new(o, w, k, skip, en);
        made = {k, g}; creates = !skip; if (!skip && !g) r.oom = true; break; }
    case OP_CLONE: { B(); made = h_clone(A); E(); creates = true; if (made.p != A.p) h = hcomb(h, 5); break; }
    case OP_COPY: { B(); made = h_copy(A); E(); creates = true; if (!made.p) r.oom = true; break; }
    case OP_WRITE: {
        char *b = (char*)lend(o.v); memset(b, 0x5c, o.v);
        B(); size_t n = lib_write_buf(ga, (Fmt)o.fmt, b, o.v); E();
        h = hcomb(hcomb(h, n), hash_bytes(b, o.v)); unlend(b); break; }
    case OP_QUICK: {
        uint8_t *p = (uint8_t*)lend_copy(o.doc.data(), o.doc.size());
        B();
        tg_rect q = tg_geobin_rect(p, o.doc.size()); tg_point c = tg_geobin_point(p, o.doc.size());
        E();
        h = hdbl(hdbl(hdbl(hdbl(h, q.min.x), q.min.y), q.max.x), q.max.y); h = hdbl(hdbl(h, c.x), c.y);
        double *mn = (double*)lend(32), *mx = (double*)lend(32); for (int i = 0; i < 4; i++) mn[i] = mx[i] = 0;
        B(); int d = tg_geobin_fullrect(p, o.doc.size(), mn, mx); E();
        h = hcomb(h, d); for (int i = 0; i < d && i < 4; i++) h = hdbl(hdbl(h, mn[i]), mx[i]);
        unlend(mn); unlend(mx); unlend(p); break; }
    case OP_NEWERR: {
        char *p = (char*)lend_copy(o.doc.c_str(), o.doc.size() + 1);
        B(); tg_geom *g = tg_geom_new_error(p); E(); unlend(p);
        made = {HK_GEOM, g}; creates = true; if (!g) r.oom = true; break; }
    case OP_RAWNEW: {
        tg_point *p = (tg_point*)lend_copy(o.pts.data(), o.pts.size() * sizeof(tg_point));
        int np = (int)o.pts.size(); bool plain = o.ix == TG_DEFAULT && np & 1;
        B(); void *g = o.v ? (void*)(plain ? tg_line_new(p, np) : tg_line_new_ix(p, np, o.ix)) : (void*)(plain ? tg_ring_new(p, np) : tg_ring_new_ix(p, np, o.ix)); E();
        unlend(p);
        made = {o.v ? HK_LINE : HK_RING, g}; creates = true; if (!g) r.oom = true; break; }
    }
    if (creates && !r.oom && !skip) {
        Obs ob = h_observe(made, g_op_obs);
        h = hcomb(hcomb(h, ob.total()), made.k);
        r.made = true; r.obj = made; r.is_new = o.kind != OP_CLONE;
        if (!keep) { h_free(made); r.obj.p = NULL; }
    }
    r.h = r.oom ? 0x00A : h;
    return r;
}
