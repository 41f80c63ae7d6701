// Documents: C07 short buffers, C08 lost tails, C09 damaged bytes, C11 bounded work and memory.
#include "ops.h"
#include <algorithm>
#include <cmath>
#include <limits>

static const int spreads[] = {16, 2, 3, 4, 8, 32, 64, 4096};
static void gen_env() {
    tg_env_set_index_spread(spreads[draw(W, 8)]);
    tg_env_set_index(gen_ix());
}
// values no generator of ordinary coordinates produces
static void strange_coords(MGeom &m, bool nan) {
    static const double sp[] = {5e-324, -0.0, 1e-310, 1e308, -1.7976931348623157e308, 0.1 + 0.2, 1e15, 1e16, 123456789.123456789, 1e-6, 1e-7, 4503599627370497.5, 9007199254740992.0};
    for (auto &l : m.parts) for (auto &q : l) for (int d = 0; d < m.dims(); d++) if (draw(W, 4) == 3) {
        uint32_t k = draw(W, nan ? 16 : 13);
        q.v[d] = k < 13 ? sp[k] : k == 13 ? std::numeric_limits<double>::quiet_NaN() : k == 14 ? INFINITY : -INFINITY;
    }
    for (auto &k : m.kids) strange_coords(k, nan);
    if (m.type == TG_POLYGON) for (auto &l : m.parts) { for (int d = 0; d < 2; d++) l.back().v[d] = l.front().v[d]; }
}
struct Doc { std::string s; Fmt f; MGeom m; bool own; };
// a complete, valid document: from the own encoders or from the library's writers
static Doc gen_doc(GenCfg c, int fmt = -1) {
    Doc d; d.f = fmt >= 0 ? (Fmt)fmt : (Fmt)draw(W, NFMT);
    c.meta = (d.f == FMT_GEOJSON || d.f == FMT_GEOBIN) && draw(W, 2);
    d.m = gen_geom(c);
    if (draw(W, 6) == 5) strange_coords(d.m, false);
    d.own = draw(W, 4) != 3;
    if (d.own) { d.s = encode(d.m, d.f, draw(W, 64)); return d; }
    tg_geom *g;
    if (c.meta) { std::string e = encode(d.m, FMT_GEOJSON); g = parse_lent(e, FMT_GEOJSON, TG_NONE); }
    else g = build_api(d.m, gen_ix(), draw(W, 256));
    if (!g) violate("null-result", "building an object failed although memory is plentiful");
    if (tg_geom_error(g)) violate("rejected", "a valid document is rejected: %s", tg_geom_error(g));
    d.s = lib_write(g, d.f);
    tg_geom_free(g);
    return d;
}

// ------------------------------------------------------------------ C07
static std::string last_doc[NFMT];
static void check_capacity(const tg_geom *g, Fmt f, const std::string &full, size_t cap, uint8_t pat) {
    bool text = fmt_text(f);
    uint8_t *b = cap ? (uint8_t*)lend(cap) : NULL;
    if (cap) memset(b, pat, cap);
    size_t n = lib_write_buf(g, f, b, cap);
    if (n != full.size()) violate("length-varies", "%s of %zu bytes: a buffer of %zu bytes gives length %zu", fmt_name[f], full.size(), cap, n);
    size_t keep = text ? (cap ? std::min(full.size(), cap - 1) : 0) : std::min(full.size(), cap);
    for (size_t i = 0; i < keep; i++) if (b[i] != (uint8_t)full[i]) violate("wrong-prefix", "%s of %zu bytes in a buffer of %zu: byte %zu is %02x instead of %02x", fmt_name[f], full.size(), cap, i, b[i], (uint8_t)full[i]);
    if (text && cap && b[keep] != 0) violate("not-terminated", "%s of %zu bytes in a buffer of %zu is not terminated at %zu", fmt_name[f], full.size(), cap, keep);
    if (cap) unlend(b);
    if (cap < full.size() + text) FAULT("buffer too small for the document"); else PROBE("buffer large enough");
}
static bool big_doc;
static void check_writer(const tg_geom *g, Fmt f) {
    bool text = fmt_text(f);
    size_t n = lib_write_buf(g, f, NULL, 0);
    if (n > (64u << 20)) violate("length-varies", "writing %s reports a length of %zu", fmt_name[f], n);
    uint8_t pat = 0xA5;
    uint8_t *b = (uint8_t*)lend(n + 64); memset(b, pat, n + 64);
    size_t k = lib_write_buf(g, f, b, n + 64);
    if (k != n) violate("length-varies", "%s: length %zu without a buffer, %zu with a large one", fmt_name[f], n, k);
    std::string full((char*)b, n);
    if (text && b[n] != 0) violate("not-terminated", "%s in a large buffer is not terminated", fmt_name[f]);
    if (text && full.find('\0') != std::string::npos) violate("length-varies", "%s contains a zero byte before the reported length", fmt_name[f]);
    // bytes it did not write would show the pattern
    memset(b, 0x3C, n + 64); lib_write_buf(g, f, b, n + 64);
    if (memcmp(b, full.data(), n)) violate("wrong-prefix", "%s: some bytes of the document were never written", fmt_name[f]);
    unlend(b);
    last_doc[f] = full;
    ev(hash_bytes(full.data(), n)); ev(n);
    std::vector<size_t> caps;
    if (n < 100) for (size_t i = 0; i <= n + 3; i++) caps.push_back(i);
    else {
        for (size_t i : {0, 1, 2, 3, 8, 9}) caps.push_back(i);
        for (size_t i = n - 3; i <= n + 3; i++) caps.push_back(i);
        if (f == FMT_HEX) for (size_t i = n / 2 - 2; i <= n / 2 + 2; i++) caps.push_back(i);
        if (big_doc) { caps = {0, 1, n - 1, n, n + 1}; for (size_t e = 4096; e <= 1u << 20; e *= 4) if (e + 1 < n && draw(F, 2)) caps.push_back(e + draw(F, 3) - 1); }
        for (int i = 0; i < (big_doc ? 3 : 10); i++) caps.push_back(draw(F, (uint32_t)n));
    }
    for (size_t c : caps) check_capacity(g, f, full, c, (uint8_t)(0x5A + c));
    // the client every user writes: try, grow, try again
    size_t cap = draw(F, 64); int rounds = 0;
    for (;;) {
        uint8_t *x = cap ? (uint8_t*)lend(cap) : NULL;
        size_t r = lib_write_buf(g, f, x, cap);
        bool fits = r + text <= cap;
        if (fits && memcmp(x, full.data(), n)) violate("wrong-prefix", "%s: a client that grows its buffer gets another document", fmt_name[f]);
        if (x) unlend(x);
        if (fits) break;
        cap = r + text;
        if (++rounds > 3) violate("length-varies", "%s: growing the buffer to the reported length never suffices", fmt_name[f]);
    }
    FAULT("client grew its buffer");
}
SCENARIO(C07) {
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    gen_env();
    tg_env_set_print_fixed_floats(draw(W, 3) == 2);
    big_doc = giant_turn(150);
    int n = big_doc ? 1 : range(W, 1, 4);
    for (int i = 0; i < n; i++) {
        GenCfg c; c.meta = draw(W, 2);
        uint32_t how = draw(W, 10);
        tg_geom *g = NULL;
        MGeom m;
        if (big_doc) { Giant G = gen_giant(500, 6000); m = G.m; g = (tg_geom*)build_giant(G).p; }
        else if (how == 9) { char t[300]; uint32_t k = draw(W, 299); memset(t, 'e', k); t[k] = 0; g = draw(W, 3) ? tg_geom_new_error(t) : parse_lent("POINT(1 x)", FMT_WKT, TG_NONE); PROBE("writer given an error"); }
        else {
            m = gen_geom(c);
            if (draw(W, 3) == 2) strange_coords(m, how < 5);
            if (how < 5) g = build_api(m, gen_ix(), draw(W, 256));
            else {
                Fmt f = (Fmt)draw(W, NFMT);
                std::string d = encode(m, f, draw(W, 64)); g = parse_lent(d, f, gen_ix());
                if (g && tg_geom_error(g)) violate("rejected", "a valid %s document is rejected: %s; %s", fmt_name[f], tg_geom_error(g), show(d).c_str());
            }
        }
        if (!g) violate("null-result", "building an object failed although memory is plentiful");
        note_case(hcomb(m.shape(), how));
        logf("type %d, how %u", m.type, how);
        uint64_t before = observe(g, OBS_INDEX).total();
        uint64_t mark = heap_mark();
        for (int f = 0; f < NFMT; f++) check_writer(g, (Fmt)f);
        heap_check_leaks("leak", mark, "writing");
        if (observe(g, OBS_INDEX).total() != before) violate("changed", "writing changed the geometry");
        if (!tg_geom_error(g)) {
            // hex is the binary document in digits; the base kinds have writers of their own type
            std::string h; for (uint8_t x : last_doc[FMT_WKB]) { h += "0123456789ABCDEF"[x >> 4]; h += "0123456789ABCDEF"[x & 15]; }
            if (h != last_doc[FMT_HEX]) violate("wrong-prefix", "the hex document is not the binary document in digits");
        }
        tg_geom_free(g);
    }
    // no geometry: an empty document, still inside the buffer
    if (draw(W, 8) == 7) for (int f = 0; f < NFMT; f++) for (size_t cap : {0, 1, 5}) {
        uint8_t *b = cap ? (uint8_t*)lend(cap) : NULL; if (b) memset(b, 7, cap);
        if (lib_write_buf(NULL, (Fmt)f, b, cap) != 0) violate("length-varies", "writing no geometry reports a length");
        if (b) unlend(b);
    }
    tg_env_set_print_fixed_floats(false);
    heap_check_leaks("leak", 0, "everything was released");
}

// ------------------------------------------------------------------ C08
static void check_cut(const Doc &d, size_t cut, int api, enum tg_index ix, bool oom) {
    std::string s = d.s.substr(0, cut);
    uint64_t mark = heap_mark();
    FailPlan p; if (oom) { p.mode = FAIL_KTH; p.k = draw(F, 8); heap_fail(p); }
    tg_geom *g; const char *how;
    if (api == 0) { how = "its parser"; g = parse_lent(s, d.f, ix); }
    else if (api == 1) { how = "the format-detecting parser"; g = parse_lent(s, NFMT, ix); }
    else {
        how = "the parser of terminated text"; s += '\0';
        char *z = (char*)lend_copy(s.data(), s.size());
        g = d.f == FMT_WKT ? tg_parse_wkt_ix(z, ix) : d.f == FMT_GEOJSON ? tg_parse_geojson_ix(z, ix) : tg_parse_hex_ix(z, ix);
        unlend(z);
    }
    uint64_t fired = oom ? heap_fail_fired() : 0; if (oom) heap_nofail();
    FAULT("tail of a document lost");
    if (!g) {
        if (!fired && cut) violate("false-oom", "the first %zu of %zu bytes of a %s document: %s reports exhaustion", cut, d.s.size(), fmt_name[d.f], how);
        heap_check_leaks("leak-on-failure", mark, "a rejected document");
        return;
    }
    const char *e = tg_geom_error(g);
    if (!e) violate("truncated-accepted", "the first %zu of %zu bytes of a %s document are accepted by %s: %s", cut, d.s.size(), fmt_name[d.f], how, show(d.s.substr(0, cut), 400).c_str());
    if (!*e) violate("no-message", "an error without a message");
    ev(hash_bytes(e, strlen(e)));
    tg_geom_free(g);
    char what[80]; snprintf(what, sizeof what, "rejecting the first %zu of %zu bytes of %s", cut, d.s.size(), fmt_name[d.f]);
    heap_check_leaks("leak", mark, what);
}
SCENARIO(C08) {
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    gen_env(); set_locale(draw_locale());
    int n = range(W, 1, 3);
    for (int i = 0; i < n; i++) {
        GenCfg c; c.pts_small = 5; c.pts_big = 12; c.pts_huge = 60; c.kids_huge = 40;
        bool big = giant_turn(150); Doc d;
        if (big) { Giant G = gen_giant(400, 4000); d.m = G.m; d.own = true; if (G.doc) { d.f = G.fmt; d.s = G.text; } else { d.f = (Fmt)draw(W, NFMT); d.s = encode(d.m, d.f, draw(W, 64)); } }
        else d = gen_doc(c);
        note_case(hcomb(d.m.shape(), d.f * 2 + d.own));
        if (!big && d.f == FMT_GEOBIN && draw(W, 3) == 2) {
            // a collection of documents, several levels deep
            int lv = range(W, 1, 3);
            for (int l = 0; l < lv; l++) {
                int kids = range(W, 1, 3); std::string s; s += '\4'; s += '\0'; s += '\0'; uint32_t k32 = (uint32_t)kids; s.append((char*)&k32, 4);
                for (int k = 0; k < kids; k++) { if (k && draw(W, 2)) { Doc e = gen_doc(c, FMT_GEOBIN); s += e.s; } else s += d.s; }
                d.s = s;
            }
            PROBE("nested collections of documents");
        }
        logf("%s %s", fmt_name[d.f], show(d.s, 300).c_str());
        size_t len = d.s.size();
        enum tg_index ix = gen_ix();
        // complete, it is accepted, by the same parsers
        for (int api = 0; api < 2; api++) {
            tg_geom *g = parse_lent(d.s, api ? NFMT : d.f, ix);
            if (!g) violate("false-oom", "a valid document: exhaustion is reported although memory is plentiful");
            if (tg_geom_error(g)) violate("rejected", "a valid %s document is rejected: %s", fmt_name[d.f], tg_geom_error(g));
            tg_geom_free(g);
        }
        std::vector<size_t> cuts;
        if (len <= 260) for (size_t k = 0; k < len; k++) cuts.push_back(k);
        else {
            for (size_t k = 0; k < 40; k++) cuts.push_back(k);
            for (size_t k = len - 48; k < len; k++) cuts.push_back(k);
            if (big) cuts = {0, 1, len - 1, len - 2, len / 2};
            for (int k = 0; k < (big ? 12 : 100); k++) cuts.push_back(draw(F, (uint32_t)len));
            if (big) for (int k = 0; k < 4; k++) cuts.push_back(len - 1 - draw(F, 40));
        }
        for (size_t k : cuts) {
            int api = (int)draw(F, fmt_text(d.f) ? 5 : 4); if (api == 3) api = 1; if (api == 4) api = 2;
            bool oom = draw(F, 16) == 15;
            check_cut(d, k, api, ix, oom);
            if (api != 0) check_cut(d, k, 0, ix, false);
        }
    }
    heap_check_leaks("leak", 0, "everything was released");
}

// ------------------------------------------------------------------ hostile documents
static std::string rep(const std::string &s, size_t n) { std::string r; r.reserve(s.size() * n); for (size_t i = 0; i < n; i++) r += s; return r; }
static void p32(std::string &s, uint32_t v) { s.append((char*)&v, 4); }
static void pdbl(std::string &s, double v) { s.append((char*)&v, 8); }
static std::string hexof(const std::string &b) { std::string h; for (uint8_t c : b) { h += "0123456789ABCDEF"[c >> 4]; h += "0123456789abcdef"[c & 15]; } return h; }
static const uint32_t counts[] = {0xffffffff, 0x7fffffff, 0x80000000, 0x10000000, 0x0fffffff, 0x08000001, 0x20000000, 0x15555556, 0x55555556, 1000000, 65536, 4, 1, 0};
static std::string hostile(Fmt &f) {
    uint32_t k = draw(W, 12);
    size_t depth = draw(W, 3) ? 10 + draw(W, 60) : draw(W, 2) ? 900 + draw(W, 300) : 1020 + draw(W, 9);
    if (k < 2 && draw(W, 4) == 3) depth = 20000 + draw(W, 40000);
    if (k >= 2 && k < 5 && draw(W, 6) == 5) depth = 60000 + draw(W, 140000);
    FAULT("hostile document");
    switch (k) {
    case 0: {                                                          // nested text
        f = FMT_WKT; uint32_t v = draw(W, 5);
        if (v == 0) return rep("GEOMETRYCOLLECTION(", depth) + "POINT(1 2)" + rep(")", depth);
        if (v == 1) return rep("GEOMETRYCOLLECTION(", depth);
        if (v == 2) return std::string("MULTIPOLYGON") + rep("(", depth) + "0 0,1 1,1 0,0 0" + rep(")", depth);
        if (v == 3) return "POINT" + rep("(", depth);
        return rep("GEOMETRYCOLLECTION(POINT(1 2),", depth) + "POINT(1 2)" + rep(")", depth); }
    case 1: {
        f = FMT_GEOJSON; uint32_t v = draw(W, 6);
        if (v == 0) return rep("{\"type\":\"GeometryCollection\",\"geometries\":[", depth) + "{\"type\":\"Point\",\"coordinates\":[1,2]}" + rep("]}", depth);
        if (v == 1) return "{\"type\":\"Polygon\",\"coordinates\":" + rep("[", depth) + "1,2" + rep("]", depth) + "}";
        if (v == 2) return "{\"type\":\"Point\",\"coordinates\":[1,2],\"x\":" + rep("[", depth) + rep("]", depth) + "}";
        if (v == 3) return rep("{\"type\":\"FeatureCollection\",\"features\":[", depth) + rep("]}", depth);
        if (v == 4) return rep("[", depth);
        return rep("{\"a\":", depth); }
    case 2: case 3: case 4: {                                           // nested binary
        bool bad = draw(W, 2); std::string s, h; s += '\1'; p32(s, 7); p32(s, bad ? counts[draw(W, 14)] : 1);
        std::string b = rep(s, depth);
        if (!bad || draw(W, 2)) { b += '\1'; p32(b, 1); pdbl(b, 1); pdbl(b, 2); }
        if (k == 4) { f = FMT_HEX; return hexof(b); }
        if (k == 3) { f = FMT_GEOBIN; std::string g; g += '\4'; g += '\0'; g += '\0'; p32(g, 1); if (b.size() > 100000 && draw(W, 2)) b = b.substr(0, draw(W, 10000)); return rep(g, depth) + (draw(W, 2) ? b : ""); }
        f = FMT_WKB; return b; }
    case 5: case 6: case 7: {                                           // counts that the data does not back
        f = k == 5 ? FMT_WKB : k == 6 ? FMT_HEX : FMT_GEOBIN;
        std::string b; uint32_t t = 1 + draw(W, 7); b += '\1'; p32(b, t + 1000 * draw(W, 4)); p32(b, counts[draw(W, 14)]);
        if (t == 3 && draw(W, 2)) p32(b, counts[draw(W, 14)]);
        int n = (int)draw(W, 40); for (int i = 0; i < n; i++) if (draw(W, 2)) pdbl(b, i); else { b += '\1'; p32(b, draw(W, 8)); p32(b, counts[draw(W, 14)]); }
        if (k == 6) return hexof(b);
        if (k == 7) { std::string g; uint32_t hd = 2 + draw(W, 3); g += (char)hd; int dims = (int)draw(W, 4); if (dims) dims++; g += (char)dims; for (int i = 0; i < dims * 2; i++) pdbl(g, i); if (draw(W, 3) == 2) g += "{\"a\":1}"; g += '\0'; if (hd == 4) p32(g, counts[draw(W, 14)]); return g + b; }
        return b; }
    case 8: case 9: {                                                   // very many tiny parts
        size_t n = 100 + draw(W, 900); uint32_t v = draw(W, 20);
        if (draw(W, 8) == 7) n = 2000 + draw(W, 6000);
        f = v < 5 || v >= 15 ? FMT_WKT : FMT_GEOJSON;
        if (v >= 18) {                                                  // many parts in a binary format
            std::string b, pt; pt += '\1'; p32(pt, 1); pdbl(pt, 1); pdbl(pt, 2);
            std::string ln; ln += '\1'; p32(ln, 2); p32(ln, 2); for (int i = 0; i < 4; i++) pdbl(ln, i);
            std::string rg; p32(rg, 4); for (double x : {0., 0., 0., 9., 9., 9., 0., 0.}) pdbl(rg, x);
            std::string pg; pg += '\1'; p32(pg, 3); p32(pg, 1); pg += rg;
            uint32_t t = draw(W, 7); b += '\1';
            switch (t) {
            case 0: p32(b, 4); p32(b, (uint32_t)n); b += rep(pt, n); break;
            case 1: p32(b, 5); p32(b, (uint32_t)n); b += rep(ln, n); break;
            case 2: p32(b, 6); p32(b, (uint32_t)n); b += rep(pg, n); break;
            case 3: p32(b, 7); p32(b, (uint32_t)n); b += rep(draw(W, 2) ? pt : ln, n); break;
            case 4: p32(b, 3); p32(b, (uint32_t)n); b += rep(rg, n); break;
            case 5: p32(b, 1002); p32(b, (uint32_t)n); for (size_t i = 0; i < 3 * n; i++) pdbl(b, (double)(i * 7 % 101)); break;
            default: p32(b, 4); p32(b, (uint32_t)n); b += rep(pt, n - 1); b += pt.substr(0, 9);    // the last one incomplete
            }
            uint32_t w = draw(W, 3);
            if (w == 0) { f = FMT_HEX; return hexof(b); }
            if (w == 1 || t > 3) { f = FMT_WKB; return b; }
            f = FMT_GEOBIN; std::string g; g += '\4'; g += '\0'; g += '\0'; p32(g, (uint32_t)n);
            std::string one; one += '\3'; one += '\0'; one += "{\"id\":1}"; one += '\0'; one += t == 0 ? pt : t == 1 ? ln : pg;
            return g + rep(one, n);
        }
        switch (v) {
        case 0: return "MULTIPOINT(0 0" + rep(",0 0", n) + ")";
        case 1: return "GEOMETRYCOLLECTION(POINT EMPTY" + rep(",POINT EMPTY", n) + ")";
        case 2: return "MULTILINESTRING((0 0,1 1)" + rep(",(0 0,1 1)", n) + ")";
        case 3: return "LINESTRING(0 0" + rep(",1 9,2 0", n) + ")";
        case 4: return "POLYGON((0 0,0 9,9 9,0 0)" + rep(",(0 0,0 9,9 9,0 0)", n) + ")";
        case 5: return "{\"type\":\"MultiPoint\",\"coordinates\":[[0,0]" + rep(",[0,0]", n) + "]}";
        case 6: return "{\"type\":\"LineString\",\"coordinates\":[[0,0]" + rep(",[1,9],[2,0]", n) + "]}";
        case 7: return "{\"type\":\"Point\",\"coordinates\":[1,2]" + rep(",\"a\":0", n) + "}";
        case 8: return "{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"geometry\":null}" + rep(",{\"type\":\"Feature\",\"geometry\":null,\"id\":1}", n) + "]}";
        case 9: return "{\"type\":\"GeometryCollection\",\"geometries\":[{\"type\":\"Point\",\"coordinates\":[1,2]}" + rep(",{\"type\":\"Point\",\"coordinates\":[1,2]}", n) + "]}";
        case 10: return "{\"type\":\"MultiLineString\",\"coordinates\":[[[0,0],[1,1]]" + rep(",[[1,0,3],[2,1,4]]", n) + "]}";
        case 11: return "{\"type\":\"Polygon\",\"coordinates\":[[[0,0],[1,0],[1,1],[0,0]]" + rep(",[[0,0],[1,0],[1,1],[0,0]]", n) + "]}";
        case 12: return "{\"type\":\"Feature\",\"properties\":{\"a\":0" + rep(",\"b\":[1,{}]", n) + "},\"geometry\":{\"coordinates\":[1,2],\"type\":\"Point\"}" + rep(",\"c\":\"d\"", n) + "}";
        case 13: return "{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\"properties\":{\"a\":1}}" + rep(",{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\"properties\":{\"a\":1}}", n) + "]" + rep(",\"x\":1", n) + "}";
        case 14: return "{\"type\":\"LineString\",\"coordinates\":[[0,0,1]" + rep(",[1.25,9,2]", n) + "]" + rep(",\"\\u0041\\n\":1", n) + "}";
        case 15: return "GEOMETRYCOLLECTION(POINT(1 2)" + rep(",POINT(1 2)", n) + ")";
        case 16: return "MULTIPOLYGON(((0 0,0 9,9 9,0 0))" + rep(",((0 0,0 9,9 9,0 0))", n) + ")";
        case 17: return "LINESTRING ZM(0 0 1 2" + rep(",1 9 1.5 2e3", n) + ")";
        default: return "{\"type\":\"MultiPolygon\",\"coordinates\":[[[[0,0],[1,0],[1,1],[0,0]]]" + rep(",[[[0,0],[1,0],[1,1],[0,0]]]", n) + "]}";
        } }
    default: {                                                          // rings whose coordinates try to blow up an index
        f = FMT_WKB; std::string b; b += '\1'; p32(b, 3); p32(b, 1);
        std::vector<double> xs; int n = 4 + (int)draw(W, 300); uint32_t v = draw(W, 6);
        for (int i = 0; i < n; i++) {
            double a = 6.283185307179586 * i / n, x, y;
            if (v == 0) { x = cos(a); y = sin(a); }
            else if (v == 1) { x = i; y = i & 1 ? 1e308 : -1e308; }
            else if (v == 2) { x = i & 1 ? 1e-300 : 0; y = i * 1e-310; }
            else if (v == 3) { x = i == 1 ? INFINITY : i; y = i == 2 ? NAN : i % 7; }
            else if (v == 4) { x = cos(a) * 1e160; y = sin(a) * 1e-160; }
            else { x = i % 2 ? 0 : 1e9; y = i / 2; }
            xs.push_back(x); xs.push_back(y);
        }
        xs.push_back(xs[0]); xs.push_back(xs[1]);
        p32(b, (uint32_t)xs.size() / 2); for (double x : xs) pdbl(b, x);
        return b; }
    }
}
// a document that is sound byte by byte, but one part of a collection does not fit the others: it has other
// dimensions, it is empty, or (in the binary formats) it is of another type
static bool misfit(MGeom &m, Fmt f) {
    if (m.type == TG_GEOMETRYCOLLECTION) { for (int t = 0; t < 4 && !m.kids.empty(); t++) if (misfit(m.kids[draw(W, (uint32_t)m.kids.size())], f)) return true; return false; }
    if (!m.multi() || m.kids.empty()) return false;
    size_t n = m.kids.size(); MGeom &k = m.kids[draw(W, 3) ? draw(W, (uint32_t)n) : n - 1];
    uint32_t v = draw(W, 8);
    if (v == 6) { k.empty = true; k.z = k.m = false; k.parts.clear(); }
    else if (v == 7 && !fmt_text(f)) { GenCfg c; c.pts_big = 8; c.pts_huge = 12; bool z = k.z, mm = k.m; k = gen_geom(c, 1 + (m.type - 3) % 3); if (!k.empty) k.z = z, k.m = mm; }
    else { uint32_t b = 1 + draw(W, 3); k.z ^= b & 1; k.m ^= b >> 1; }
    return true;
}
static std::string gen_bytes(Fmt &f, bool &valid) {
    valid = false;
    uint32_t k = draw(W, 8);
    if (k == 6 && draw(W, 3) == 0) {
        f = (Fmt)draw(W, NFMT); GenCfg c; c.empties = false; c.pts_huge = 40;
        MGeom m = gen_geom(c, 4 + (int)draw(W, 4));
        if (misfit(m, f)) { FAULT("a part does not fit its collection"); return encode(m, f, draw(W, 64)); }
    }
    if (k == 7) return hostile(f);
    if (k == 5 && giant_turn(40)) {
        Giant G = gen_giant(400, 3000); f = G.doc ? G.fmt : (Fmt)draw(W, NFMT); std::string s = G.doc ? G.text : encode(G.m, f, draw(W, 64));
        int nf = (int)draw(F, 3); damage(s, nf, f); valid = nf == 0; return s;
    }
    if (k == 6 && draw(W, 3) == 2) { f = (Fmt)draw(W, NFMT); std::string s; int n = (int)draw(W, 60); for (int i = 0; i < n; i++) s += (char)draw(W, 256); return s; }
    GenCfg c;
    Doc d = gen_doc(c); f = d.f;
    if (draw(W, 8) == 7) { Doc e = gen_doc(c); size_t a = draw(W, (uint32_t)d.s.size() + 1), b = draw(W, (uint32_t)e.s.size() + 1); d.s = d.s.substr(0, a) + e.s.substr(b); FAULT("tail of another document"); return d.s; }
    int nf = (int)draw(F, 5);
    bool odd = d.f <= FMT_GEOJSON && draw(F, 5) == 4; if (odd) odd_token(d.s, d.f);
    damage(d.s, nf, d.f);
    valid = nf == 0 && !odd;
    return d.s;
}

// ------------------------------------------------------------------ C09
static bool small_enough(const tg_geom *g) { return tg_geom_memsize(g) < 60000; }
static uint64_t quick_raw(const std::string &s) {
    uint8_t *b = (uint8_t*)lend_copy(s.data(), s.size());
    double *mn = (double*)lend(32), *mx = (double*)lend(32);
    for (int i = 0; i < 4; i++) mn[i] = mx[i] = -7;
    int n = tg_geobin_fullrect(b, s.size(), mn, mx);
    if (n < 0 || n > 4 || n == 1) violate("quick-reader", "the quick reader returns %d dimensions", n);
    uint64_t h = n; for (int i = 0; i < n; i++) h = hcomb(h, hash_bytes(&mn[i], 8) + hash_bytes(&mx[i], 8));
    for (int i = n; i < 4; i++) if (mn[i] != -7 || mx[i] != -7) violate("quick-reader", "the quick reader changes dimension %d although it returns %d", i, n);
    tg_rect r = tg_geobin_rect(b, s.size()); tg_point p = tg_geobin_point(b, s.size());
    h = hcomb(hcomb(h, hash_bytes(&r, sizeof r)), hash_bytes(&p, sizeof p));
    unlend(mn); unlend(mx); unlend(b);
    return h;
}
// GeoBIN has no place for the difference between a missing geometry and an empty point, and
// between missing and empty properties
static std::string norm_geojson(std::string s) {
    auto sub = [&](const char *a, const char *b) { size_t n = strlen(a), m = strlen(b); for (size_t i = 0; (i = s.find(a, i)) != std::string::npos; i += m) s.replace(i, n, b); };
    sub("\"geometry\":null", "\"geometry\":{\"type\":\"Point\",\"coordinates\":[]}"); sub("\"properties\":null", "\"properties\":{}");
    return s;
}
static std::string same_geom(const tg_geom *a, const tg_geom *b) {
    Obs x = observe(a, OBS_WRITERS), y = observe(b, OBS_WRITERS);
    for (auto *o : {&x, &y}) { std::string j = norm_geojson(lib_write(o == &x ? a : b, FMT_GEOJSON)); for (auto &e : o->s) if (!strcmp(e.first, fmt_name[FMT_GEOJSON])) e.second = hash_bytes(j.data(), j.size()); }
    return diff_obs(x, y);
}
// read again with the same index setting: where a coordinate is NaN, or zeros of both signs meet, the
// box depends on the order in which the points are visited (other settings: C10)
static void use_accepted(tg_geom *g, enum tg_index ix, const char *what) {
    std::string d = wellformed(g);
    if (!d.empty()) violate("malformed", "%s was accepted as a malformed geometry: %s", what, d.c_str());
    Obs o = observe(g, OBS_WRITERS | OBS_INDEX);
    ev(o.total());
    if (small_enough(g)) {
        // everything that can be asked of a geometry, against itself and others
        Handle h = {HK_GEOM, g};
        ev(h_observe(h, OBS_PRED).total());
        GenCfg c; c.pts_big = 12; c.pts_huge = 40; c.kids_huge = 12; c.meta = false;
        MGeom m = gen_geom(c); tg_geom *q = build_api(m, gen_ix(), draw(W, 256));
        if (!q) violate("null-result", "building an object failed although memory is plentiful");
        uint64_t r = 0;
        for (auto f : {tg_geom_intersects, tg_geom_covers, tg_geom_contains, tg_geom_touches, tg_geom_equals, tg_geom_within, tg_geom_coveredby, tg_geom_disjoint}) r = r * 4 + f(g, q) * 2 + f(q, g);
        ev(r);
        tg_geom_free(q);
        OpCfg oc; oc.mask = 1 << OP_XYRECT | 1 << OP_SEARCH | 1 << OP_PAIRS | 1 << OP_NEAREST | 1 << OP_COPY | 1 << OP_CLONE | 1 << OP_PRED | 1 << OP_NEW;
        g_op_obs = OBS_INDEX;
        int n = (int)draw(W, 4);
        for (int i = 0; i < n; i++) { Op op = gen_op(1, oc); ev(run_op(op, {h}).h); }
    }
    // lossless binary formats
    std::string gb = lib_write(g, FMT_GEOBIN), wk = lib_write(g, FMT_WKB);
    tg_geom *a = parse_lent(gb, FMT_GEOBIN, ix);
    if (!a || tg_geom_error(a)) violate("not-reparsable", "%s was accepted, but what is written as geobin is rejected: %s; %s", what, a ? tg_geom_error(a) : "exhaustion", show(gb, 300).c_str());
    d = same_geom(a, g);
    if (!d.empty()) {
        std::string x = lib_write(g, FMT_GEOJSON), y = lib_write(a, FMT_GEOJSON); size_t k = 0; while (k < x.size() && k < y.size() && x[k] == y[k]) k++;
        k = k < 60 ? 0 : k - 60;
        if (g_verbose) { std::string p = lib_write(g, FMT_GEOBIN), q = lib_write(a, FMT_GEOBIN); for (size_t i = 0; i < std::max(p.size(), q.size()); i++) if (i >= p.size() || i >= q.size() || p[i] != q[i]) logf("geobin byte %zu: %02x against %02x", i, i < p.size() ? (uint8_t)p[i] : 0, i < q.size() ? (uint8_t)q[i] : 0); }
        violate("reparse-differs", "%s was accepted, but after writing and reading geobin it differs in %s: ...%s against ...%s", what, d.c_str(), show(x.substr(k), 200).c_str(), show(y.substr(k), 200).c_str());
    }
    if (quick_raw(gb) == 1) PROBE("never");
    double *mn = (double*)lend(32), *mx = (double*)lend(32), *qn = (double*)lend(32), *qx = (double*)lend(32);
    int n1 = tg_geom_fullrect(g, mn, mx), n2 = tg_geobin_fullrect((const uint8_t*)gb.data(), gb.size(), qn, qx);
    if (n1 != n2) violate("quick-reader", "the geometry has a box of %d dimensions, the quick reader says %d", n1, n2);
    for (int i = 0; i < n1; i++) if (memcmp(&mn[i], &qn[i], 8) || memcmp(&mx[i], &qx[i], 8)) violate("quick-reader", "dimension %d of the box: geometry %g..%g, quick reader %g..%g", i, mn[i], mx[i], qn[i], qx[i]);
    unlend(mn); unlend(mx); unlend(qn); unlend(qx);
    tg_geom_free(a);
    a = parse_lent(wk, FMT_WKB, ix);
    if (!a || tg_geom_error(a)) violate("not-reparsable", "%s was accepted, but what is written as wkb is rejected: %s", what, a ? tg_geom_error(a) : "exhaustion");
    if (lib_write(a, FMT_WKB) != wk) violate("reparse-differs", "%s was accepted, but after writing and reading wkb it is written differently", what);
    tg_geom_free(a);
}
SCENARIO(C09) {
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    gen_env(); set_locale(draw_locale());
    int n = range(W, 1, 6);
    for (int i = 0; i < n; i++) {
        Fmt f; bool valid; std::string s = gen_bytes(f, valid);
        int parser = draw(F, 8) == 7 ? (int)draw(F, NFMT + 1) : draw(F, 3) == 2 ? (int)NFMT : (int)f;
        note_case(hcomb(hash_bytes(s.data(), std::min<size_t>(s.size(), 24)), s.size() / 4));
        logf("%s (parser %d) %zu bytes: %s", fmt_name[f], parser, s.size(), show(s, 300).c_str());
        ev(quick_raw(s));
        uint64_t mark = heap_mark();
        bool oom = draw(F, 10) == 9; FailPlan p; p.mode = draw(F, 3) ? FAIL_KTH : FAIL_FROM; p.k = draw(F, 12);
        enum tg_index ix = gen_ix();
        if (oom) heap_fail(p);
        tg_geom *g = parse_lent(s, parser, ix);
        uint64_t fired = oom ? heap_fail_fired() : 0; heap_nofail();
        if (!g) { if (!fired) violate("false-oom", "exhaustion is reported although memory is plentiful"); heap_check_leaks("leak-on-failure", mark, "a parser"); continue; }
        const char *e = tg_geom_error(g);
        if (e) {
            if (!*e) violate("no-message", "an error without a message");
            if (valid && !fired && (parser == f || parser == NFMT)) violate("rejected", "a valid %s document is rejected: %s", fmt_name[f], e);
            ev(hash_bytes(e, strlen(e))); PROBE("damaged document rejected");
            tg_geom_free(g);
        } else {
            char what[64]; snprintf(what, sizeof what, "a %s%s document", valid ? "valid " : "damaged ", fmt_name[f]);
            if (!valid) PROBE("damaged document accepted as something sound");
            use_accepted(g, ix, what);
            tg_geom_free(g);
        }
        heap_check_leaks("leak", mark, "a parser and the release of its result");
    }
    heap_check_leaks("leak", 0, "everything was released");
}

// ------------------------------------------------------------------ C11
static size_t nesting(const std::string &s, Fmt f) {
    if (f == FMT_WKB || f == FMT_GEOBIN) return 0;                       // one visit per byte whatever the depth
    size_t d = 0, m = 0; for (char c : s) { if (c == '(' || c == '[' || c == '{') m = std::max(m, ++d); else if ((c == ')' || c == ']' || c == '}') && d) d--; }
    return std::min<size_t>(m, 1030);
}
SCENARIO(C11) {
    gen_env(); set_locale(draw_locale());
    int n = range(W, 1, 4);
    for (int i = 0; i < n; i++) {
        Fmt f; bool valid; std::string s;
        if (giant_turn(200)) { Giant G = gen_giant(2000, 30000); f = G.doc ? G.fmt : (Fmt)draw(W, NFMT); s = G.doc ? G.text : encode(G.m, f, draw(W, 64)); if (draw(F, 3) == 2) damage(s, 1, f); }
        else if (draw(W, 2)) s = hostile(f); else s = gen_bytes(f, valid);
        int parser = draw(F, 3) == 2 ? (int)NFMT : (int)f;
        enum tg_index ix = gen_ix();
        note_case(hcomb(hash_bytes(s.data(), std::min<size_t>(s.size(), 24)), s.size() / 4));
        logf("%s (parser %d) %zu bytes: %s", fmt_name[f], parser, s.size(), show(s, 300).c_str());
        uint64_t len = s.size() + 1, depth = nesting(s, f);
        uint64_t mem = 100 * len + 8192, work = len * (depth + 40) * 6 + 20000;
        heap_reset();
        g_live_cap = mem;                                                // more than this is refused, and noticed below
        uint64_t t0 = steps_now();
        void *p = lend_copy(s.data(), s.size());
        HeapStat before = g_heap;
        step_limit(work);
        tg_geom *g = parser == NFMT ? tg_parse_ix(p, s.size(), ix) : lib_parse(p, s.size(), (Fmt)parser, ix);
        step_limit(0);
        uint64_t used = steps_now() - t0;
        uint64_t peak = g_heap.peak_bytes, req = g_heap.max_req;
        (void)before;
        ev(peak); ev(req); ev(used);
        if (g_verbose) logf("  peak %.1f, largest %.1f per byte, work %.2f per unit%s", (double)peak / len, (double)req / len, (double)used / (len * (depth + 40)), g && tg_geom_error(g) ? " (rejected)" : "");
        uint64_t moved = g_heap.moved_bytes; ev(moved);
        if (g_verbose) logf("  moved %.2f per byte", (double)moved / len);
        if (moved > 256 * len + 65536) violate("work", "parsing %llu bytes of %s moved %llu bytes while growing blocks", (unsigned long long)len - 1, fmt_name[f], (unsigned long long)moved);
        if (peak > mem) violate("memory", "parsing %llu bytes of %s held %llu bytes", (unsigned long long)len - 1, fmt_name[f], (unsigned long long)peak);
        if (req > mem) violate("memory", "parsing %llu bytes of %s asked for a block of %llu bytes", (unsigned long long)len - 1, fmt_name[f], (unsigned long long)req);
        if (!g && len > 1) violate("false-oom", "exhaustion is reported although no unreasonable amount of memory was asked for");
        unlend(p);
        if (g) {
            // what is kept is bounded too
            if (g_heap.live_bytes > mem) violate("memory", "a geometry of %llu bytes of %s holds %llu bytes", (unsigned long long)len - 1, fmt_name[f], (unsigned long long)g_heap.live_bytes);
            tg_geom_free(g);
        }
        heap_check_leaks("leak", 0, "a parser and the release of its result");
        g_live_cap = 768ull << 20;
        FAULT("parsed under a limit on memory and work");
    }
}
