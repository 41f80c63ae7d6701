// Reference model of a geometry (independent of the library), its generator, builders through the
// API, encoders for the five formats, and the comparison of a library geometry with the model.
#pragma once
#include "core.h"
extern "C" {
#include "tg.h"
}

struct MPos { double v[4]; };
typedef std::vector<MPos> MLine;
typedef std::vector<std::pair<std::string, std::string>> Members;     // key (raw JSON string), value (raw JSON)

struct MGeom {
    int type = TG_POINT;
    bool z = false, m = false;
    bool empty = false;                 // explicit EMPTY point/line/polygon (no coordinates)
    std::vector<MLine> parts;           // point: 1 part of 1; line: 1 part; polygon: rings
    std::vector<MGeom> kids;            // multi* and collection
    // GeoJSON metadata
    bool feature = false, unlocated = false, featcol = false;
    Members fextra;                     // members of the feature besides type/geometry (id, properties, foreign)
    Members gextra;                     // foreign members of the geometry object (or of the feature collection)
    int dims() const { return 2 + z + m; }
    bool multi() const { return type >= TG_MULTIPOINT; }
    bool is_empty() const;
    uint64_t shape() const;             // structural hash (no coordinates)
    size_t npos() const;
};

struct GenCfg {
    int coords = -1;                    // coordinate style, -1: drawn
    int kids_small = 3, kids_big = 10, kids_huge = 90;
    int indexed = 10;                   // one collection in so many has 64 or more children and an index of its own (0: none)
    int pts_small = 6, pts_big = 40, pts_huge = 160;
    int depth = 2;                      // nesting of collections
    bool meta = false;                  // features and extra members
    bool empties = true;
    bool extras = true;                 // z/m
};
MGeom gen_geom(const GenCfg &c, int only_type = 0);
std::vector<tg_point> gen_ring_points(int style, int n, int kind);
std::vector<tg_point> gen_line_points(int style, int n);
int gen_style();
double gen_coord(int style);
std::string gen_json_value(int depth);
tg_rect gen_rect(int style);
enum tg_index gen_ix();

// building through the constructors; NULL only if memory ran out
tg_geom *build_api(const MGeom &m, enum tg_index ix, uint32_t variant);

enum Fmt { FMT_WKT = 0, FMT_GEOJSON, FMT_WKB, FMT_HEX, FMT_GEOBIN, NFMT };
extern const char *fmt_name[NFMT];
// independent encoders
std::string enc_wkt(const MGeom &m, uint32_t style = 0);
std::string enc_geojson(const MGeom &m, uint32_t style = 0);
std::string enc_wkb(const MGeom &m, uint32_t style = 0);              // bit 0: big endian, bit 1: with SRID, bit 3: every other child in the other byte order, bits 4-5: dimensions claimed by collections
std::string enc_geobin(const MGeom &m);
std::string encode(const MGeom &m, Fmt f, uint32_t style = 0);
// the library's writers and readers
std::string lib_write(const tg_geom *g, Fmt f);
size_t lib_write_buf(const tg_geom *g, Fmt f, void *dst, size_t n);
tg_geom *lib_parse(const void *p, size_t n, Fmt f, enum tg_index ix);  // p is lent or NUL-terminated as needed
tg_geom *parse_lent(const std::string &doc, int f, enum tg_index ix);  // f==NFMT: auto detection; exact-size lent copy
inline bool fmt_text(Fmt f) { return f == FMT_WKT || f == FMT_GEOJSON || f == FMT_HEX; }

// what of a model geometry survives format f
MGeom project(const MGeom &m, Fmt f);
// compare; returns "" or a description of the first difference
std::string diff_model(const tg_geom *g, const MGeom &m, bool signed_zero, bool meta);

// everything observable about a geometry, as labelled hashes
struct Obs {
    std::vector<std::pair<const char*, uint64_t>> s;
    void add(const char *l, uint64_t h) { s.push_back({l, h}); }
    uint64_t total() const { uint64_t h = 1; for (auto &x : s) h = hcomb(h, x.second); return h; }
    bool operator==(const Obs &o) const { return s == o.s; }
};
enum { OBS_WRITERS = 1, OBS_INDEX = 2, OBS_MEMSIZE = 4, OBS_PRED = 8, OBS_SEARCH = 16, OBS_ALL = 31 };
Obs observe(const tg_geom *g, int what = OBS_WRITERS | OBS_INDEX);
std::string diff_obs(const Obs &a, const Obs &b);
// geometry is well formed (see C09); "" or a description
std::string wellformed(const tg_geom *g);
std::string show(const std::string &s, size_t max = 120);
