// A catalogue of library calls used by several scenarios: every operation is generated up front
// from the workload stream and is a pure function of its arguments, so it can be run again under
// other conditions (failing allocations, other threads, other memory contents) and compared.
#pragma once
#include "model.h"

enum HKind { HK_GEOM, HK_RING, HK_LINE, HK_POLY };
struct Handle { HKind k = HK_GEOM; void *p = nullptr; };
Handle h_clone(Handle h);
Handle h_copy(Handle h);
void   h_free(Handle h);
Obs    h_observe(Handle h, int what);
const tg_geom *h_geom(Handle h);           // upcast
const tg_ring *h_pick_ring(Handle h, uint32_t sel);   // some ring inside, or NULL
const tg_line *h_pick_line(Handle h, uint32_t sel);   // some line inside, or NULL
const tg_poly *h_pick_poly(Handle h, uint32_t sel);   // some polygon inside, or NULL

struct WorldCfg { int n_lo = 2, n_hi = 5; GenCfg g; bool parsed = true; };
struct World { std::vector<Handle> h; };
World gen_world(const WorldCfg &c);
void  free_world(World &w);
// an object described by value, so that it can be built again
struct ObjSpec { uint32_t kind = 0; MGeom m; std::vector<tg_point> pts; enum tg_index ix = TG_DEFAULT; uint32_t var = 0; std::string doc; Fmt fmt = FMT_WKT; };
ObjSpec gen_spec(const GenCfg &g, bool parsed);
Handle build_spec(const ObjSpec &s);
Handle gen_handle(const GenCfg &g, bool parsed);

enum OpKind { OP_OBSERVE, OP_PRED, OP_XYRECT, OP_SEARCH, OP_PAIRS, OP_NEAREST, OP_PARSE, OP_NEW, OP_CLONE, OP_COPY, OP_WRITE, OP_QUICK, OP_NEWERR, OP_RAWNEW, NOPS };
extern const char *op_name[NOPS];
struct Op {
    int kind = 0;
    uint32_t a = 0, b = 0, c = 0;         // world objects
    uint32_t v = 0, w = 0;                // variant selectors
    int fmt = 0; enum tg_index ix = TG_DEFAULT;
    tg_rect rect = {};
    std::string doc;
    std::vector<tg_point> pts;
    std::vector<double> ex;
    int stop = -1;
};
enum { OPM_ALLOC = 1 << OP_PARSE | 1 << OP_NEW | 1 << OP_COPY | 1 << OP_NEAREST | 1 << OP_RAWNEW | 1 << OP_NEWERR,
       OPM_ALL = (1 << NOPS) - 1 };
struct OpCfg { uint32_t mask = OPM_ALL; GenCfg g; bool bad_docs = true; };
Op gen_op(size_t nworld, const OpCfg &c);

struct OpRes { uint64_t h = 0; bool oom = false; bool made = false; Handle obj; bool is_new = false; };
// optional hooks around the library call proper (not around the observation of its result)
extern void (*op_call_begin)(void);
extern void (*op_call_end)(void);
extern int g_op_obs;                      // what run_op observes of a created object
// what the last OP_NEW was composed of: (world object, pointer of the part)
extern std::vector<std::pair<uint32_t, const void*>> g_op_parts;
// when set, OP_PARSE reads its document from this buffer (a client that reuses its I/O buffer)
extern char *g_op_doc_buf; extern size_t g_op_doc_cap;
// runs the operation; the created object, if any, is observed and freed unless keep is set
OpRes run_op(const Op &op, const std::vector<Handle> &world, bool keep = false);
std::string op_text(const Op &op);
// corrupt or cut a document (faults drawn from the F stream)
void damage(std::string &doc, int nfaults, Fmt f);
void odd_token(std::string &doc, Fmt f);   // WKT or GeoJSON

// very large objects, beyond the sizes the other generators reach (scen_giant.cpp)
struct Giant { int kind = 0, n = 0; enum tg_index ix = TG_DEFAULT; uint64_t seed = 0; MGeom m; bool doc = false; Fmt fmt = FMT_WKT; std::string text; uint32_t var = 0; };
bool giant_turn(uint32_t one_in);          // whether this run is about a very large object
Giant gen_giant(int lo, int hi);
Handle build_giant(const Giant &g);        // p is NULL only if memory ran out
std::vector<Handle> giant_probes(const Giant &g);
// the answers to a set of questions, none of which needs memory
enum { GL_OBSERVE = 1, GL_SEARCH = 2, GL_PRED = 4, GL_WRITE = 8, GL_ALL = 15 };
uint64_t giant_look(Handle h, const Giant &g, const std::vector<Handle> &probes, int what = GL_ALL);
void c01_giant(void); void c03_giant(void); void c04_giant(void); void c12_giant(void); void c13_giant(void); void c14_giant(void);
