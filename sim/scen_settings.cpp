// C14 settings: what they act on, and what they leave alone.
#include "ops.h"
#include <algorithm>

// not in tg.h; used where they are there
extern "C" {
enum tg_index tg_index_with_spread(enum tg_index ix, int spread) __attribute__((weak));
enum tg_index tg_env_get_default_index(void) __attribute__((weak));
int tg_env_get_index_spread(void) __attribute__((weak));
}
namespace {
struct Sett { enum tg_index ix = TG_NATURAL; int spread = 16; bool fixed = false; };
enum { ACT_INDEX, ACT_SPREAD, ACT_FIXED, ACT_BUILD, ACT_OP, ACT_COPY, ACT_FREE };
struct Act { int kind; int v = 0; ObjSpec s; Op o; uint32_t k = 0; FailPlan p; bool fail = false; };

void apply(const Sett &s) { tg_env_set_index(s.ix); tg_env_set_index_spread(s.spread); tg_env_set_print_fixed_floats(s.fixed); }
const int TEXT = 1, REST = 2;
// the text of numbers follows the setting of the moment, everything else the object
uint64_t look(Handle h, int part) {
    Obs o = h_observe(h, part == TEXT ? OBS_WRITERS : OBS_WRITERS | OBS_INDEX | OBS_MEMSIZE | OBS_PRED | OBS_SEARCH);
    uint64_t r = 1;
    for (auto &x : o.s) { bool t = !strcmp(x.first, fmt_name[FMT_WKT]) || !strcmp(x.first, fmt_name[FMT_GEOJSON]); if (t == (part == TEXT)) r = hcomb(r, x.second); }
    if (part == REST) {
        Op q; q.kind = OP_NEAREST; q.rect = tg_rect{{1, 2}, {3, 4}}; q.v = 0x0101; q.stop = 12; r = hcomb(r, run_op(q, {h}).h);
        q = Op(); q.kind = OP_PAIRS; q.v = 1; q.w = 0x100; q.stop = 40; r = hcomb(r, run_op(q, {h}).h);
    }
    return r;
}
struct Look { uint64_t rest = 0, text[2] = {0, 0}; };
Look look_all(Handle h, Sett s) {
    Look l; l.rest = look(h, REST);
    for (int f = 0; f < 2; f++) { tg_env_set_print_fixed_floats(f); l.text[f] = look(h, TEXT); }
    tg_env_set_print_fixed_floats(s.fixed);
    return l;
}
// the index of a single series is the one asked for
void check_index(const ObjSpec &s, Handle h, const Sett &st) {
    if (s.kind != 4 && s.kind != 5) return;
    int sp = st.spread; enum tg_index ix = s.ix;
    if (ix == TG_DEFAULT) ix = st.ix;
    const tg_ring *r = (const tg_ring*)h.p;
    int lv = tg_ring_index_num_levels(r), np = (int)s.pts.size();
    if (ix == TG_NONE && lv) violate("wrong-index", "a series made without an index has one of %d level(s)", lv);
    if (ix != TG_NONE && !lv && np >= 4 * sp) violate("wrong-index", "a series of %d points made with an index of spread %d has none", np, sp);
    if (lv && tg_ring_index_spread(r) != sp) violate("wrong-index", "a series made with spread %d has an index with spread %d", sp, tg_ring_index_spread(r));
}
}

SCENARIO(C14) {
    if (giant_turn(60)) { c14_giant(); return; }
    g_op_obs = OBS_INDEX | OBS_MEMSIZE;
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    static const int spreads[] = {16, 2, 3, 4, 8, 32, 1024, 4096, 1, 0, -5, 4097, 100000};
    GenCfg g; g.meta = true;
    OpCfg oc; oc.g = GenCfg();
    std::vector<Act> acts; uint64_t cs = 1;
    int n = range(W, 4, 18), builds = 0;
    for (int i = 0; i < n; i++) {
        Act a; uint32_t k = draw(W, 12);
        a.kind = !builds && k > 3 ? ACT_BUILD : k <= 0 ? ACT_FIXED : k == 1 ? ACT_INDEX : k <= 3 ? ACT_SPREAD : k <= 6 ? ACT_BUILD : k <= 8 ? ACT_OP : k <= 10 ? ACT_COPY : ACT_FREE;
        switch (a.kind) {
        case ACT_INDEX: a.v = (int)draw(W, 6); break;
        case ACT_SPREAD: a.v = spreads[draw(W, 13)]; break;
        case ACT_FIXED: a.v = (int)draw(W, 2); break;
        case ACT_BUILD: a.s = gen_spec(g, true); if (draw(W, 2)) a.s.ix = TG_DEFAULT; builds++; break;
        case ACT_OP: a.o = gen_op(4, oc); if (draw(F, 4) == 3) { a.fail = true; a.p.mode = FAIL_KTH; a.p.k = draw(F, 8); } break;
        default: a.k = draw(W, 64);
        }
        cs = hcomb(cs, hcomb(a.kind, a.kind == ACT_BUILD ? a.s.kind : a.v));
        acts.push_back(a);
    }
    note_case(cs);
    // what each object is like in a process that knows only the settings it was made under
    std::vector<Look> want; Sett st;
    for (auto &a : acts) {
        if (a.kind == ACT_INDEX) { if (a.v == TG_NONE || a.v == TG_NATURAL || a.v == TG_YSTRIPES) st.ix = (enum tg_index)a.v; }
        else if (a.kind == ACT_SPREAD) { if (a.v >= 2 && a.v <= 4096) st.spread = a.v; }
        else if (a.kind == ACT_FIXED) st.fixed = a.v;
        else if (a.kind == ACT_BUILD) {
            lib_reset(); apply(st);
            Handle h = build_spec(a.s);
            if (!h.p) violate("null-result", "building an object failed although memory is plentiful");
            check_index(a.s, h, st);
            want.push_back(look_all(h, st));
            h_free(h);
            if (tg_index_with_spread && a.s.ix == TG_DEFAULT && st.spread > 2 && draw(F, 2)) {
                // asking for the same index explicitly, in a process with the initial settings
                lib_reset();
                ObjSpec e = a.s; e.ix = tg_index_with_spread(st.ix, st.spread);
                h = build_spec(e);
                if (!h.p) violate("null-result", "building an object failed although memory is plentiful");
                if (look(h, REST) != want.back().rest) violate("default-differs", "an object made with the default index differs from one made with the same index asked for explicitly");
                h_free(h); PROBE("default compared with explicit index");
            }
        }
    }
    // the history
    lib_reset();
    st = Sett(); std::vector<Handle> w; std::vector<Look> ob; size_t nb = 0;
    auto check = [&](const char *what, bool all) {
        if (tg_env_get_default_index && tg_env_get_default_index() != st.ix) violate("setting-lost", "the default index is %d instead of %d after %s", (int)tg_env_get_default_index(), (int)st.ix, what);
        if (tg_env_get_index_spread && tg_env_get_index_spread() != st.spread) violate("setting-lost", "the index spread is %d instead of %d after %s", tg_env_get_index_spread(), st.spread, what);
        for (size_t i = 0; i < w.size(); i++) {
            if (!all && i + 1 != w.size() && draw(F, 3)) continue;
            if (look(w[i], REST) != ob[i].rest) violate("object-changed", "an object made earlier is another one after %s", what);
            if (look(w[i], TEXT) != ob[i].text[st.fixed]) violate("text-differs", "an object is written differently after %s", what);
        }
    };
    for (auto &a : acts) switch (a.kind) {
    case ACT_INDEX:
        tg_env_set_index((enum tg_index)a.v); if (a.v == TG_NONE || a.v == TG_NATURAL || a.v == TG_YSTRIPES) st.ix = (enum tg_index)a.v;
        FAULT("setting changed while objects are alive"); logf("default index %d", a.v); check("the default index was set", true); break;
    case ACT_SPREAD:
        tg_env_set_index_spread(a.v); if (a.v >= 2 && a.v <= 4096) st.spread = a.v; else PROBE("spread out of range");
        FAULT("setting changed while objects are alive"); logf("index spread %d", a.v); check("the index spread was set", true); break;
    case ACT_FIXED:
        tg_env_set_print_fixed_floats(a.v); st.fixed = a.v;
        FAULT("setting changed while objects are alive"); logf("fixed floats %d", a.v); check("fixed float printing was set", true); break;
    case ACT_BUILD: {
        Handle h = build_spec(a.s); logf("build, kind %u, index %d", a.s.kind, (int)a.s.ix);
        if (!h.p) violate("null-result", "building an object failed although memory is plentiful");
        check_index(a.s, h, st);
        const Look &l = want[nb++];
        if (look(h, REST) != l.rest) violate("history-matters", "an object differs from the same object made in a process that had only the current settings");
        if (look(h, TEXT) != l.text[st.fixed]) violate("history-matters", "an object is written differently from the same object made in a process that had only the current settings");
        ev(l.rest); w.push_back(h); ob.push_back(l); break; }
    case ACT_OP: {
        if (w.size() < 1) break;
        std::vector<Handle> v; for (int i = 0; i < 4; i++) v.push_back(w[i % w.size()]);
        logf("%s", op_text(a.o).c_str());
        if (a.fail) heap_fail(a.p);
        OpRes r = run_op(a.o, v, true);
        if (a.fail) { if (heap_fail_fired()) FAULT("allocation failed between changes of settings"); heap_nofail(); }
        if (r.made && r.obj.p) {
            if (tg_geom_error(h_geom(r.obj)) || w.size() > 8) h_free(r.obj);
            else { w.push_back(r.obj); ob.push_back(look_all(r.obj, st)); }
        }
        check(op_name[a.o.kind], false); break; }
    case ACT_COPY: {
        if (w.empty() || w.size() > 9) break;
        size_t k = a.k % w.size(); Handle h = h_copy(w[k]); logf("copy %zu", k);
        if (!h.p) violate("null-result", "copy returned nothing although memory is plentiful");
        w.push_back(h); ob.push_back(ob[k]); check("it was copied under other settings", false); PROBE("copied under other settings"); break; }
    case ACT_FREE:
        if (w.size() > 1) { size_t k = a.k % w.size(); h_free(w[k]); w.erase(w.begin() + k); ob.erase(ob.begin() + k); }
        break;
    }
    check("the whole history", true);
    for (auto &h : w) h_free(h);
    heap_check_leaks("leak", 0, "everything was released");
}
