// C18 replicas of one program, each on another build of the library, give the same answers.
#include "ops.h"
#include <cmath>

namespace {
FailPlan plan_now; uint64_t fired_now, requests_now;
void begin() { heap_fail(plan_now); }
void end() { requests_now += heap_fail_requests(); fired_now += heap_fail_fired(); heap_nofail(); }
struct Step { Op op; bool keep = false, restart = false; Fmt fmt = FMT_GEOBIN; enum tg_index ix = TG_DEFAULT; FailPlan plan; bool fail = false; };
struct Env { enum tg_index ix; int spread; bool fixed; };
void configure(const Env &e) { tg_env_set_index(e.ix); tg_env_set_index_spread(e.spread); tg_env_set_print_fixed_floats(e.fixed); }
// The last variant has index rectangles of another width: what shows them is left out, and so are coordinates of
// extreme magnitude, whose products overflow or vanish (see C17).
int wide() { return variants() - 1; }

// numbers from all corners of the format, through the constructors, the text writers and back through the text readers
double number() {
    uint64_t bits = draw64(W); double x;
    switch (draw(W, 9)) {
    case 0: memcpy(&x, &bits, 8); return x;                                                                 // any bits, NaN and infinities among them
    case 1: bits &= 0x800fffffffffffffull; bits |= (uint64_t)(1023 + range(W, 30, 75)) << 52; if (draw(W, 2)) bits &= ~0ull << draw(W, 52); break;   // about 2 to the 53rd
    case 2: return std::ldexp(draw(W, 2) ? 1.0 : -1.0, range(W, -1074, 1023));                              // powers of two
    case 3: bits &= 0x8000000000000000ull | draw(W, 64); break;                                             // the smallest
    case 4: x = (double)(bits >> range(W, 1, 63)) * std::pow(10, (int)draw(W, 24)); return x;               // trailing zeros
    case 5: x = (double)(int64_t)(bits >> range(W, 20, 60)) / std::pow(10, (int)draw(W, 20)); return draw(W, 2) ? x : -x;   // few digits
    case 6: x = std::pow(10, range(W, -30, 30)); for (int k = (int)draw(W, 4); k; k--) x = std::nextafter(x, draw(W, 2) ? 0 : 1e300); return x;
    case 7: { static const double v[] = {0, 1.7976931348623157e308, 2.2250738585072014e-308, 9007199254740992.0, 9007199254740991.0, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22, 1e23, 123456789.125, 0.000001, 1e-7, 5e-324, 4503599627370496.5, INFINITY, NAN};
              x = v[draw(W, sizeof v / sizeof *v)]; return draw(W, 2) ? -x : x; }
    default: bits &= 0x800fffffffffffffull; bits |= (uint64_t)(1023 + range(W, -330, 330)) << 52; if (draw(W, 2)) bits &= ~0ull << draw(W, 52); break;
    }
    memcpy(&x, &bits, 8); return x;
}
void numbers(const Env &e) {
    std::vector<double> v; int n = range(W, 4, 120);
    for (int i = 0; i < n; i++) v.push_back(number());
    note_case(hash_bytes(v.data(), v.size() * sizeof v[0]));
    int with = draw(W, 4); bool fixed = draw(W, 2); int loc = draw_locale();
    std::vector<std::string> want;
    for (int b = 0; b < variants(); b++) {
        if (b && draw(F, 2)) continue;
        lib_reset(); set_variant(b); configure(e); tg_env_set_print_fixed_floats(fixed); set_locale(loc); uint64_t mark = heap_mark(); size_t at = 0;
        auto same = [&](const std::string &s, const char *what) {
            if (!b) { want.push_back(s); ev(hash_bytes(s.data(), s.size())); return; }
            if (want[at++] != s) violate("build-changes-answer", "%s: %s in build %d, %s in build 0", what, show(s).c_str(), b, show(want[at - 1]).c_str());
            PROBE("numbers compared between two builds");
        };
        for (size_t i = 0; i + 3 < v.size(); i += 2) {
            tg_geom *g = with == 0 ? tg_geom_new_point({v[i], v[i + 1]}) : with == 1 ? tg_geom_new_point_z({v[i], v[i + 1]}, v[i + 2]) : with == 2 ? tg_geom_new_point_m({v[i], v[i + 1]}, v[i + 2]) : tg_geom_new_point_zm({v[i], v[i + 1]}, v[i + 2], v[i + 3]);
            if (!g) violate("null-result", "building an object failed although memory is plentiful");
            for (Fmt f : {FMT_WKT, FMT_GEOJSON}) {
                std::string s = lib_write(g, f); same(s, "writing numbers");
                tg_geom *y = parse_lent(s, f, TG_DEFAULT); if (!y) violate("null-result", "parsing failed although memory is plentiful");
                if (const char *err = tg_geom_error(y)) same(err, "the message"); else same(lib_write(y, FMT_WKB), "reading numbers");
                tg_geom_free(y);
            }
            tg_geom_free(g);
        }
        heap_check_leaks("leak", mark, "everything was released");
    }
    lib_reset();
}

void giant() {
    Giant g = gen_giant(400, 6000); Env e = {gen_ix(), 16, draw(W, 4) == 3};
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    uint64_t want = 0;
    for (int v = 0; v < wide(); v++) {
        if (v && draw(F, 2)) continue;
        lib_reset(); set_variant(v); configure(e); uint64_t mark = heap_mark();
        auto pr = giant_probes(g);
        Handle h = build_giant(g); if (!h.p) violate("null-result", "building an object failed although memory is plentiful");
        uint64_t r = giant_look(h, g, pr);
        h_free(h); for (auto &p : pr) h_free(p);
        heap_check_leaks("leak", mark, "everything was released");
        if (!v) { want = r; ev(r); }
        else if (r != want) violate("build-changes-answer", "a large object (%d, %d) is not the same in build %d", g.kind, g.n, v);
        else PROBE("large object compared between two builds");
    }
    lib_reset();
}
}

SCENARIO(C18) {
    if (variants() < 2) harness_error("this simulator has one build of the library only");
    if (giant_turn(60)) { giant(); return; }
    static const int spreads[] = {16, 2, 4, 8, 32, 4096, 1, 0};
    Env env = {(enum tg_index)draw(W, 4), spreads[draw(W, 8)], draw(W, 4) == 3};
    if (draw(W, 10) == 9) { heap_fill((FillMode)draw(F, 5), draw(F, 1000)); numbers(env); return; }
    bool with_wide = draw(W, 5) == 4;
    heap_fill((FillMode)draw(F, 5), draw(F, 1000));
    GenCfg g; g.meta = draw(W, 3) == 2; if (with_wide) g.coords = (int)draw(W, 2);
    std::vector<ObjSpec> specs; int n = range(W, 1, 4);
    for (int i = 0; i < n; i++) specs.push_back(gen_spec(g, true));
    OpCfg oc; oc.g = g; oc.bad_docs = !with_wide;
    int nops = range(W, 2, 14); std::vector<Step> prog; uint64_t cs = with_wide;
    bool docs = draw(W, 3) == 2;
    for (int i = 0; i < nops; i++) {
        Step s;
        if (draw(W, 8) == 7) { s.restart = true; s.fmt = (Fmt)draw(W, NFMT); s.ix = gen_ix(); cs = hcomb(cs, s.fmt); prog.push_back(s); continue; }
        oc.mask = docs && draw(W, 3) ? 1u << OP_PARSE : with_wide ? OPM_ALL & ~(1 << OP_NEAREST | 1 << OP_RAWNEW) : OPM_ALL;
        s.op = gen_op(n, oc); if (with_wide && (s.op.kind == OP_XYRECT || s.op.kind == OP_SEARCH)) s.op.rect = gen_rect(g.coords);
        s.keep = draw(W, 3) == 2;
        if (s.op.kind == OP_PARSE && !with_wide && s.op.fmt <= FMT_GEOJSON && draw(F, 3) == 2) odd_token(s.op.doc, (Fmt)s.op.fmt);
        else if (s.op.kind == OP_PARSE && !with_wide && draw(F, 4) == 3) damage(s.op.doc, range(F, 1, 2), s.op.fmt < NFMT ? (Fmt)s.op.fmt : FMT_WKT);
        if (draw(F, 5) == 4) {
            s.fail = true;
            switch (draw(F, with_wide ? 3 : 4)) {
            case 0: s.plan.mode = FAIL_KTH; s.plan.k = draw(F, 12); break;
            case 1: s.plan.mode = FAIL_FROM; s.plan.k = draw(F, 12); break;
            case 2: s.plan.mode = FAIL_WINDOW; s.plan.k = draw(F, 8); s.plan.n = 1 + draw(F, 4); break;
            default: s.plan.mode = FAIL_SIZE; s.plan.k = 1u << (5 + draw(F, 10));
            }
        } else { s.plan.mode = FAIL_KTH; s.plan.k = ~0ull; }
        cs = hcomb(cs, hcomb(hcomb(s.op.kind, s.op.fmt), hcomb(s.op.v % 48, s.op.ix)));
        prog.push_back(s);
    }
    note_case(cs);
    int loc = draw_locale();
    g_op_obs = with_wide ? OBS_WRITERS | OBS_PRED | OBS_SEARCH : OBS_ALL;
    std::vector<uint64_t> want; std::vector<std::string> stored; std::vector<Obs> made;
    int reps = 1 + range(F, 1, 3);
    for (int rep = 0; rep < reps; rep++) {
        int v = rep ? 1 + (int)draw(F, (uint32_t)(with_wide ? variants() - 1 : variants() - 2)) : 0;
        if (rep && with_wide && draw(F, 2)) v = wide();
        lib_reset(); set_variant(v); configure(env); set_locale(loc);
        if (rep) { heap_fill((FillMode)draw(F, 5), draw(F, 1000)); count_dyn("op", "replica on another build"); }
        logf("replica %d on build %d", rep, v);
        uint64_t mark = heap_mark(), path = v; size_t at = 0, doc_at = 0;
        auto result = [&](uint64_t h, const std::string &what) {
            if (!rep) { want.push_back(h); ev(h); return; }
            if (at >= want.size()) harness_error("replicas do not take the same steps");
            if (h != want[at++]) violate("build-changes-answer", "%s: build %d of the library does not answer like build 0", what.c_str(), v);
            PROBE("answers compared between two builds");
        };
        World w;
        for (int i = 0; i < n; i++) {
            Handle h = build_spec(specs[i]);
            if (!h.p) violate("null-result", "building an object failed although memory is plentiful");
            w.h.push_back(h); Obs o = h_observe(h, g_op_obs);
            if (!rep) made.push_back(o); else if (!(made[i] == o)) violate("build-changes-answer", "making object %d: build %d of the library does not answer like build 0 in: %s", i, v, diff_obs(made[i], o).c_str());
            result(hcomb(h.k, o.total()), "making an object");
        }
        for (size_t i = 0; i < prog.size(); i++) {
            Step &s = prog[i];
            if (s.restart) {
                // a crash: the stored documents are all that is left; the program that comes back may be another build
                std::vector<std::string> d;
                for (auto &h : w.h) {
                    d.push_back(lib_write(h_geom(h), s.fmt)); h_free(h);
                    result(hash_bytes(d.back().data(), d.back().size()), std::string("storing as ") + fmt_name[s.fmt]);
                    if (!rep) stored.push_back(d.back());
                    else if (doc_at < stored.size() && stored[doc_at++] != d.back()) violate("build-changes-answer", "a stored %s document differs", fmt_name[s.fmt]);
                }
                heap_check_leaks("leak", mark, "a replica ended");
                if (rep) { v = (int)draw(F, (uint32_t)(with_wide ? variants() : wide())); path = hcomb(path, v); FAULT("crash, restarted on another build"); }
                lib_reset(); set_variant(v); configure(env); set_locale(loc); logf("  restart on build %d", v);
                for (size_t k = 0; k < d.size(); k++) {
                    tg_geom *x = parse_lent(d[k], s.fmt, s.ix); if (!x) violate("null-result", "parsing failed although memory is plentiful");
                    if (const char *e = tg_geom_error(x)) { result(hash_bytes(e, strlen(e)), "reading what was stored"); tg_geom_free(x); x = tg_geom_new_point({1, 2}); }
                    w.h[k] = {HK_GEOM, x}; result(h_observe(w.h[k], g_op_obs).total(), "what was stored, read back");
                }
                continue;
            }
            logf("  %s", op_text(s.op).c_str());
            plan_now = s.plan; fired_now = requests_now = 0; op_call_begin = begin; op_call_end = end;
            OpRes r = run_op(s.op, w.h, s.keep);
            op_call_begin = op_call_end = nullptr;
            if (s.fail && fired_now) FAULT("allocation failed in every build");
            result(hcomb(hcomb(r.h, r.oom), with_wide ? 0 : hcomb(fired_now, requests_now)), op_name[s.op.kind]);
            if (r.made && r.obj.p) { h_free(w.h[s.op.a]); w.h[s.op.a] = r.obj; }
        }
        free_world(w);
        heap_check_leaks("leak", mark, "everything was released");
        if (rep) note_interleaving(hcomb(cs, path));
    }
    lib_reset();
}
