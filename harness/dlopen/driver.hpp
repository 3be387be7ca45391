// Random histories of loading and unloading, initializing and calling; the
// program must behave as if built from the modules then loaded.
#include "model/model.hpp"
#include "util.hpp"
#include <dlfcn.h>
#include <memory>

Log dl_log;
static const Module* mods[NMOD];
extern "C" void dl_loaded(int id, const Module* m) { mods[id] = m; }
extern "C" void dl_unloaded(int id) { mods[id] = nullptr; }

struct Object { int cls; void* p; std::vector<std::pair<int, void*>> vps; };
static std::vector<Object> objs;
static std::vector<void*> handles[NMOD];
static std::string plugin_dir;

static const Module& home_of(const Object& o) { return *mods[class_home[o.cls]]; }
static void drop_vps(Object& o) { for (auto& [k, v] : o.vps) mods[0]->vp_kill(k, v); o.vps.clear(); }
static void kill(std::size_t i) { drop_vps(objs[i]); home_of(objs[i]).kill(objs[i].cls, objs[i].p); objs.erase(objs.begin() + long(i)); }

// the program as it is now
struct World { Model p; std::vector<int> reg; std::vector<std::vector<int>> ov; std::string loaded; };
static World snapshot() {
    World w;
    w.p.n = NCLS;
    w.p.bases = class_bases;
    w.p.close();
    w.p.m.resize(NMETH);
    w.ov.resize(NMETH);
    std::set<int> reg, inst;
    for (int k = 0; k < NMOD; ++k) if (mods[k]) {
        reg.insert(mod_regs[k].begin(), mod_regs[k].end());
        inst.insert(mod_inst[k].begin(), mod_inst[k].end());
        if (k) w.loaded += std::to_string(k) + " ";
    }
    w.reg.assign(reg.begin(), reg.end());
    for (int m = 0; m < NMETH; ++m) {
        auto& mm = w.p.m[m];
        mm.active = inst.count(m);
        mm.ar = int(meth_params[m].size());
        for (int i = 0; i < mm.ar; ++i) mm.vp[i] = meth_params[m][i];
    }
    for (int o = 0; o < NOV; ++o) if (mods[ov_defs[o].mod]) {
        MOvr v{};
        for (int i = 0; i < int(ov_defs[o].cls.size()); ++i) v.vp[i] = ov_defs[o].cls[i];
        v.ret = -1;
        w.p.m[ov_defs[o].meth].ov.push_back(v);
        w.ov[ov_defs[o].meth].push_back(o);
    }
    // only registered classes are there
    for (int c = 0; c < NCLS; ++c) if (!reg.count(c)) w.p.anc[c] = 0;
    return w;
}

static World world;
static bool fresh = false; // nothing was loaded or unloaded since the last initialize
static std::string loaded_now() { std::string s; for (int k = 1; k < NMOD; ++k) if (mods[k]) s += std::to_string(k); return s; }
#define OP(...) do { char b_[160]; snprintf(b_, sizeof b_, __VA_ARGS__); trail() += b_; trail() += "; "; } while (0)

static std::string show(const Out& o, int m) { return o.kind == O_RUN ? "overrider " + std::to_string(world.ov[m][o.o]) : o.kind == O_NONE ? "no overrider" : "ambiguous"; }

static void judge(Rng& g, int by) {
    auto& inst = mod_inst[by];
    if (inst.empty()) return;
    int m = inst[rnd(g, int(inst.size()))];
    auto& mm = world.p.m[m];
    int t[MAXAR]; void* v[MAXAR]; int oi[MAXAR];
    for (int i = 0; i < mm.ar; ++i) {
        int tries = 0;
        for (;;) {
            if (++tries > 30) return;
            oi[i] = rnd(g, int(objs.size()));
            auto& o = objs[oi[i]];
            if ((v[i] = home_of(o).up(o.cls, o.p, mm.vp[i]))) break;
        }
        t[i] = objs[oi[i]].cls;
        dl_log.full[i] = objs[oi[i]].p;
    }
    int form = rnd(g, 4);
    bool old = false;
    std::vector<void*> tmp;
    int kind;
    dl_log.steps.clear();
    dl_log.mangled = false;
    dl_log.deep = chance(g, 50);
    // through virtual_ptrs kept by the program, perhaps since before the last initialize
    void* kept[MAXAR];
    bool have = by == 0 && form == 3;
    for (int i = 0; have && i < mm.ar; ++i) {
        kept[i] = nullptr;
        auto& o = objs[oi[i]];
        for (auto& [k, p] : o.vps) if (k == mm.vp[i]) { kept[i] = p; old = true; }
        if (!kept[i]) { kept[i] = mods[0]->vp_make(mm.vp[i], v[i]); o.vps.push_back({mm.vp[i], kept[i]}); }
    }
    kind = have ? mods[0]->vp_call(m, kept) : mods[by]->call(m, v, form);
    count("calls");
    if (old) count("calls_kept_vps");
    if (by) count("calls_from_plugins");
    std::string where = "method " + std::to_string(m) + " called by module " + std::to_string(by) + " on";
    for (int i = 0; i < mm.ar; ++i) where += " C" + std::to_string(t[i]);
    where += ", loaded: " + world.loaded;
    auto local = [&](int o) { for (int i = 0; i < int(world.ov[m].size()); ++i) if (world.ov[m][i] == o) return i; return -1; };
    if (kind >= 2) { violation("dl", "error kind %d: %s", kind, where.c_str()); return; }
    if (dl_log.mangled) { violation("dl", "an overrider got other arguments: %s", where.c_str()); return; }
    Out want = world.p.outcome(m, t);
    std::vector<Out> got;
    for (auto& s : dl_log.steps) {
        int l = local(s.ov);
        if (l < 0) { violation("dl", "overrider %d ran, which is not loaded: %s", s.ov, where.c_str()); return; }
        got.push_back({O_RUN, l});
    }
    if (kind >= 0) got.push_back({kind == 1 ? O_AMBIG : O_NONE, -1});
    if (got.empty() || !(got[0] == want)) { violation("dl", "expected %s, observed %s: %s", show(want, m).c_str(), got.empty() ? "nothing" : show(got[0], m).c_str(), where.c_str()); return; }
    distinct(mix(mix(mix(u64(m), u64(world.p.m[m].ov.size())), u64(got[0].o)), mix(u64(t[0]), u64(mm.ar > 1 ? t[1] : 77))));
    if (want.kind != O_RUN) { count("bad_calls"); return; }
    for (std::size_t i = 0; i < dl_log.steps.size(); ++i) {
        auto ref = world.p.next_of(m, got[i].o);
        if (!ref.first) break;
        if (dl_log.steps[i].has_next != (ref.second.kind == O_RUN)) { violation("dl", "has_next() is %d but next is %s, from overrider %d: %s", dl_log.steps[i].has_next, show(ref.second, m).c_str(), dl_log.steps[i].ov, where.c_str()); return; }
        if (!dl_log.deep) break;
        count("next_steps");
        if (i + 1 >= got.size() || !(got[i + 1] == ref.second)) { violation("dl", "next from overrider %d: expected %s, observed %s: %s", dl_log.steps[i].ov, show(ref.second, m).c_str(), i + 1 < got.size() ? show(got[i + 1], m).c_str() : "nothing", where.c_str()); return; }
    }
}

static void initialize_now(Rng& g) {
    if (!INDIRECT) for (auto& o : objs) drop_vps(o);
    std::vector<int> by;
    for (int k = 0; k < NMOD; ++k) if (mods[k] && mods[k]->init) by.push_back(k);
    int k = by[rnd(g, int(by.size()))];
    mods[k]->init();
    if (k) count("initialized_by_plugin");
    count("initializations");
    world = snapshot();
    distinct(mix(99, std::hash<std::string>()(loaded_now())));
    fresh = true;
    OP("init by %d [%s]", k, loaded_now().c_str());
}
static void populate() {
    for (int c = 0; c < NCLS; ++c) {
        if (!mods[class_home[c]]) continue;
        bool has = false;
        for (auto& o : objs) has |= o.cls == c;
        if (!has) if (void* p = mods[class_home[c]]->make(c)) objs.push_back({c, p, {}});
    }
}
static bool load(int k, int mode) {
    std::string path = plugin_dir + "_p" + std::to_string(k) + ".so";
    bool was = mods[k];
    void* h = dlopen(path.c_str(), RTLD_NOW | mode);
    if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(2); }
    handles[k].push_back(h);
    if (!mods[k]) { fprintf(stderr, "plugin %d did not announce itself\n", k); _exit(2); }
    if (!was) { fresh = false; count("loads"); }
    OP("load %d%s", k, mode & RTLD_GLOBAL ? "g" : "");
    return true;
}
static void unload(int k) {
    if (handles[k].empty()) return;
    if (handles[k].size() == 1) // may disappear: its objects first
        for (std::size_t i = objs.size(); i-- > 0;) if (class_home[objs[i].cls] == k) kill(i);
    // others that its disappearance takes along
    if (handles[k].size() == 1)
        for (int j = 1; j < NMOD; ++j) if (j != k && mods[j] && handles[j].empty())
            for (std::size_t i = objs.size(); i-- > 0;) if (class_home[objs[i].cls] == j) kill(i);
    std::string before = loaded_now();
    void* h = handles[k].back();
    handles[k].pop_back();
    dlclose(h);
    if (loaded_now() != before) { fresh = false; count("unloads"); }
    else if (handles[k].empty()) count("unloads_pinned");
    OP("unload %d", k);
}

int main(int argc, char** argv) {
    plugin_dir = argv[0];
    static bool debug = getenv("DLDEBUG");
    return run_cases(argc, argv, [](Rng& g, const Args&) {
        trail().clear();
        int steps = 8 + rnd(g, 30);
        fresh = false;
        populate();
        if (chance(g, 70)) initialize_now(g);
        for (int s = 0; s < steps && stats().viol.size() < 10; ++s) {
            int what = rnd(g, 10);
            int k = NMOD > 1 ? 1 + rnd(g, NMOD - 1) : 0;
            if (what < 3) load(k, ENTANGLED || chance(g, 30) ? RTLD_GLOBAL : RTLD_LOCAL);
            else if (what < 6) unload(k);
            else if (what == 6 && chance(g, 30)) { om::finalize<Reg>(); if (!INDIRECT) for (auto& o : objs) drop_vps(o); fresh = false; OP("finalize"); }
            if (what >= 6 || chance(g, 25)) {
                initialize_now(g);
                populate();
            }
            if (fresh) {
                int n = 10 + rnd(g, 40);
                for (int i = 0; i < n && stats().viol.size() < 10; ++i) {
                    int by = chance(g, 50) ? 0 : rnd(g, NMOD);
                    if (mods[by]) judge(g, by);
                }
            }
        }
        if (debug) fprintf(stderr, "%s\n", trail().c_str());
        sample(trail().substr(0, 600));
        for (std::size_t i = objs.size(); i-- > 0;) kill(i);
        for (int k = 1; k < NMOD; ++k) while (!handles[k].empty()) unload(k);
        if (!loaded_now().empty()) { fprintf(stderr, "plugins %s stay loaded\n", loaded_now().c_str()); count("stuck"); }
    });
}
