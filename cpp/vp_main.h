// Environment and script interpreter of the replay harness.
static unsigned vp_seed = 1, vp_step = 0;
static int vp_throw_rate = 0, vp_maxpass = 4;
static std::map<int, int> vp_count;
static std::map<std::pair<int, const void*>, int> vp_objs;
static std::map<int, int> vp_objn;
static std::map<const void*, int> vp_owner;
static int vp_cur = 0;

static unsigned vp_mix(unsigned a, unsigned b, unsigned c, unsigned d)
{
    unsigned h = 2166136261u;
    for (unsigned x : {a, b, c, d}) {
        h ^= x; h *= 16777619u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13;
    }
    return h;
}
static std::string vp_obj(int tag, const void* p)
{
    p = vp_deref(tag, p);
    if (tag == 1) return "ev1";
    if (tag < 100) return "ev" + std::to_string(tag) + ":" + std::to_string(static_cast<const VpEv*>(p)->value());
    if (!p) return "null" + std::to_string(tag);
    if (vp_dynamic(tag)) return "st" + std::to_string(tag) + "=" + std::to_string(*static_cast<const int*>(p));
    auto owner = vp_owner.emplace(p, vp_cur).first->second;
    if (owner != vp_cur) return "st" + std::to_string(tag) + "#foreign";
    auto key = std::make_pair(tag + vp_cur * 10000, p);
    auto it = vp_objs.find(key);
    if (it == vp_objs.end()) it = vp_objs.emplace(key, vp_objn[key.first]++).first;
    return "st" + std::to_string(tag) + "#" + std::to_string(it->second);
}
static std::string vp_dep(const void* d0, const void* d1)
{
    std::string s;
    for (int i = 0; i < 4; i++) if (d0 == &vp_depA[i]) s += " A" + std::to_string(i);
    for (int i = 0; i < 4; i++) if (d1 == &vp_depB[i]) s += " B" + std::to_string(i);
    if (d0 && s.empty()) s = " ?";
    return s;
}
static void vp_maybe_throw(int id, int n)
{
    if (vp_throw_rate && vp_mix(vp_seed ^ 0x5555, vp_step, id, n) % 100 < unsigned(vp_throw_rate)) {
        std::printf("  throw %d\n", id);
        if (id % 3) throw VpThrow(id);
        throw VpPlain { id };
    }
}
extern "C" bool vp_guard(int id, int et, const void* e, int s_t, const void* s, int tt, const void* t, const void* d0, const void* d1)
{
    int n = vp_count[id]++;
    bool r = n < vp_maxpass && vp_mix(vp_seed, vp_step, id, n) % 100 < 55;
    std::printf("  guard %d %s %s %s%s -> %d\n", id, vp_obj(et, e).c_str(), vp_obj(s_t, s).c_str(), vp_obj(tt, t).c_str(), vp_dep(d0, d1).c_str(), r);
    vp_maybe_throw(id, n);
    return r;
}
extern "C" void vp_action(int id, int et, const void* e, int s_t, const void* s, int tt, const void* t, const void* d0, const void* d1)
{
    int n = vp_count[100000 + id]++;
    std::printf("  action %d %s %s %s%s\n", id, vp_obj(et, e).c_str(), vp_obj(s_t, s).c_str(), vp_obj(tt, t).c_str(), vp_dep(d0, d1).c_str());
    vp_maybe_throw(100000 + id, n);
}
extern "C" void vp_handler(int id, int et, const void* e, int s_t, const void* s, const void* d0, const void* d1)
{
    int n = vp_count[100000 + id]++;
    std::printf("  handler %d %s %s%s\n", id, vp_obj(et, e).c_str(), s ? vp_obj(s_t, s).c_str() : "null", vp_dep(d0, d1).c_str());
    vp_maybe_throw(100000 + id, n);
}
extern "C" void* vp_create(int id, int et, const void* e, int s_t, const void* s)
{
    std::printf("  create %d %s %s\n", id, vp_obj(et, e).c_str(), vp_obj(s_t, s).c_str());
    return vp_make_state(id);
}
int main()
{
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    std::vector<SM*> sms(4, nullptr);
    char op[8];
    while (std::scanf("%7s", op) == 1) {
        SM* sm = sms[vp_cur];
        vp_count.clear();
        vp_step++;
        if (!std::strcmp(op, "E")) {
            int e, v; if (std::scanf("%d %d", &e, &v) != 2) abort();
            std::printf("E %d %d\n", e, v);
            try { std::printf("  ret %d\n", int(vp_event(*sm, e, v))); }
            catch (VpThrow& t) { std::printf("  ret throw %d\n", t.id); }
            catch (VpPlain& t) { std::printf("  ret throw %d\n", t.id); }
            catch (std::exception& x) { std::printf("  ret exception\n"); }
            catch (...) { std::printf("  ret unknown exception\n"); }
        } else if (!std::strcmp(op, "O")) {
            int n; if (std::scanf("%d", &n) != 1) abort();
            std::printf("O");
            for (int r = 0; r < n; r++) { std::printf(" |%d", r); for (int i = 0; i < vp_npairs; i++) if (vp_is(*sm, r, i)) std::printf(" %d", i); }
            std::printf(" |is2"); for (int i = 0; i < vp_npairs; i++) if (vp_is2(*sm, i)) std::printf(" %d", i);
            std::printf(" |is1"); for (int i = 0; i < vp_nstates; i++) if (vp_is1(*sm, i)) std::printf(" %d", i);
            std::printf(" |p"); for (int i = 0; i < vp_nparents; i++) if (vp_parent(*sm, i)) std::printf(" %d", i);
            std::printf("\n");
        } else if (!std::strcmp(op, "S")) {
            int r, i; if (std::scanf("%d %d", &r, &i) != 2) abort();
            std::printf("S %d %d\n", r, i);
            try { vp_set(*sm, r, i); } catch (std::exception& x) { std::printf("  exception\n"); }
        } else if (!std::strcmp(op, "S1")) {
            int i; if (std::scanf("%d", &i) != 1) abort();
            std::printf("S1 %d\n", i);
            vp_set1(*sm, i);
        } else if (!std::strcmp(op, "D")) {
            int k; if (std::scanf("%d", &k) != 1) abort();
            std::printf("D %d\n", k); vp_setdep(*sm, k);
        } else if (!std::strcmp(op, "I")) {
            if (std::scanf("%d", &vp_cur) != 1) abort();
            std::printf("I %d\n", vp_cur);
        } else if (!std::strcmp(op, "N")) {
            int k; if (std::scanf("%d", &k) != 1) abort();
            delete sm;
            for (auto it = vp_owner.begin(); it != vp_owner.end();) it = it->second == vp_cur ? vp_owner.erase(it) : std::next(it);
            for (auto it = vp_objs.begin(); it != vp_objs.end();) it = it->first.first / 10000 == vp_cur ? vp_objs.erase(it) : std::next(it);
            for (auto it = vp_objn.begin(); it != vp_objn.end();) it = it->first / 10000 == vp_cur ? vp_objn.erase(it) : std::next(it);
            std::printf("N %d\n", k);
            sms[vp_cur] = vp_new(k);
        } else if (!std::strcmp(op, "R")) {
            if (std::scanf("%u %d %d", &vp_seed, &vp_throw_rate, &vp_maxpass) != 3) abort();
            vp_step = 0;
            std::printf("R\n");
        }
    }
    for (auto* s : sms) delete s;
    return 0;
}
