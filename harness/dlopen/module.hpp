// The code every module has.
#pragma once
#include <initializer_list>
template<class T> const void* full_of(VP<T> p) { return dynamic_cast<const void*>(p.get()); }
template<class T> const void* full_of(T& o) { return dynamic_cast<const void*>(&o); }
template<auto& Next> void enter(int ov, bool has_next, std::initializer_list<const void*> seen, int x) {
    int i = 0;
    for (auto p : seen) dl_log.mangled |= p != dl_log.full[i++];
    dl_log.mangled |= x != 7 || (Next != nullptr) != true;
    dl_log.steps.push_back({ov, has_next});
}
template<class Home> void* make(int k) {
    void* r = nullptr;
    mp11::mp_for_each<mp11::mp_transform<mp11::mp_identity, Home>>([&](auto i) { using T = typename decltype(i)::type; if (T::K == k) r = new T; });
    return r;
}
template<class Home> void kill(int k, void* p) {
    mp11::mp_for_each<mp11::mp_transform<mp11::mp_identity, Home>>([&](auto i) { using T = typename decltype(i)::type; if (T::K == k) delete static_cast<T*>(p); });
}
template<class Home, class Known> void* up(int k, void* p, int target) {
    void* r = nullptr;
    mp11::mp_for_each<mp11::mp_transform<mp11::mp_identity, Home>>([&](auto i) { using T = typename decltype(i)::type;
        if (T::K == k) mp11::mp_for_each<mp11::mp_transform<mp11::mp_identity, Known>>([&](auto j) { using B = typename decltype(j)::type;
            if constexpr (std::is_base_of_v<B, T>) if (B::K == target) r = static_cast<B*>(static_cast<T*>(p)); });
    });
    return r;
}
template<class Known> void* vp_make(int k, void* p) {
    void* r = nullptr;
    mp11::mp_for_each<mp11::mp_transform<mp11::mp_identity, Known>>([&](auto i) { using T = typename decltype(i)::type; if (T::K == k) r = new VP<T>(*static_cast<T*>(p)); });
    return r;
}
template<class Known> void vp_kill(int k, void* p) {
    mp11::mp_for_each<mp11::mp_transform<mp11::mp_identity, Known>>([&](auto i) { using T = typename decltype(i)::type; if (T::K == k) delete static_cast<VP<T>*>(p); });
}
template<class F> int guarded(F f) {
    try { f(); return -1; }
    catch (om::no_overrider&) { return 0; }
    catch (om::ambiguous_call&) { return 1; }
    catch (om::missing_class&) { return 2; }
    catch (om::openmethod_error&) { return 3; }
}
static void init() { om::initialize<Reg>(); }
