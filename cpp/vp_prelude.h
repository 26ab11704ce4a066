// Shared by every generated machine: guards, actions and handlers are opaque calls into the
// environment (vp_*), so neither the verifier nor the replay harness knows anything about them.
#pragma once
#include "hsm/hsm.h"
#include <memory>
#include <type_traits>

extern "C" {
// tags identify the static type the library passed, pointers the object.
bool vp_guard(int id, int etag, const void* e, int stag, const void* s, int ttag, const void* t,
              const void* d0, const void* d1);
void vp_action(int id, int etag, const void* e, int stag, const void* s, int ttag, const void* t,
               const void* d0, const void* d1);
void vp_handler(int id, int etag, const void* e, int stag, const void* s, const void* d0,
                const void* d1);
void* vp_create(int id, int etag, const void* e, int stag, const void* s);
}

template <class T> struct Tag { static constexpr int value = 2; }; // pseudo states
template <> struct Tag<hsm::noneEvent> { static constexpr int value = 1; };
template <class T> struct Tag<std::shared_ptr<std::unique_ptr<T>>> {
    static constexpr int value = 1000 + Tag<T>::value;
};
template <class T> constexpr int tag_of = Tag<std::remove_cv_t<std::remove_reference_t<T>>>::value;

struct DepA { int v; };
struct DepB { int v; };

inline const void* vp_dep0() { return nullptr; }
template <class A, class... R> const void* vp_dep0(A& a, R&...) { return &a; }
inline const void* vp_dep1() { return nullptr; }
template <class A> const void* vp_dep1(A&) { return nullptr; }
template <class A, class B> const void* vp_dep1(A&, B& b) { return &b; }

// static identity: one type per guard/action
template <int Id> struct VpG {
    template <class E, class S, class T, class... D>
    auto operator()(E& e, S& s, T& t, D&... d) const -> bool
    {
        return vp_guard(Id, tag_of<E>, &e, tag_of<S>, &s, tag_of<T>, &t, vp_dep0(d...), vp_dep1(d...));
    }
};
template <int Id> struct VpA {
    template <class E, class S, class T, class... D>
    void operator()(E& e, S& s, T& t, D&... d) const
    {
        vp_action(Id, tag_of<E>, &e, tag_of<S>, &s, tag_of<T>, &t, vp_dep0(d...), vp_dep1(d...));
    }
};
// dynamic identity: one type, the identity is data carried through the library
struct VpGV {
    int id;
    template <class E, class S, class T, class... D>
    auto operator()(E& e, S& s, T& t, D&... d) const -> bool
    {
        return vp_guard(id, tag_of<E>, &e, tag_of<S>, &s, tag_of<T>, &t, vp_dep0(d...), vp_dep1(d...));
    }
};
struct VpAV {
    int id;
    template <class E, class S, class T, class... D>
    void operator()(E& e, S& s, T& t, D&... d) const
    {
        vp_action(id, tag_of<E>, &e, tag_of<S>, &s, tag_of<T>, &t, vp_dep0(d...), vp_dep1(d...));
    }
};
// action wrapped in reuse_state: it is handed a copy of the source state
template <int Id> struct VpR {
    template <class E, class S, class T> void operator()(E& e, S&, T& t) const
    {
        vp_action(Id, tag_of<E>, &e, tag_of<S>, nullptr, tag_of<T>, &t, nullptr, nullptr);
    }
};
template <int Id> struct VpH {
    template <class E, class S, class... D> void operator()(E& e, S& s, D&... d) const
    {
        vp_handler(Id, tag_of<E>, &e, tag_of<S>, &s, vp_dep0(d...), vp_dep1(d...));
    }
};
// state factory for create_state: T is the (not default constructible) target
template <int Id, class T> struct VpF {
    template <class E, class S> auto operator()(E& e, S& s) const -> std::unique_ptr<T>
    {
        (void)s; // a copy of the source state
        return std::unique_ptr<T>(static_cast<T*>(vp_create(Id, tag_of<E>, &e, tag_of<S>, nullptr)));
    }
};
