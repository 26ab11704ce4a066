// C11: the guard of a transition that creates a state gets a reference to a state that does not exist.
#include "hsm/hsm.h"
#include <cstdio>
#include <memory>
struct e1 {};
static const void* seen_ = &seen_;
struct A {};
struct B { explicit B(int v) : v(v) {} int v; };
struct G { template <class E, class S, class T> bool operator()(E&, S&, T& t) const { seen_ = &t; return true; } };
struct F { template <class E, class S> std::unique_ptr<B> operator()(E, S) const { return std::make_unique<B>(1); } };
struct M {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(* hsm::state<A> + hsm::event<e1>[G {}] / hsm::create_state(F {}) = hsm::state<B>);
    }
};
int main()
{
    hsm::sm<M> sm;
    sm.process_event(e1 {});
    std::printf(seen_ == nullptr ? "PRESENT\n" : seen_ == &seen_ ? "OTHER\n" : "ABSENT\n");
}
