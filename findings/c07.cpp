// C07: two internal rows whose event, guard type and action type agree become one, whatever their values.
#include "hsm/hsm.h"
#include <cstdio>
struct e1 {}; struct e2 {};
static int log_[4]; static int n_;
struct Gv { int id; template <class... A> bool operator()(A&&...) const { return id == 1; } };
struct Av { int id; template <class... A> void operator()(A&&...) const { if (n_ < 4) log_[n_++] = id; } };
struct A {};
struct B {
    static constexpr auto make_internal_transition_table()
    {
        return hsm::transition_table(
            + (hsm::event<e1>[Gv { 0 }] / Av { 10 }), + (hsm::event<e1>[Gv { 1 }] / Av { 11 }));
    }
};
struct M {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(* hsm::state<A> + hsm::event<e2> = hsm::state<B>);
    }
};
int main()
{
    hsm::sm<M> sm;
    sm.process_event(e2 {});
    bool r = sm.process_event(e1 {});
    std::printf(r && n_ == 1 && log_[0] == 11 ? "ABSENT\n" : !r && n_ == 0 ? "PRESENT\n" : "OTHER\n");
}
