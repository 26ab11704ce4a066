// C04: anonymous transitions of a region are not taken while an earlier region has none to offer.
#include "hsm/hsm.h"
#include <cstdio>
struct e1 {};
struct A {}; struct A2 {}; struct B {}; struct B2 {}; struct B3 {};
struct M {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(
            * hsm::state<A> + hsm::event<e1> = hsm::state<A2>,
            * hsm::state<B> + hsm::event<e1> = hsm::state<B2>,
            hsm::state<B2> = hsm::state<B3>);
    }
};
int main()
{
    hsm::sm<M> sm;
    sm.process_event(e1 {});
    bool ok = sm.is(1, hsm::state<M>, hsm::state<B3>);
    std::printf(ok ? "ABSENT\n" : sm.is(1, hsm::state<M>, hsm::state<B2>) ? "PRESENT\n" : "OTHER\n");
}
