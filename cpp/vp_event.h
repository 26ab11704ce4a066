// Events of the replay harness: the value lives on the heap, so that a copy that dangles, is moved from
// or is destroyed too early shows.
#pragma once
struct VpEv {
    int v; int* p;
    VpEv(int x) : v(x), p(new int(x)) {}
    VpEv(const VpEv& o) : v(o.v), p(o.p ? new int(*o.p) : nullptr) {}
    VpEv(VpEv&& o) noexcept : v(o.v), p(o.p) { o.v = -7; o.p = nullptr; }
    VpEv& operator=(const VpEv& o) { if (this != &o) { delete p; v = o.v; p = o.p ? new int(*o.p) : nullptr; } return *this; }
    VpEv& operator=(VpEv&& o) noexcept { if (this != &o) { delete p; v = o.v; p = o.p; o.v = -7; o.p = nullptr; } return *this; }
    ~VpEv() { delete p; p = nullptr; v = -9; }
    int value() const { return p ? *p : v; }
};
