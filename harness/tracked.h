// Element type that notices every lifetime error.
#pragma once

#include "mc.h"

struct Tracked
{
    static inline long alive = 0;
    static inline long copies = 0;
    static inline long moves = 0;

    int value = 0;
    Tracked* self = nullptr;

    Tracked() : value(0) { born(); }
    Tracked(int v) : value(v) { born(); }
    Tracked(Tracked const& r) : value(r.get()) { copies++; born(); }
    Tracked(Tracked&& r) noexcept : value(r.get()) { moves++; r.value = -1; born(); }
    ~Tracked()
    {
        if (self != this)
            mc::fail("an object is destroyed that is not alive at this address");
        self = nullptr;
        value = -2;
        alive--;
    }
    Tracked& operator=(Tracked const& r)
    {
        check();
        copies++;
        value = r.get();
        return *this;
    }
    Tracked& operator=(Tracked&& r) noexcept
    {
        check();
        moves++;
        int v = r.get();
        r.value = -1;
        value = v;
        return *this;
    }
    void born()
    {
        self = this;
        alive++;
    }
    void check() const
    {
        if (self != this)
            mc::fail("an object is used that is not alive at this address");
    }
    int get() const
    {
        check();
        return value;
    }
    bool operator==(Tracked const& r) const { return get() == r.get(); }
    bool operator!=(Tracked const& r) const { return get() != r.get(); }
    bool operator==(int r) const { return get() == r; }
};
