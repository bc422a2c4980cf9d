#include "lockstep.hpp"
using namespace h;
SCENARIO(lock, 100) {
    const Setup& s = any_setup(rng);
    const str d = pick_delim(rng, s.cfg);
    const str data = any_data(rng, s.cfg, d);
    Ops ops;
    ops.move = 1; ops.iterate = 1;
    Lockstep l{c, rng, s, any_mode(rng), rng.chance(1, 2), data, d, ALL_ASPECTS, ops, {}};
    l.run();
    c.nontrivial(hash_str(data));
}
