// C22: hash table and stack
#include "containers.h"
void prop_init() { start_library(); }
void prop_done() {}
void prop_case(Rng &r, u64 index) { if (index == 0) { sample("random additions, removals and lookups of clustered, colliding, extreme and random keys"); sample("random pushes and pops with all items compared"); } if (index % 128 == 5) hash_case(r, false, true); if (index % 128 == 13) stack_case(r, false, true); for (int i = 0; i < 4; ++i) { hash_case(r); stack_case(r); } }
