#include "world.h"
extern "C" unsigned veigar_sim_knob(int k) { return world::P ? (unsigned)world::P->knob[k] : 1u; }
