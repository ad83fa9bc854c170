#pragma once
extern "C" unsigned veigar_sim_knob(int);
