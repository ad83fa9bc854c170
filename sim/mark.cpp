// Markers around the library's objects in .data and .bss (see img_setup): compiled twice.
#if MARK_LO
extern "C" { char vg_data_lo[8] __attribute__((aligned(64))) = {1}; char vg_bss_lo[8] __attribute__((aligned(64))); }
#else
extern "C" { char vg_data_hi[8] __attribute__((aligned(64))) = {1}; char vg_bss_hi[8] __attribute__((aligned(64))); }
#endif
