#pragma once
extern "C" { void hs_init(int* argc, char*** argv); void hs_exit(void); }
