#pragma once
// The interface of gridsynth's C calls, as /repo uses it. The harness defines it with a stand-in of known precision.
extern "C" int gridsynth_angle_to_seq_with_precision_hs(double precision, const char* angle, char* buffer, int size);
