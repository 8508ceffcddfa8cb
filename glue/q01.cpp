// chi parameters of photons and leptons
#include "vp.hpp"
#include "chi_functions.hpp"
using namespace picsar::multi_physics;
extern "C" void VP_ENTRY()
{
    REAL v[10];
    vp::symv<REAL>("v", v, 10);
    int kind = vp::cfg("kind");
    REAL r;
    if (kind == 0)
        r = chi_photon<REAL>(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]);
    else if (kind == 1)
        r = chi_lepton<REAL>(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]);
    else if (kind == 2)
        r = chi_photon<REAL>(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]);
    else
        r = chi_lepton<REAL>(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]);
    vp::out("chi", r);
}
