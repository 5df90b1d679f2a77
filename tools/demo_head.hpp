#include <neso_particles.hpp>
#include <cstdio>
#include <cmath>
#include <map>
using namespace NESO::Particles;
static int bad(const char *m) { printf("BROKEN: %s\n", m); fflush(stdout); return 1; }
