#!/bin/bash
# builds demo.cpp against the library in /repo/_build and runs it; exit status is the program's
HERE=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
export OCL_ICD_FILENAMES=/opt/sycl/lib/libintelocl.so ONEAPI_DEVICE_SELECTOR=opencl:cpu OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1 TMPDIR=$D LD_LIBRARY_PATH=/opt/sycl/lib
F="-DNESO_PARTICLES_DEVICE_TYPE_CPU -DNESO_PARTICLES_VERSION_MAJOR=0 -DNESO_PARTICLES_VERSION_MINOR=10 -DNESO_PARTICLES_VERSION_PATCH=0 -DRESTRICT=__restrict -I/repo/include -isystem /usr/lib/x86_64-linux-gnu/openmpi/include -isystem /usr/lib/x86_64-linux-gnu/openmpi/include/openmpi -fsycl -Wno-error -O1 -DNDEBUG -std=c++17 -w"
/opt/sycl/bin/syclcxx $F -o "$D/demo.o" -c "$HERE/demo.cpp" || exit 77
L=/usr/lib/x86_64-linux-gnu/openmpi/lib
/opt/sycl/bin/syclcxx -fsycl -O1 "$D/demo.o" -o "$D/demo" -Wl,-rpath,/repo/_build:$L /repo/_build/libNESO-Particles.so $L/libmpi_cxx.so $L/libmpi.so -lm || exit 78
cd "$D"
