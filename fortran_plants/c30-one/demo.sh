#!/bin/bash
# exit 0: the property holds; 1: it does not. A small program takes the place of the demo's.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cp -r "$R/harmonisation_meiv_demo" "$W/src" && cp "$D/main.F90" "$W/src/src/main/fortran/gpl/demo.F90"
cd "$W"
(FC=gfortran CC=gcc cmake -S src -B out -DNETCDF_Fortran_MODULE=/usr/include/netcdf.mod && cmake --build out -j4 --target harmonisation-demo) >log 2>&1 || { tail -5 log; exit 1; }
mkdir run && cd run
../out/harmonisation-demo >log || { cat log; exit 1; }
/opt/venv/bin/python - <<'P'
import glob, sys
from netCDF4 import Dataset
d = Dataset(glob.glob("*.nc")[0])
values = [list(v[:]) for v in d.variables.values() if v.dtype != "S1" and v.shape == (1,)]
print(values)
sys.exit(0 if [2.5] in values else 1)
P
