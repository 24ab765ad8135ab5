#!/bin/bash
# Nothing is installed or kept: every check mirrors and builds /repo's working tree in a directory of its own.
cd "$(dirname "$0")" && /opt/venv/bin/python -W ignore -c "import numpy, scipy, netCDF4, Cython, lib2to3, core, support"
