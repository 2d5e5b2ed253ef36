// The C++ binding the sources include (CL/cl.hpp) is not installed; the one that replaced it is.
#ifndef VERIF_CL_HPP
#define VERIF_CL_HPP
#include <algorithm>
#include <vector>
#define CL_HPP_TARGET_OPENCL_VERSION 120
#define CL_HPP_MINIMUM_OPENCL_VERSION 110
#include <CL/opencl.hpp>
#endif
