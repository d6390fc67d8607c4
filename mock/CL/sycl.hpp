#ifndef VERIF_MOCK_CL_SYCL_HPP
#define VERIF_MOCK_CL_SYCL_HPP
#include "../sycl/sycl.hpp"
#endif
