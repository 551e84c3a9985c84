#ifndef VC_STUB_UTCDATES_HPP
#define VC_STUB_UTCDATES_HPP
#include "datetime/dtfund.hpp"
#endif
