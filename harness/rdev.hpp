// Replaces std::random_device so that "true" randomness is replayable and its uses are counted.
#pragma once
#include <random>
#include "pbt.hpp"
inline uint64_t& rdevState() { static uint64_t s = 1; return s; }
inline uint64_t& rdevCalls() { static uint64_t s = 0; return s; }
std::random_device::result_type std::random_device::_M_getval() { rdevCalls()++; return (result_type)pbt::splitmix(rdevState()); }
