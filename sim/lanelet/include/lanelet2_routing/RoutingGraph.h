#pragma once
#include <sim/lanelet/mini.hpp>
