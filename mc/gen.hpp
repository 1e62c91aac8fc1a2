#pragma once
#include "mc.hpp"
