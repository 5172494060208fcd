#pragma once
#include "sleipnir/autodiff/Variable.hpp"
