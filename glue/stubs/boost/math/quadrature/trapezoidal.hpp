#include "quadmodel.hpp"
