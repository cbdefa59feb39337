#include <nlohmann/json.hpp>
#include <cmath>
#include <algorithm>
