// Standard and third-party headers shared by every translation unit of the
// simulated build.  The first block is what /repo's own build precompiles (its
// sources rely on it); the second only speeds the build up.
#pragma once
#ifdef __cplusplus
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <concepts>
#include <initializer_list>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <source_location>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#include <Eigen/Core>
#include <functional>
#include <iomanip>
#include <iostream>
#include <numbers>
#include <queue>
#include <ranges>
#include <span>
#endif
