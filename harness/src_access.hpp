// The internal units whose properties are checked directly.
#pragma once
#include <cmath>
#include <chrono>
#include "SAT-types.hpp"
#include "SAT-options.hpp"
#include "utils/bitset.hpp"
#include "utils/heap.hpp"
#include "utils/luby-counter.hpp"
#include "utils/partition.hpp"
#include "utils/printer.hpp"
#include "proof/dependency_tracker.hpp"
#include "exporter/implication_graph_exporter.hpp"
