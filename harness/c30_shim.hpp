// Violations of each category, observed as exceptions.
#pragma once
#include "pbt.hpp"
#include <string>
#include <utility>
namespace c30 {
std::pair<std::string, std::string> violate(pbt::Src& s); // what has to be named, what the message is
}
