#pragma once
#include <heyoka/taylor.hpp>
