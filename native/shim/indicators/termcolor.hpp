#pragma once
#include "progress_bar.hpp"
