#pragma once
#include <indicators/block_progress_bar.hpp>
