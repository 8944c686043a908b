#pragma once
#include "esp_timer.h"
