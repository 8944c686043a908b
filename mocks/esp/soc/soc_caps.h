#pragma once
#include "soc/adc_periph.h"
