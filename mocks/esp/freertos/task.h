#pragma once
#include "FreeRTOS.h"
inline TickType_t xTaskGetTickCount() { world::Platform p; world::step("xTaskGetTickCount"); return TickType_t(world::nowUs / (TICK_MS * 1000ull)); }
// wakes at a tick boundary, so up to one tick early
inline void vTaskDelay(TickType_t ticks)
{
    world::Platform p;
    world::step("vTaskDelay");
    world::taskDelays.push_back(ticks);
    if (ticks) world::nowUs = (world::nowUs / (TICK_MS * 1000ull) + ticks) * (TICK_MS * 1000ull);
}
inline void taskYIELD() { world::Platform p; world::step("taskYIELD"); }
