#pragma once
#include "esp_err.h"
inline esp_err_t esp_sleep_enable_timer_wakeup(uint64_t us)
{
    world::Platform p;
    world::step("esp_sleep_enable_timer_wakeup");
    world::sleep.wakeup = us;
    world::sleep.armed = true;
    return ESP_OK;
}
inline esp_err_t esp_light_sleep_start()
{
    world::Platform p;
    auto &s = world::sleep;
    world::step("esp_light_sleep_start");
    if (world::fails("esp_light_sleep_start")) { ++s.failures; return ESP_ERR_INVALID_STATE; }
    s.ends.push_back(world::nowUs + s.wakeup);
    s.lastSeen.push_back(world::lastClockRead);
    uint64_t t = s.armed ? s.wakeup : 1000000000000ull;
    if (s.early.count(s.sleeps++)) t = t / 3;
    world::nowUs += t;
    return ESP_OK;
}
[[noreturn]] inline void esp_deep_sleep_start()
{
    throw world::DeepSleep { world::sleep.armed ? world::sleep.wakeup : UINT64_MAX };
}
[[noreturn]] inline void esp_deep_sleep(uint64_t us) { throw world::DeepSleep { us }; }
