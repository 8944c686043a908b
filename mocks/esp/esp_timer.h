#pragma once
#include "esp_err.h"
inline int64_t esp_timer_get_time() { world::Platform p; world::step("esp_timer_get_time"); world::lastClockRead = world::nowUs; return int64_t(world::nowUs); }
inline uint32_t esp_log_timestamp() { world::Platform p; world::step("esp_log_timestamp"); world::lastClockRead = world::nowUs; return uint32_t(world::nowUs / 1000); }
inline void esp_rom_delay_us(uint32_t us) { world::Platform p; world::step("esp_rom_delay_us"); world::nowUs += us; }
inline void ets_delay_us(uint32_t us) { esp_rom_delay_us(us); }
