#pragma once
#include "esp_err.h"
#include "soc/adc_periph.h"
typedef int gpio_num_t_base;
typedef enum { GPIO_NUM_NC = -1, GPIO_NUM_0 = 0, GPIO_NUM_MAX = 1000 } gpio_num_t;
typedef enum { GPIO_MODE_DISABLE = 0, GPIO_MODE_INPUT = 1, GPIO_MODE_OUTPUT = 2, GPIO_MODE_OUTPUT_OD = 6, GPIO_MODE_INPUT_OUTPUT_OD = 7, GPIO_MODE_INPUT_OUTPUT = 3 } gpio_mode_t;
typedef enum { GPIO_PULLUP_DISABLE = 0, GPIO_PULLUP_ENABLE = 1 } gpio_pullup_t;
typedef enum { GPIO_PULLDOWN_DISABLE = 0, GPIO_PULLDOWN_ENABLE = 1 } gpio_pulldown_t;
typedef enum { GPIO_PULLUP_ONLY, GPIO_PULLDOWN_ONLY, GPIO_PULLUP_PULLDOWN, GPIO_FLOATING } gpio_pull_mode_t;
typedef enum { GPIO_INTR_DISABLE = 0, GPIO_INTR_POSEDGE = 1, GPIO_INTR_NEGEDGE = 2, GPIO_INTR_ANYEDGE = 3 } gpio_int_type_t;
typedef struct { uint64_t pin_bit_mask; gpio_mode_t mode; gpio_pullup_t pull_up_en; gpio_pulldown_t pull_down_en; gpio_int_type_t intr_type; } gpio_config_t;
#define SOC_GPIO_VALID_GPIO_MASK (0xFFFFFFFFFFULL & ~((1ULL << 24) | (1ULL << 28) | (1ULL << 29) | (1ULL << 30) | (1ULL << 31)))
#define SOC_GPIO_VALID_OUTPUT_GPIO_MASK (SOC_GPIO_VALID_GPIO_MASK & ~(0x3FULL << 34))
inline bool GPIO_IS_VALID_GPIO_(int n) { return n >= 0 && n < 64 && ((1ULL << n) & SOC_GPIO_VALID_GPIO_MASK) != 0; }
inline bool GPIO_IS_VALID_OUTPUT_GPIO_(int n) { return n >= 0 && n < 64 && ((1ULL << n) & SOC_GPIO_VALID_OUTPUT_GPIO_MASK) != 0; }
#define GPIO_IS_VALID_GPIO(n) GPIO_IS_VALID_GPIO_(int(n))
#define GPIO_IS_VALID_OUTPUT_GPIO(n) GPIO_IS_VALID_OUTPUT_GPIO_(int(n))
// events: 'w' level; 'm' mode with pulls (1 up, 2 down) in extra; 'r'
namespace world { WORLD std::vector<uint64_t> pinMasks; }
inline esp_err_t gpio_set_level(gpio_num_t n, uint32_t level)
{
    world::Platform p;
    world::pinEvents.push_back({ 'w', int(n), level != 0, 0 });
    if (!GPIO_IS_VALID_OUTPUT_GPIO(n)) return ESP_ERR_INVALID_ARG;
    world::pinLatch[int(n)] = world::pinLevel[int(n)] = level != 0;
    return ESP_OK;
}
inline int gpio_get_level(gpio_num_t n)
{
    world::Platform p;
    world::pinEvents.push_back({ 'r', int(n), 0, 0 });
    return int(n) >= 0 && int(n) < 256 ? world::pinLevel[int(n)] : 0;
}
inline esp_err_t gpio_config(const gpio_config_t* c)
{
    world::Platform p;
    if (world::fails("gpio_config")) return ESP_FAIL;
    if (c->pin_bit_mask == 0 || (c->pin_bit_mask & ~SOC_GPIO_VALID_GPIO_MASK)) return ESP_ERR_INVALID_ARG;
    if ((c->mode & GPIO_MODE_OUTPUT) && (c->pin_bit_mask & ~SOC_GPIO_VALID_OUTPUT_GPIO_MASK)) return ESP_ERR_INVALID_ARG;
    for (int n = 0; n < 64; ++n)
        if (c->pin_bit_mask >> n & 1)
            world::pinEvents.push_back({ 'm', n, int(c->mode), (c->pull_up_en ? 1 : 0) | (c->pull_down_en ? 2 : 0) | (c->intr_type != GPIO_INTR_DISABLE ? 4 : 0) });
    return ESP_OK;
}
