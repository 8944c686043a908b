#pragma once
#include "esp_err.h"
#include "soc/adc_periph.h"
typedef enum { ADC_UNIT_1, ADC_UNIT_2 } adc_unit_t;
typedef enum { ADC_CHANNEL_0, ADC_CHANNEL_1, ADC_CHANNEL_2, ADC_CHANNEL_3, ADC_CHANNEL_4, ADC_CHANNEL_5, ADC_CHANNEL_6, ADC_CHANNEL_7, ADC_CHANNEL_8, ADC_CHANNEL_9 } adc_channel_t;
typedef enum { ADC_ATTEN_DB_0, ADC_ATTEN_DB_2_5, ADC_ATTEN_DB_6, ADC_ATTEN_DB_12, ADC_ATTEN_DB_11 = ADC_ATTEN_DB_12 } adc_atten_t;
typedef enum { ADC_BITWIDTH_DEFAULT = 0, ADC_BITWIDTH_9 = 9, ADC_BITWIDTH_10 = 10, ADC_BITWIDTH_11 = 11, ADC_BITWIDTH_12 = 12 } adc_bitwidth_t;
typedef enum { ADC_ULP_MODE_DISABLE } adc_ulp_mode_t;
typedef int adc_oneshot_clk_src_t;
#define ADC_RTC_CLK_SRC_DEFAULT 4
#define ADC_DIGI_CLK_SRC_DEFAULT 4
struct adc_oneshot_unit_ctx_t { int unit; };
typedef adc_oneshot_unit_ctx_t* adc_oneshot_unit_handle_t;
typedef struct { adc_unit_t unit_id; adc_oneshot_clk_src_t clk_src; adc_ulp_mode_t ulp_mode; } adc_oneshot_unit_init_cfg_t;
typedef struct { adc_atten_t atten; adc_bitwidth_t bitwidth; } adc_oneshot_chan_cfg_t;
namespace world { WORLD adc_oneshot_unit_ctx_t adcUnits[2] = { { 0 }, { 1 } }; WORLD bool adcConfigured[2][16]; }
inline bool adcValid(adc_oneshot_unit_handle_t h)
{
    bool ok = (h == &world::adcUnits[0] && world::adc.claimed[0]) || (h == &world::adcUnits[1] && world::adc.claimed[1]);
    if (!ok) ++world::adc.wrongUse;
    return ok;
}
inline esp_err_t adc_oneshot_new_unit(const adc_oneshot_unit_init_cfg_t* cfg, adc_oneshot_unit_handle_t* handle)
{
    world::Platform p;
    if (world::fails("adc_oneshot_new_unit")) return ESP_ERR_NO_MEM;
    int u = cfg->unit_id;
    if (u < 0 || u > 1) return ESP_ERR_INVALID_ARG;
    if (world::adc.claimed[u]) return ESP_ERR_NOT_FOUND;
    world::adc.claimed[u] = true;
    for (bool &b: world::adcConfigured[u]) b = false;
    *handle = &world::adcUnits[u];
    return ESP_OK;
}
inline esp_err_t adc_oneshot_config_channel(adc_oneshot_unit_handle_t h, adc_channel_t ch, const adc_oneshot_chan_cfg_t*)
{
    world::Platform p;
    if (!adcValid(h) || ch < 0 || ch >= SOC_ADC_MAX_CHANNEL_NUM) return ESP_ERR_INVALID_ARG;
    if (world::fails("adc_oneshot_config_channel")) return ESP_ERR_INVALID_ARG;
    world::adcConfigured[h->unit][ch] = true;
    return ESP_OK;
}
inline esp_err_t adc_oneshot_read(adc_oneshot_unit_handle_t h, adc_channel_t ch, int* out)
{
    world::Platform p;
    if (!adcValid(h) || ch < 0 || ch >= SOC_ADC_MAX_CHANNEL_NUM) return ESP_ERR_INVALID_ARG;
    if (world::fails("adc_oneshot_read")) return ESP_ERR_TIMEOUT;
    ++world::adc.reads;
    *out = world::adcConfigured[h->unit][ch] ? world::adc.value[h->unit][ch] : 4242424;
    return ESP_OK;
}
inline esp_err_t adc_oneshot_del_unit(adc_oneshot_unit_handle_t h)
{
    world::Platform p;
    if (!adcValid(h)) return ESP_ERR_INVALID_ARG;
    world::adc.claimed[h->unit] = false;
    return ESP_OK;
}
inline esp_err_t adc_oneshot_io_to_channel(int io, adc_unit_t* unit, adc_channel_t* ch)
{
    for (int i = 0; i < SOC_ADC_PERIPH_NUM; ++i)
        for (int j = 0; j < SOC_ADC_MAX_CHANNEL_NUM; ++j)
            if (io >= 0 && adc_channel_io_map[i][j] == io) { *unit = adc_unit_t(i); *ch = adc_channel_t(j); return ESP_OK; }
    return ESP_ERR_NOT_FOUND;
}
inline void adc_power_acquire() {}
inline void adc_power_release() {}
