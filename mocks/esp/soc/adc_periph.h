#pragma once
#define SOC_GPIO_PIN_COUNT 40
#define SOC_ADC_PERIPH_NUM 2
#define SOC_ADC_MAX_CHANNEL_NUM 10
inline const int adc_channel_io_map[SOC_ADC_PERIPH_NUM][SOC_ADC_MAX_CHANNEL_NUM] = {
    { 36, 37, 38, 39, 32, 33, 34, 35, -1, -1 },
    { 4, 0, 2, 15, 13, 12, 14, 27, 25, 26 } };
