#pragma once
#include <cstdint>
#include "world.h"
#ifndef TICK_MS
#define TICK_MS 1
#endif
typedef uint32_t TickType_t;
typedef int BaseType_t;
typedef unsigned UBaseType_t;
#define configTICK_RATE_HZ (1000 / TICK_MS)
#define portMAX_DELAY ((TickType_t)0xffffffffUL)
#define portTICK_PERIOD_MS ((TickType_t)(1000 / configTICK_RATE_HZ))
#define portTICK_RATE_MS portTICK_PERIOD_MS
#define pdMS_TO_TICKS(ms) ((TickType_t)(((uint64_t)(ms) * (uint64_t)configTICK_RATE_HZ) / 1000u))
#define pdTICKS_TO_MS(t) ((TickType_t)(((uint64_t)(t) * 1000u) / configTICK_RATE_HZ))
#define pdTRUE 1
#define pdFALSE 0
#define pdPASS 1
#define pdFAIL 0
