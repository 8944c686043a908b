#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <algorithm>
#include <cstring>
#include "world.h"

// unsigned long has 32 bits on the boards
#define LOW 0x0
#define HIGH 0x1
#define INPUT 0x01
#define OUTPUT 0x03
#define PULLUP 0x04
#define INPUT_PULLUP 0x05
#define PULLDOWN 0x08
#define INPUT_PULLDOWN 0x09
#define OPEN_DRAIN 0x10
#define OUTPUT_OPEN_DRAIN 0x13
#define ANALOG 0xC0
#define LSBFIRST 0
#define MSBFIRST 1

typedef bool boolean;
typedef uint8_t byte;

inline uint32_t millis() { world::Platform p; world::step("millis"); world::lastClockRead = world::nowUs; return uint32_t(world::nowUs / 1000); }
inline uint32_t micros() { world::Platform p; world::step("micros"); world::lastClockRead = world::nowUs; return uint32_t(world::nowUs); }
namespace world { inline std::vector<uint32_t> delays, delaysUs; inline std::map<int, int> analog; }
inline void delay(uint32_t ms) { world::Platform p; world::step("delay"); world::delays.push_back(ms); world::nowUs += uint64_t(ms) * 1000; }
inline void delayMicroseconds(uint32_t us) { world::Platform p; world::step("delayMicroseconds"); world::delaysUs.push_back(us); world::nowUs += us; }
inline void yield() { world::Platform p; world::step("yield"); }

inline void pinMode(uint8_t pin, uint8_t mode) { world::Platform p; world::pinEvents.push_back({ 'm', pin, mode, 0 }); }
inline void digitalWrite(uint8_t pin, uint8_t val) { world::Platform p; world::pinEvents.push_back({ 'w', pin, val, 0 }); world::pinLatch[pin] = world::pinLevel[pin] = val != 0; }
inline int digitalRead(uint8_t pin) { world::Platform p; world::pinEvents.push_back({ 'r', pin, world::pinLevel[pin], 0 }); return world::pinLevel[pin]; }
inline uint16_t analogRead(uint8_t pin) { world::Platform p; return uint16_t(world::analog[pin]); }

using std::max;
using std::min;
#define constrain(amt, low, high) ((amt) < (low) ? (low) : ((amt) > (high) ? (high) : (amt)))
#define lowByte(w) ((uint8_t)((w) & 0xff))
#define highByte(w) ((uint8_t)((w) >> 8))
#define bitRead(value, bit) (((value) >> (bit)) & 0x01)

#include "HardwareSerial.h"
