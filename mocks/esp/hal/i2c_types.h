#pragma once
#include <cstdint>
typedef int i2c_port_t;
#define I2C_NUM_0 0
#define I2C_NUM_1 1
typedef enum { I2C_MODE_SLAVE = 0, I2C_MODE_MASTER = 1 } i2c_mode_t;
typedef enum { I2C_MASTER_WRITE = 0, I2C_MASTER_READ = 1 } i2c_rw_t;
typedef enum { I2C_MASTER_ACK = 0, I2C_MASTER_NACK = 1, I2C_MASTER_LAST_NACK = 2 } i2c_ack_type_t;
#define I2C_SCLK_SRC_FLAG_FOR_NOMAL 0
