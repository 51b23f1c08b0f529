/* headers for proofs with the 16 bit machine model (AVR) */
#pragma once
typedef unsigned char uint8_t; typedef signed char int8_t; typedef unsigned short uint16_t; typedef short int16_t; typedef unsigned long uint32_t; typedef long int32_t;
