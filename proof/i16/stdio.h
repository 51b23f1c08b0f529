/* headers for proofs with the 16 bit machine model (AVR) */
#include <stddef.h>
