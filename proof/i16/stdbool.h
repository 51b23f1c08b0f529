/* headers for proofs with the 16 bit machine model (AVR) */
#define bool _Bool
#define true 1
#define false 0
