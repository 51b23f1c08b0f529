/* headers for proofs with the 16 bit machine model (AVR) */
#define NULL ((void*)0)
typedef unsigned int size_t;
