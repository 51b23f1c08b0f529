/* empty: lets the 64 bit C library headers be used for proofs with the 32 bit machine model */
