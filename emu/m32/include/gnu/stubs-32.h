/* nothing: the 64-bit development package has no list for 32 bits */
