/* the sandbox has no 32-bit C library; nothing of it is needed */
