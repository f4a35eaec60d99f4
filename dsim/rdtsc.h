/* forced into every translation unit of the "clock" build: reading the cycle counter asks the simulator */
__asm__(".macro rdtsc\n call dsim_rdtsc_thunk\n .endm\n .macro rdtscp\n xorl %ecx, %ecx\n call dsim_rdtsc_thunk\n .endm\n");
