/* an arm64 core's system registers, answered by the simulator */
unsigned long sim_sysreg_read(const char *r); void sim_sysreg_write(const char *r, unsigned long v); void sim_isb(void);
#define read_sysreg(r) sim_sysreg_read(#r)
#define read_sysreg_s(r) sim_sysreg_read(#r)
#define write_sysreg(v, r) sim_sysreg_write(#r, (v))
#define isb() sim_isb()
