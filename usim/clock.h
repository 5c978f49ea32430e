#ifndef V_CLOCK_H
#define V_CLOCK_H
#include <stdint.h>
#include <stddef.h>
extern uint64_t clk_now, clk_span; extern uint64_t *tq; extern size_t tq_n, tq_cap, tq_r; extern long clk_meas_total, clk_limit;
void clk_init(void); void clk_op(int id); uint64_t clk_free(void);
#endif
