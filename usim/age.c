/* the only place that looks inside an instance: give its usage counters the values of a long life; left out if it does not compile */
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
int sim_age(struct rand_data *ec, uint64_t inv, uint64_t bytes);
int sim_age(struct rand_data *ec, uint64_t inv, uint64_t bytes)
{
	uint64_t i = ec->read_invocations, b = ec->bytes_output;
	ec->read_invocations = inv; ec->bytes_output = bytes;
	if (ec->read_invocations == inv && ec->bytes_output == bytes) return 1;
	ec->read_invocations = i; ec->bytes_output = b;	/* an age it cannot have */
	return 0;
}
