#ifndef REF_STDBOOL
#define REF_STDBOOL
#define bool _Bool
#define true 1
#define false 0
#define __bool_true_false_are_defined 1
#endif
