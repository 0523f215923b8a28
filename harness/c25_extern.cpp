#include "c25_extern.h"

#ifdef C25_EXTERN
C25_EACH_TYPE(COIL_ARGUMENT_TEMPLATE);
C25_EACH_TYPE(COIL_NAMED_ARGS_TEMPLATE);
C25_EACH_TYPE(COIL_VARIABLE_TEMPLATE);
C25_EACH_SIGNATURE(COIL_FUNCTION_ARGS_TEMPLATE);
#endif
