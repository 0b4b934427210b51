// The real server under random delays and short or interrupted I/O.
#include "faults.h"
