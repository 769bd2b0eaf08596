#define SEQ_MAIN
#include "seq.h"
