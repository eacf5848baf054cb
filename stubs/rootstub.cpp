#include "TRandom3.h"
static TRandom3 theRandom; TRandom* gRandom = &theRandom;
