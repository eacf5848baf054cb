#pragma once
#include "TRandom.h"
class TRandom3 : public TRandom { public: TRandom3(unsigned seed=0) : TRandom(seed) {} };
