#pragma once
#include "Rtypes.h"
class TTree { public: long GetEntries() const {return 0;} };
