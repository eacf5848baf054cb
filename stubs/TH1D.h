#pragma once
#include "TH1.h"
