#pragma once
#include <cmath>
using std::floor;
typedef int Int_t; typedef double Double_t; typedef unsigned UInt_t; typedef bool Bool_t; typedef float Float_t;
