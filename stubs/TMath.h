#pragma once
#include <cmath>
namespace TMath { inline double ATan2(double y,double x){ return std::atan2(y,x); } inline double Pi(){ return 3.14159265358979323846; } }
