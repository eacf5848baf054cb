// Stand-in for ROOT's random generator interface (ROOT is not installed here).
#pragma once
#include "Rtypes.h"
class TRandom { public:
  TRandom(unsigned seed=0){}
  virtual ~TRandom(){}
  virtual double Rndm(){ return 0.5; }
  virtual double Uniform(double a=1){ return a*Rndm(); }
  virtual double Uniform(double a,double b){ return a+(b-a)*Rndm(); }
  virtual double Exp(double t){ return t; }
  virtual double Gaus(double m=0,double s=1){ return m; }
  virtual void SetSeed(unsigned long){}
  virtual unsigned GetSeed() const { return 0; }
  virtual unsigned Integer(unsigned n){ return 0; }
};
extern TRandom* gRandom;
