#pragma once
#include "TVector3.h"
class TLorentzVector { double p[4]; public:
  TLorentzVector(double x=0,double y=0,double z=0,double t=0){ p[0]=x;p[1]=y;p[2]=z;p[3]=t; }
  explicit TLorentzVector(const double* q){ for(int i=0;i<4;++i) p[i]=q[i]; }
  double Px() const {return p[0];} double Py() const {return p[1];} double Pz() const {return p[2];} double E() const {return p[3];} double T() const {return p[3];}
  double X() const {return p[0];} double Y() const {return p[1];} double Z() const {return p[2];}
  TVector3 Vect() const { return TVector3(p[0],p[1],p[2]); }
  double Dot(const TLorentzVector& o) const { return p[3]*o.p[3]-p[2]*o.p[2]-p[1]*o.p[1]-p[0]*o.p[0]; }
  double Mag2() const { return Dot(*this); } double M2() const { return Dot(*this); } double M() const { double m=Mag2(); return m<0 ? -std::sqrt(-m) : std::sqrt(m); } double P() const { return Vect().Mag(); }
  TVector3 BoostVector() const { return TVector3(p[0]/p[3],p[1]/p[3],p[2]/p[3]); }
  void Boost(const TVector3& b){ double bx=b.x(),by=b.y(),bz=b.z(); double b2=bx*bx+by*by+bz*bz; double g=1.0/std::sqrt(1.0-b2); double bp=bx*p[0]+by*p[1]+bz*p[2]; double g2=b2>0?(g-1.0)/b2:0.0;
    p[0]+=g2*bp*bx+g*bx*p[3]; p[1]+=g2*bp*by+g*by*p[3]; p[2]+=g2*bp*bz+g*bz*p[3]; p[3]=g*(p[3]+bp); }
  TLorentzVector operator+(const TLorentzVector& o) const { return TLorentzVector(p[0]+o.p[0],p[1]+o.p[1],p[2]+o.p[2],p[3]+o.p[3]); }
  TLorentzVector operator-(const TLorentzVector& o) const { return TLorentzVector(p[0]-o.p[0],p[1]-o.p[1],p[2]-o.p[2],p[3]-o.p[3]); }
};
