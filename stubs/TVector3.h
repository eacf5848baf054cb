#pragma once
#include <cmath>
class TVector3 { double X,Y,Z; public:
  TVector3(double a=0,double b=0,double c=0):X(a),Y(b),Z(c){}
  double x() const {return X;} double y() const {return Y;} double z() const {return Z;}
  double Dot(const TVector3& o) const { return X*o.X+Y*o.Y+Z*o.Z; }
  TVector3 Cross(const TVector3& o) const { return TVector3(Y*o.Z-Z*o.Y, Z*o.X-X*o.Z, X*o.Y-Y*o.X); }
  double Mag2() const { return Dot(*this); } double Mag() const { return std::sqrt(Mag2()); }
  TVector3 Unit() const { double m=Mag(); return m>0 ? TVector3(X/m,Y/m,Z/m) : *this; }
  TVector3 operator-() const { return TVector3(-X,-Y,-Z); }
  TVector3 operator+(const TVector3& o) const { return TVector3(X+o.X,Y+o.Y,Z+o.Z); }
};
