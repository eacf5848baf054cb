#pragma once
#include "Rtypes.h"
class TAxis{ public: void SetTitle(const char*){} double GetBinCenter(int){return 0;} };
class TH1 { public: virtual ~TH1(){} TAxis a; TAxis* GetXaxis(){return &a;} TAxis* GetYaxis(){return &a;} void Fill(double,double=1){} void Sumw2(){} void Scale(double){} double Integral(){return 0;} double GetBinContent(int) const {return 0;} int GetNbinsX() const {return 0;} void SetLineColor(int){} void SetMarkerSize(double){} void SetMinimum(double){} void SetDrawOption(const char*){} void SetTitle(const char*){} void SetName(const char*){} void Write(){} };
class TH1D : public TH1 { public: TH1D(const char* ="",const char* ="",int=1,double=0,double=1){} };
class TH2D : public TH1 { public: TH2D(const char* ="",const char* ="",int=1,double=0,double=1,int=1,double=0,double=1){} void Fill(double,double,double=1){} };
class THStack { public: THStack(const char* ="",const char* =""){} void Add(TH1*,const char* =""){} void Write(){} };
