// Force-included when /repo's sources are lowered to LLVM IR: std::stringstream is replaced by a plain model with the same
// observable behaviour (the executor does not model libstdc++'s locale machinery).  Counter-examples are replayed against
// an ordinary build without this header.
#pragma once
#ifdef VERIF_IR
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#include <string>
#include <sstream>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <cstdio>
namespace std {
class verif_stringstream {
  string b; size_t g=0; bool f=false;
public:
  verif_stringstream(){} explicit verif_stringstream(const string& s):b(s){}
  string str() const { return b; } void str(const string& s){ b=s; g=0; f=false; }
  explicit operator bool() const { return !f; } bool operator!() const { return f; } bool good() const { return !f&&g<b.size(); } bool eof() const { return g>=b.size(); }
  verif_stringstream& operator<<(const string& s){ b+=s; return *this; }
  verif_stringstream& operator<<(const char* s){ b+=s; return *this; }
  verif_stringstream& operator<<(char c){ b+=c; return *this; }
  verif_stringstream& operator<<(int x){ b+=to_string(x); return *this; }
  verif_stringstream& operator<<(unsigned x){ b+=to_string(x); return *this; }
  verif_stringstream& operator<<(long x){ b+=to_string(x); return *this; }
  verif_stringstream& operator<<(unsigned long x){ b+=to_string(x); return *this; }
  verif_stringstream& operator<<(bool x){ b+=x?'1':'0'; return *this; }
  verif_stringstream& operator<<(double x){ char c[64]; snprintf(c,64,"%g",x); b+=c; return *this; }
  template <class T> verif_stringstream& operator<<(const T&){ b+="?"; return *this; }
  verif_stringstream& operator<<(ostream&(*)(ostream&)){ b+='\n'; return *this; }
  friend verif_stringstream& getline(verif_stringstream& s,string& out,char d){ if(s.g>=s.b.size()){ s.f=true; return s; } out.clear(); while(s.g<s.b.size()){ char c=s.b[s.g++]; if(c==d) return s; out+=c; } return s; }
  friend verif_stringstream& getline(verif_stringstream& s,string& out){ return getline(s,out,'\n'); }
};
verif_stringstream& getline(verif_stringstream& s,string& out,char d); verif_stringstream& getline(verif_stringstream& s,string& out);
// files: a path starting with "verif:" denotes the (symbolic) contents handed over by the harness, any other path is read natively
}
extern "C" { extern void* verif_file; }
namespace std {
class verif_ifstream {
  string b; size_t g=0; bool e=false,f=false;
public:
  verif_ifstream(){} explicit verif_ifstream(const char* p,int=0){ open(p); } explicit verif_ifstream(const string& p,int=0){ open(p.c_str()); } verif_ifstream(const char* p,ios_base::openmode){ open(p); } verif_ifstream(const string& p,ios_base::openmode){ open(p.c_str()); }
  void open(const char* p){ if(p[0]=='v'&&p[1]=='e'&&p[2]=='r'&&p[3]=='i'&&p[4]=='f'&&p[5]==':'){ b=*(string*)verif_file; return; } FILE* h=fopen(p,"rb"); if(!h){ f=true; return; } char c[4096]; size_t n; while((n=fread(c,1,4096,h))>0) b.append(c,n); fclose(h); }
  void close(){} bool is_open() const { return !f; } bool good() const { return !e&&!f; } bool eof() const { return e; } bool fail() const { return f; } explicit operator bool() const { return !f; } bool operator!() const { return f; }
  verif_ifstream& read(char* p,long n){ for(long i=0;i<n;++i){ if(g>=b.size()){ e=f=true; return *this; } p[i]=b[g++]; } return *this; }
  friend verif_ifstream& getline(verif_ifstream& s,string& out,char d){ if(!s.good()){ s.f=true; return s; } out.clear(); bool any=false; while(s.g<s.b.size()){ char c=s.b[s.g++]; any=true; if(c==d) return s; out+=c; } s.e=true; if(!any) s.f=true; return s; }
  friend verif_ifstream& getline(verif_ifstream& s,string& out){ return getline(s,out,'\n'); }
};
verif_ifstream& getline(verif_ifstream& s,string& out,char d); verif_ifstream& getline(verif_ifstream& s,string& out);
}
#define ifstream verif_ifstream
#define stringstream verif_stringstream
#define istringstream verif_stringstream
#define ostringstream verif_stringstream
#endif
