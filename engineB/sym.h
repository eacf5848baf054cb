// Interface between a harness and the symbolic executor.  In interpreted code these calls are intercepted; natively (replay)
// they return the recorded counter-example values.
#pragma once
#include <cstdint>
#include <string>
extern "C" {
  long   sym_int(const char* name, long lo, long hi);        // symbolic integer in [lo,hi]
  long   sym_choose(const char* name, long lo, long hi);     // one path per value in [lo,hi]
  double sym_real(const char* name);                          // symbolic real number
  double sym_fp(const char* name);                            // symbolic IEEE double (comparisons only)
  void   sym_assume(bool c);
  void   sym_check(bool c, const char* label);
  void   sym_eq(double a, double b, const char* label);       // equality over the reals
  int    sym_tier();                                          // 0 quick, 1 thorough
  void   sym_bytes(const char* name, char* p, unsigned long n);
  void   sym_reach(const char* label);                        // reachability witness
  int    sym_is_native();
  void   sym_merge(int on);                                   // choices between real numbers become terms instead of paths
  void   sym_expect_throw(int on);                            // an exception leaving the goal is not an error
}
template <class... T> inline void sym_use(T&&...){}
// a string of exactly n characters drawn from `alphabet` (nullptr: any non-zero byte)
inline std::string sym_string(const char* name, unsigned n, const char* alphabet=nullptr){
  std::string s(n,'a'); sym_bytes(name,&s[0],n);
  for(unsigned i=0;i<n;++i){ bool ok=false; if(!alphabet) ok = s[i]!=0; else for(const char* a=alphabet;*a;++a) ok = ok | (s[i]==*a); sym_assume(ok); }
  return s; }
// path of a file with the given contents
#ifdef VERIF_IR
extern "C" { extern void* verif_file; }
inline std::string sym_file(const std::string& content){ verif_file=new std::string(content); return "verif:file"; }
#else
#include <sys/mman.h>
#include <unistd.h>
inline std::string sym_file(const std::string& content){ int fd=memfd_create("verif",0); if(write(fd,content.data(),content.size())){} return "/proc/self/fd/"+std::to_string(fd); }
#endif
