#include "util.h"
#include "AmpGen/Utilities.h"
#include <cstdlib>
using namespace AmpGen;
using std::string; using std::vector;
static bool isBlank(const string& t){ return t==" "||t==""||t=="\n"||t=="\t"; }
static vector<string> refSplit(const string& s,char d){ vector<string> r; string cur; bool any=false; for(char c:s){ if(c==d){ r.push_back(cur); cur=""; any=false; } else { cur+=c; any=true; } } if(any) r.push_back(cur); return r; }
static void same(const vector<string>& a,const vector<string>& b,const char* l){ sym_check(a.size()==b.size(),l); for(size_t i=0;i<a.size()&&i<b.size();++i) sym_check(a[i]==b[i],l); }
GOAL(split_char){ unsigned n=sym_choose("n",0,sym_tier()?7:5); auto s=sym_string("s",n,"ab, "); same(split(s,',',false),refSplit(s,','),"split on a character, keeping blanks"); }
GOAL(split_char_blank){ unsigned n=sym_choose("n",0,sym_tier()?6:5); auto s=sym_string("s",n,"a,\t \n"); auto r=refSplit(s,','); vector<string> k; for(auto& t:r) if(!isBlank(t)) k.push_back(t); same(split(s,','),k,"split on a character, ignoring blank tokens"); }
GOAL(split_anybyte){ unsigned n=sym_choose("n",0,4); auto s=sym_string("s",n); same(split(s,':',false),refSplit(s,':'),"split, any byte"); }
GOAL(split_set){ unsigned n=sym_choose("n",0,sym_tier()?6:4); auto s=sym_string("s",n,"a+-("); long keep=sym_choose("keep",0,1); vector<string> r; string cur; for(char c:s){ if(c=='+'||c=='('){ if(cur!="") r.push_back(cur); if(keep) r.push_back(string(1,c)); cur=""; } else cur+=c; } if(cur!="") r.push_back(cur); same(split(s,{'+','('},keep),r,"split on a set of delimiters"); }
GOAL(trim){ unsigned n=sym_choose("n",0,sym_tier()?7:5); auto s=sym_string("s",n,"a \t\nb\r"); auto sp=[](char c){ return c==' '||(c>=9&&c<=13); }; size_t b=0,e=n; while(b<e&&sp(s[b])) ++b; size_t b0=b; while(e>b&&sp(s[e-1])) --e; sym_check(trim(s)==s.substr(b,e-b),"trim"); size_t e2=n; while(e2>0&&sp(s[e2-1])) --e2; sym_check(rtrim(s)==s.substr(0,e2),"rtrim"); sym_check(ltrim(s)==s.substr(b0),"ltrim"); }
static string refReplace(const string& s,const string& a,const string& b){ string o; size_t i=0; while(i<s.size()){ if(a.size()&&s.compare(i,a.size(),a)==0){ o+=b; i+=a.size(); } else o+=s[i++]; } return o; }
GOAL(replace_short){ unsigned n=sym_choose("n",0,sym_tier()?6:5); auto s=sym_string("s",n,"ab"); sym_check(replaceAll(s,"a","")==refReplace(s,"a",""),"deletion of a character"); sym_check(replaceAll(s,"ab","c")==refReplace(s,"ab","c"),"shrinking replacement"); sym_check(replaceAll(s,"a","aa")==refReplace(s,"a","aa"),"replacement that contains the pattern"); }
GOAL(replace_general){ unsigned n=sym_choose("n",0,sym_tier()?5:4),k=sym_choose("k",1,2),m=sym_choose("m",0,3); auto s=sym_string("s",n,"ab"),a=sym_string("a",k,"ab"),b=sym_string("b",m,"ab"); sym_check(replaceAll(s,a,b)==(a==b?s:refReplace(s,a,b)),"replaceAll"); }
GOAL(replace_empty){ auto s=sym_string("s",sym_choose("n",0,3),"ab"); sym_check(replaceAll(s,"","x")==s,"empty pattern"); sym_check(replaceAll(s,s,s)==s,"identity"); }
GOAL(replace_rules){ unsigned n=sym_choose("n",0,4); auto s=sym_string("s",n,"+-("); sym_check(replaceAll(s,{{"+","-"},{"-","x"},{"(",""}})==refReplace(refReplace(refReplace(s,"+","-"),"-","x"),"(",""),"rules are applied in order"); }
GOAL(findall){ unsigned n=sym_choose("n",0,5),k=sym_choose("k",1,2); auto s=sym_string("s",n,"ab"),p=sym_string("p",k,"ab"); auto f=findAll(s,p); vector<size_t> r; for(size_t i=0;i+k<=n;++i) if(s.compare(i,k,p)==0) r.push_back(i); sym_check(f==r,"findAll: every (overlapping) position"); auto v=vecFindAll(s,{p,"b"}); std::map<size_t,string> m; for(auto i:r) m[i]=p; for(size_t i=0;i<n;++i) if(s[i]=='b') m[i]="b"; sym_check(v==m,"vecFindAll"); size_t first=string::npos; for(size_t i=1;i<=n;++i) if(first==string::npos&&((i+k<=n&&s.compare(i,k,p)==0)||(i<n&&s[i]=='b'))) first=i; if(n>0) sym_check(find_next_of(s,{p,"b"},1)==first,"find_next_of"); }
GOAL(swapchars){ unsigned n=sym_choose("n",0,5); auto s=sym_string("s",n); string t=s; swapChars(t,'+','-'); sym_check(t.size()==n,"length"); for(unsigned i=0;i<n;++i) sym_check(t[i]==(s[i]=='+'?'-':s[i]=='-'?'+':s[i]),"swapChars"); swapChars(t,'+','-'); sym_check(t==s,"swapping twice is the identity"); }
// wildcard: reference is the textbook recursion
static bool refGlob(const char* s,const char* p){ if(!*p) return !*s; if(*p=='*') return refGlob(s,p+1)||(*s&&refGlob(s+1,p)); return *s&&*s==*p&&refGlob(s+1,p+1); }
GOAL(wildcard){ unsigned n=sym_choose("n",0,4),m=sym_choose("m",1,sym_tier()?4:3); auto s=sym_string("s",n,"ab"),p=sym_string("p",m,"ab*"); sym_check(stringMatchesWildcard(s,p)==refGlob(s.c_str(),p.c_str()),"wildcard match"); }
GOAL(wildcard_long){ auto s=sym_string("s",5,"ab"); sym_check(stringMatchesWildcard(s,"a*b*a")==refGlob(s.c_str(),"a*b*a"),"a*b*a"); sym_check(stringMatchesWildcard(s,"*ab")==refGlob(s.c_str(),"*ab"),"*ab"); sym_check(stringMatchesWildcard(s,"ab*b")==refGlob(s.c_str(),"ab*b"),"ab*b"); }
// items of X{Y,Z{..},..}: built from the grammar
static string leaf(const char* nm){ unsigned n=sym_choose((string(nm)+".n").c_str(),1,2); return sym_string(nm,n,"K*0-"); }
static string subtree(const char* nm,int depth){ string h=leaf(nm); if(depth==0||sym_choose((string(nm)+".t").c_str(),0,1)==0) return h; string r=h+"{"; unsigned k=sym_choose((string(nm)+".k").c_str(),1,2); for(unsigned i=0;i<k;++i){ if(i) r+=","; r+=subtree((string(nm)+"."+char('0'+i)).c_str(),depth-1); } return r+"}"; }
GOAL(items){ string h=sym_string("h",1,"DB"); vector<string> it; unsigned k=sym_choose("k",1,sym_tier()?3:2); for(unsigned i=0;i<k;++i) it.push_back(subtree((string("c")+char('0'+i)).c_str(),sym_tier()?2:1)); string t=h+"{"; for(unsigned i=0;i<k;++i) t+=(i?",":"")+it[i]; t+="}"; auto v=getItems(t); vector<string> r{h}; for(auto& x:it) r.push_back(x); same(v,r,"bracket-aware items"); }
GOAL(items_anything){ sym_expect_throw(1); unsigned n=sym_choose("n",0,sym_tier()?6:5); auto s=sym_string("s",n,"{},a"); auto v=getItems(s); bool br=false; for(char c:s) br|=(c=='{')|(c=='}'); if(!br){ sym_check(v.size()==1&&v[0]==s,"no brackets: the string itself"); } else sym_check(true,"any string of brackets terminates without touching memory outside it"); }
static unsigned refEdit(const string& a,size_t i,const string& b,size_t j){ if(i==0) return j; if(j==0) return i; unsigned x=refEdit(a,i-1,b,j)+1,y=refEdit(a,i,b,j-1)+1,z=refEdit(a,i-1,b,j-1)+(a[i-1]==b[j-1]?0:1); unsigned m=x<y?x:y; return m<z?m:z; }
GOAL(editdistance_long){ unsigned n=sym_choose("n",3,4),m=sym_choose("m",4,5); auto a=sym_string("a",n,"xy"),b=sym_string("b",m,"xy"); unsigned d=editDistance(a,b); sym_check(d==refEdit(a,n,b,m)&&editDistance(b,a)==d,"edit distance"); }
GOAL(editdistance){ unsigned n=sym_choose("n",0,sym_tier()?4:3),m=sym_choose("m",0,3); auto a=sym_string("a",n,"xyz"),b=sym_string("b",m,"xyz"); unsigned d=editDistance(a,b); sym_check(d==refEdit(a,n,b,m),"edit distance"); sym_check(editDistance(b,a)==d,"symmetric"); sym_check((d==0)==(a==b),"zero iff equal"); }
GOAL(fnv){ unsigned n=sym_choose("n",0,3); auto s=sym_string("s",n); unsigned h=2166136261u; for(char c:s){ sym_assume(c>0); h^=(unsigned char)c; h*=16777619u; } sym_check(FNV1a_hash(s)==h,"FNV-1a"); }
GOAL(join){ unsigned k=sym_choose("k",0,3); vector<string> v; string r; for(unsigned i=0;i<k;++i){ v.push_back(sym_string((string("w")+char('0'+i)).c_str(),sym_choose((string("l")+char('0'+i)).c_str(),0,2),"ab;")); r+=(i?", ":"")+v[i]; } sym_check(vectorToString(v,", ")==r,"vectorToString joins with the delimiter"); }
GOAL(ncr){ int n=sym_choose("n",1,sym_tier()?7:6),r=sym_choose("r",1,sym_tier()?7:6); sym_assume(r<=n); auto v=nCr(n,r); long cnt=1; for(int i=0;i<r;++i) cnt=cnt*(n-i)/(i+1); sym_check((long)v.size()==cnt,"n choose r"); for(size_t i=0;i<v.size();++i){ sym_check((int)v[i].size()==r,"size"); for(int j=0;j<r;++j) sym_check(v[i][j]>=0&&v[i][j]<n&&(j==0||v[i][j]>v[i][j-1]),"increasing"); for(size_t j=0;j<i;++j) sym_check(v[i]!=v[j],"distinct"); } }
// numeric conversion: status reports exactly whether the whole word is a number
static bool refInt(const string& s,long& val){ size_t i=0; bool neg=false; if(i<s.size()&&(s[i]=='+'||s[i]=='-')){ neg=s[i]=='-'; ++i; } if(i>=s.size()) return false; val=0; for(;i<s.size();++i){ if(s[i]<'0'||s[i]>'9') return false; val=val*10+(s[i]-'0'); } if(neg) val=-val; return true; }
GOAL(cast_int){ unsigned n=sym_choose("n",1,3); auto s=sym_string("s",n,"07-a+"); long v=0; bool ok=refInt(s,v); bool st=true; int x=lexical_cast<int>(s,st); sym_check(st==ok,"int: status"); if(ok) sym_check(x==v,"int: value"); st=true; long y=lexical_cast<long>(s,st); sym_check(st==ok&&(!ok||y==v),"long"); st=false; lexical_cast<int>(s,st); sym_check(!st,"an earlier failure is not forgotten"); if(ok&&v>=0){ st=true; unsigned u=lexical_cast<unsigned>(s,st); sym_check(st&&(long)u==v,"unsigned"); st=true; unsigned long w=lexical_cast<unsigned long>(s,st); sym_check(st&&(long)w==v,"unsigned long"); } }
GOAL(cast_double){ unsigned n=sym_choose("n",1,3); auto s=sym_string("s",n,"25.-a"); bool ok=true; size_t i=0; bool neg=false; if(s[0]=='-'){ neg=true; i=1; } double v=0,sc=1; bool dot=false; int dg=0; for(;i<n;++i){ if(s[i]=='.'){ if(dot) ok=false; dot=true; } else if(s[i]>='0'&&s[i]<='9'){ ++dg; if(dot){ sc/=10; v+=(s[i]-'0')*sc; } else v=v*10+(s[i]-'0'); } else ok=false; } if(dg==0) ok=false; if(neg) v=-v; bool st=true; double x=lexical_cast<double>(s,st); sym_check(st==ok,"double: status"); if(ok) sym_eq(x,v,"double: value"); st=true; float f=lexical_cast<float>(s,st); sym_check(st==ok,"float: status"); if(ok) sym_check(f==(float)x,"float: value"); }
GOAL(cast_bool){ unsigned n=sym_choose("n",0,5); auto s=sym_string("s",n,"truefals01"); bool st=true; bool x=lexical_cast<bool>(s,st); bool t=(s=="1"||s=="true"),f=(s=="0"||s=="false"); sym_check(st==(t||f),"bool: status"); if(t||f) sym_check(x==t,"bool: value"); bool st2=true; sym_check(lexical_cast<string>(s,st2)==s&&st2,"string: unchanged"); }
static string envName(){ return "VERIF_ENV"; }
extern "C" void setup(){ setenv("VERIF_ENV","/some/dir",1); unsetenv("VERIF_NONE"); }
GOAL(globals){ unsigned n=sym_choose("n",0,3),m=sym_choose("m",0,3); auto a=sym_string("a",n,"x/."),b=sym_string("b",m,"x/.-"); sym_check(expandGlobals(a+"${VERIF_ENV}"+b)==a+"/some/dir"+b,"${NAME} is replaced by its value"); if(m==0||b[0]=='/'||b[0]=='.') sym_check(expandGlobals(a+"$VERIF_ENV"+b)==a+"/some/dir"+b,"$NAME is replaced by its value"); sym_check(expandGlobals(a+b)==a+b,"nothing to expand"); sym_check(expandGlobals(a+"${VERIF_NONE}"+b)==a+"${VERIF_NONE}"+b,"unknown variables stay"); sym_check(expandGlobals("${VERIF_ENV}/${VERIF_ENV}"+a)=="/some/dir//some/dir"+a,"several variables"); }
