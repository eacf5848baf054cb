#pragma once
#include <cstdlib>
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
// a..d: charged, own antiparticle format B; e,f: neutral, format F (ebar0); g: its own antiparticle; h,i,k: entries without identifier; l: same mass and spin as b
static const char* TABLE[]={
 "100,0,0,0,0,0,1,-,0,-,+,B,101,+,,R,a,uD","200,0,0,50,0,0,1,-,1,-,+,B,102,+,,R,b,uD","300,0,0,60,0,0,1,-,2,+,+,B,103,+,,R,c,uS","150,0,0,0,0,0,1,-,0,-,+,B,104,+,,R,d,cD",
 "180,0,0,0,0,0,1,-,0,-,+,F,105,0,,R,e,dS","400,0,0,70,0,0,1,-,1,+,+,F,106,0,,R,f,cU","120,0,0,0,0,0,1,-,0,-,+, ,107,0,,R,g,non-qQ","700,0,0,80,0,0,1,-,1,-,+,F,,0,,R,h,sD","800,0,0,80,0,0,1,-,0,-,+,B,,+,,R,i,cS","0,0,0,0,0,0,1,-,0,+,+, ,998,0,,R,NonResS,non-qQ",
 "700,0,0,80,0,0,1,-,1,-,+,F,,0,,R,k,bD","200,0,0,50,0,0,1,-,1,-,+,B,110,+,,R,l,cS"};
static void loadTable(){ using namespace AmpGen; using std::string; setenv("AMPGENROOT","/nonexistent",1); auto L=new ParticlePropertiesList(); ParticlePropertiesList::ptr=L; for(auto t:TABLE){ ParticleProperties p{string(t)}; L->m_theList.push_back(p); if(p.hasDistinctAnti()) L->m_theList.push_back(p.anti()); } L->makeMappings(); }
