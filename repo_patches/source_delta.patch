From 9a1b30b3a4e30612c6cfbf34914a093886932208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:57 +0000
Subject: [PATCH 01/59] fix: contract the fermion, not the scalar, in the
 chiral fermion-scalar vertices

---
 src/FermionVertices.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FermionVertices.cpp b/src/FermionVertices.cpp
index e6b25cf..79b833d 100644
--- a/src/FermionVertices.cpp
+++ b/src/FermionVertices.cpp
@@ -84,14 +84,14 @@ DEFINE_VERTEX( f_Vf_SR )
 DEFINE_VERTEX( f_fS_SL )
 { 
   Tensor proj = Spin1hProjector(P);
-  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 
 DEFINE_VERTEX( f_fS_SR )
 { 
   Tensor proj = Spin1hProjector(P);
-  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 DEFINE_VERTEX( f_fS_S1 ){ return Spin1hProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
@@ -260,14 +260,14 @@ DEFINE_VERTEX( F_VF_SR )
 DEFINE_VERTEX( F_FS_SL )
 { 
   Tensor proj = Spin1hbProjector(P);
-  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 
 DEFINE_VERTEX( F_FS_SR )
 { 
   Tensor proj = Spin1hbProjector(P);
-  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 DEFINE_VERTEX( F_FS_S1 ){ return Spin1hProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
-- 
2.43.0


From b5e79caab82a5b3c15a994456fc4c5484d7c68bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:57 +0000
Subject: [PATCH 02/59] fix: multiply by the scalar daughter's spin factor in
 f_fS_P, r_fS_P, r_fS_D, V_TS_D and conjugates

---
 src/FermionVertices.cpp | 12 ++++++------
 src/Vertex.cpp          |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/FermionVertices.cpp b/src/FermionVertices.cpp
index 79b833d..d54dd7d 100644
--- a/src/FermionVertices.cpp
+++ b/src/FermionVertices.cpp
@@ -28,7 +28,7 @@ DEFINE_VERTEX( f_fS_P )
   ADD_DEBUG_TENSOR( P, db );
   ADD_DEBUG_TENSOR( Q, db );
   ADD_DEBUG_TENSOR( L, db );
-  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d);
+  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d) * V2[0];
   return t; 
 }
 
@@ -140,7 +140,7 @@ DEFINE_VERTEX( r_fS_P )
   Tensor L = Orbital_PWave(P,Q);
   L.st();
   Tensor F = Spin1hProjector(P);
-  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d); 
+  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d) * V2[0]; 
   V.st();
   return V;
 }
@@ -153,7 +153,7 @@ DEFINE_VERTEX( r_fS_D )
   L.st(true);
   Expression L2 = make_cse(dot(L,L));
   Tensor gt = gamma_twiddle(P);
-  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d); 
+  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d) * V2[0]; 
   rt.st();
   return rt;
 }
@@ -204,7 +204,7 @@ DEFINE_VERTEX( F_FS_P )
   ADD_DEBUG_TENSOR( P, db );
   ADD_DEBUG_TENSOR( Q, db );
   ADD_DEBUG_TENSOR( L, db );
-  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d);
+  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d) * V2[0];
   return t; 
 }
 
@@ -316,7 +316,7 @@ DEFINE_VERTEX( R_FS_P )
   Tensor L = Orbital_PWave(P,Q);
   L.st();
   Tensor F = Spin1hbProjector(P);
-  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d); 
+  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d) * V2[0]; 
   V.st();
   return V;
 }
@@ -329,7 +329,7 @@ DEFINE_VERTEX( R_FS_D )
   L.st(true);
   Expression L2 = make_cse(dot(L,L));
   Tensor gt = gamma_twiddle(P);
-  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d); 
+  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d) * V2[0]; 
   rt.st();
   return rt;
 }
diff --git a/src/Vertex.cpp b/src/Vertex.cpp
index e6ce10f..b1f09a0 100644
--- a/src/Vertex.cpp
+++ b/src/Vertex.cpp
@@ -295,7 +295,7 @@ DEFINE_VERTEX( V_TS_D )
 {
   Tensor L        = ( -1 ) * Orbital_PWave( P, Q );
   Tensor coupling = LeviCivita()( -mu, -nu, -alpha, -beta ) * P( nu ) * Q( alpha );
-  return coupling( -mu, -nu ) * V1( nu, alpha ) * L( -alpha );
+  return ( coupling( -mu, -nu ) * V1( nu, alpha ) * L( -alpha ) ) * V2[0];
 }
 
 DEFINE_VERTEX( S_fF_S ) { return Bar(V2)(a) * V1(a); }
-- 
2.43.0


From 6281ca71fbace6736020c6a9c488405c4b181400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:57 +0000
Subject: [PATCH 03/59] fix: project antibaryon vertices F_FS_S1 and F_VF_D1
 onto antiparticle spinors

---
 src/FermionVertices.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FermionVertices.cpp b/src/FermionVertices.cpp
index d54dd7d..fd08f5c 100644
--- a/src/FermionVertices.cpp
+++ b/src/FermionVertices.cpp
@@ -270,7 +270,7 @@ DEFINE_VERTEX( F_FS_SR )
   return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
-DEFINE_VERTEX( F_FS_S1 ){ return Spin1hProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
+DEFINE_VERTEX( F_FS_S1 ){ return Spin1hbProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
 
 DEFINE_VERTEX( F_FS_P1 )
 {
@@ -304,7 +304,7 @@ DEFINE_VERTEX( F_VF_P3 ) //A5
 
 DEFINE_VERTEX( F_VF_D1 )
 {
-  Tensor proj   = Spin1hProjector(P);
+  Tensor proj   = Spin1hbProjector(P);
   Tensor gt     = gamma_twiddle(P);
   Tensor L      = Orbital_DWave(P,Q)(-mu,-nu) * V1(nu); 
   return proj( a, b ) * gt(mu,b,c) * L(-mu) * V2(c) ;
-- 
2.43.0


From 3184299185ae488661088e3e9e0618387bb895b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:27 +0000
Subject: [PATCH 04/59] fix: make the axial vertex V_fF_S1 transverse to the
 decaying momentum, as V_fF_S

---
 src/Vertex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vertex.cpp b/src/Vertex.cpp
index b1f09a0..b1c027c 100644
--- a/src/Vertex.cpp
+++ b/src/Vertex.cpp
@@ -311,7 +311,7 @@ DEFINE_VERTEX( V_fF_S ) {
   return V_fF_S; 
 }
 
-DEFINE_VERTEX( V_fF_S1 ){ return Bar(V2)(a) * Gamma[4](a,b) * Gamma4Vec()(mu,b,c) * V1(c); }
+DEFINE_VERTEX( V_fF_S1 ){ return Bar(V2)(a) * Gamma[4](a,b) * gamma_twiddle(P)(-mu,b,c) * V1(c); }
 
 DEFINE_VERTEX( V_fF_PL )
 { 
-- 
2.43.0


From fbf9880b719a8b670c56776314871b27f0c8b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:14 +0000
Subject: [PATCH 05/59] fix: identity of the empty TransformSequence in the
 two-component spinor representation

---
 src/Transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Transform.cpp b/src/Transform.cpp
index 812a6be..7149fbd 100644
--- a/src/Transform.cpp
+++ b/src/Transform.cpp
@@ -115,7 +115,7 @@ void TransformSequence::buildCache()
   {
    if( m_transforms.size() == 0 ){
      if( repr == Transform::Representation::Spinor ) m_cache[repr] = Identity(2);
-     m_cache[repr] = Identity(4);
+     else m_cache[repr] = Identity(4);
    }
    else { 
     Tensor::Index a,b,c;
-- 
2.43.0


From cd05ec7508c4d62d34cae40213222cd16f9cc3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:00 +0000
Subject: [PATCH 06/59] fix: helicity states of particles moving along the
 negative z-axis

---
 src/Particle.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index e6e71b7..6bd9935 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -556,8 +556,9 @@ Tensor Particle::externalSpinTensor(const int& polState, DebugSymbols* db ) cons
       Expression invP   = make_cse(Ternary( pP            > 1e-6, 1./pP,0));
       Expression pZoverP = make_cse(Ternary( pP > 1e-6, pZ/pP, 1) );
       Expression f = (pP-pZ)*invPT2;
-      if(polState ==  1) return N * Tensor({-pZoverP + 1i*z *pY*f*invP, -1i*pZoverP - 1i*z *pX*f*invP, z*invP           , 0.  }); 
-      if(polState == -1) return N * Tensor({ pZoverP + 1i*zb*pY*f*invP, -1i*pZoverP - 1i*zb*pX*f*invP,-zb*invP          , 0.  });
+      Expression pole = make_cse(Ternary( pX*pX + pY*pY > 1e-6, 0, 1 - pZoverP )); // limit of the azimuthal terms along the z-axis
+      if(polState ==  1) return N * Tensor({-pZoverP + 1i*z *pY*f*invP, -1i*pZoverP - 1i*z *pX*f*invP - 1i*pole, z*invP           , 0.  }); 
+      if(polState == -1) return N * Tensor({ pZoverP + 1i*zb*pY*f*invP, -1i*pZoverP - 1i*zb*pX*f*invP - 1i*pole,-zb*invP          , 0.  });
       if(polState ==  0) return     Tensor({pX*pE*invP/m    , pY*pE*invP/m       , pZoverP*pE/m, pP/m}); 
     }
     if( m_spinBasis == spinBasis::Dirac ){
@@ -573,9 +574,10 @@ Tensor Particle::externalSpinTensor(const int& polState, DebugSymbols* db ) cons
     {
       std::array<Tensor,2> xi;
       Expression aligned = make_cse( fcn::abs(pP + pZ) < 1e-6 ) ;
+      Expression moving  = make_cse( Ternary( pP > 1e-6, 1, 0 ) ); // along the negative z-axis, rather than at rest
       Expression n       = 1/fcn::sqrt( 2 * pP*(pP+pZ) );
-      xi[0] = Tensor( { Ternary( aligned, 1, n * ( pP + pZ ) )      , Ternary( aligned, 0, n * ( pX + 1i * pY) ) } );
-      xi[1] = Tensor( { Ternary( aligned, 0, n * ( -pX + 1i * pY )) , Ternary( aligned, 1, n * ( pP + pZ ) ) } );
+      xi[0] = Tensor( { Ternary( aligned, 1 - moving, n * ( pP + pZ ) )   , Ternary( aligned, moving, n * ( pX + 1i * pY) ) } );
+      xi[1] = Tensor( { Ternary( aligned, -moving, n * ( -pX + 1i * pY )) , Ternary( aligned, 1 - moving, n * ( pP + pZ ) ) } );
       Expression N = make_cse( fcn::sqrt((pE+m)/(2*m) ));
       Expression k = pP * polState / ( pE + m );
       int ind = polState == +1 ? 0 : 1;
-- 
2.43.0


From cb91adcb404ab550ef8d4b310f7ea14c935d3a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:05 +0000
Subject: [PATCH 07/59] fix: replaceAll continues after the replacement, so
 adjacent matches and growing replacements are handled

---
 src/Utilities.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 1b1948a..1442f16 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -112,12 +112,13 @@ std::string AmpGen::replaceAll( const std::string& input, const std::string& toR
     ERROR( "This will lead to infinite loop and not do anything!" );
     return input;
   }
+  if ( toReplace.empty() ) return input;
   size_t start_pos = 0;
   do {
     pos = output.find( toReplace, start_pos );
     if ( pos != std::string::npos ) {
       output.replace( pos, toReplace.length(), replaceWith );
-      start_pos = pos + toReplace.length();
+      start_pos = pos + replaceWith.length();
     }
   } while ( pos != std::string::npos );
   return output;
-- 
2.43.0


From 706a5abda21165270191598e46dc08f4fec8dbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:05 +0000
Subject: [PATCH 08/59] fix: stringMatchesWildcard considers every position at
 which a wildcard can end

---
 src/Utilities.cpp | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 1442f16..ff3951b 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -217,26 +217,22 @@ std::string AmpGen::numberWithError( const double& number, const double& error,
 bool AmpGen::stringMatchesWildcard( const std::string& input, const std::string& wildcard_string,
     const char wildcard_character )
 {
-  auto pos = wildcard_string.find( wildcard_character ); /// TEST_foobar -> *_foobar
-  if ( wildcard_string.size() == 1 && wildcard_string[0] == wildcard_character ) {
-    return true;
+  // each wildcard matches any sequence of characters, on failure the most recent wildcard is extended by one /// TEST_foobar -> *_foobar
+  size_t i = 0, w = 0, restart = 0, star = std::string::npos;
+  while ( i < input.size() ) {
+    if ( w < wildcard_string.size() && wildcard_string[w] == wildcard_character ) {
+      star    = w++;
+      restart = i;
+    } else if ( w < wildcard_string.size() && wildcard_string[w] == input[i] ) {
+      ++w;
+      ++i;
+    } else if ( star != std::string::npos ) {
+      w = star + 1;
+      i = ++restart;
+    } else return false;
   }
-  if ( pos == std::string::npos ) {
-    return input == wildcard_string;
-  }
-  if ( pos == wildcard_string.size() - 1 ) {
-    return input.find( wildcard_string.substr( 0, wildcard_string.size() - 1 ) ) == 0;
-  } else {
-    const std::string pattern1 = wildcard_string.substr( 0, pos + 1 );
-    const std::string pattern2 = wildcard_string.substr( pos + 1 );
-    bool match1 = stringMatchesWildcard( input, pattern1, wildcard_character );
-    if ( !match1 ) return false;
-    auto pos2             = pattern2.find( wildcard_character );
-    auto posInInputString = input.find( pattern2.substr( 0, pos2 ) );
-    if ( posInInputString == std::string::npos ) return false;
-    return stringMatchesWildcard( input.substr( posInInputString ), pattern2, wildcard_character );
-  }
-  return false;
+  while ( w < wildcard_string.size() && wildcard_string[w] == wildcard_character ) ++w;
+  return w == wildcard_string.size();
 }
 
 unsigned int AmpGen::FNV1a_hash( const std::string& toHash )
-- 
2.43.0


From 53bcfb051d020f841861818f4735929c8c5338be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:05 +0000
Subject: [PATCH 09/59] fix: expandGlobals keeps the character that follows
 ${VARIABLE}

---
 src/Utilities.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index ff3951b..9da4608 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -340,7 +340,6 @@ std::string AmpGen::expandGlobals( std::string path )
     if ( path[pos + 1] == '{' ) {
       end_pos       = path.find( "}", pos );
       variable_name = path.substr( pos + 2, end_pos - pos - 2 );
-      end_pos       = end_pos + 1;
     } else {
       end_pos       = find_next_of( path, {".", "/"}, pos );
       variable_name = path.substr( pos + 1, end_pos - pos - 1 );
-- 
2.43.0


From 905f179370361277181323f385cd3b095513492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:05 +0000
Subject: [PATCH 10/59] fix: getItems rejects strings without a matched pair of
 braces instead of reading an empty list

---
 src/Utilities.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 9da4608..e9dba56 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -161,6 +161,10 @@ std::vector<std::string> AmpGen::getItems( const std::string& tree,
       break;
     }
   }
+  if ( matched_braces.size() == 0 ) {
+    ERROR( "Unmatched braces in expression: " << tree );
+    return std::vector<std::string>();
+  }
   auto commas = findAll( tree, seperator ); //// commas delimit separate decays;
   std::vector<std::string> daughterTrees;
   size_t begin_position = matched_braces.begin()->first + 1;
-- 
2.43.0


From e8a626e3085cb7fb4cbe9a3327900fad2b7f2ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:05 +0000
Subject: [PATCH 11/59] fix: MinuitParameterSet does not list a parameter it
 rejects as a duplicate

---
 src/MinuitParameterSet.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 549974f..0336583 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -31,12 +31,12 @@ bool MinuitParameterSet::addToEnd( MinuitParameter* parPtr )
 {
   bool success = true;
   if ( nullptr == parPtr ) return false;
-  m_parameters.push_back( parPtr );
   if ( m_keyAccess.find( parPtr->name() ) != m_keyAccess.end() ) {
     WARNING( "Parameter with name " << parPtr->name() << " already exists!, skipping" );
     return false; 
   }
   DEBUG( "Adding: " << parPtr->name() ); 
+  m_parameters.push_back( parPtr );
   m_keyAccess[parPtr->name()] = parPtr;
   return success;
 }
@@ -44,7 +44,8 @@ bool MinuitParameterSet::addToEnd( MinuitParameter* parPtr )
 MinuitParameter* MinuitParameterSet::add( const std::string& name, const Flag& flag, const double& mean,
     const double& sigma, const double& min, const double& max )
 {
-  addToEnd( new MinuitParameter( name, Flag(flag), mean, sigma, min, max ) );
+  auto param = new MinuitParameter( name, Flag(flag), mean, sigma, min, max );
+  if ( ! addToEnd( param ) ) delete param; 
   return m_keyAccess[name];
 }
 
-- 
2.43.0


From ba59111090bff8eeee96721e9b3847de93113c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:05 +0000
Subject: [PATCH 12/59] fix: MinuitParameterSet::unregister also removes the
 name of the parameter

---
 src/MinuitParameterSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 0336583..1362b8e 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -58,6 +58,8 @@ bool MinuitParameterSet::unregister( MinuitParameter* parPtr )
     return false;
   }
   m_parameters.erase( remove( m_parameters.begin(), m_parameters.end(), parPtr ), m_parameters.end() );
+  auto it = m_keyAccess.find( parPtr->name() );
+  if ( it != m_keyAccess.end() && it->second == parPtr ) m_keyAccess.erase( it );
   return true;
 }
 
-- 
2.43.0


From 1978b5897c7ac15ddfefc3d8d185aa6d57e66ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:05 +0000
Subject: [PATCH 13/59] fix: MinuitParameterSet::operator[] returns nullptr for
 unknown names instead of dereferencing end()

---
 src/MinuitParameterSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 1362b8e..e017bbb 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -85,6 +85,7 @@ MinuitParameter* MinuitParameterSet::operator[]( const std::string& key )
   auto it = m_keyAccess.find( key );
   if ( it == m_keyAccess.end() ) {
     WARNING( "Parameter: " << key << " not found" );
+    return nullptr;
   }
   return it->second;
 }
@@ -94,6 +95,7 @@ MinuitParameter* MinuitParameterSet::operator[]( const std::string& key ) const
   auto it = m_keyAccess.find( key );
   if ( it == m_keyAccess.end() ) {
     WARNING( "Parameter: " << key << " not found" );
+    return nullptr;
   }
   return it->second;
 }
-- 
2.43.0


From 4bb9cbb92950c5c2c03e13bf9c2984de52530d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:05 +0000
Subject: [PATCH 14/59] fix: MinuitParameter constructor without a flag uses
 its arguments instead of uninitialised members

---
 src/MinuitParameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MinuitParameter.cpp b/src/MinuitParameter.cpp
index 0ef9140..c00ff87 100644
--- a/src/MinuitParameter.cpp
+++ b/src/MinuitParameter.cpp
@@ -22,7 +22,7 @@ MinuitParameter::MinuitParameter( const std::string& name, const Flag& fix, cons
 }
 
 MinuitParameter::MinuitParameter( const std::string& name, const double& mean, const double& step, const double& mi, const double& ma )
-  : MinuitParameter(name, Flag::Free, m_meanInit, m_stepInit, m_minInit, m_maxInit ) 
+  : MinuitParameter(name, Flag::Free, mean, step, mi, ma ) 
 {
   DEBUG( "Building parameter : " << name );
   resetToInit();
-- 
2.43.0


From 9964e424e29f72ed28776ca4290c77b159d58a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:06 +0000
Subject: [PATCH 15/59] fix: FunctionCache sizes its store from the input it is
 given, not from an uninitialised member

---
 AmpGen/Store.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/Store.h b/AmpGen/Store.h
index 9101f42..a62e0eb 100644
--- a/AmpGen/Store.h
+++ b/AmpGen/Store.h
@@ -117,7 +117,7 @@ namespace AmpGen {
     public:
       FunctionCache() = default; 
       FunctionCache(const input_type* input, const std::size_t& nFields = 0 ) : 
-        Store<stored_type, align>(m_input->size(), nFields ), m_input(input) {} 
+        Store<stored_type, align>(input->size(), nFields ), m_input(input) {} 
 
       template <typename functor_type> FunctionCache(const input_type* input, const std::vector<functor_type>& functors)
       {
-- 
2.43.0


From 5adf188b57a7d843810bd47fa66b03e3d800bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:06 +0000
Subject: [PATCH 16/59] fix: a Complex constructed from a real number has zero
 imaginary part

---
 AmpGen/Complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/Complex.h b/AmpGen/Complex.h
index 6508b8f..682e254 100644
--- a/AmpGen/Complex.h
+++ b/AmpGen/Complex.h
@@ -14,7 +14,7 @@ namespace AmpGen {
     // Complex( const float&   re, const float& im) : re(re), im(im) {}
     Complex( const std::complex<double>& f ) : re( f.real() ), im( f.imag() ) {}
     Complex( const std::complex<float>& f  ) : re( f.real() ), im( f.imag() ) {}
-    explicit Complex( const real_t& arg ) : re(arg) {};
+    explicit Complex( const real_t& arg ) : re(arg), im(0.) {};
     Complex(const real_t& re, const double& im  ) : re(re), im(im) {} 
     // explicit Complex( const double& arg ) : re(arg) {};
     inline Complex operator+=(const Complex& rhs ); 
-- 
2.43.0


From 63c6d61e59b2673e90a211914e7cb8af1d1671a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:31 +0000
Subject: [PATCH 17/59] fix: complex square root of vectors takes the principal
 branch on the negative real axis

---
 AmpGen/Complex.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/AmpGen/Complex.h b/AmpGen/Complex.h
index 682e254..ccab959 100644
--- a/AmpGen/Complex.h
+++ b/AmpGen/Complex.h
@@ -72,7 +72,8 @@ namespace AmpGen {
   inline Complex<real_t> sqrt( const Complex<real_t>& v )
   {
     auto r = abs(v);
-    return Complex ( sqrt( 0.5 * (r + v.re) ), sign(v.im) * sqrt( 0.5*( r - v.re ) ) );
+    const real_t im = sqrt( 0.5*( r - v.re ) );
+    return Complex<real_t>( sqrt( 0.5 * (r + v.re) ), select( v.im < real_t(0.), -im, im ) );
   }
   template <typename real_t>
   inline Complex<real_t> log( const Complex<real_t>& v )
-- 
2.43.0


From 446a78e87315b262e7b9fca2aaba2d919dfd9ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:22 +0000
Subject: [PATCH 18/59] fix: minSwaps gives cycles of identical fermions the
 sign of their permutation

---
 src/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index e9dba56..1f3f5fd 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -508,7 +508,7 @@ std::pair<size_t,int> AmpGen::minSwaps(const std::vector<size_t>& indices, const
       cycle_size++; 
     } 
     if( cycle_size > 0 ){
-      netExchangeParity *= exchangeParities[i]; 
+      if( cycle_size % 2 == 0 ) netExchangeParity *= exchangeParities[i]; // a cycle of n elements is n-1 exchanges 
       ans += (cycle_size - 1); 
     }
   } 
-- 
2.43.0


From 90cff797c88b97c6a76fd2c2cf200a3b5976d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:25 +0000
Subject: [PATCH 19/59] fix: simplification keeps factors that are binary
 functions (pow, atan2, comparisons) instead of dropping them

---
 src/Simplify.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Simplify.cpp b/src/Simplify.cpp
index b39c5b6..4e4b5cc 100644
--- a/src/Simplify.cpp
+++ b/src/Simplify.cpp
@@ -20,12 +20,13 @@ void NormalOrderedExpression::Term::addExpression( const Expression& expression)
       addExpression(l);
       addExpression(r);
     }
-    if( is<Sum>(expression) || is<Sub>(expression) ) 
+    else if( is<Sum>(expression) || is<Sub>(expression) ) 
       ERROR("I never should get here, brackets should be pre-expanded [" << expression << "] " );
-    if( is<Divide>(expression) ){
+    else if( is<Divide>(expression) ){
       addExpression( l );
       m_divisor = m_divisor * r ;  
     }
+    else m_terms.emplace_back( expression, expression.to_string() );
   }
   else if( is<Constant>(expression) ) m_prefactor *= expression();
   else m_terms.emplace_back( expression, expression.to_string() );
-- 
2.43.0


From fe4395a5c624b319694e9bd99506191837550d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:25 +0000
Subject: [PATCH 20/59] fix: constants are printed with all their digits, so
 that generated code and sub-expression keys distinguish them

---
 src/Expression.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Expression.cpp b/src/Expression.cpp
index aa11146..fafc1be 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -56,6 +56,7 @@ bool isZero( const complex_t& A ){
 std::string Constant::to_string(const ASTResolver* resolver) const {  
   auto rounded_string = [](const double& val ){
     std::string str = mysprintf("%g", val);
+    if( std::stod(str) != val ) str = mysprintf("%.17g", val);
     return  str.find(".") != std::string::npos or str.find("e") != std::string::npos ? str : str + ".";
   };
   std::string complex_type = type_string<complex_t>();
-- 
2.43.0


From 332f0ef4918075cabb883e09cbb604fcca782492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:25 +0000
Subject: [PATCH 21/59] fix: constants smaller than the machine epsilon are not
 treated as zero

---
 src/Expression.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Expression.cpp b/src/Expression.cpp
index fafc1be..daf1f99 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -49,8 +49,7 @@ bool isEqual( const T& A, const double& B ){
 }
 
 bool isZero( const complex_t& A ){
-  return std::abs(std::real(A)) < std::numeric_limits<double>::epsilon() && 
-         std::abs(std::imag(A)) < std::numeric_limits<double>::epsilon();
+  return std::real(A) == 0 && std::imag(A) == 0;
 }
 
 std::string Constant::to_string(const ASTResolver* resolver) const {  
@@ -148,7 +147,7 @@ Expression AmpGen::operator*( const Expression& A, const Expression& B )
 
 Expression AmpGen::operator/( const Expression& A, const Expression& B )
 {
-  if( is<Constant>(A) && isEqual( A() , 0 ) )  return Constant(0);
+  if( is<Constant>(A) && isZero( A() ) )  return Constant(0);
   if( is<Constant>(B)){
     if(isEqual( B() , 1 ) ) return A;
     else return A * Constant( 1. / B() ) ; 
@@ -302,7 +301,7 @@ Expression AmpGen::fcn::safe_sqrt( const Expression& x )
 Expression AmpGen::fcn::pow( const Expression& expression, const Expression& co )
 {
   if( ! is<Constant>(co) ) return Pow(expression,co);
-  if( isEqual( co(), 0 ) ) return 1;
+  if( isZero( co() ) ) return 1;
   if( isEqual( co(), 1 ) ) return expression;
   else return Pow(expression, co ); 
 }
-- 
2.43.0


From c572da48cfc419dba2184d052f803cbc324c84d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:25 +0000
Subject: [PATCH 22/59] fix: signs of the derivatives of acos and asin

---
 src/UnaryExpression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/UnaryExpression.cpp b/src/UnaryExpression.cpp
index 3b09b3a..8fcb37a 100644
--- a/src/UnaryExpression.cpp
+++ b/src/UnaryExpression.cpp
@@ -85,8 +85,8 @@ Expression Sin::d()  const { return   fcn::cos(arg()) ; }
 
 Expression Tan::d()  const { return 1. / ( fcn::cos(arg()) * fcn::cos(arg()) );}
 
-Expression ACos::d() const { return  1 / fcn::sqrt( 1 - arg()*arg() ); }
-Expression ASin::d() const { return -1 / fcn::sqrt( 1 - arg()*arg() ) ; }
+Expression ACos::d() const { return -1 / fcn::sqrt( 1 - arg()*arg() ); }
+Expression ASin::d() const { return  1 / fcn::sqrt( 1 - arg()*arg() ) ; }
 Expression ATan::d() const { return 1 / ( 1 + arg()*arg() ); }
 
 Expression ISqrt::d() const { return -1./ ( 2 * Pow( arg() , 1.5 ) ); }
-- 
2.43.0


From afa227d3851dd6374befeccde3d21a4eefa1e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:25 +0000
Subject: [PATCH 23/59] fix: Fmod evaluates to the remainder instead of zero

---
 src/BinaryExpression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BinaryExpression.cpp b/src/BinaryExpression.cpp
index 5fee9f1..e41dcf0 100644
--- a/src/BinaryExpression.cpp
+++ b/src/BinaryExpression.cpp
@@ -37,7 +37,7 @@ complex_t LessThan::operator()()    const { return complex_t(std::real(lval()) <
 complex_t GreaterThanEqualTo::operator()() const { return complex_t(std::real(lval()) >= std::real(rval()) ,0); }
 complex_t LessThanEqualTo::operator()()    const { return complex_t(std::real(lval()) <= std::real(rval()) ,0); }
 complex_t Pow::operator()()         const { return pow( lval(), rval() ); }
-complex_t Fmod::operator()()        const { return 0; }
+complex_t Fmod::operator()()        const { return std::fmod( std::real(lval()), std::real(rval()) ); }
 complex_t Equal::operator()()       const { return lval() == rval() ; } 
 complex_t Or::operator()()          const { return std::real(lval()) || std::real(rval()) ; }
 complex_t ATan2::operator()()       const { return atan2( std::real(lval() ), std::real(rval() ) ); }
-- 
2.43.0


From 551b48cf6cb1da960c85c5d63d786abe37ce3fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:30 +0000
Subject: [PATCH 24/59] fix: a constant factor or exponent is dropped only if
 it is exactly one

---
 src/Expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Expression.cpp b/src/Expression.cpp
index daf1f99..fd8880a 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -45,7 +45,7 @@ complex_t    Expression::operator()() const { return ( *m_expression )(); }
 
 template < class T > 
 bool isEqual( const T& A, const double& B ){
-  return std::abs(A-B) < std::numeric_limits<double>::epsilon();
+  return A == B;
 }
 
 bool isZero( const complex_t& A ){
-- 
2.43.0


From 0c15727bdd38fa4c679e836442bac1d4b18a9358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:56 +0000
Subject: [PATCH 25/59] fix: printing a subnormal constant does not throw

---
 src/Expression.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Expression.cpp b/src/Expression.cpp
index fd8880a..ff18c43 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -1,5 +1,6 @@
 #include <memory.h>
 #include <cmath>
+#include <cstdlib>
 #include <complex>
 #include <iosfwd>
 #include <limits>
@@ -55,7 +56,7 @@ bool isZero( const complex_t& A ){
 std::string Constant::to_string(const ASTResolver* resolver) const {  
   auto rounded_string = [](const double& val ){
     std::string str = mysprintf("%g", val);
-    if( std::stod(str) != val ) str = mysprintf("%.17g", val);
+    if( std::strtod(str.c_str(), nullptr) != val ) str = mysprintf("%.17g", val);
     return  str.find(".") != std::string::npos or str.find("e") != std::string::npos ? str : str + ".";
   };
   std::string complex_type = type_string<complex_t>();
-- 
2.43.0


From e960b193c4b5e0eb635e951cb49b521f6d1170cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:00 +0000
Subject: [PATCH 26/59] fix: constants and parameters written into generated
 code keep all their digits

---
 src/ASTResolver.cpp            | 4 ++--
 src/CompiledExpressionBase.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ASTResolver.cpp b/src/ASTResolver.cpp
index 7dcdfc0..4931078 100644
--- a/src/ASTResolver.cpp
+++ b/src/ASTResolver.cpp
@@ -113,7 +113,7 @@ template <> void ASTResolver::resolve<Parameter>( const Parameter& parameter )
     auto it = m_mps->find(parameter.name());
     if( it != nullptr ){
       if( m_enable_compileTimeConstants && it->flag() == Flag::CompileTimeConstant ){
-        addResolvedParameter( &parameter, "("+std::to_string(it->mean()) +")" );
+        addResolvedParameter( &parameter, Constant(it->mean()).to_string() );
       }
       else addResolvedParameter( &parameter, addCacheFunction<ParameterTransfer>( parameter.name(), it )  );
       return;
@@ -121,7 +121,7 @@ template <> void ASTResolver::resolve<Parameter>( const Parameter& parameter )
     DEBUG("Could not find parameter: " << parameter.name() << " amongst the MPS ");
   }
   else if( m_enable_compileTimeConstants ){
-    addResolvedParameter( &parameter, std::to_string( parameter.defaultValue() ) );
+    addResolvedParameter( &parameter, Constant(parameter.defaultValue()).to_string() );
     return;
   }
   auto address = addCacheFunction<CacheTransfer>( parameter.name(), parameter.defaultValue() );
diff --git a/src/CompiledExpressionBase.cpp b/src/CompiledExpressionBase.cpp
index fd4ed52..02a357d 100644
--- a/src/CompiledExpressionBase.cpp
+++ b/src/CompiledExpressionBase.cpp
@@ -229,6 +229,6 @@ void CompiledExpressionBase::compileWithParameters( std::ostream& stream ) const
   tl.erase(tl.begin() + ( use_rto() ? 2 : 0 ) ); 
   stream << "extern \"C\" " << returnTypename() << " " << progName() << "_wParams" << "(" << fcnSignature(tl) << " ){" << std::endl;
   auto buf = externBuffer(); 
-  stream << "  double externalParameters [] = {" << (buf.size() == 0 ? "0" : vectorToString(buf,", ", [](auto& line){ return std::to_string(line); }) ) <<"};\n" ;
+  stream << "  double externalParameters [] = {" << (buf.size() == 0 ? "0" : vectorToString(buf,", ", [](auto& line){ return Constant(line).to_string(); }) ) <<"};\n" ;
   stream << "  return " << progName() << "( externalParameters, x0 ); \n}\n";
 }
-- 
2.43.0


From 6b9b335c6705a84ca3399cfd79c73a3c64d0587c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:00 +0000
Subject: [PATCH 27/59] fix: the arguments of a Function expression are
 resolved

---
 src/Expression.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Expression.cpp b/src/Expression.cpp
index ff18c43..93662f4 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -246,7 +246,10 @@ std::string Function::to_string(const ASTResolver* resolver) const {
   for( auto& arg : m_args ) rt += arg.to_string(resolver) + ", ";
   return rt.substr(0,rt.size()-2) + ")";
 }
-void Function::resolve( ASTResolver& resolver ) const {}
+void Function::resolve( ASTResolver& resolver ) const
+{
+  for( const auto& arg : m_args ) arg.resolve( resolver );
+}
 
 std::string SubTree::to_string(const ASTResolver* /*resolver*/) const 
 {
-- 
2.43.0


From 17e9ccdbadb92854cc84c801a2b5a058bcbe460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:00 +0000
Subject: [PATCH 28/59] fix: sub-expressions of different lambda functions have
 different keys

---
 AmpGen/Expression.h | 4 +++-
 src/Expression.cpp  | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/AmpGen/Expression.h b/AmpGen/Expression.h
index 8ee7101..e95772e 100644
--- a/AmpGen/Expression.h
+++ b/AmpGen/Expression.h
@@ -214,13 +214,15 @@ namespace AmpGen
   class LambdaExpression : public IExpression {
     public: 
       template <typename function_type>
-      LambdaExpression( const function_type& function) : m_function(function), m_name(type_string<function_type>()) {}
+      LambdaExpression( const function_type& function) : m_function(function), m_name(type_string<function_type>() + "_" + std::to_string(nextId())) {}
       std::string to_string(const ASTResolver* resolver = nullptr) const override; 
       void resolve( ASTResolver& resolver) const override;
       operator Expression() const; 
       complex_t operator()() const override; 
       std::function<double(void)> m_function; 
       std::string m_name; 
+    private:
+      static unsigned nextId();  ///< different functions can share a type, and must not share a name
   }; 
 
   /** @ingroup ExpressionEngine class Ternary 
diff --git a/src/Expression.cpp b/src/Expression.cpp
index 93662f4..610251c 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -1,3 +1,4 @@
+#include <atomic>
 #include <memory.h>
 #include <cmath>
 #include <cstdlib>
@@ -356,6 +357,12 @@ std::string LambdaExpression::to_string(const ASTResolver* resolver) const
   return resolver == nullptr ?programatic_name(m_name) : resolver->resolvedParameter(this);
 }
 
+unsigned LambdaExpression::nextId()
+{
+  static std::atomic<unsigned> counter{0};
+  return counter++;
+}
+
 complex_t LambdaExpression::operator()() const 
 {
   return m_function();
-- 
2.43.0


From 3c92ec78ef1b02c835ebdf3818aec662dbc48083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:35 +0000
Subject: [PATCH 29/59] fix: sub-expression keys are 64-bit hashes, so that
 different sub-expressions do not share a key

---
 src/Expression.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Expression.cpp b/src/Expression.cpp
index 610251c..217c328 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -231,9 +231,20 @@ void Ternary::resolve( ASTResolver& resolver ) const
   m_v2.resolve( resolver );
 }
 
+/// 64-bit hash: the keys of different sub-expressions of a model must not collide
+static uint64_t subtree_hash( const std::string& toHash )
+{
+  uint64_t hash = 14695981039346656037ull;
+  for ( unsigned char c : toHash ) {
+    hash ^= c;
+    hash *= 1099511628211ull;
+  }
+  return hash;
+}
+
 SubTree::SubTree( const Expression& other ) : 
   m_expression( other ),
-  m_key( FNV1a_hash(m_expression.to_string() ) ) {}
+  m_key( subtree_hash(m_expression.to_string() ) ) {}
 
 Function::Function( const std::string& name, const std::vector<Expression>& args ) :
   m_name(name),
@@ -268,7 +279,7 @@ Expression AmpGen::make_cse( const Expression& A , bool simplify )
   SubTree cse = SubTree(A);
   if( !simplify ) return Expression(cse);
   auto ordered = Expression( NormalOrderedExpression(A) );
-  cse.setKey( FNV1a_hash(ordered.to_string()) );
+  cse.setKey( subtree_hash(ordered.to_string()) );
   return Expression(cse);
 }
 
-- 
2.43.0


From 06ae7dbbae592c20094a6b34899d7fa1e6cdddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:43 +0000
Subject: [PATCH 30/59] fix: the L=4 barrier factor is normalised at the
 reference momentum

---
 src/Lineshapes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lineshapes.cpp b/src/Lineshapes.cpp
index 7406c7d..6f99a01 100644
--- a/src/Lineshapes.cpp
+++ b/src/Lineshapes.cpp
@@ -32,7 +32,7 @@ Expression AmpGen::BlattWeisskopf_Norm( const Expression& ze, const Expression&
     case 1: return (1+z0) / (1+z);
     case 2: return (z0*z0 + 3*z0 + 9 ) / (z*z + 3*z + 9);
     case 3: return (z0*fpow(z0-15,2) + 9*fpow( 2*z0 -5,2 ) ) / (z*fpow(z-15,2) + 9*fpow( 2*z -5,2 ) );
-    case 4: return (fpow(z0*z0-45*z0+105, 2)+25*z*fpow(2*z-21,2)) / (fpow(z*z-45*z+105, 2)+25*z*fpow(2*z-21,2) );
+    case 4: return (fpow(z0*z0-45*z0+105, 2)+25*z0*fpow(2*z0-21,2)) / (fpow(z*z-45*z+105, 2)+25*z*fpow(2*z-21,2) );
     default : 
       ERROR("Barrier factors not for implemented for L>4");
       return 0;
-- 
2.43.0


From 3f1295d6a6cc49b7bb84f3be15a091f397a80444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:43 +0000
Subject: [PATCH 31/59] fix: L=2 barrier factor in the analytically continued
 phase space

---
 src/Lineshapes/CoupledChannel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lineshapes/CoupledChannel.cpp b/src/Lineshapes/CoupledChannel.cpp
index a052762..bc63708 100644
--- a/src/Lineshapes/CoupledChannel.cpp
+++ b/src/Lineshapes/CoupledChannel.cpp
@@ -100,7 +100,7 @@ namespace {
   {
     if constexpr( L == 0 )      return expression_type(1);
     else if constexpr( L == 1 ) return expression_type( 2 * z / ( 1 + z )  ); 
-    else if constexpr( L == 2 ) return expression_type( 13 * z * z / ( z*z + 3*z * 9 ) ); 
+    else if constexpr( L == 2 ) return expression_type( 13 * z * z / ( z*z + 3*z + 9 ) ); 
     else if constexpr( L == 3 ) return expression_type( 277  * z * z * z  / (z*(z-15)*(z-15) + 9* ( 2 * z - 5 ) * (2*z-5 ) ) );  
     else {
       std::cout << "error, blatt weisskopf not implemented for L> 3 (if you are trying to calculate dispersive corrections in such a case, good luck to ya" << std::endl; 
-- 
2.43.0


From 512eaf8cfee5f127e694d165629caea923b081c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:53 +0000
Subject: [PATCH 32/59] fix: mass of the eta' in the eta eta' channel of the K
 matrix

---
 src/Lineshapes/kMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lineshapes/kMatrix.cpp b/src/Lineshapes/kMatrix.cpp
index 5fb6569..c2d9822 100644
--- a/src/Lineshapes/kMatrix.cpp
+++ b/src/Lineshapes/kMatrix.cpp
@@ -93,7 +93,7 @@ DEFINE_LINESHAPE( kMatrix )
   double mPiPlus = 0.139570;
   double mKPlus  = 0.493677;
   double mEta    = 0.547862;
-  double mEtap   = 0.967780;
+  double mEtap   = 0.957780;
 
   Expression sA0      = Parameter( "sA0", -0.15 );
   Expression sA       = Parameter( "sA", 1.0 );
-- 
2.43.0


From 042eeee03244a8cd2d9ccf038ccc24e28144155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:53 +0000
Subject: [PATCH 33/59] fix: non-resonant production term of the generic K
 matrix counted once, not per pole

---
 src/Lineshapes/GenericKmatrix.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Lineshapes/GenericKmatrix.cpp b/src/Lineshapes/GenericKmatrix.cpp
index 08f0391..26d9aa1 100644
--- a/src/Lineshapes/GenericKmatrix.cpp
+++ b/src/Lineshapes/GenericKmatrix.cpp
@@ -132,10 +132,11 @@ DEFINE_GENERIC_SHAPE(GenericKmatrix)
         Expression beta = 0;
         for(unsigned q = 0 ; q < nChannels; ++q){
           beta += a[q] * poleConfigs[alpha].couplings[q];
-          phi[k] += a[q] * non_resonant[{k,q}];
         }
-        P[k] += (beta * poleConfigs[alpha].couplings[k])/(poleConfigs[alpha].s - s) + phi[k] * (1.+s_0)/(s-s_0);
+        P[k] += (beta * poleConfigs[alpha].couplings[k])/(poleConfigs[alpha].s - s);
       }
+      for(unsigned q = 0 ; q < nChannels; ++q) phi[k] += a[q] * non_resonant[{k,q}];
+      P[k] += phi[k] * (1.+s_0)/(s-s_0);
       F_0 += propagator[{0,k}] * P[k];
     }
     //TODO: implement higher orbital angular momentum
-- 
2.43.0


From 1e8c26033f9848a860cc19c214f182c2c3cc514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:53 +0000
Subject: [PATCH 34/59] fix: production phases of GLASS are given in degrees

---
 src/Lineshapes/GLASS.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Lineshapes/GLASS.cpp b/src/Lineshapes/GLASS.cpp
index 3fb68ec..7cc086c 100644
--- a/src/Lineshapes/GLASS.cpp
+++ b/src/Lineshapes/GLASS.cpp
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <string>
 
 #include "AmpGen/Expression.h"
@@ -18,8 +19,8 @@ DEFINE_LINESHAPE( GLASS )
   const auto s0      = mass*mass;
   const auto a       = Parameter( particleName + "::GLASS::a", 2.07 );
   const auto r       = Parameter( particleName + "::GLASS::r", 3.32 );
-  const auto phiR    = Parameter( particleName + "::GLASS::phiR", 0.00 );
-  const auto phiF    = Parameter( particleName + "::GLASS::phiF", 0.00 );
+  const auto phiR    = Parameter( particleName + "::GLASS::phiR", 0.00 ) * M_PI / 180.;
+  const auto phiF    = Parameter( particleName + "::GLASS::phiF", 0.00 ) * M_PI / 180.;
   const auto R       = Parameter( particleName + "::GLASS::R", 1.00 );
   const auto F       = Parameter( particleName + "::GLASS::F", 1.00 );
   const auto q2      = Q2(s, s1, s2);
-- 
2.43.0


From 36016cc2c2c6c9b97f8226cc7f19cc1734e263a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:53 +0000
Subject: [PATCH 35/59] fix: a spline evaluated at its first knot returned the
 value of the last knot

---
 src/Spline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Spline.cpp b/src/Spline.cpp
index f32a739..c36bf4b 100644
--- a/src/Spline.cpp
+++ b/src/Spline.cpp
@@ -68,7 +68,7 @@ Expression Spline::eval(DebugSymbols* db) const
   Expression bin = ( x - m_min ) / spacing;
   Expression continuedValue            = m_points[m_nKnots-1];
 
-  Expression returnValue = Ternary( x > m_min && x < m_max,
+  Expression returnValue = Ternary( x >= m_min && x < m_max,
       m_points[bin] + ( ( m_points[bin + 1] - m_points[bin] ) / spacing 
         - ( m_points[bin + 1 + m_nKnots] + 2 * m_points[bin+m_nKnots] ) * spacing / 6. ) * dx 
       + m_points[bin+m_nKnots] * dx * dx / 2. 
-- 
2.43.0


From ec7442fb23986af416beec6ae5738680e3a3f2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:56 +0000
Subject: [PATCH 36/59] fix: chained functions in textual expressions were
 applied in the wrong order

---
 src/ExpressionParser.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index 49edf95..acad235 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -43,13 +43,14 @@ void ExpressionParser::processBinaryOperators( std::vector<std::string>& opCodes
 
 void ExpressionParser::processUnaryOperators( std::vector<std::string>& opCodes, std::vector<Expression>& expressions )
 {
-  for ( int pos = 0; pos < int(opCodes.size()); ++pos ) {
+  /// functions are applied from right to left, each to the operand following it, i.e. the one after the preceding binary operators
+  for ( int pos = int(opCodes.size()) - 1; pos >= 0; --pos ) {
     auto fcn = m_unaryFunctions.find( opCodes[pos] );
     DEBUG( " op = " << opCodes[pos] << " pos = " << pos );
     if ( fcn == m_unaryFunctions.end() ) continue;
-    expressions[pos] = fcn->second( expressions[pos] );
+    auto operand = std::count_if( opCodes.begin(), opCodes.begin() + pos, [this](const auto& op){ return m_unaryFunctions.count(op) == 0; } );
+    expressions[operand] = fcn->second( expressions[operand] );
     opCodes.erase( opCodes.begin() + pos );
-    pos--;
   }
 }
 
-- 
2.43.0


From 1f6980113b411272f2fa923a6f0a113fc0d42507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:12 +0000
Subject: [PATCH 37/59] fix: a value directly followed by a comment was dropped
 from an options line

---
 src/OptionsParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index 2bdafe7..9c3a6ee 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -137,7 +137,10 @@ std::vector<std::string> OptionsParser::makeParsedStrings( const std::string& li
   std::vector<std::string> fillThisList;
 
   for ( std::string::const_iterator it = s.begin(); it != s.end(); ++it ) {
-    if ( !insideQuotes && *it == '#' ) break; /// indicates a comment, except in speech marks ///
+    if ( !insideQuotes && *it == '#' ){ /// indicates a comment, except in speech marks ///
+      if ( !prevBlank ) fillThisList.emplace_back( prev, it ); /// the word directly in front of the comment
+      break;
+    }
     if ( ( ( !insideQuotes ) && std::isblank( *it ) ) || *it == '"' || ignore ) {
       if ( !prevBlank ) {
         std::string tmp_s( prev, it );
-- 
2.43.0


From af2a6b2b3dada5538f6ac696510674891ccee216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:12 +0000
Subject: [PATCH 38/59] fix: an empty option argument accessed a non-existent
 first word

---
 src/OptionsParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index 9c3a6ee..eff714f 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -115,6 +115,7 @@ void OptionsParser::addArg( const std::string& arg )
 
 void OptionsParser::addArg( const std::vector<std::string>& tokens )
 {
+  if( tokens.empty() ) return; /// blank line or comment
   const auto& key = tokens[0];
   DEBUG("Adding arg with key: " << key );
   if( m_keywords.count(key) != 0 ) m_keywords[key]( tokens );
-- 
2.43.0


From bf841330b8e44ffe8ce8ac6061c0ed990c5afbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:12 +0000
Subject: [PATCH 39/59] fix: an option given twice was listed twice in the
 ordered input

---
 src/OptionsParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index eff714f..15058e9 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -120,8 +120,8 @@ void OptionsParser::addArg( const std::vector<std::string>& tokens )
   DEBUG("Adding arg with key: " << key );
   if( m_keywords.count(key) != 0 ) m_keywords[key]( tokens );
   else { 
+    if( m_parsedLines.count(key) == 0 ) m_orderedKeys.push_back(key); 
     m_parsedLines[key] = tokens; 
-    m_orderedKeys.push_back(key); 
   }
 }
 
-- 
2.43.0


From d7a578369ee691f17bed98d3b6bfd303a6fde3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:12 +0000
Subject: [PATCH 40/59] fix: empty words and out-of-range numbers were accepted
 as enumeration values

---
 AmpGen/enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/enum.h b/AmpGen/enum.h
index b6529ee..04497ce 100644
--- a/AmpGen/enum.h
+++ b/AmpGen/enum.h
@@ -32,7 +32,7 @@ namespace AmpGen {
     {
       char* p;                                                 
       auto number = strtoul( word.c_str(), &p, 10 );           
-      if( *p == 0 ) return T(number);
+      if( p != word.c_str() && *p == 0 ) return number < static_cast<unsigned long>(T::Invalid) ? T(number) : T::Invalid;
       unsigned counter = 0;
       unsigned begin = 0;
       unsigned end   = 0;
-- 
2.43.0


From a7cef9fa56e17a8dc917af5c8a918542f983e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:30 +0000
Subject: [PATCH 41/59] fix: half-integer spins are printed as n/2 rather than
 (n/2)/2

---
 src/ParticleProperties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParticleProperties.cpp b/src/ParticleProperties.cpp
index 4558301..d0fd652 100644
--- a/src/ParticleProperties.cpp
+++ b/src/ParticleProperties.cpp
@@ -53,7 +53,7 @@ std::string ParticleProperties::J() const
 {
   if( m_twoSpin == -1 ) return "?";
   if( m_twoSpin % 2 == 0 ) return std::to_string( int(m_twoSpin/2) );
-  if( m_twoSpin % 2 == 1 ) return std::to_string( int(m_twoSpin/2) ) + "/2";
+  if( m_twoSpin % 2 == 1 ) return std::to_string( m_twoSpin ) + "/2";
   return "";
 }
 
-- 
2.43.0


From c9658aec8c5bedff968833ed1c8597642886aef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:30 +0000
Subject: [PATCH 42/59] fix: a default constructed ParticleProperties has no
 antiparticle instead of an indeterminate one

---
 AmpGen/ParticleProperties.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AmpGen/ParticleProperties.h b/AmpGen/ParticleProperties.h
index 9e1a9ad..6d91387 100644
--- a/AmpGen/ParticleProperties.h
+++ b/AmpGen/ParticleProperties.h
@@ -98,8 +98,8 @@ namespace AmpGen
       std::string m_name{""};            ///< particle name
       std::string m_texName{""};         ///< latex label of particle
       std::string m_chargeString{""};    ///< string for particle charge
-      char m_Aformat;                    ///< anti-particle format character
-      char m_status;                     ///< status (estalished or not etc)
+      char m_Aformat{' '};             ///< anti-particle format character
+      char m_status{' '};              ///< status (estalished or not etc)
       QuarkContent m_quarkContent;       ///< The quark content of the state (uD, uud etc.)
       bool m_isValid;                    ///< Flag to check whether the ParticleProperties have configured correctly 
       bool m_customName = {false};       ///< Flag to make custom name 
-- 
2.43.0


From b137dcfaeaf2b519540c62bda2da045c8f6a641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:30 +0000
Subject: [PATCH 43/59] fix: ParticleProperties::operator< is consistent with
 operator== when one pdgID is zero

---
 src/ParticleProperties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParticleProperties.cpp b/src/ParticleProperties.cpp
index d0fd652..f187aa9 100644
--- a/src/ParticleProperties.cpp
+++ b/src/ParticleProperties.cpp
@@ -211,7 +211,7 @@ bool ParticleProperties::operator==( const ParticleProperties& rhs ) const
 
 bool ParticleProperties::operator<( const ParticleProperties& rhs ) const
 {
-  if ( pdgID() == 0 || rhs.pdgID() == 0 ) {
+  if ( pdgID() == 0 && rhs.pdgID() == 0 ) {
     return name() < rhs.name();
   }
   return pdgID() < rhs.pdgID();
-- 
2.43.0


From e1e30fe021dca0aae9c8d66a15a78a3b0ac54b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:30 +0000
Subject: [PATCH 44/59] fix: addParticle does not read past the end of an
 incomplete list of key-value pairs

---
 src/ParticlePropertiesList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParticlePropertiesList.cpp b/src/ParticlePropertiesList.cpp
index 78d5c74..af2ec0d 100644
--- a/src/ParticlePropertiesList.cpp
+++ b/src/ParticlePropertiesList.cpp
@@ -207,7 +207,7 @@ void ParticlePropertiesList::addParticle( const std::vector<std::string>& tokens
     pp = new ParticleProperties();
     pp->setProperty("name", name );
   }
-  for( int i = 2; i != tokens.size(); i+=2 )
+  for( size_t i = 2; i + 1 < tokens.size(); i+=2 )
   {
     pp->setProperty( tokens[i], tokens[i+1] );
   } 
-- 
2.43.0


From 3589c8ed8a95bfafd4503731a2137a71186c753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:53 +0000
Subject: [PATCH 45/59] fix: importing a particle table makes its entries
 available and keeps the existing ones in place

---
 AmpGen/ParticlePropertiesList.h | 8 +++++---
 src/OptionsParser.cpp           | 2 +-
 src/ParticlePropertiesList.cpp  | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/AmpGen/ParticlePropertiesList.h b/AmpGen/ParticlePropertiesList.h
index c17af33..b9584f3 100644
--- a/AmpGen/ParticlePropertiesList.h
+++ b/AmpGen/ParticlePropertiesList.h
@@ -3,6 +3,7 @@
 // author: Jonas Rademacker (Jonas.Rademacker@bristol.ac.uk)
 // status:  Mon 9 Feb 2009 19:18:04 GMT
 
+#include <deque>
 #include <iostream>
 #include <map>
 #include <string>
@@ -18,7 +19,8 @@ namespace AmpGen
     static ParticlePropertiesList* ptr;
     std::map<int, std::pair<std::string, std::string>> m_latexLabels;
     std::string m_fname;
-    std::vector<ParticleProperties> m_theList;
+    std::deque<ParticleProperties> m_theList; ///< entries must stay in place when more are added, as the maps point to them
+    size_t m_nMapped = {0};                   ///< number of entries that are already in the maps
     std::map<std::string, ParticleProperties*> m_byName;
     std::map<int, ParticleProperties*> m_byID;
     double m_quasiStableThreshold;
@@ -42,8 +44,8 @@ namespace AmpGen
     std::vector<std::string> getParticleNames() const;
     std::vector<int> getParticleIds() const;
     
-    std::vector<ParticleProperties>::const_iterator begin() const { return m_theList.cbegin() ; }
-    std::vector<ParticleProperties>::const_iterator   end() const { return m_theList.cend() ; }
+    std::deque<ParticleProperties>::const_iterator begin() const { return m_theList.cbegin() ; }
+    std::deque<ParticleProperties>::const_iterator   end() const { return m_theList.cend() ; }
     void print( std::ostream& out = std::cout ) const;
     bool readLatexLabels( const std::string& name );
     void makeMappings();
diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index 15058e9..8daf898 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -17,7 +17,7 @@ OptionsParser::OptionsParser()
   m_keywords["Import"]                         = [this](const auto& tokens){ if( tokens.size() != 2) return; this->import(expandGlobals(tokens[1] ) ) ; };
   m_keywords["ParticleProperties"]             = [this](const auto& tokens){ ParticlePropertiesList::getMutable()->addParticle( tokens ); };
   m_keywords["ParticlePropertiesList::Alias"]  = [this](const auto& tokens){ if( tokens.size() != 3) return; ParticlePropertiesList::getMutable()->makeAlias( tokens[1], tokens[2] ); };
-  m_keywords["ParticlePropertiesList::Import"] = [this](const auto& tokens){ if( tokens.size() != 2) return; ParticlePropertiesList::getMutable()->readFile( tokens[1] ); }; 
+  m_keywords["ParticlePropertiesList::Import"] = [this](const auto& tokens){ if( tokens.size() != 2) return; ParticlePropertiesList::getMutable()->readFile( tokens[1] ); ParticlePropertiesList::getMutable()->makeMappings(); }; 
 }
 
 OptionsParser* OptionsParser::getMe()
diff --git a/src/ParticlePropertiesList.cpp b/src/ParticlePropertiesList.cpp
index af2ec0d..e7b3941 100644
--- a/src/ParticlePropertiesList.cpp
+++ b/src/ParticlePropertiesList.cpp
@@ -118,7 +118,8 @@ bool ParticlePropertiesList::readFile( const std::string& name )
 
 void ParticlePropertiesList::makeMappings()
 {
-  for ( auto& it : m_theList ) {
+  for ( ; m_nMapped < m_theList.size(); ++m_nMapped ) {
+    auto& it = m_theList[m_nMapped];
     m_byName[it.name()] = &it;
     if ( it.pdgID() != 0 ) {
       auto found = m_byID.find( it.pdgID() );
-- 
2.43.0


From 50eeff0d7d09e991ec10722490b7158776ece8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:53 +0000
Subject: [PATCH 46/59] fix: antiparticles of entries without a pdgID do not
 take the name of the particle

---
 AmpGen/ParticleProperties.h | 1 +
 src/ParticleProperties.cpp  | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/AmpGen/ParticleProperties.h b/AmpGen/ParticleProperties.h
index 6d91387..77f76ec 100644
--- a/AmpGen/ParticleProperties.h
+++ b/AmpGen/ParticleProperties.h
@@ -102,6 +102,7 @@ namespace AmpGen
       char m_status{' '};              ///< status (estalished or not etc)
       QuarkContent m_quarkContent;       ///< The quark content of the state (uD, uud etc.)
       bool m_isValid;                    ///< Flag to check whether the ParticleProperties have configured correctly 
+      bool m_isAnti = {false};           ///< Flag whether this is the antiparticle of the entry in the table
       bool m_customName = {false};       ///< Flag to make custom name 
       void antiQuarks();
       void antiCharge();
diff --git a/src/ParticleProperties.cpp b/src/ParticleProperties.cpp
index f187aa9..84f985c 100644
--- a/src/ParticleProperties.cpp
+++ b/src/ParticleProperties.cpp
@@ -124,6 +124,7 @@ bool ParticleProperties::antiThis()
   if( isFermion() ) m_parity *= -1;
   m_quarkContent.antiThis();
   m_pdgID *= -1;
+  m_isAnti = !m_isAnti;
   return true;
 }
 
@@ -138,7 +139,7 @@ std::string ParticleProperties::name() const
 {
   if( m_customName ) return m_name; 
   std::string fullName = m_name;
-  if ( m_pdgID < 0 && m_Aformat == 'F' ) fullName += "bar";
+  if ( ( m_pdgID < 0 || ( m_pdgID == 0 && m_isAnti ) ) && m_Aformat == 'F' ) fullName += "bar";
   fullName += m_chargeString;
   return fullName;
 }
-- 
2.43.0


From 62796d692034fbaec777d5fb49f3361255062e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:33 +0000
Subject: [PATCH 47/59] fix: particles constructed from a name and an index
 keep their name

---
 src/Particle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 6bd9935..9767a56 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -67,7 +67,8 @@ Particle::Particle(const std::string& name, const std::vector<Particle>& particl
 
 
 Particle::Particle( const std::string& name, const unsigned int& index ) :
-  m_props{ParticlePropertiesList::get( name )}
+  m_name{name}
+  , m_props{ParticlePropertiesList::get( name )}
   , m_index{index}
 {
   pdgLookup();
-- 
2.43.0


From e842a8bbc9940853b783efd5d1595530a39d8576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:33 +0000
Subject: [PATCH 48/59] fix: conjugation of particles that have no pdgID finds
 their antiparticle

---
 src/Particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 9767a56..74a41e9 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -686,7 +686,7 @@ void Particle::sortDaughters()
 void Particle::conjThis()
 {
   if( m_props->hasDistinctAnti() ) 
-    m_props = ParticlePropertiesList::get( -m_props->pdgID(), false);
+    m_props = ParticlePropertiesList::get( m_props->anti().name(), false);
   for(unsigned i = 0 ; i != m_daughters.size(); ++i) m_daughters[i]->conjThis(); 
 }
 
@@ -694,7 +694,7 @@ Particle Particle::conj( bool invertHead , bool reorder )
 {
   Particle cp(*this);
   cp.clearDecayProducts();
-  const ParticleProperties* p = ( !isHead() || invertHead ) && m_props->hasDistinctAnti() ? ParticlePropertiesList::get( -m_props->pdgID() ) : m_props;
+  const ParticleProperties* p = ( !isHead() || invertHead ) && m_props->hasDistinctAnti() ? ParticlePropertiesList::get( m_props->anti().name() ) : m_props;
   cp.setName( p->name() );
   for( auto& d : m_daughters ) cp.addDaughter( std::make_shared<Particle>(d->conj(invertHead,reorder)) );
   if( reorder ) cp.sortDaughters();
-- 
2.43.0


From 7a8df47f2d01c450b7ac8a0b12cebf5c187a7deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:33 +0000
Subject: [PATCH 49/59] fix: the descriptor of a conjugate tree is made after
 its allowed orbital states are known

---
 src/Particle.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 74a41e9..2cd8a18 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -699,6 +699,7 @@ Particle Particle::conj( bool invertHead , bool reorder )
   for( auto& d : m_daughters ) cp.addDaughter( std::make_shared<Particle>(d->conj(invertHead,reorder)) );
   if( reorder ) cp.sortDaughters();
   cp.pdgLookup();
+  cp.makeUniqueString();
   return cp;
 }
 
-- 
2.43.0


From 56ca2585779e8aba62da90f05bd58156e945e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:33 +0000
Subject: [PATCH 50/59] fix: descriptors of decays with a named vertex keep the
 orbital state

---
 src/Particle.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 2cd8a18..465996a 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -280,18 +280,23 @@ std::shared_ptr<Particle> Particle::daughter( const std::string& name, const int
 }
 
 
-std::string Particle::orbitalString() const
+static std::string spinOrbitString( unsigned orbital, unsigned spinConfigurationNumber )
 {
-  if( m_vertexName != "" ) return m_vertexName; 
   constexpr std::array<char, 7> orbitals = {'S','P','D','F','G','H','I'};
-  std::string rt = std::string(1, orbitals[m_orbital] ); 
-  if( m_spinConfigurationNumber != 0 ){ 
-    if( m_spinConfigurationNumber < 10 ) rt += std::to_string( m_spinConfigurationNumber  );
-    else rt += char(m_spinConfigurationNumber-10);
+  std::string rt = std::string(1, orbitals[orbital] ); 
+  if( spinConfigurationNumber != 0 ){ 
+    if( spinConfigurationNumber < 10 ) rt += std::to_string( spinConfigurationNumber  );
+    else rt += char(spinConfigurationNumber-10);
   }
   return rt; 
 }
 
+std::string Particle::orbitalString() const
+{
+  if( m_vertexName != "" ) return m_vertexName; 
+  return spinOrbitString( m_orbital, m_spinConfigurationNumber );
+}
+
 bool Particle::hasModifier( const std::string& modifier ) const
 {
   return std::find( m_modifiers.begin(), m_modifiers.end(), modifier ) != m_modifiers.end();
@@ -303,7 +308,7 @@ std::string Particle::modifierString() const
   auto append = [&modString](const std::string& toAppend){ 
     modString += ( modString == "[" ? toAppend : ";" +toAppend );
   };
-  if ( m_orbital != m_minL || m_spinConfigurationNumber != 0 ) append( orbitalString() );
+  if ( m_orbital != m_minL || m_spinConfigurationNumber != 0 ) append( spinOrbitString( m_orbital, m_spinConfigurationNumber ) );
   if ( !m_usesDefaultLineshape ) append( m_lineshape );
   std::vector<std::string> otherModifiers = {"BgSpin0", "Inco", "NoSym"};
   for ( auto& mod : otherModifiers ) if ( hasModifier( mod ) ) append(mod) ;
-- 
2.43.0


From f447d0c8d7142b580096b398a671d56ab1b5b85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:53 +0000
Subject: [PATCH 51/59] fix: decays whose daughters do not match are not
 reported as partial matches

---
 src/Particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 465996a..ee95a67 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -873,7 +873,7 @@ unsigned int Particle::matches( const Particle& other ) const
   for( unsigned int i = 0 ; i < daughters().size(); ++i )
   {
     auto daughter_match = daughters()[i]->matches( *other.daughters()[i] );
-    if( daughter_match == 0 ) return MatchState::None;
+    if( daughter_match == MatchState::None ) return MatchState::None;
     rt |= daughter_match;
   }
   if( m_orbital  != other.L() )        rt |= MatchState::DifferentOrbital;
-- 
2.43.0


From 44d8071f05baf1149a1c4549faae67d9b8068076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:58 +0000
Subject: [PATCH 52/59] fix: decays with more particles than the requested
 final state do not match it

---
 src/Particle.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index ee95a67..883b445 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -115,9 +115,10 @@ Particle::Particle( const std::string& decayString, const std::vector<std::strin
   if ( !isStateGood() ) {
     ERROR( "Amplitude " << decayString << " not configured correctly" );
   }
-//  if ( finalStates.size() == fs.size() ) {
-  m_isStateGood = std::all_of(hasUsedFinalState.begin(), hasUsedFinalState.end(), [](const auto& b){return b;} );
-//  }
+  if ( finalStates.size() != 0 ) {
+    m_isStateGood &= finalStates.size() == fs.size();
+    m_isStateGood &= std::all_of(hasUsedFinalState.begin(), hasUsedFinalState.end(), [](const auto& b){return b;} );
+  }
   m_uniqueString = makeUniqueString();
 }
 
-- 
2.43.0


From 3b3d3987db76625938710543d8b3c33234960e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:58 +0000
Subject: [PATCH 53/59] fix: AddCPConjugate does not add nameless parameters

---
 src/AddCPConjugate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/AddCPConjugate.cpp b/src/AddCPConjugate.cpp
index c6ec1b3..91747c9 100644
--- a/src/AddCPConjugate.cpp
+++ b/src/AddCPConjugate.cpp
@@ -65,6 +65,7 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
       auto props = AmpGen::ParticlePropertiesList::get(pname, true);
       if( props != 0  ) new_name = props->anti().name() + "_" + tokens[1]; 
     }
+    if( new_name == "" ) continue; 
     tmp.push_back( new MinuitExpression(new_name, sgn * MinuitParameterLink(param) )) ;  
   }
   for( auto& p : tmp ){
-- 
2.43.0


From c2f85b4af87b67d13e2e6ce5ac40c16e28304e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:38 +0000
Subject: [PATCH 54/59] fix: AddCPConjugate handles couplings with a prefix

---
 src/AddCPConjugate.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/AddCPConjugate.cpp b/src/AddCPConjugate.cpp
index 91747c9..b0410c7 100644
--- a/src/AddCPConjugate.cpp
+++ b/src/AddCPConjugate.cpp
@@ -49,6 +49,8 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
     std::string new_name = ""; 
     int sgn=1;
     if ( reOrIm == "Re" || reOrIm == "Im" ){
+      std::string prefix = tokens.size() == 3 ? tokens[0] + "_" : "";
+      if( tokens.size() == 3 ) pname = tokens[1];
       auto test_particle = Particle(pname);
       //DEBUG( test_particle.name() << "->" << test_particle ); 
       if( std::count( forbidden.begin(), forbidden.end(), test_particle.name() ) != 0 ){
@@ -59,7 +61,7 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
       if( ! test.props()->hasDistinctAnti() ) continue; 
       if( cartOrPolar == "polar" )     sgn = reOrIm == "Re" ? test.CP() : 1; 
       if( cartOrPolar == "cartesian" ) sgn = test.CP();
-      new_name = test.uniqueString() +"_"+reOrIm;
+      new_name = prefix + test.uniqueString() +"_"+reOrIm;
     }
     else if( tokens.size() == 2 ) {
       auto props = AmpGen::ParticlePropertiesList::get(pname, true);
-- 
2.43.0


From f215265a5fe9b71cbb93374d60beeea93d73d6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:32 +0000
Subject: [PATCH 55/59] fix: integrate<1> of a function of a number returns the
 integral, not zero

---
 AmpGen/NumericalIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/NumericalIntegration.h b/AmpGen/NumericalIntegration.h
index eaf1288..27e2dbc 100644
--- a/AmpGen/NumericalIntegration.h
+++ b/AmpGen/NumericalIntegration.h
@@ -93,7 +93,7 @@ namespace AmpGen {
     //   2.A. van Doren and L. de Ridder, An adaptive algorithm for numerical
     //     integration over an n-dimensional cube, J.Comput. Appl. Math. 2 (1976) 207-217.
     if constexpr( dim == 1 ){
-      if constexpr( is_functor<fcn, double(const double&)>::value ) { integrate_1d(F, xmin[0], xmax[0] ); }
+      if constexpr( is_functor<fcn, double(const double&)>::value ) { return integrate_1d(F, xmin[0], xmax[0] ); }
       else if constexpr( is_functor<fcn, double(const std::array<double, 1>& ) >::value ){
         return integrate_1d( [&F](const double& x){ return F( std::array<double,1>{x} ); }, xmin[0], xmax[0] );
       }
-- 
2.43.0


From 7f6ce2a8eadbab0aaf84c8f1e78fc880ac371414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:34 +0000
Subject: [PATCH 56/59] fix: Particle::expand, addDaughter and setDaughter link
 the new daughter to its parent and refresh the descriptor

---
 src/Particle.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 883b445..715709a 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -418,6 +418,7 @@ void Particle::setOrdering( const std::vector<size_t>& ordering )
 void Particle::addDaughter( const std::shared_ptr<Particle>& particle ) 
 { 
   m_daughters.push_back( particle ); 
+  particle->setParent( this );
   m_uniqueString = makeUniqueString();
 }
 
@@ -804,6 +805,7 @@ double Particle::mass() const { return m_props->mass(); }
 void Particle::setDaughter( const Particle& particle, const unsigned int& index )
 {
   m_daughters[index] = std::make_shared<Particle>( particle );
+  m_daughters[index]->setParent( this );
   makeUniqueString();
 }
 
@@ -919,15 +921,22 @@ Particle Particle::clone() const
 void Particle::setDaughter( const unsigned int& index, const Particle& p )
 {
   m_daughters[index] = std::make_shared<Particle>(p);
+  m_daughters[index]->setParent( this );
+  makeUniqueString();
 }
 
 bool Particle::expand( const Particle& particle )
 {
   for( auto& d : m_daughters ) 
   {
-    if( d->name() == particle.name() && d->isStable() ){ d = std::make_shared<Particle>(particle); return true; }
+    if( d->name() == particle.name() && d->isStable() ){
+      d = std::make_shared<Particle>(particle);
+      d->setParent( this );
+      makeUniqueString();
+      return true;
+    }
     bool worked = d->expand( particle);
-    if( worked ) return true; 
+    if( worked ){ makeUniqueString(); return true; }
   }
   return false ;
 }
-- 
2.43.0


From 415ddbb8f2877f5a420c5f478a89572bbd00e025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:20 +0000
Subject: [PATCH 57/59] fix: different decays of the same particle sort
 independently of the order they are written in

---
 AmpGen/Particle.h |  1 +
 src/Particle.cpp  | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/AmpGen/Particle.h b/AmpGen/Particle.h
index 494418b..f3705c3 100644
--- a/AmpGen/Particle.h
+++ b/AmpGen/Particle.h
@@ -315,6 +315,7 @@ namespace AmpGen
       bool hasModifier( const std::string& modifier ) const; ///< Check if this particle has a given modifier
       std::string modifierString() const;                    ///< Re-generate modifier string used to create particle
       void sortDaughters();                                  ///< Recursively order the particle's decay products. 
+      static int compareDecays( const Particle& lhs, const Particle& rhs ); ///< Three-way comparison of two decays of the same particle
 
       NamedParameter<spinFormalism> m_spinFormalism  = {"Particle::SpinFormalism"  ,spinFormalism::Covariant, 
              optionalHelpString("Formalism to use for spin calculations",  
diff --git a/src/Particle.cpp b/src/Particle.cpp
index 715709a..617bfaa 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -816,6 +816,20 @@ void Particle::setParent(const Particle* ptr )
 
 std::vector<std::shared_ptr<Particle>> Particle::daughters() const { return m_daughters; }
 
+// orders different decays of the same particle, independently of the order in which they were written.
+int Particle::compareDecays( const Particle& lhs, const Particle& rhs )
+{
+  if ( lhs.m_daughters.size() != rhs.m_daughters.size() ) return lhs.m_daughters.size() > rhs.m_daughters.size() ? -1 : 1;
+  if ( int c = lhs.modifierString().compare( rhs.modifierString() ) ) return c;
+  for ( unsigned i = 0; i != lhs.m_daughters.size(); ++i ) {
+    const auto& l = *lhs.m_daughters[i];
+    const auto& r = *rhs.m_daughters[i];
+    if ( l.props()->pdgID() != r.props()->pdgID() ) return l.props()->pdgID() > r.props()->pdgID() ? -1 : 1;
+    if ( int c = compareDecays( l, r ) ) return c;
+  }
+  return 0;
+}
+
 bool Particle::operator<( const Particle& other )
 {
   if ( spin()      !=  other.spin()      ) return spin() > other.spin();
@@ -826,6 +840,7 @@ bool Particle::operator<( const Particle& other )
       && props()->pdgID() != other.props()->pdgID() ) return props()->pdgID() > other.props()->pdgID();
   if ( props()->charge() != other.props()->charge() ) return props()->charge() > other.props()->charge();
   if ( props()->pdgID() != other.props()->pdgID() ) return props()->pdgID() > other.props()->pdgID();
+  if ( int c = compareDecays( *this, other ) ) return c < 0;
   return index() < other.index();
 }
 
-- 
2.43.0


From 42f93c921fc87420ea8072fe5569a8dd229630c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:20 +0000
Subject: [PATCH 58/59] fix: AmplitudeRules::expand expands identical daughters
 one at a time, with one coupling each

---
 src/AmplitudeRules.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/AmplitudeRules.cpp b/src/AmplitudeRules.cpp
index ca0bec6..bd828d7 100644
--- a/src/AmplitudeRules.cpp
+++ b/src/AmplitudeRules.cpp
@@ -214,14 +214,14 @@ std::vector<std::pair<Particle, TotalCoupling>> AmplitudeRules::expand( const Co
     for(const auto& [particle, coupling] : rt )
     {
       if(!canExpand(particle)){ newTmpParticles.emplace_back(particle, coupling);  continue; }
-      std::string nameToExpand = particle.uniqueString();
       auto fs                  = particle.getFinalStateParticles();
       auto it                  = *std::find_if( fs.begin(), fs.end(), canDecay );
       auto expandedRules       = rulesForDecay( it->name() );
       for ( auto& subTree : expandedRules )
       {
-        auto expanded_amplitude = replaceAll( nameToExpand, it->name(), subTree.name() );
-        newTmpParticles.emplace_back( Particle( expanded_amplitude), TotalCoupling( coupling, subTree) );
+        auto expanded_amplitude = particle.clone();
+        expanded_amplitude.expand( subTree.particle() );
+        newTmpParticles.emplace_back( Particle( expanded_amplitude.decayDescriptor() ), TotalCoupling( coupling, subTree) );
       }
     }
     rt = newTmpParticles;
-- 
2.43.0


From a80cdcd5d0d786b078a8e12fae08b003b9bd310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:48 +0000
Subject: [PATCH 59/59] fix: azimuth of a decay product along the z axis is
 defined in helicity amplitudes

---
 src/Wigner.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Wigner.cpp b/src/Wigner.cpp
index d041d62..e685a11 100644
--- a/src/Wigner.cpp
+++ b/src/Wigner.cpp
@@ -133,8 +133,8 @@ std::pair<Expression, Expression> angCoordinates(const Tensor& P, DebugSymbols*
 {
   Expression pz = make_cse( P[2] / sqrt( P[0]*P[0] + P[1] * P[1] + P[2]*P[2] ) );  
   Expression pt2 = make_cse( P[0]*P[0] + P[1]*P[1] );
-  Expression px = P[0] / sqrt(pt2);
-  Expression py = P[1] / sqrt(pt2);
+  Expression px = Ternary( pt2 > 1e-15, P[0] / fcn::sqrt(pt2), 1 );
+  Expression py = Ternary( pt2 > 1e-15, P[1] / fcn::sqrt(pt2), 0 );
   return {pz, make_cse(px + 1i*py)};
 } 
 
-- 
2.43.0

