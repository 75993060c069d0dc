From a505d6af3d79e7dd65b2304e4941a6d75c103548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 01/41] fix: ZZ::fdiv_r trapped on INT64_MIN mod -1

---
 clpoly/number/ZZ.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clpoly/number/ZZ.hh b/clpoly/number/ZZ.hh
index b86ca8b..427a5ff 100644
--- a/clpoly/number/ZZ.hh
+++ b/clpoly/number/ZZ.hh
@@ -810,7 +810,8 @@ public:
     static void fdiv_r(ZZ& r, const ZZ& a, const ZZ& b) {
         if (a._is_small() && b._is_small()) {
             if (b._val == 0) throw std::domain_error("ZZ: division by zero");
-            int64_t rem = a._val % b._val;
+            // b == -1 handled apart: INT64_MIN % -1 overflows
+            int64_t rem = (b._val == -1) ? 0 : a._val % b._val;
             if (rem != 0 && ((rem ^ b._val) < 0))
                 rem += b._val;
             if (r._mpz) { _mpz_del(r._mpz); r._mpz = nullptr; }
-- 
2.43.0


From 8a530e0100aad2462612c6aa97928317147f50fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 02/41] fix: ZZ division of a multi-limb value by zero trapped
 instead of throwing std::domain_error

---
 clpoly/number/ZZ.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clpoly/number/ZZ.hh b/clpoly/number/ZZ.hh
index 427a5ff..3532679 100644
--- a/clpoly/number/ZZ.hh
+++ b/clpoly/number/ZZ.hh
@@ -480,6 +480,7 @@ public:
             }
             return ZZ(a._val / b._val);
         }
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         ZZ res;
         res._mpz = _mpz_new();
         if (a._is_small()) {
@@ -506,6 +507,7 @@ public:
             if (a._val == INT64_MIN && b._val == -1) return ZZ(0);
             return ZZ(a._val % b._val);
         }
+        if (b.is_zero()) throw std::domain_error("ZZ: modulo by zero");
         ZZ res;
         res._mpz = _mpz_new();
         if (a._is_small()) {
@@ -747,6 +749,7 @@ public:
             q._val = quot;
             return;
         }
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         q._ensure_mpz();
         if (a._is_small()) {
             mpz_t ta;
@@ -787,6 +790,7 @@ public:
             r._val = rem;
             return;
         }
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         q._ensure_mpz();
         r._ensure_mpz();
         if (a._is_small()) {
@@ -818,6 +822,7 @@ public:
             r._val = rem;
             return;
         }
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         r._ensure_mpz();
         if (a._is_small()) {
             mpz_t ta;
-- 
2.43.0


From 97f3e6211ca8950fb4f900207c264a59c60108c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 03/41] fix: reading a QQ with a zero denominator produced an
 invalid rational instead of throwing

---
 clpoly/number/QQ.hh | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/clpoly/number/QQ.hh b/clpoly/number/QQ.hh
index e636b15..e532d19 100644
--- a/clpoly/number/QQ.hh
+++ b/clpoly/number/QQ.hh
@@ -166,9 +166,7 @@ public:
             q._num = ZZ(s);
             q._den = ZZ(1);
         } else {
-            q._num = ZZ(s.substr(0, pos));
-            q._den = ZZ(s.substr(pos + 1));
-            q._canonicalize();
+            q = QQ(ZZ(s.substr(0, pos)), ZZ(s.substr(pos + 1)));
         }
         return is;
     }
-- 
2.43.0


From 6cec32f7d8d77af49d1fea4d09af490554be167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 04/41] fix: new_variable() could take the name of an existing
 variable

---
 clpoly/variable.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clpoly/variable.hh b/clpoly/variable.hh
index 56cf444..a0afc23 100644
--- a/clpoly/variable.hh
+++ b/clpoly/variable.hh
@@ -127,6 +127,7 @@ namespace clpoly{
         if (variable::free_serial.empty())
         {
             std::string variable_name="#var_"+ std::to_string(variable::variables.size());
+            while (variable::name_map.count(variable_name)) variable_name+="_";
             variable::name_map[variable_name]=variable::variables.size();
             variable::variables.push_back(variable_name);
             return variable::variables.size()-1;
@@ -135,6 +136,7 @@ namespace clpoly{
         {
             std::size_t s=variable::free_serial.back();
             std::string variable_name="#var_"+ std::to_string(s);
+            while (variable::name_map.count(variable_name)) variable_name+="_";
             variable::free_serial.pop_back();
             variable::name_map[variable_name]=s;
             variable::variables[s]=variable_name;
-- 
2.43.0


From daa9da2e58fc99d036033d96a2a3373898825c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 05/41] fix: normalization kept a term whose repeated
 occurrences cancel to zero

---
 clpoly/basic.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index 7869414..b209b20 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -116,11 +116,16 @@ namespace clpoly{
                     t1->second+=t2->second;//add_assignment
                 else
                 {
-                    ++t1;
-                    ++tmp_size;
+                    if (!zore_check<T2>()(t1->second))
+                    {
+                        ++t1;
+                        ++tmp_size;
+                    }
                     if (t1!=t2)
                         *t1=std::move(*t2);
                 }
+        if (zore_check<T2>()(t1->second))
+            --tmp_size;
         return tmp_size;
     }
     template <class T,class Tv,class compare>
-- 
2.43.0


From 2fc091d981947832c17dcb00c1379ffeb80d95da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 06/41] fix: pow(p,0) returned a constant that did not carry
 p's monomial order

---
 clpoly/polynomial_.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clpoly/polynomial_.hh b/clpoly/polynomial_.hh
index 3581379..8125dee 100644
--- a/clpoly/polynomial_.hh
+++ b/clpoly/polynomial_.hh
@@ -44,6 +44,7 @@ namespace clpoly{
             if (i == 0) {
                 if constexpr (std::is_constructible_v<Tc, int>) {
                     o.data().push_back(std::make_pair(Tm(), Tc(1)));
+                    o.normalization();
                 } else {
                     assert(false && "pow(empty polynomial, 0): no coefficient context");
                 }
@@ -53,6 +54,7 @@ namespace clpoly{
         Tc one = p.front().second;
         one = 1;
         o.data().push_back(std::make_pair(Tm(), one));
+        o.normalization();
         switch (i)
         {
         case 0:
-- 
2.43.0


From d5a433434e834556b74c3b7cd5d014d91152ad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 07/41] fix: packed polynomial multiplication was used when
 exponents overflow their fields

---
 clpoly/monomial_order.hh | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/clpoly/monomial_order.hh b/clpoly/monomial_order.hh
index 2250c00..d37db5e 100644
--- a/clpoly/monomial_order.hh
+++ b/clpoly/monomial_order.hh
@@ -221,10 +221,19 @@ namespace clpoly{
         vars.clear();
         __pair_vec_variables(v1_,vars);
         __pair_vec_variables(v2_,vars);
-        if (delta)
-            if (vars.size()>1 && std::max(v1_.begin()->first.deg(),v2_.begin()->first.deg())>=(uint64_t(1)<<(64/(vars.size()+1)-1))) return false;
-        else
-            if (vars.size()>1 && v1_.begin()->first.deg()+v2_.begin()->first.deg()>=(uint64_t(1)<<(64/(vars.size()+1)))) return false;
+        if (vars.size()>1)
+        {
+            if (vars.size()>=64) return false;
+            uint64_t l=64/(vars.size()+1);
+            if (delta)
+            {
+                if (std::max(v1_.begin()->first.deg(),v2_.begin()->first.deg())>=(uint64_t(1)<<(l-1))) return false;
+            }
+            else
+            {
+                if (v1_.begin()->first.deg()+v2_.begin()->first.deg()>=(uint64_t(1)<<l)) return false;
+            }
+        }
         return true;
     }
     template<class var_comp>
@@ -443,10 +452,19 @@ namespace clpoly{
         vars.clear();
         __pair_vec_variables(v1_,vars);
         __pair_vec_variables(v2_,vars);
-        if (delta)
-            if (vars.size()>1  && std::max(deg1,deg2)>=(uint64_t(1)<<(64/vars.size()-1))) return false;
-        else    
-            if (vars.size()>1  && deg1+deg2>=(uint64_t(1)<<(64/vars.size()))) return false;
+        if (vars.size()>1)
+        {
+            if (vars.size()>64) return false;
+            uint64_t l=64/vars.size();
+            if (delta)
+            {
+                if (std::max(deg1,deg2)>=(uint64_t(1)<<(l-1))) return false;
+            }
+            else
+            {
+                if (deg1+deg2>=(uint64_t(1)<<l)) return false;
+            }
+        }
         return true;
     }
     template<class var_order>
-- 
2.43.0


From 45c4f0e839d58356dd065904e1f13b3c6ba3d15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 08/41] fix: adding a number to a zero polynomial was
 undefined, cancelling constants left a zero term

---
 clpoly/polynomial_.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/clpoly/polynomial_.hh b/clpoly/polynomial_.hh
index 8125dee..480b58c 100644
--- a/clpoly/polynomial_.hh
+++ b/clpoly/polynomial_.hh
@@ -181,8 +181,14 @@ namespace clpoly{
     template<class Tc>
     polynomial_<Tc> operator+ (polynomial_<Tc>  O,Tc  m)
     {
-        if (O.empty() || O.back().first.empty())
+        if (zore_check<Tc>()(m))
+            return O;
+        if (!O.empty() && O.back().first.empty())
+        {
             O.back().second+=m;
+            if (zore_check<Tc>()(O.back().second))
+                O.pop_back();
+        }
         else
             O.push_back({{},std::move(m)});
         return O;
-- 
2.43.0


From 064deb340537873de2f38f7fcd474045dc67a2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 09/41] fix: division by a single term attached remainder
 coefficients to the quotient's monomials

---
 clpoly/basic.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index b209b20..1c25378 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -745,9 +745,9 @@ namespace clpoly{
                 if (is_divexact(m,i.first,v2_.begin()->first))
                 {
                     __div(k,k1,i.second,v2_.begin()->second);
-                    if (k1)
-                        R.push_back({m,std::move(k1)});
-                    if (k)
+                    if (!zore_check<T2>()(k1))
+                        R.push_back({i.first,std::move(k1)});
+                    if (!zore_check<T2>()(k))
                         new_v.push_back({std::move(m),std::move(k)});
 
                 }
-- 
2.43.0


From 7b0e1f4747155a4a8ec91217e1502c6262dffb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 10/41] fix: division by a single term stored zero quotient
 coefficients

---
 clpoly/basic.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index 1c25378..e93a2d6 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -608,7 +608,8 @@ namespace clpoly{
                 if (is_divexact(m,i.first,v2_.begin()->first))
                 {
                     __div(k,i.second,v2_.begin()->second);
-                    new_v.push_back({std::move(m),std::move(k)});
+                    if (!zore_check<T2>()(k))
+                        new_v.push_back({std::move(m),std::move(k)});
                 }
             }
             return void();
-- 
2.43.0


From 4e001d085b3a452f01be949d108e5d90e6acf9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 11/41] fix: unpacked division put the undivided coefficient
 into the remainder

---
 clpoly/basic.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index e93a2d6..8421226 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -828,7 +828,7 @@ namespace clpoly{
                     //std::cout<<k<<" "<<v2_begin->second<<" "<<k1<<std::endl;    
 
                     if(!zore_check<T2>()(k2)){
-                        R.push_back({std::move(m),std::move(k)});
+                        R.push_back({std::move(m),std::move(k2)});
                     }
                     //std::cout<<k<<" "<<v2_begin->second<<" "<<k1<<std::endl;    
                     if(!zore_check<T2>()(k1)){
-- 
2.43.0


From 50ec5b353fa7a44db2d959dc26a41719bf09af99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 12/41] fix: packed division treated terms whose exponents
 outgrew their fields as ordinary terms

---
 clpoly/monomial.hh | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/clpoly/monomial.hh b/clpoly/monomial.hh
index e75569d..47d2913 100644
--- a/clpoly/monomial.hh
+++ b/clpoly/monomial.hh
@@ -398,6 +398,14 @@ namespace clpoly
                 VHC_extract(heap,heap_size,gcomp);
             }
             if (!zore_check<T2>()(k)){
+                if (m & mold) // an exponent outgrew its field
+                {
+                    delete [] heap;
+                    delete [] lin;
+                    delete [] node;
+                    new_v.clear();
+                    return false;
+                }
                 // new_v.push_back({std::move(m),std::move(k)});
                 if (((m-v2_c.begin()->first)& mold)==0)
                 {
@@ -523,6 +531,15 @@ namespace clpoly
                 VHC_extract(heap,heap_size,gcomp);
             }
             if (!zore_check<T2>()(k)){
+                if (m & mold) // an exponent outgrew its field
+                {
+                    delete [] heap;
+                    delete [] lin;
+                    delete [] node;
+                    new_v.clear();
+                    R.clear();
+                    return false;
+                }
                 // new_v.push_back({std::move(m),std::move(k)});
                 if (((m-v2_c.begin()->first)& mold)==0)
                 {
-- 
2.43.0


From ee3548b9499018e73f922b4bbfb6cc9ab2299bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 13/41] fix: univariate packed division rejected quotient
 degrees with bit 31 set

---
 clpoly/monomial_order.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clpoly/monomial_order.hh b/clpoly/monomial_order.hh
index d37db5e..83fc547 100644
--- a/clpoly/monomial_order.hh
+++ b/clpoly/monomial_order.hh
@@ -294,6 +294,7 @@ namespace clpoly{
     template<class var_comp>
     inline uint64_t __monomial_compression_div_mold(const grlex_<var_comp>* m,size_t vars_size)
     {
+        if (vars_size==1) return uint64_t(1)<<63; // one variable is stored unsplit
         unsigned int l=64/(vars_size+1);
         uint64_t mold=0;
         for (unsigned int i=0;i<=vars_size;++i)
-- 
2.43.0


From 9ca581dca5016b0edd478ceb263b380a3d2e61ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 14/41] fix: is_normal() of a unit monomial or zero polynomial
 read past the end

---
 clpoly/basic.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index 8421226..e6b257b 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -76,6 +76,8 @@ namespace clpoly{
     template <class T1,class T2,class compare>
     inline bool pair_vec_normal_check(const std::vector<std::pair<T1,T2>> & v,const compare & comp )
     {
+        if (v.empty())
+            return true;
         auto t2=v.begin();++t2;
         auto t1=v.begin();
         auto e=v.end();
-- 
2.43.0


From 60e3b9c6416d8494623ea38b7c2eb4c3b4a9f585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 15/41] fix: coeff(F,v) of a polynomial in another univariate
 order used that order's variable

---
 clpoly/polynomial.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial.hh b/clpoly/polynomial.hh
index 15a6b99..73bb8fc 100644
--- a/clpoly/polynomial.hh
+++ b/clpoly/polynomial.hh
@@ -203,12 +203,12 @@ namespace clpoly{
     {
         univariate_priority_order comp_v(v);
         polynomial_<Tc,univariate_priority_order> F_(&comp_v);
-        F_=F;
+        poly_convert(F,F_);
         auto coeff_l=coeff(F_);
         std::vector<polynomial_<Tc,comp>>  coF(coeff_l.size(),polynomial_<Tc,comp>(F.comp_ptr()));
         for (size_t i=0;i<coeff_l.size();++i)
         {
-            coF[i]=coeff_l[i];
+            poly_convert(coeff_l[i],coF[i]);
         }
         return coF;
     }
-- 
2.43.0


From 333be285be18416bd25ab2c0a50f9ea87f433901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 16/41] fix: derivative over Zp stored zero coefficients when
 the characteristic divides an exponent

---
 clpoly/polynomial.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial.hh b/clpoly/polynomial.hh
index 73bb8fc..ec73a0d 100644
--- a/clpoly/polynomial.hh
+++ b/clpoly/polynomial.hh
@@ -870,7 +870,9 @@ namespace clpoly{
             }
             if (b)
             {
-                Pout.push_back({std::move(m),b*i.second});
+                Tc c=b*i.second;
+                if (!zore_check<Tc>()(c))
+                    Pout.push_back({std::move(m),std::move(c)});
             }
             
         }
@@ -892,7 +894,9 @@ namespace clpoly{
                 if (ptr->second-1)
                     m.push_back({x,ptr->second-1});
                 for (++ptr;ptr!=i.first.end();++ptr) m.push_back(*ptr);
-                Pout.push_back({std::move(m),i.first.front().second*i.second});
+                Tc c=i.first.front().second*i.second;
+                if (!zore_check<Tc>()(c))
+                    Pout.push_back({std::move(m),std::move(c)});
             }
             
         }
-- 
2.43.0


From 2d87d9cbd63a41d4e68e31a3d253ec41538bcc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 17/41] fix: polynomial times scalar zero lost the polynomial's
 monomial order

---
 clpoly/polynomial_.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/polynomial_.hh b/clpoly/polynomial_.hh
index 480b58c..660623e 100644
--- a/clpoly/polynomial_.hh
+++ b/clpoly/polynomial_.hh
@@ -230,7 +230,7 @@ namespace clpoly{
     polynomial_<Tc,comp> operator* (polynomial_<Tc,comp>  O,Tc c)
     {
         if (!c)
-            return polynomial_<Tc,comp>();
+            return polynomial_<Tc,comp>(O.comp_ptr());
         for (auto & i:O)
             i.second*=c;
         O.normalization();
-- 
2.43.0


From 4c65f4e7b1e9d459da6ecf3b621173aa9f488ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 18/41] fix: gcd reconstruction multiplied two residues in 64
 bits and never converged

---
 clpoly/polynomial_gcd.cc | 4 ++--
 clpoly/polynomial_gcd.hh | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/clpoly/polynomial_gcd.cc b/clpoly/polynomial_gcd.cc
index 43f1ed6..e976d3f 100644
--- a/clpoly/polynomial_gcd.cc
+++ b/clpoly/polynomial_gcd.cc
@@ -265,7 +265,7 @@ namespace clpoly{
                         }
                         else
                         {
-                            tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                            tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                             
                         }
                         ++Pm_ptr;
@@ -279,7 +279,7 @@ namespace clpoly{
                 }
                 while (Pm_ptr!=Pm_end)
                 {
-                    tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                    tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                     ++Pm_ptr;
                 }
                 Pout_prime*=prime;
diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index 3a6f63c..bd14394 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -383,7 +383,7 @@ namespace clpoly{
                         }
                         else
                         {
-                            tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                            tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                             
                         }
                         ++Pm_ptr;
@@ -397,7 +397,7 @@ namespace clpoly{
                 }
                 while (Pm_ptr!=Pm_end)
                 {
-                    tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                    tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                     ++Pm_ptr;
                 }
                 Pout_prime*=prime; 
-- 
2.43.0


From 24e8a0f12e7442cdf9ff4539b9ad83e68436043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 19/41] fix: gcd continued from a content-divided candidate
 after a failed trial division and never converged

---
 clpoly/polynomial_gcd.cc | 3 ++-
 clpoly/polynomial_gcd.hh | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial_gcd.cc b/clpoly/polynomial_gcd.cc
index e976d3f..46441bb 100644
--- a/clpoly/polynomial_gcd.cc
+++ b/clpoly/polynomial_gcd.cc
@@ -324,7 +324,8 @@ namespace clpoly{
                         return {{0,cont_gcd}};
                     }
                 }
-                std::swap(tmp_Pout_.data(),Pout_.data());
+                else
+                    std::swap(tmp_Pout_.data(),Pout_.data());
                        
             }
             prime = prev_prime_64(prime);
diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index bd14394..47b6241 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -441,7 +441,8 @@ namespace clpoly{
                         return cont_gcd;
                     }
                 }
-                swap(tmp_Pout_.data(),Pout_.data());
+                else
+                    swap(tmp_Pout_.data(),Pout_.data());
                        
             }
             prime = prev_prime_64(prime);
-- 
2.43.0


From 6798bf8c8b1c84d71265b787900ff801b19d5731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 20/41] fix: modular gcd looped for 2^64 points when the outer
 evaluation point was unlucky

---
 clpoly/polynomial_gcd.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index 47b6241..f45e522 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -890,6 +890,11 @@ namespace clpoly{
             std::mt19937_64 gen(rd());
             std::uniform_int_distribution<uint64_t> dis(0, prime-1);
             std::unordered_set<uint64_t> used_points;
+            // 对好的 F,G，坏点是 lc(F),lc(G) 或某个 Sylvester 子式关于 v 的根，个数不超过 bad_max；
+            // 超过则说明 F,G 本身来自坏的赋值点，返回 -1 由上层换点/换素数。
+            const int64_t f_vd=(flvd.first==v)?flvd.second:0, g_vd=(glvd.first==v)?glvd.second:0;
+            const int64_t bad_max=(f_d+1)*(g_vd+1)+(g_d+1)*(f_vd+1);
+            int64_t num_bad=0;
             // 上界 prime 看似巨大（≈2^64），但循环总在 O(v_d + deg) 次内通过
             // line 971 的 return 退出：坏点（leading coeff 为零）最多 max(f_d,g_d) 个，
             // 好点只需 v_d 个。line 1038 的 early exit 处理 prime < v_d 的极端情况。
@@ -902,6 +907,7 @@ namespace clpoly{
                 used_points.insert(pt);
                 p_.number()=pt;
 
+                bool good_point=false;
                 F_v=assign(F,v,p_);
                 G_v=assign(G,v,p_);
                 lc_v=assign(Lc_gcd,v,p_);
@@ -916,6 +922,7 @@ namespace clpoly{
                     //std::cout<<"v:"<<v<<" deg:"<<deg_<<" GDD:"<<Pout_<<std::endl;
                     if (deg_!=-1 && deg_<=deg)
                     {
+                        good_point=true;
                         if (deg_<deg || !num_s)
                         {
                             deg=deg_;
@@ -1045,6 +1052,10 @@ namespace clpoly{
                     }
                     
 
+                }
+                if (!good_point && ++num_bad>bad_max)
+                {
+                    return -1;
                 }
                 if (prime<=i+v_d-num_s)
                 {
-- 
2.43.0


From 5fbeb1bd9f208256d224ca14f94680a0755d76d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:16 +0000
Subject: [PATCH 21/41] fix: extended gcd chose the less significant main
 variable

---
 clpoly/polynomial_gcd.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index f45e522..b86de56 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -507,7 +507,7 @@ namespace clpoly{
 
         // 确定主变量
         variable v = get_first_var(F);
-        if (!v.serial() || (get_first_var(G).serial() && F.comp()(v, get_first_var(G))))
+        if (!v.serial() || (get_first_var(G).serial() && F.comp()(get_first_var(G), v)))
             v = get_first_var(G);
         if (!v.serial()) {
             // 都是常数情况已处理
-- 
2.43.0


From a8eaa1d415e15eb13c67acbe46aa51e11e3d93d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:45 +0000
Subject: [PATCH 22/41] fix: squarefreebasis listed -1 as a basis element when
 a common factor differed by sign

---
 clpoly/polynomial_gcd.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index b86de56..1f0e569 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -179,9 +179,10 @@ namespace clpoly{
                     if (!is_number(F1))
                     {
                         tmp=tmp/F1;
-                        if (F1!=lst[j])
+                        auto lst_F1=lst[j]/F1;
+                        if (!is_number(lst_F1))
                         {
-                            lst[j]=lst[j]/F1;
+                            lst[j]=std::move(lst_F1);
                             lst_.push_back(std::move(F1));
                             I_.push_back(I[j]);
                             I_.back().push_back({i,l_ptr->second});
-- 
2.43.0


From 0eb760b8d79597c3f12886ba68ce926319ace249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 23/41] fix: subresultant chain left out S_1 when its
 predecessor drops to degree 1

---
 clpoly/resultant.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clpoly/resultant.hh b/clpoly/resultant.hh
index f9b9dd3..af12120 100644
--- a/clpoly/resultant.hh
+++ b/clpoly/resultant.hh
@@ -358,7 +358,7 @@ namespace clpoly{
             if (r<j)
             {
                 
-                if (r!=1)
+                if (r!=1 || is_list)
                 {
                     leadcoeff(R_,S_j);
                     if (j-r<2)
@@ -426,7 +426,7 @@ namespace clpoly{
                 //std::cout<<"R_j"<<":"<<tmp1<<std::endl;
                 leadcoeff(R_,S_j_1);
                 //std::cout<<"R_j+1"<<":"<<R_<<std::endl;
-                if (r!=1)
+                if (r!=1 || is_list)
                 {
                     leadcoeff(tmp1,S_j);
                     if (j-r<2)
-- 
2.43.0


From 7987ea243398bc65f0e822e4df9c4a9addd834ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 24/41] verification hook: dense Zp algorithm thresholds can be
 lowered (CLPOLY_VERIF_CUTOFFS)

---
 clpoly/dense_upoly_zp.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/clpoly/dense_upoly_zp.hh b/clpoly/dense_upoly_zp.hh
index ece9fbb..72704a1 100644
--- a/clpoly/dense_upoly_zp.hh
+++ b/clpoly/dense_upoly_zp.hh
@@ -148,7 +148,11 @@ private:
 
     // --- M1 Karatsuba 乘法 ---
 
+#ifndef CLPOLY_VERIF_CUTOFFS
     static constexpr size_t KARATSUBA_THRESHOLD = 16;
+#else   // verification hook: small thresholds given on the command line
+    static constexpr size_t KARATSUBA_THRESHOLD = CLPOLY_VERIF_KARATSUBA;
+#endif
 
     // schoolbook 基例（惰性累加，点积形式）
     void _classical_mul(uint64_t* C,
@@ -226,8 +230,13 @@ private:
 
     // --- P3-HGCD: 常量与辅助类型 ---
 
+#ifndef CLPOLY_VERIF_CUTOFFS
     static constexpr size_t GCD_CUTOFF  = 340;   // gcd: Euclid vs HGCD
     static constexpr size_t HGCD_CUTOFF = 100;   // HGCD: 迭代 vs 递归
+#else
+    static constexpr size_t GCD_CUTOFF  = CLPOLY_VERIF_GCD;
+    static constexpr size_t HGCD_CUTOFF = CLPOLY_VERIF_HGCD;
+#endif
 
     struct hgcd_mat {
         uint64_t* poly[4];   // [0]=M00, [1]=M01, [2]=M10, [3]=M11
-- 
2.43.0


From 51db33ad3671847b8065329f9b29b3c19de23ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:00 +0000
Subject: [PATCH 25/41] fix: factorize of a negative single-term univariate
 returned a factor with negative leading coefficient

---
 clpoly/polynomial_factorize_univar.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clpoly/polynomial_factorize_univar.hh b/clpoly/polynomial_factorize_univar.hh
index 0d4e095..9da8976 100644
--- a/clpoly/polynomial_factorize_univar.hh
+++ b/clpoly/polynomial_factorize_univar.hh
@@ -715,7 +715,8 @@ namespace clpoly{
     {
         if (f.empty()) return {ZZ(1), std::move(f)};
         ZZ c = cont(f);
-        if (f.front().second < ZZ(0)) c = -c;  // 确保 lc > 0
+        // 确保 lc > 0 (单项式时 cont 返回带符号的系数)
+        if ((f.front().second < ZZ(0)) != (c < ZZ(0))) c = -c;
         for (auto& term : f)
             term.second /= c;
         return {std::move(c), std::move(f)};
-- 
2.43.0


From e56f637c01fee4b10ee186e78d01f95fc7ecaa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 26/41] fix: Wang lifting from an over-split evaluation point
 let the false factors grow without bound

---
 clpoly/polynomial_factorize_wang.hh | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/clpoly/polynomial_factorize_wang.hh b/clpoly/polynomial_factorize_wang.hh
index 8c28278..10d31c1 100644
--- a/clpoly/polynomial_factorize_wang.hh
+++ b/clpoly/polynomial_factorize_wang.hh
@@ -930,6 +930,18 @@ namespace clpoly{
             error.normalization();
 
             if (error.empty()) break;
+
+            // 真因子关于每个变量的次数不超过 aj。若有两个以上因子超出该界，
+            // 则单变量像过度分裂，继续提升只会使项数爆炸且结果不会被接受 → 换点
+            int overgrown = 0;
+            for (int i = 0; i < r; i++)
+            {
+                bool over = degree(F[i], xj) > D_j;
+                for (size_t v = 0; v < aux_vars.size() && !over; v++)
+                    over = degree(F[i], aux_vars[v]) > degree(aj, aux_vars[v]);
+                if (over) ++overgrown;
+            }
+            if (overgrown >= 2) return false;
         }
 
         return true;
-- 
2.43.0


From 1ab50cf981ba5333190f654d6d953bf192f94e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 27/41] fix: factors with coefficients beyond the lifting prime
 were never recovered and factorize did not terminate

---
 clpoly/polynomial_factorize_wang.hh | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/clpoly/polynomial_factorize_wang.hh b/clpoly/polynomial_factorize_wang.hh
index 10d31c1..33a380a 100644
--- a/clpoly/polynomial_factorize_wang.hh
+++ b/clpoly/polynomial_factorize_wang.hh
@@ -1113,6 +1113,11 @@ namespace clpoly{
         if (M > ZZ(2) * B)
             return result;   // 单次约化足够
 
+        // p-adic 修正项关于 x1 的次数低于 F[i]，无法改变首项系数，
+        // 因此提升前须将首项系数置为 Z 上的真实值（而非 mod p 对称约化值）
+        for (int i = 0; i < r; i++)
+            __hensel_lc_correct(result[i], lc_targets[i], main_var);
+
         // C.3: p-adic MDP 使用完整多变量 F（MTSHL-d 结果）作为余因子
         // 注意：不能使用单变量 F_base，因为 p-adic MDP 的余因子 ∏_{j≠i} F[j]
         // 是多变量的。__mtshl_sparse_int 会在 θ-array 点求值 F[i]，每个点得到
@@ -1125,10 +1130,8 @@ namespace clpoly{
                 forms[i].push_back(term.first);
 
         // C.4: p-adic 提升循环
-        // 63-bit 素数: l_max=5 → 可恢复 ~(2^63)^5 ≈ 10^95 范围的系数
-        constexpr int l_max = 5;
-
-        for (int l = 1; l < l_max && M <= ZZ(2) * B; l++)
+        // 每步 M 增大 p 倍，步数由系数界 B 决定（固定步数会使大系数因子永远无法恢复）
+        while (M <= ZZ(2) * B)
         {
             // C.4.1: 计算 Z 上精确误差
             Poly product = result[0];
-- 
2.43.0


From c50b515a056524f996772d4df127dca85f41acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 28/41] fix: evaluation point search never ended when leading
 coefficient factors share a fixed divisor

---
 clpoly/polynomial_factorize_wang.hh | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/clpoly/polynomial_factorize_wang.hh b/clpoly/polynomial_factorize_wang.hh
index 33a380a..947400b 100644
--- a/clpoly/polynomial_factorize_wang.hh
+++ b/clpoly/polynomial_factorize_wang.hh
@@ -1202,7 +1202,7 @@ namespace clpoly{
     // ================================================================
 
     // §4.2 选取值点: 返回 α = {x₂→α₂,...,xₙ→αₙ}
-    // 满足 (a) f(x₁,α) 无平方 (b) lc(f,x₁)(α)≠0 (d) lc 因子求值两两互素
+    // 满足 (a) f(x₁,α) 无平方 (b) lc(f,x₁)(α)≠0 (d) lc 因子的求值各有独有素因子
     template<class var_order>
     std::map<variable, ZZ>
     __select_eval_point(
@@ -1290,7 +1290,7 @@ namespace clpoly{
                 }
             }
 
-            // 条件 (d): lc 因子求值两两互素
+            // 条件 (d): lc 因子的求值各有独有素因子
             if (!lc_irr_factors.empty())
             {
                 std::vector<ZZ> vals;
@@ -1308,13 +1308,18 @@ namespace clpoly{
                 for (auto& v : vals)
                     if (v <= ZZ(1)) { bad_point = true; break; }
                 if (bad_point) continue;
-                // 两两互素
-                bool pairwise_coprime = true;
-                for (size_t i = 0; i < vals.size() && pairwise_coprime; ++i)
-                    for (size_t j = i + 1; j < vals.size() && pairwise_coprime; ++j)
-                        if (gcd(vals[i], vals[j]) != ZZ(1))
-                            pairwise_coprime = false;
-                if (!pairwise_coprime) continue;
+                // 每个值须含有不整除其之前各值的素因子（足以区分各 lc 因子）。
+                // 不能要求两两互素: 如 y(y+1) 与 z(z+1)t 的因子在任何整数点都
+                // 不可能两两互素，搜索将永不终止
+                for (size_t i = 1; i < vals.size() && !bad_point; ++i)
+                {
+                    ZZ q = vals[i];
+                    for (size_t j = 0; j < i; ++j)
+                        for (ZZ d = gcd(vals[j], q); d != ZZ(1); d = gcd(d, q))
+                            q = q / d;
+                    bad_point = (q == ZZ(1));
+                }
+                if (bad_point) continue;
             }
 
             if (skip > 0) { --skip; continue; }
@@ -1448,7 +1453,7 @@ namespace clpoly{
             {
                 ZZ R = abs(w[i]);
 
-                // 遍历顺序不影响正确性（Eⱼ 已 pairwise coprime），逆序与 SymPy/FLINT 一致便于对比
+                // 必须逆序: Eⱼ 的独有素因子只保证不整除其之前的 Eₖ（与 SymPy/FLINT 一致）
                 for (int j = (int)m - 1; j >= 0; --j)
                 {
                     ZZ Ej = lc_evals[j];
-- 
2.43.0


From 3aac124c3b5be3b86203059536a5dd8e05b1a8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:43 +0000
Subject: [PATCH 29/41] fix: uspensky of a single polynomial left out the root
 0

---
 clpoly/realroot.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clpoly/realroot.cc b/clpoly/realroot.cc
index 538fd7f..00bee4c 100644
--- a/clpoly/realroot.cc
+++ b/clpoly/realroot.cc
@@ -148,6 +148,8 @@ namespace clpoly{
         l.reserve(l1.size()+l2.size());
         for (auto i=l1.rbegin();i!=l1.rend();++i)
             l.push_back({-i->second,-i->first});
+        if (!assign<QQ,ZZ,QQ>(G,0))
+            l.push_back({0,0});
         for (auto &i:l2)
             l.push_back(i);
         
-- 
2.43.0


From 6f00ffbe34e24ee9d48054534806a9243de61bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:53 +0000
Subject: [PATCH 30/41] fix: comparing two real roots was wrong when one
 bisection hits the other root's left endpoint

---
 clpoly/realroot.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clpoly/realroot.cc b/clpoly/realroot.cc
index 00bee4c..0019c6a 100644
--- a/clpoly/realroot.cc
+++ b/clpoly/realroot.cc
@@ -694,9 +694,10 @@ namespace clpoly{
             _uroot_check(r1,(r1->left()+r1->right())/2);
             _uroot_check(r2,(r2->left()+r2->right())/2);
         }
-        if (r1->left()<=r2->left())
-            return status;
-        return -status;
+        if (r1->left()!=r2->left())
+            return (r1->left()<r2->left())?status:-status;
+        // 左端点相同: 其中一个已收缩为点 (根在另一个开区间的左端点)
+        return (r1->right()<r2->right())?status:-status;
     }
 
     int uroot::comp(uroot * r,const QQ  & q) // 1:r<q;0:r=q;-1:r>q
-- 
2.43.0


From 03407ebeb57c6995845f3359925ebda690720fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:04 +0000
Subject: [PATCH 31/41] fix: normal_form and s_polynomial over ZZ truncated
 coefficient quotients (wrong results, endless reduction)

---
 clpoly/groebner.hh | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/clpoly/groebner.hh b/clpoly/groebner.hh
index a10e36a..7d351d3 100644
--- a/clpoly/groebner.hh
+++ b/clpoly/groebner.hh
@@ -65,6 +65,20 @@ namespace clpoly {
         return __s_polynomial(f, g);
     }
 
+    // ZZ 入口：系数不可整除，在 QQ 上计算后清分母（与精确结果相差一个正有理常数因子）
+    template<class comp>
+    inline polynomial_<ZZ, comp> s_polynomial(
+        const polynomial_<ZZ, comp>& f,
+        const polynomial_<ZZ, comp>& g)
+    {
+        polynomial_<QQ, comp> fq(f.comp_ptr()), gq(g.comp_ptr());
+        poly_convert(f, fq);
+        poly_convert(g, gq);
+        polynomial_<ZZ, comp> S(f.comp_ptr());
+        poly_convert(__s_polynomial(fq, gq), S);
+        return S;
+    }
+
     // ===== M3: Normal Form（多除数约化） =====
 
     template<class Tc, class comp>
@@ -166,6 +180,27 @@ namespace clpoly {
         return __normal_form(f, G);
     }
 
+    // ZZ 入口：系数不可整除，在 QQ 上计算后清分母（与精确结果相差一个正有理常数因子）
+    template<class comp>
+    inline polynomial_<ZZ, comp> normal_form(
+        const polynomial_<ZZ, comp>& f,
+        const std::vector<polynomial_<ZZ, comp>>& G)
+    {
+        polynomial_<QQ, comp> fq(f.comp_ptr());
+        poly_convert(f, fq);
+        std::vector<polynomial_<QQ, comp>> Gq;
+        Gq.reserve(G.size());
+        for (auto& g : G)
+        {
+            polynomial_<QQ, comp> gq(g.comp_ptr());
+            poly_convert(g, gq);
+            Gq.push_back(std::move(gq));
+        }
+        polynomial_<ZZ, comp> r(f.comp_ptr());
+        poly_convert(__normal_form(fq, Gq), r);
+        return r;
+    }
+
     // ===== 辅助: 首一化（逐系数除以 LC） =====
 
     template<class Tc, class comp>
-- 
2.43.0


From 292c6317aabe8c885af61e5ab73c78906fc4db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:48 +0000
Subject: [PATCH 32/41] fix: graph::add_node registered the moved-from node
 (graphs of strings lost their nodes)

---
 clpoly/associatedgraph.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/associatedgraph.hh b/clpoly/associatedgraph.hh
index 04ca071..166d208 100644
--- a/clpoly/associatedgraph.hh
+++ b/clpoly/associatedgraph.hh
@@ -64,8 +64,8 @@ namespace clpoly{
                 auto search=this->__mnode.find(c);
                 if (search==this->__mnode.end())
                 {
+                    this->__mnode[c]=this->__nodes.size();
                     this->__nodes.push_back(std::move(c));
-                    this->__mnode[c]=this->__nodes.size()-1;
                     this->__adjacency_list.push_back({});
                 }
             }
-- 
2.43.0


From a38dc1216929b05bb433d56f3d947a2f1c2fa72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:48 +0000
Subject: [PATCH 33/41] fix: connected_branch returned an empty component for
 an isolated node

---
 clpoly/associatedgraph.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clpoly/associatedgraph.cc b/clpoly/associatedgraph.cc
index 317ba33..16b92d0 100644
--- a/clpoly/associatedgraph.cc
+++ b/clpoly/associatedgraph.cc
@@ -164,7 +164,8 @@ namespace clpoly{
         for (uint64_t i=0;i<g.size();++i)
             if (l2[i])
             {
-                l1.push_back({});
+                l1.push_back({i});
+                l2[i]=false;
                 _connected_branch_(i,l1.size()-1,g,l1,l2);
             }
         return l1;
-- 
2.43.0


From 1c8b8f8220ce39cee02ede8ad548120c867ad412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:48 +0000
Subject: [PATCH 34/41] fix: graph_diff_score ignored nodes found only in the
 second graph and was NaN for two edgeless graphs

---
 clpoly/associatedgraph.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clpoly/associatedgraph.hh b/clpoly/associatedgraph.hh
index 166d208..bea3668 100644
--- a/clpoly/associatedgraph.hh
+++ b/clpoly/associatedgraph.hh
@@ -241,7 +241,7 @@ namespace clpoly{
         std::set<node_type> nodes;
         for (auto &i:g1.nodes())
             nodes.insert(i);
-        for (auto &j:g1.nodes())
+        for (auto &j:g2.nodes())
             nodes.insert(j);
         std::set<node_type> neighbor;
         double union_=0;
@@ -264,6 +264,7 @@ namespace clpoly{
             union_+=neighbor.size();
         }
         // std::cout<<cross<<" "<<union_<<std::endl;
+        if (union_==0) return 0;
         return 1-cross/union_;
     }
 
-- 
2.43.0


From 06f7b3137a23ceaae1b5e4cbc16f9039adac198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:05 +0000
Subject: [PATCH 35/41] fix: random_select drew from an int range and broke for
 more than 2^31 candidates

---
 clpoly/random.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/random.hh b/clpoly/random.hh
index e6fa6b1..6441d40 100644
--- a/clpoly/random.hh
+++ b/clpoly/random.hh
@@ -100,7 +100,7 @@ namespace clpoly{
         std::random_device rd; 
         std::mt19937 gen(rd());
         size_t tmp=no_repeat?m-n:m-1;
-        std::uniform_int_distribution<> dis(0, tmp);
+        std::uniform_int_distribution<size_t> dis(0, tmp);
         for (size_t i=0;i!=n;++i)
         {
             v.push_back(dis(gen));
-- 
2.43.0


From 99bca7c4872ac6f8f43e5a8eced268fcad14012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:05 +0000
Subject: [PATCH 36/41] fix: RandomSample could only select from the first n
 elements

---
 clpoly/random.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clpoly/random.hh b/clpoly/random.hh
index 6441d40..37d65f6 100644
--- a/clpoly/random.hh
+++ b/clpoly/random.hh
@@ -271,7 +271,8 @@ namespace clpoly{
         uint64_t select;
         for (uint64_t i=size;i>0;--i)
             bl.push_back(true);
-        for (uint64_t i=std::min<uint64_t>(n,size);i>0;--i)
+        // i: number of elements not selected yet
+        for (uint64_t i=size;i>0 && lout.size()<n;--i)
         {
             if (i==1)
             {
-- 
2.43.0


From 089ce4d78caa2fcd06e8758acc008a0f9ac5cec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:26 +0000
Subject: [PATCH 37/41] fix: is_reduced denied that a nonzero constant is
 reduced

---
 clpoly/charset.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/charset.hh b/clpoly/charset.hh
index add38c1..1bca4bf 100644
--- a/clpoly/charset.hh
+++ b/clpoly/charset.hh
@@ -43,7 +43,7 @@ namespace clpoly{
         if(F.empty()) return true;
         //判断F是否对G约化
         if(is_number(G)) return false;
-        if(is_number(F)) return false;
+        if(is_number(F)) return true;
 
         if(degree(F,get_first_var(G))<get_first_deg(G))  return true;
         else return false;
-- 
2.43.0


From 3cc80b6bd22e08333749ada1bba81282839d65f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:26 +0000
Subject: [PATCH 38/41] fix: basset, charset and Wucharset did not cope with
 zero polynomials or an empty system

---
 clpoly/charset.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/clpoly/charset.hh b/clpoly/charset.hh
index 1bca4bf..e08bec8 100644
--- a/clpoly/charset.hh
+++ b/clpoly/charset.hh
@@ -78,7 +78,9 @@ namespace clpoly{
     (InputIt first,InputIt second)
     {
         if(first==second) return {};
-        std::vector<polynomial_<Tc,lex_<custom_var_order>>> F(first,second),B,Temp;
+        std::vector<polynomial_<Tc,lex_<custom_var_order>>> F,B,Temp;
+        for(;first!=second;++first)
+            if(!first->empty()) F.push_back(*first); //零多项式不属于任何升列
         while(!F.empty())
         {
             //找最小秩的多项式b
@@ -109,7 +111,7 @@ namespace clpoly{
             C=basset<Tc>(F.begin(),F.end());
             // std::cout<<"C="<<C<<std::endl;
             // SHOW(C)
-            if(is_number(C[0])) return C;
+            if(C.empty() || is_number(C[0])) return C;
             for(auto f:F)
             {
                 // std::cout<<"f1="<<f<<std::endl;
@@ -471,7 +473,7 @@ namespace clpoly{
             //std::cout<<"C="<<i<<std::endl;
         }
         
-        if(is_number(C[0])) return T;
+        if(!C.empty() && is_number(C[0])) return T;
 
         T.push_back(C);
         for(auto f:C)
-- 
2.43.0


From 886d7fd6dc0a32b7c70e183bdba1d047fd1e52a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:26 +0000
Subject: [PATCH 39/41] fix: rsd recursed without end when every zero of the
 chain is a multiple-root zero of f

---
 clpoly/charset.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clpoly/charset.hh b/clpoly/charset.hh
index e08bec8..515af46 100644
--- a/clpoly/charset.hh
+++ b/clpoly/charset.hh
@@ -367,6 +367,8 @@ namespace clpoly{
             auto T1=T,T2=T;
             T1[n-1]=ft1;
             T2[n-1]=ft2;
+            //商为常数：T 的零点都是 f 的零点
+            if(degree(ft2,x)<=0) return {{T},{}};
             auto W1=rsd(T1,f),W2=rsd(T2,f);
             W1.first.insert(W1.first.end(),W2.first.begin(),W2.first.end());
             W1.second.insert(W1.second.end(),W2.second.begin(),W2.second.end());
-- 
2.43.0


From 0620bdcdc51ec1df533f4a87fe5e33412dc19b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:56 +0000
Subject: [PATCH 40/41] fix: products of Zp polynomials work whatever default
 prime is selected

A default-constructed accumulator carries the prime selected by Zp::set_prime;
addmul/submul now let a zero accumulator adopt the operands' prime, so integer
factorisation no longer aborts (or, with NDEBUG, returns unfactored input)
after set_prime.
---
 clpoly/number.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clpoly/number.hh b/clpoly/number.hh
index 825b0f1..59fca47 100644
--- a/clpoly/number.hh
+++ b/clpoly/number.hh
@@ -308,17 +308,17 @@ namespace clpoly{
     template<>
     inline void addmul(Zp& op, const Zp& op1, const Zp& op2)
     {
-        assert((op.prime() == op1.prime() || op.prime() == 0)
+        assert((op.prime() == op1.prime() || op.number() == 0)
                && op1.prime() == op2.prime() && op1.prime());
-        if (op.prime() == 0) op.prime(op1.prime());  // setter 同步更新 _p 和 _ninv
+        if (op.prime() != op1.prime()) op.prime(op1.prime());  // setter 同步更新 _p 和 _ninv
         op += op1 * op2;
     }
     template<>
     inline void submul(Zp& op, const Zp& op1, const Zp& op2)
     {
-        assert((op.prime() == op1.prime() || op.prime() == 0)
+        assert((op.prime() == op1.prime() || op.number() == 0)
                && op1.prime() == op2.prime() && op1.prime());
-        if (op.prime() == 0) op.prime(op1.prime());  // setter 同步更新 _p 和 _ninv
+        if (op.prime() != op1.prime()) op.prime(op1.prime());  // setter 同步更新 _p 和 _ninv
         op -= op1 * op2;
     }
     inline Zp pow(const Zp & z,int64_t i)
-- 
2.43.0


From 115f184f5d27432db0d1f91d95fc0b4f6ede5d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:01 +0000
Subject: [PATCH 41/41] fix: refining a real root at an end point of its open
 interval moved it onto another root

---
 clpoly/realroot.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/realroot.cc b/clpoly/realroot.cc
index 0019c6a..4bfbed5 100644
--- a/clpoly/realroot.cc
+++ b/clpoly/realroot.cc
@@ -577,7 +577,7 @@ namespace clpoly{
 
     void _uroot_check(uroot* r,const QQ & mid)
     {
-        if (mid<r->left() || mid >r->right() ||r->left()==r->right() )
+        if (mid<=r->left() || mid>=r->right())
             return void();
         QQ rig_ass=assign<QQ,ZZ,QQ>(r->poly(),r->right());
         QQ mid_ass=assign<QQ,ZZ,QQ>(r->poly(),mid);
-- 
2.43.0

