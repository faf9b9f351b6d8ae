From 3a0792be5649200ffa9a045857001a01dac18d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 01/38] fix: keep CRT products exact when a GCD term first
 appears modulo a later prime

The product of two 64-bit residues was formed in uint64_t and wrapped, so a
GCD with a coefficient divisible by the first prime used was reconstructed
wrongly and polynomial_GCD never returned.
---
 clpoly/polynomial_gcd.cc | 4 ++--
 clpoly/polynomial_gcd.hh | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/clpoly/polynomial_gcd.cc b/clpoly/polynomial_gcd.cc
index 43f1ed6..e976d3f 100644
--- a/clpoly/polynomial_gcd.cc
+++ b/clpoly/polynomial_gcd.cc
@@ -265,7 +265,7 @@ namespace clpoly{
                         }
                         else
                         {
-                            tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                            tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                             
                         }
                         ++Pm_ptr;
@@ -279,7 +279,7 @@ namespace clpoly{
                 }
                 while (Pm_ptr!=Pm_end)
                 {
-                    tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                    tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                     ++Pm_ptr;
                 }
                 Pout_prime*=prime;
diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index 3a6f63c..bd14394 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -383,7 +383,7 @@ namespace clpoly{
                         }
                         else
                         {
-                            tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                            tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                             
                         }
                         ++Pm_ptr;
@@ -397,7 +397,7 @@ namespace clpoly{
                 }
                 while (Pm_ptr!=Pm_end)
                 {
-                    tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                    tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                     ++Pm_ptr;
                 }
                 Pout_prime*=prime; 
-- 
2.43.0


From fc208cc899844ea085216b71f37c1b158cebdf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 02/38] fix: give up on an unlucky prime instead of trying 2^64
 evaluation points

---
 clpoly/polynomial_gcd.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index bd14394..8572a62 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -869,6 +869,7 @@ namespace clpoly{
             polynomial_<Zp,lex_<var_order>> G_v(F.comp_ptr());
             polynomial_<Zp,lex_<var_order>> lc_v(F.comp_ptr());
             int64_t num_s=0;
+            int64_t num_bad=0;  // 内层 GCD 次数过高的点数
             int64_t v_d;
             variable v;
             if (flvd.first==glvd.first)
@@ -1042,7 +1043,11 @@ namespace clpoly{
                         
                         
                     }
-                    
+                    else if (++num_bad>v_d)
+                    {
+                        // 连 v_d 个以上的点都给出更高次数：素数本身不幸运，换下一个素数
+                        return -1;
+                    }
 
                 }
                 if (prime<=i+v_d-num_s)
-- 
2.43.0


From 5ccba7aba3ec3ca60867d5a1cdb0527b39e5765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 03/38] fix: keep the variable registry consistent when memory
 runs out and when an automatic name is taken

---
 clpoly/variable.hh | 45 ++++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/clpoly/variable.hh b/clpoly/variable.hh
index 56cf444..dfcc05b 100644
--- a/clpoly/variable.hh
+++ b/clpoly/variable.hh
@@ -103,20 +103,31 @@ namespace clpoly{
     // std::vector<std::string> variable::variables={""};
     // std::unordered_map<std::string,std::size_t> variable::name_map={{"",0}};
     // std::vector<std::size_t>  variable::free_serial;
+    // 登记失败（内存不足）时注册表保持原样
     inline std::size_t variable::init_variable(const std::string & variable_name)
     {
         if (variable::free_serial.empty())
         {
-            variable::name_map[variable_name]=variable::variables.size();
+            std::size_t s=variable::variables.size();
             variable::variables.push_back(variable_name);
-            return variable::variables.size()-1;
+            try
+            {
+                variable::name_map[variable_name]=s;
+            }
+            catch (...)
+            {
+                variable::variables.pop_back();
+                throw;
+            }
+            return s;
         }
         else
         {
             std::size_t s=variable::free_serial.back();
-            variable::free_serial.pop_back();
+            std::string name(variable_name);
             variable::name_map[variable_name]=s;
-            variable::variables[s]=variable_name;
+            variable::variables[s].swap(name);
+            variable::free_serial.pop_back();
             return s;
         }
         
@@ -124,24 +135,12 @@ namespace clpoly{
     }
     inline std::size_t variable::init_variable()
     {
-        if (variable::free_serial.empty())
-        {
-            std::string variable_name="#var_"+ std::to_string(variable::variables.size());
-            variable::name_map[variable_name]=variable::variables.size();
-            variable::variables.push_back(variable_name);
-            return variable::variables.size()-1;
-        }
-        else
-        {
-            std::size_t s=variable::free_serial.back();
-            std::string variable_name="#var_"+ std::to_string(s);
-            variable::free_serial.pop_back();
-            variable::name_map[variable_name]=s;
-            variable::variables[s]=variable_name;
-            return s;
-        }
-        
-        
+        std::size_t s=variable::free_serial.empty()?variable::variables.size():variable::free_serial.back();
+        std::string variable_name="#var_"+ std::to_string(s);
+        // 自动名可能已被用户占用
+        while (variable::name_map.find(variable_name)!=variable::name_map.end())
+            variable_name+='_';
+        return variable::init_variable(variable_name);
     }
     inline bool is_user_def_variable_name(const std::string & variable_name)
     {
@@ -168,9 +167,9 @@ namespace clpoly{
     {
         if (serial<variable::variables.size() && !variable::variables[serial].empty())
         {
+            variable::free_serial.push_back(serial);
             variable::name_map.erase(variable::variables[serial]);
             variable::variables[serial]="";
-            free_serial.push_back(serial);
         }
     }
     inline void variable::del_variable(const std::string & variable_name)
-- 
2.43.0


From 001a34256879ab9563cfd78a3708b3cbafc00a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 04/38] fix: report malformed numbers through the stream state,
 and keep the target and memory intact when a stream fails

---
 clpoly/number/QQ.hh | 18 +++++++++---------
 clpoly/number/ZZ.hh | 33 ++++++++++++++++++++++++---------
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/clpoly/number/QQ.hh b/clpoly/number/QQ.hh
index e636b15..d13e018 100644
--- a/clpoly/number/QQ.hh
+++ b/clpoly/number/QQ.hh
@@ -160,16 +160,16 @@ public:
 
     friend std::istream& operator>>(std::istream& is, QQ& q) {
         std::string s;
-        is >> s;
+        if (!(is >> s)) return is;
+        ZZ num, den(1);
         auto pos = s.find('/');
-        if (pos == std::string::npos) {
-            q._num = ZZ(s);
-            q._den = ZZ(1);
-        } else {
-            q._num = ZZ(s.substr(0, pos));
-            q._den = ZZ(s.substr(pos + 1));
-            q._canonicalize();
-        }
+        bool ok = num._assign_string(s.substr(0, pos));
+        if (ok && pos != std::string::npos)
+            ok = den._assign_string(s.substr(pos + 1)) && !den.is_zero();
+        if (ok)
+            q = QQ(num, den);
+        else
+            is.setstate(std::ios_base::failbit);
         return is;
     }
 
diff --git a/clpoly/number/ZZ.hh b/clpoly/number/ZZ.hh
index b86ca8b..20faca9 100644
--- a/clpoly/number/ZZ.hh
+++ b/clpoly/number/ZZ.hh
@@ -12,6 +12,7 @@
 #include <gmp.h>
 #include <cstdint>
 #include <cstdlib>
+#include <cstring>
 #include <climits>
 #include <iostream>
 #include <string>
@@ -856,24 +857,38 @@ public:
         if (z._is_small()) {
             os << z._val;
         } else {
-            char* str = mpz_get_str(nullptr, 10, z._mpz);
-            os << str;
-            void (*freefunc)(void*, size_t);
-            mp_get_memory_functions(nullptr, nullptr, &freefunc);
-            freefunc(str, std::strlen(str) + 1);
+            os << z._to_string();
         }
         return os;
     }
 
     friend std::istream& operator>>(std::istream& is, ZZ& z) {
         std::string s;
-        is >> s;
-        if (!s.empty()) {
-            z = ZZ(s);
-        }
+        if (is >> s && !z._assign_string(s))
+            is.setstate(std::ios_base::failbit);
         return is;
     }
 
+    // Decimal text of the value (buffer size known up front: GMP allocates nothing)
+    std::string _to_string() const {
+        if (_is_small()) return std::to_string(_val);
+        std::string s(mpz_sizeinbase(_mpz, 10) + 2, '\0');
+        mpz_get_str(&s[0], 10, _mpz);
+        s.resize(std::strlen(s.c_str()));
+        return s;
+    }
+
+    // Assigns the number written in s; returns false and keeps the old value if s is not one
+    bool _assign_string(const std::string& s) {
+        if (s.find('\0') != std::string::npos) return false;
+        try {
+            *this = ZZ(s);
+        } catch (const std::invalid_argument&) {
+            return false;
+        }
+        return true;
+    }
+
     // ---- hash ----
     std::size_t hash() const {
         if (_is_small()) {
-- 
2.43.0


From 4d2f7c35187320f4200ed43b6bf8f07d7900ab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 05/38] fix: draw selection indices from the full 64-bit range

---
 clpoly/random.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/random.hh b/clpoly/random.hh
index e6fa6b1..6441d40 100644
--- a/clpoly/random.hh
+++ b/clpoly/random.hh
@@ -100,7 +100,7 @@ namespace clpoly{
         std::random_device rd; 
         std::mt19937 gen(rd());
         size_t tmp=no_repeat?m-n:m-1;
-        std::uniform_int_distribution<> dis(0, tmp);
+        std::uniform_int_distribution<size_t> dis(0, tmp);
         for (size_t i=0;i!=n;++i)
         {
             v.push_back(dis(gen));
-- 
2.43.0


From d11810c1999a5a9d7828b0a7b7dbc42a4fb856e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 06/38] fix: key graph nodes by value, count both graphs' nodes
 in the difference score, keep isolated nodes in their branch

---
 clpoly/associatedgraph.cc | 2 ++
 clpoly/associatedgraph.hh | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/clpoly/associatedgraph.cc b/clpoly/associatedgraph.cc
index 317ba33..f1554f2 100644
--- a/clpoly/associatedgraph.cc
+++ b/clpoly/associatedgraph.cc
@@ -166,6 +166,8 @@ namespace clpoly{
             {
                 l1.push_back({});
                 _connected_branch_(i,l1.size()-1,g,l1,l2);
+                if (l1.back().empty())
+                    l1.back().push_back(i);
             }
         return l1;
     }
diff --git a/clpoly/associatedgraph.hh b/clpoly/associatedgraph.hh
index 04ca071..676fe68 100644
--- a/clpoly/associatedgraph.hh
+++ b/clpoly/associatedgraph.hh
@@ -64,8 +64,8 @@ namespace clpoly{
                 auto search=this->__mnode.find(c);
                 if (search==this->__mnode.end())
                 {
+                    this->__mnode[c]=this->__nodes.size();
                     this->__nodes.push_back(std::move(c));
-                    this->__mnode[c]=this->__nodes.size()-1;
                     this->__adjacency_list.push_back({});
                 }
             }
@@ -241,7 +241,7 @@ namespace clpoly{
         std::set<node_type> nodes;
         for (auto &i:g1.nodes())
             nodes.insert(i);
-        for (auto &j:g1.nodes())
+        for (auto &j:g2.nodes())
             nodes.insert(j);
         std::set<node_type> neighbor;
         double union_=0;
@@ -264,6 +264,8 @@ namespace clpoly{
             union_+=neighbor.size();
         }
         // std::cout<<cross<<" "<<union_<<std::endl;
+        if (union_==0)
+            return 0;
         return 1-cross/union_;
     }
 
-- 
2.43.0


From e4893e4d3bae19f045cc4388eef2e042d071e15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 07/38] fix: report division of a big integer by zero and the
 floor remainder of INT64_MIN by -1

---
 clpoly/number/ZZ.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/clpoly/number/ZZ.hh b/clpoly/number/ZZ.hh
index 20faca9..b25c041 100644
--- a/clpoly/number/ZZ.hh
+++ b/clpoly/number/ZZ.hh
@@ -469,8 +469,8 @@ public:
 
     // ---- arithmetic: truncated division (consistent with mpz_class) ----
     friend ZZ operator/(const ZZ& a, const ZZ& b) {
+        if (b._is_small() && b._val == 0) throw std::domain_error("ZZ: division by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: division by zero");
             // handle INT64_MIN / -1 overflow
             if (a._val == INT64_MIN && b._val == -1) {
                 ZZ r;
@@ -502,8 +502,8 @@ public:
 
     // ---- arithmetic: modulo (truncated, consistent with mpz_class) ----
     friend ZZ operator%(const ZZ& a, const ZZ& b) {
+        if (b._is_small() && b._val == 0) throw std::domain_error("ZZ: modulo by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: modulo by zero");
             if (a._val == INT64_MIN && b._val == -1) return ZZ(0);
             return ZZ(a._val % b._val);
         }
@@ -730,8 +730,8 @@ public:
 
     // ---- floor division (static, for number.hh template specialization) ----
     static void fdiv_q(ZZ& q, const ZZ& a, const ZZ& b) {
+        if (b._is_small() && b._val == 0) throw std::domain_error("ZZ: division by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: division by zero");
             if (a._val == INT64_MIN && b._val == -1) {
                 q._ensure_mpz();
                 _mpz_set_s64(q._mpz, INT64_MIN);
@@ -766,8 +766,8 @@ public:
     }
 
     static void fdiv_qr(ZZ& q, ZZ& r, const ZZ& a, const ZZ& b) {
+        if (b._is_small() && b._val == 0) throw std::domain_error("ZZ: division by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: division by zero");
             if (a._val == INT64_MIN && b._val == -1) {
                 q._ensure_mpz();
                 _mpz_set_s64(q._mpz, INT64_MIN);
@@ -809,9 +809,9 @@ public:
 
     // ---- floor remainder (static) ----
     static void fdiv_r(ZZ& r, const ZZ& a, const ZZ& b) {
+        if (b._is_small() && b._val == 0) throw std::domain_error("ZZ: division by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: division by zero");
-            int64_t rem = a._val % b._val;
+            int64_t rem = b._val == -1 ? 0 : a._val % b._val;   // INT64_MIN % -1 overflows
             if (rem != 0 && ((rem ^ b._val) < 0))
                 rem += b._val;
             if (r._mpz) { _mpz_del(r._mpz); r._mpz = nullptr; }
-- 
2.43.0


From 57b3e234611b4181e9ca8de1321d8deb535cdc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 08/38] fix: keep polynomials free of zero terms when terms
 cancel, vanish in a division or derivative, and keep remainder terms of
 polynomial_div

---
 clpoly/basic.hh       | 44 ++++++++++++++++++-------------------------
 clpoly/polynomial.hh  |  8 ++++++--
 clpoly/polynomial_.hh |  8 ++++++--
 3 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index 7869414..4366e0f 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -76,6 +76,8 @@ namespace clpoly{
     template <class T1,class T2,class compare>
     inline bool pair_vec_normal_check(const std::vector<std::pair<T1,T2>> & v,const compare & comp )
     {
+        if (v.empty())
+            return true;
         auto t2=v.begin();++t2;
         auto t1=v.begin();
         auto e=v.end();
@@ -98,30 +100,19 @@ namespace clpoly{
         auto e=v.end();
         if (!std::is_sorted(b,e,comp))
             std::sort(b,e,comp);
-        auto t2=b;
-        while (t2!=e && zore_check<T2>()(t2->second))
-            ++t2;
-        if (t2==e)
-            return 0;
         auto t1=b;
-        //std::cout<<t2->first<<":"<<t2->second<<std::endl;
-        if (t1!=t2)
-            *t1=std::move(*t2);
-        ++t2;
-        std::size_t tmp_size=1;
-        for(;t2!=e;++t2)
-            //std::cout<<t2->first<<":"<<t2->second<<std::endl;
-            if (!zore_check<T2>()(t2->second))
-                if (t1->first==t2->first) //equal_to
-                    t1->second+=t2->second;//add_assignment
-                else
-                {
-                    ++t1;
-                    ++tmp_size;
-                    if (t1!=t2)
-                        *t1=std::move(*t2);
-                }
-        return tmp_size;
+        auto t2=b;
+        while (t2!=e)
+        {
+            // collect the run of like terms starting at t2 in t1
+            if (t1!=t2)
+                *t1=std::move(*t2);
+            for (++t2;t2!=e && t1->first==t2->first;++t2) //equal_to
+                t1->second+=t2->second;//add_assignment
+            if (!zore_check<T2>()(t1->second))
+                ++t1;
+        }
+        return t1-b;
     }
     template <class T,class Tv,class compare>
     inline T pair_vec_find_first(const T & b,const T & e,const Tv & value,const compare & comp )
@@ -603,7 +594,8 @@ namespace clpoly{
                 if (is_divexact(m,i.first,v2_.begin()->first))
                 {
                     __div(k,i.second,v2_.begin()->second);
-                    new_v.push_back({std::move(m),std::move(k)});
+                    if (!zore_check<T2>()(k))
+                        new_v.push_back({std::move(m),std::move(k)});
                 }
             }
             return void();
@@ -741,7 +733,7 @@ namespace clpoly{
                 {
                     __div(k,k1,i.second,v2_.begin()->second);
                     if (k1)
-                        R.push_back({m,std::move(k1)});
+                        R.push_back({i.first,std::move(k1)});
                     if (k)
                         new_v.push_back({std::move(m),std::move(k)});
 
@@ -822,7 +814,7 @@ namespace clpoly{
                     //std::cout<<k<<" "<<v2_begin->second<<" "<<k1<<std::endl;    
 
                     if(!zore_check<T2>()(k2)){
-                        R.push_back({std::move(m),std::move(k)});
+                        R.push_back({std::move(m),std::move(k2)});
                     }
                     //std::cout<<k<<" "<<v2_begin->second<<" "<<k1<<std::endl;    
                     if(!zore_check<T2>()(k1)){
diff --git a/clpoly/polynomial.hh b/clpoly/polynomial.hh
index 15a6b99..8f54bf9 100644
--- a/clpoly/polynomial.hh
+++ b/clpoly/polynomial.hh
@@ -870,7 +870,9 @@ namespace clpoly{
             }
             if (b)
             {
-                Pout.push_back({std::move(m),b*i.second});
+                Tc c=b*i.second;
+                if (!zore_check<Tc>()(c))   // the exponent may vanish in the coefficient ring
+                    Pout.push_back({std::move(m),std::move(c)});
             }
             
         }
@@ -892,7 +894,9 @@ namespace clpoly{
                 if (ptr->second-1)
                     m.push_back({x,ptr->second-1});
                 for (++ptr;ptr!=i.first.end();++ptr) m.push_back(*ptr);
-                Pout.push_back({std::move(m),i.first.front().second*i.second});
+                Tc c=i.first.front().second*i.second;
+                if (!zore_check<Tc>()(c))   // the exponent may vanish in the coefficient ring
+                    Pout.push_back({std::move(m),std::move(c)});
             }
             
         }
diff --git a/clpoly/polynomial_.hh b/clpoly/polynomial_.hh
index 3581379..6333464 100644
--- a/clpoly/polynomial_.hh
+++ b/clpoly/polynomial_.hh
@@ -179,9 +179,13 @@ namespace clpoly{
     template<class Tc>
     polynomial_<Tc> operator+ (polynomial_<Tc>  O,Tc  m)
     {
-        if (O.empty() || O.back().first.empty())
+        if (!O.empty() && O.back().first.empty())
+        {
             O.back().second+=m;
-        else
+            if (zore_check<Tc>()(O.back().second))
+                O.pop_back();
+        }
+        else if (!zore_check<Tc>()(m))
             O.push_back({{},std::move(m)});
         return O;
     }
-- 
2.43.0


From eec64e8176c7b83d3f58efc945933ae0445b15c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 09/38] fix: accept evaluation points whose leading coefficient
 factors share primes, so that factorize ends when they always do

---
 clpoly/polynomial_factorize_wang.hh | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/clpoly/polynomial_factorize_wang.hh b/clpoly/polynomial_factorize_wang.hh
index 8c28278..9d259e6 100644
--- a/clpoly/polynomial_factorize_wang.hh
+++ b/clpoly/polynomial_factorize_wang.hh
@@ -1187,7 +1187,7 @@ namespace clpoly{
     // ================================================================
 
     // §4.2 选取值点: 返回 α = {x₂→α₂,...,xₙ→αₙ}
-    // 满足 (a) f(x₁,α) 无平方 (b) lc(f,x₁)(α)≠0 (d) lc 因子求值两两互素
+    // 满足 (a) f(x₁,α) 无平方 (b) lc(f,x₁)(α)≠0 (d) lc 因子的值各有独有素因子
     template<class var_order>
     std::map<variable, ZZ>
     __select_eval_point(
@@ -1275,7 +1275,7 @@ namespace clpoly{
                 }
             }
 
-            // 条件 (d): lc 因子求值两两互素
+            // 条件 (d): lc 因子的值各有独有素因子
             if (!lc_irr_factors.empty())
             {
                 std::vector<ZZ> vals;
@@ -1293,13 +1293,21 @@ namespace clpoly{
                 for (auto& v : vals)
                     if (v <= ZZ(1)) { bad_point = true; break; }
                 if (bad_point) continue;
-                // 两两互素
-                bool pairwise_coprime = true;
-                for (size_t i = 0; i < vals.size() && pairwise_coprime; ++i)
-                    for (size_t j = i + 1; j < vals.size() && pairwise_coprime; ++j)
-                        if (gcd(vals[i], vals[j]) != ZZ(1))
-                            pairwise_coprime = false;
-                if (!pairwise_coprime) continue;
+                // 不要求两两互素 (y, y+1, y+2 在任何整点都不两两互素):
+                // 只要求每个值剥离之前各值的公共素因子后仍有残余 > 1 (identifying prime)
+                std::vector<ZZ> d;
+                for (size_t j = 0; j < vals.size() && !bad_point; ++j)
+                {
+                    ZZ q = vals[j];
+                    for (auto& dk : d)
+                        for (ZZ r = gcd(dk, q); r != ZZ(1); r = gcd(r, q))
+                            q = q / r;
+                    if (q == ZZ(1))
+                        bad_point = true;
+                    else
+                        d.push_back(q);
+                }
+                if (bad_point) continue;
             }
 
             if (skip > 0) { --skip; continue; }
@@ -1433,7 +1441,7 @@ namespace clpoly{
             {
                 ZZ R = abs(w[i]);
 
-                // 遍历顺序不影响正确性（Eⱼ 已 pairwise coprime），逆序与 SymPy/FLINT 一致便于对比
+                // 逆序提取 (同 SymPy/FLINT): Eⱼ 的独有素因子不出现在更早的 Eₖ 与 cs·γ 中
                 for (int j = (int)m - 1; j >= 0; --j)
                 {
                     ZZ Ej = lc_evals[j];
-- 
2.43.0


From 5e8438a6a953a0d23d3d0a16f2f02ae163914589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 10/38] fix: recover large coefficients in multivariate
 factorization by fixing the known leading coefficients and lifting up to the
 bound

---
 clpoly/polynomial_factorize_wang.hh | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/clpoly/polynomial_factorize_wang.hh b/clpoly/polynomial_factorize_wang.hh
index 9d259e6..e75adbb 100644
--- a/clpoly/polynomial_factorize_wang.hh
+++ b/clpoly/polynomial_factorize_wang.hh
@@ -1094,6 +1094,26 @@ namespace clpoly{
         for (int i = 0; i < r; i++)
             result[i] = __symmetric_mod_poly(F[i], p);
 
+        // C.1': 前导系数已知 (lc_targets)，直接用其整数值替换模 p 像。
+        // p-adic 修正 σᵢ 满足 deg_x1(σᵢ) < deg_x1(F[i])，无法恢复大于 p/2 的前导系数。
+        for (int i = 0; i < r; i++)
+        {
+            int64_t d = get_deg(scaled_factors[i]);
+            Poly fixed(comp_ptr);
+            for (const auto& term : result[i])
+                if (term.first.deg(main_var) != d)
+                    fixed.push_back(term);
+            for (const auto& term : lc_targets[i])
+            {
+                auto m = term.first;
+                m.push_back({main_var, d});
+                m.normalization();
+                fixed.push_back({std::move(m), term.second});
+            }
+            fixed.normalization();
+            result[i] = std::move(fixed);
+        }
+
         // C.2: 检查是否需要 p-adic 提升
         ZZ B = __mtshl_coeff_bound(f_scaled);
         ZZ M((unsigned long long)p);
@@ -1113,10 +1133,8 @@ namespace clpoly{
                 forms[i].push_back(term.first);
 
         // C.4: p-adic 提升循环
-        // 63-bit 素数: l_max=5 → 可恢复 ~(2^63)^5 ≈ 10^95 范围的系数
-        constexpr int l_max = 5;
-
-        for (int l = 1; l < l_max && M <= ZZ(2) * B; l++)
+        // 循环至 M > 2B (系数界)，任意大小的系数均可恢复
+        while (M <= ZZ(2) * B)
         {
             // C.4.1: 计算 Z 上精确误差
             Poly product = result[0];
-- 
2.43.0


From 4721474a085c17a33b0454afb30686f003bad85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 11/38] fix: lift with another prime when a factor loses terms
 modulo the current one, so that factorize ends

---
 clpoly/polynomial_factorize_wang.hh | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/clpoly/polynomial_factorize_wang.hh b/clpoly/polynomial_factorize_wang.hh
index e75adbb..1570f48 100644
--- a/clpoly/polynomial_factorize_wang.hh
+++ b/clpoly/polynomial_factorize_wang.hh
@@ -2300,25 +2300,21 @@ namespace clpoly{
                 if (var_dead[vi]) continue;
                 variable x1 = main_vars[vi];
 
-                // 首次访问此变量时，选择安全的 mtshl_p
-                if (var_mtshl_p[vi] == 0) {
-                    var_mtshl_p[vi] = UINT64_C(18446744073709551557);  // 2^64 - 59
-                    auto L = leadcoeff(g, x1);
-                    // 检查 lc 的所有系数是否都被 p 整除 (即 p | content(lc))
-                    auto all_div = [&](uint64_t p) {
+                // 选择安全的 mtshl_p: 检查 lc 的所有系数是否都被 p 整除 (即 p | content(lc))
+                Poly L = leadcoeff(g, x1);
+                auto safe_prime = [&](uint64_t p) {
+                    for (;; p = prev_prime_64(p))
                         for (const auto& term : L)
-                            if (term.second.fdiv_ui(p) != 0) return false;
-                        return true;
-                    };
-                    while (all_div(var_mtshl_p[vi]))
-                        var_mtshl_p[vi] = prev_prime_64(var_mtshl_p[vi]);
-                }
-                uint64_t mtshl_p = var_mtshl_p[vi];
+                            if (term.second.fdiv_ui(p) != 0) return p;
+                };
+                if (var_mtshl_p[vi] == 0)
+                    var_mtshl_p[vi] = safe_prime(UINT64_C(18446744073709551557));  // 2^64 - 59
 
                 int batch_end = var_skip[vi] + BATCH_SIZE;
 
                 for (int skip = var_skip[vi]; skip < batch_end; ++skip)
                 {
+                    uint64_t mtshl_p = var_mtshl_p[vi];
                     auto eval = __select_eval_point(g, x1, skip, mtshl_p);
                     auto f0 = assign(g, eval);
                     upolynomial_<ZZ> f0_upoly;
@@ -2346,6 +2342,8 @@ namespace clpoly{
                     auto mv_factors = __mtshl_lift(
                         lc_result.f_scaled, lc_result.scaled_factors,
                         lc_result.lc_targets, eval, x1, mtshl_p);
+                    // 因子系数可能在 mtshl_p 下消失 (骨架丢项)，提升失败或未被接受时换素数
+                    var_mtshl_p[vi] = safe_prime(prev_prime_64(mtshl_p));
                     if (mv_factors.empty())
                         continue;
 
-- 
2.43.0


From 8f5aa46ee8762b74a9153e455bebb218f6c50498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 12/38] fix: skip evaluation points that cannot separate a
 leading coefficient factor from its integer content

---
 clpoly/polynomial_factorize_wang.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial_factorize_wang.hh b/clpoly/polynomial_factorize_wang.hh
index 1570f48..1669645 100644
--- a/clpoly/polynomial_factorize_wang.hh
+++ b/clpoly/polynomial_factorize_wang.hh
@@ -1230,9 +1230,11 @@ namespace clpoly{
 
         // 预处理: 若 L 非常数，分解 L 用于条件 (d)
         std::vector<Poly> lc_irr_factors;
+        ZZ lc_content(1);
         if (!is_number(L))
         {
             auto lc_fac = factorize(L);
+            lc_content = abs(lc_fac.content);
             for (auto& [lj, ej] : lc_fac.factors)
                 lc_irr_factors.push_back(lj);
         }
@@ -1312,8 +1314,9 @@ namespace clpoly{
                     if (v <= ZZ(1)) { bad_point = true; break; }
                 if (bad_point) continue;
                 // 不要求两两互素 (y, y+1, y+2 在任何整点都不两两互素):
-                // 只要求每个值剥离之前各值的公共素因子后仍有残余 > 1 (identifying prime)
-                std::vector<ZZ> d;
+                // 只要求每个值剥离与 lc 整数内容及之前各值的公共素因子后仍有残余 > 1
+                // (identifying prime，与 __wang_leading_coeff 的检查一致)
+                std::vector<ZZ> d = { lc_content };
                 for (size_t j = 0; j < vals.size() && !bad_point; ++j)
                 {
                     ZZ q = vals[j];
-- 
2.43.0


From a238d657e603628a7e3af8edd3379db29fb4fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 13/38] fix: move the sign of a polynomial to the numeric
 factor in squarefreefactorize, so that no factor -1 enters a squarefree basis

---
 clpoly/polynomial_gcd.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index 8572a62..4f819bc 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -109,6 +109,12 @@ namespace clpoly{
         auto f_cont=cont(F);
         auto F_=F/f_cont;
         auto lst=squarefreefactorize(f_cont);
+        // 符号归入数值 content: GCD 首项为正, 否则 F_3 与 F_2 只差符号时会得到因子 -1
+        if (F_.front().second<0)
+        {
+            F_=-F_;
+            lst.front().first=-lst.front().first;
+        }
         polynomial_<ZZ,lex_<var_order>> F_1(F.comp_ptr()),F_2(F.comp_ptr()),F_3(F.comp_ptr());
         for(uint64_t i=1;;++i)
         {
-- 
2.43.0


From 9329c324c83fb0d5ddba7412edf657185dc655ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 14/38] fix: real root isolation of one polynomial misses the
 root 0

---
 clpoly/realroot.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clpoly/realroot.cc b/clpoly/realroot.cc
index 538fd7f..bd7f46d 100644
--- a/clpoly/realroot.cc
+++ b/clpoly/realroot.cc
@@ -148,6 +148,8 @@ namespace clpoly{
         l.reserve(l1.size()+l2.size());
         for (auto i=l1.rbegin();i!=l1.rend();++i)
             l.push_back({-i->second,-i->first});
+        if (!assign<QQ,ZZ,QQ>(G,0)) // 根 0 不在两个开区间 (-B,0), (0,B) 内
+            l.push_back({0,0});
         for (auto &i:l2)
             l.push_back(i);
         
-- 
2.43.0


From 4aee4fc37d544c37a20f1ab86f6859651f04aed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 15/38] fix: comparing a real root refined to a point with an
 interval starting there

---
 clpoly/realroot.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clpoly/realroot.cc b/clpoly/realroot.cc
index bd7f46d..5f4e78a 100644
--- a/clpoly/realroot.cc
+++ b/clpoly/realroot.cc
@@ -694,7 +694,8 @@ namespace clpoly{
             _uroot_check(r1,(r1->left()+r1->right())/2);
             _uroot_check(r2,(r2->left()+r2->right())/2);
         }
-        if (r1->left()<=r2->left())
+        // 左端点相同时, 区间是 (a,b), 另一个是点 a, 点在前
+        if (r1->left()<r2->left() || (r1->left()==r2->left() && r1->right()<r2->right()))
             return status;
         return -status;
     }
-- 
2.43.0


From 1f4ab47f0b400a9581cab53d33b8750ac791f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:38 +0000
Subject: [PATCH 16/38] fix: normal forms and S-polynomials of integer
 polynomials with a leading coefficient other than 1

---
 clpoly/groebner.hh | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/clpoly/groebner.hh b/clpoly/groebner.hh
index a10e36a..49a330c 100644
--- a/clpoly/groebner.hh
+++ b/clpoly/groebner.hh
@@ -17,6 +17,11 @@ namespace clpoly {
 
     // ===== M2: S-多项式 =====
 
+    // term * (1/lc_f)；ZZ 上除法不精确，改为 term * lc_g/gcd(lc_f,lc_g)
+    template<class Tc>
+    inline Tc __s_coefficient(const Tc& c, const Tc& lc_f, const Tc&) { return c / lc_f; }
+    inline ZZ __s_coefficient(const ZZ& c, const ZZ& lc_f, const ZZ& lc_g) { return c * (lc_g / gcd(lc_f, lc_g)); }
+
     template<class Tc, class comp>
     inline polynomial_<Tc, comp> __s_polynomial(
         const polynomial_<Tc, comp>& f,
@@ -39,7 +44,7 @@ namespace clpoly {
         for (auto& term : poly_f.data())
         {
             term.first = term.first * m_f;
-            term.second = term.second / LC_f;
+            term.second = __s_coefficient(term.second, LC_f, LC_g);
         }
 
         // (1/LC_g) * m_g * g
@@ -47,7 +52,7 @@ namespace clpoly {
         for (auto& term : poly_g.data())
         {
             term.first = term.first * m_g;
-            term.second = term.second / LC_g;
+            term.second = __s_coefficient(term.second, LC_g, LC_f);
         }
 
         // S = poly_f - poly_g
@@ -67,6 +72,21 @@ namespace clpoly {
 
     // ===== M3: Normal Form（多除数约化） =====
 
+    // 系数除法不精确的环（ZZ）上做伪约化: h, r 同乘 |lc / gcd(lc(h), lc)|, 使 lc 整除 lc(h)
+    template<class Tc, class comp>
+    inline void __make_lc_divisible(polynomial_<Tc, comp>&, polynomial_<Tc, comp>&, const Tc&) {}
+
+    template<class comp>
+    inline void __make_lc_divisible(polynomial_<ZZ, comp>& h, polynomial_<ZZ, comp>& r, const ZZ& lc)
+    {
+        ZZ c = abs(lc / gcd(h.front().second, lc));
+        if (c == 1) return;
+        for (auto& term : h.data())
+            term.second *= c;
+        for (auto& term : r.data())
+            term.second *= c;
+    }
+
     template<class Tc, class comp>
     inline polynomial_<Tc, comp> __normal_form(
         const polynomial_<Tc, comp>& f,
@@ -85,6 +105,7 @@ namespace clpoly {
                 basic_monomial<comp> quot_m;
                 if (is_divexact(quot_m, h.front().first, G[i].front().first))
                 {
+                    __make_lc_divisible(h, r, G[i].front().second);
                     Tc c = h.front().second / G[i].front().second;
                     // h <- h - c * quot_m * G[i]
                     polynomial_<Tc, comp> tmp(G[i]);
-- 
2.43.0


From b85b6de1ff8bf62aa03c38a59fb438b67d4c4094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:38 +0000
Subject: [PATCH 17/38] fix: interrupted copy assignment of an ideal leaves new
 generators with the old basis

---
 clpoly/groebner.hh | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/clpoly/groebner.hh b/clpoly/groebner.hh
index 49a330c..a772495 100644
--- a/clpoly/groebner.hh
+++ b/clpoly/groebner.hh
@@ -471,6 +471,16 @@ namespace clpoly {
         Ideal(std::initializer_list<polynomial_<Tc, comp>> gens)
             : generators_(gens) {}
 
+        Ideal(const Ideal&) = default;
+        Ideal(Ideal&&) = default;
+        // 先复制再交换: 复制中途失败时 *this 不变（否则生成元与缓存的基可能不一致）
+        Ideal& operator=(Ideal I) noexcept {
+            generators_.swap(I.generators_);
+            gb_cache_.swap(I.gb_cache_);
+            std::swap(gb_computed_, I.gb_computed_);
+            return *this;
+        }
+
         const std::vector<polynomial_<Tc, comp>>& generators() const {
             return generators_;
         }
-- 
2.43.0


From be3f303405cd975b948e6cfe2e0a1ebcb10fc9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:43 +0000
Subject: [PATCH 18/38] fix: products and quotients over Zp use the
 process-wide modulus instead of the coefficients' own

---
 clpoly/number.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/clpoly/number.hh b/clpoly/number.hh
index 825b0f1..8b7c852 100644
--- a/clpoly/number.hh
+++ b/clpoly/number.hh
@@ -308,17 +308,19 @@ namespace clpoly{
     template<>
     inline void addmul(Zp& op, const Zp& op1, const Zp& op2)
     {
-        assert((op.prime() == op1.prime() || op.prime() == 0)
+        // op 为 0 时可能带着默认素数 cur_prime()（默认构造），此时改用 op1 的素数
+        assert((op.prime() == op1.prime() || op.number() == 0)
                && op1.prime() == op2.prime() && op1.prime());
-        if (op.prime() == 0) op.prime(op1.prime());  // setter 同步更新 _p 和 _ninv
+        if (op.prime() != op1.prime()) op.prime(op1.prime());  // setter 同步更新 _p 和 _ninv
         op += op1 * op2;
     }
     template<>
     inline void submul(Zp& op, const Zp& op1, const Zp& op2)
     {
-        assert((op.prime() == op1.prime() || op.prime() == 0)
+        // op 为 0 时可能带着默认素数 cur_prime()（默认构造），此时改用 op1 的素数
+        assert((op.prime() == op1.prime() || op.number() == 0)
                && op1.prime() == op2.prime() && op1.prime());
-        if (op.prime() == 0) op.prime(op1.prime());  // setter 同步更新 _p 和 _ninv
+        if (op.prime() != op1.prime()) op.prime(op1.prime());  // setter 同步更新 _p 和 _ninv
         op -= op1 * op2;
     }
     inline Zp pow(const Zp & z,int64_t i)
-- 
2.43.0


From 638ac63a76f570974d9475d25de408d4dba41f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 19/38] fix: scratch memory of products, quotients and prime
 search leaks when an allocation fails

---
 clpoly/basic.hh          | 43 +++++++++++++++-------------------------
 clpoly/monomial.hh       | 43 +++++++++++++++-------------------------
 clpoly/number/ZZ.hh      | 17 +++++++++++-----
 clpoly/polynomial_gcd.cc | 10 ++++------
 4 files changed, 48 insertions(+), 65 deletions(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index 4366e0f..e958ae0 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -13,6 +13,7 @@
 #include <vector>
 #include <algorithm>
 #include <functional>
+#include <memory>
 #include <iostream>
 #include <cassert>
 #include <stdexcept>
@@ -484,12 +485,11 @@ namespace clpoly{
         if ( __pair_vec_multiplies_compression(new_v,v1_,v2_,comp))
             return void();
         new_v.reserve(v1_.size()+v2_.size());
-        VHC<T1,typename std::vector<std::pair<T1,T3>>::const_iterator,typename std::vector<std::pair<T1,T4>>::const_iterator > **heap=
-            new VHC<T1,typename std::vector<std::pair<T1,T3>>::const_iterator,typename std::vector<std::pair<T1,T4>>::const_iterator >*[v1_.size()];
-        VHC<T1,typename std::vector<std::pair<T1,T3>>::const_iterator,typename std::vector<std::pair<T1,T4>>::const_iterator > *node=
-            new VHC<T1,typename std::vector<std::pair<T1,T3>>::const_iterator,typename std::vector<std::pair<T1,T4>>::const_iterator >[v1_.size()];    
-        VHC<T1,typename std::vector<std::pair<T1,T3>>::const_iterator ,typename std::vector<std::pair<T1,T4>>::const_iterator > **lin=
-            new VHC<T1,typename std::vector<std::pair<T1,T3>>::const_iterator,typename std::vector<std::pair<T1,T4>>::const_iterator >*[v1_.size()];
+        typedef VHC<T1,typename std::vector<std::pair<T1,T3>>::const_iterator,typename std::vector<std::pair<T1,T4>>::const_iterator > VHC_node;
+        std::unique_ptr<VHC_node*[]> heap_(new VHC_node*[v1_.size()]);
+        std::unique_ptr<VHC_node[]> node_(new VHC_node[v1_.size()]);
+        std::unique_ptr<VHC_node*[]> lin_(new VHC_node*[v1_.size()]);
+        VHC_node **heap=heap_.get(), *node=node_.get(), **lin=lin_.get();
         // if (heap==NULL || node==NULL || lin==NULL)
         // {
         //     throw  std::bad_alloc;
@@ -537,9 +537,6 @@ namespace clpoly{
             while(lin_size>0)
                 VHC_insert(heap,heap_size,lin[--lin_size],comp);
         }
-        delete [] heap;
-        delete [] lin;
-        delete [] node;
     }
     template <class T1,class T2,class T3>
     inline void __div(T1 & op, const T2 & op1,const T3 & op2)
@@ -603,12 +600,11 @@ namespace clpoly{
         if ( __pair_vec_div_compression(new_v,v1_,v2_,comp))
             return void();
         new_v.reserve(v1_.size()+v2_.size());
-        VHC<T1,std::size_t,typename std::vector<std::pair<T1,T4>>::const_iterator > **heap=
-            new VHC<T1,std::size_t,typename std::vector<std::pair<T1,T4>>::const_iterator >*[v2_.size()-1];
-        VHC<T1,std::size_t,typename std::vector<std::pair<T1,T4>>::const_iterator > *node=
-            new VHC<T1,std::size_t,typename std::vector<std::pair<T1,T4>>::const_iterator >[v2_.size()-1];
-        VHC<T1,std::size_t,typename std::vector<std::pair<T1,T4>>::const_iterator > **lin=
-            new VHC<T1,std::size_t,typename std::vector<std::pair<T1,T4>>::const_iterator >*[v2_.size()-1];
+        typedef VHC<T1,std::size_t,typename std::vector<std::pair<T1,T4>>::const_iterator > VHC_node;
+        std::unique_ptr<VHC_node*[]> heap_(new VHC_node*[v2_.size()-1]);
+        std::unique_ptr<VHC_node[]> node_(new VHC_node[v2_.size()-1]);
+        std::unique_ptr<VHC_node*[]> lin_(new VHC_node*[v2_.size()-1]);
+        VHC_node **heap=heap_.get(), *node=node_.get(), **lin=lin_.get();
         std::size_t reset=0;
         std::size_t reset_h=v2_.size()-1;
         
@@ -682,9 +678,6 @@ namespace clpoly{
             while(lin_size>0)
                 VHC_insert(heap,heap_size,lin[--lin_size],comp);
         }
-        delete [] heap;
-        delete [] lin;
-        delete [] node;
     }
     template <class T1,class T2,class T3,class T4,class compare>
     void pair_vec_div
@@ -749,12 +742,11 @@ namespace clpoly{
         if ( __pair_vec_div_compression(new_v,R,v1_,v2_,comp))
             return void();
         new_v.reserve(v1_.size()+v2_.size());
-        VHC<T1,std::size_t,typename std::vector<std::pair<T1,T4>>::const_iterator > **heap=
-            new VHC<T1,std::size_t,typename std::vector<std::pair<T1,T4>>::const_iterator >*[v2_.size()-1];
-        VHC<T1,std::size_t,typename std::vector<std::pair<T1,T4>>::const_iterator > *node=
-            new VHC<T1,std::size_t,typename std::vector<std::pair<T1,T4>>::const_iterator >[v2_.size()-1];
-        VHC<T1,std::size_t,typename std::vector<std::pair<T1,T4>>::const_iterator > **lin=
-            new VHC<T1,std::size_t,typename std::vector<std::pair<T1,T4>>::const_iterator >*[v2_.size()-1];
+        typedef VHC<T1,std::size_t,typename std::vector<std::pair<T1,T4>>::const_iterator > VHC_node;
+        std::unique_ptr<VHC_node*[]> heap_(new VHC_node*[v2_.size()-1]);
+        std::unique_ptr<VHC_node[]> node_(new VHC_node[v2_.size()-1]);
+        std::unique_ptr<VHC_node*[]> lin_(new VHC_node*[v2_.size()-1]);
+        VHC_node **heap=heap_.get(), *node=node_.get(), **lin=lin_.get();
         std::size_t reset=0;
         std::size_t reset_h=v2_.size()-1;
         
@@ -839,9 +831,6 @@ namespace clpoly{
             while(lin_size>0)
                 VHC_insert(heap,heap_size,lin[--lin_size],comp);
         }
-        delete [] heap;
-        delete [] lin;
-        delete [] node;
     }
 
     template <class T1,class T2,class compare>
diff --git a/clpoly/monomial.hh b/clpoly/monomial.hh
index e75569d..40d2a00 100644
--- a/clpoly/monomial.hh
+++ b/clpoly/monomial.hh
@@ -9,6 +9,7 @@
 #define CLPOLY_MONOMIAL_HH
 #include <vector>
 #include <functional>
+#include <memory>
 #include <iostream>
 #include <sstream>
 #include <string>
@@ -243,12 +244,11 @@ namespace clpoly
         new_v.clear();
         new_v.reserve(v1_.size()+v2_.size());
         const compare * comp_ptr=v1_.begin()->first.comp_ptr();
-        VHC<uint64_t,std::pair<uint64_t,const T3*>,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator > **heap=
-            new VHC<uint64_t,std::pair<uint64_t,const T3*>,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator >*[v1_.size()];
-        VHC<uint64_t,std::pair<uint64_t,const T3*>,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator > *node=
-            new VHC<uint64_t,std::pair<uint64_t,const T3*>,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator >[v1_.size()];    
-        VHC<uint64_t,std::pair<uint64_t,const T3*>,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator > **lin=
-            new VHC<uint64_t,std::pair<uint64_t,const T3*>,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator >*[v1_.size()];
+        typedef VHC<uint64_t,std::pair<uint64_t,const T3*>,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator > VHC_node;
+        std::unique_ptr<VHC_node*[]> heap_(new VHC_node*[v1_.size()]);
+        std::unique_ptr<VHC_node[]> node_(new VHC_node[v1_.size()]);
+        std::unique_ptr<VHC_node*[]> lin_(new VHC_node*[v1_.size()]);
+        VHC_node **heap=heap_.get(), *node=node_.get(), **lin=lin_.get();
         std::size_t reset=1;
         std::size_t lin_size=0;
         auto v1_ptr=v1_.begin();
@@ -301,9 +301,6 @@ namespace clpoly
             while(lin_size>0)
                 VHC_insert(heap,heap_size,lin[--lin_size],gcomp);
         }
-        delete [] heap;
-        delete [] lin;
-        delete [] node;
         //std::cout<<"压缩乘法结束\n";
         return true;
     }
@@ -342,12 +339,11 @@ namespace clpoly
         new_v.reserve(v1_.size()+v2_.size());
         const compare * comp_ptr=v1_.begin()->first.comp_ptr();
         uint64_t mold=__monomial_compression_div_mold(comp_ptr,vars.size());
-        VHC<uint64_t,typename std::list<std::pair<uint64_t,uint64_t>>::const_iterator,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator > **heap=
-            new VHC<uint64_t,typename std::list<std::pair<uint64_t,uint64_t>>::const_iterator,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator >*[v2_.size()];
-        VHC<uint64_t,typename std::list<std::pair<uint64_t,uint64_t>>::const_iterator,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator > *node=
-            new VHC<uint64_t,typename std::list<std::pair<uint64_t,uint64_t>>::const_iterator,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator >[v2_.size()];    
-        VHC<uint64_t,typename std::list<std::pair<uint64_t,uint64_t>>::const_iterator,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator > **lin=
-            new VHC<uint64_t,typename std::list<std::pair<uint64_t,uint64_t>>::const_iterator,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator >*[v2_.size()];
+        typedef VHC<uint64_t,typename std::list<std::pair<uint64_t,uint64_t>>::const_iterator,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator > VHC_node;
+        std::unique_ptr<VHC_node*[]> heap_(new VHC_node*[v2_.size()]);
+        std::unique_ptr<VHC_node[]> node_(new VHC_node[v2_.size()]);
+        std::unique_ptr<VHC_node*[]> lin_(new VHC_node*[v2_.size()]);
+        VHC_node **heap=heap_.get(), *node=node_.get(), **lin=lin_.get();
         std::size_t reset=0;
         std::size_t reset_h=v2_.size()-1;
         std::size_t lin_size=0;
@@ -425,9 +421,6 @@ namespace clpoly
             while(lin_size>0)
                 VHC_insert(heap,heap_size,lin[--lin_size],gcomp);
         }
-        delete [] heap;
-        delete [] lin;
-        delete [] node;
         //std::cout<<"压缩乘法结束\n";
         return true;
     }
@@ -466,12 +459,11 @@ namespace clpoly
         new_v.reserve(v1_.size()+v2_.size());
         const compare * comp_ptr=v1_.begin()->first.comp_ptr();
         uint64_t mold=__monomial_compression_div_mold(comp_ptr,vars.size());
-        VHC<uint64_t,typename std::list<std::pair<uint64_t,uint64_t>>::const_iterator,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator > **heap=
-            new VHC<uint64_t,typename std::list<std::pair<uint64_t,uint64_t>>::const_iterator,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator >*[v2_.size()];
-        VHC<uint64_t,typename std::list<std::pair<uint64_t,uint64_t>>::const_iterator,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator > *node=
-            new VHC<uint64_t,typename std::list<std::pair<uint64_t,uint64_t>>::const_iterator,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator >[v2_.size()];    
-        VHC<uint64_t,typename std::list<std::pair<uint64_t,uint64_t>>::const_iterator,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator > **lin=
-            new VHC<uint64_t,typename std::list<std::pair<uint64_t,uint64_t>>::const_iterator,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator >*[v2_.size()];
+        typedef VHC<uint64_t,typename std::list<std::pair<uint64_t,uint64_t>>::const_iterator,typename std::vector<std::pair<uint64_t,const T4*>>::const_iterator > VHC_node;
+        std::unique_ptr<VHC_node*[]> heap_(new VHC_node*[v2_.size()]);
+        std::unique_ptr<VHC_node[]> node_(new VHC_node[v2_.size()]);
+        std::unique_ptr<VHC_node*[]> lin_(new VHC_node*[v2_.size()]);
+        VHC_node **heap=heap_.get(), *node=node_.get(), **lin=lin_.get();
         std::size_t reset=0;
         std::size_t reset_h=v2_.size()-1;
         std::size_t lin_size=0;
@@ -558,9 +550,6 @@ namespace clpoly
             while(lin_size>0)
                 VHC_insert(heap,heap_size,lin[--lin_size],gcomp);
         }
-        delete [] heap;
-        delete [] lin;
-        delete [] node;
         //std::cout<<"压缩乘法结束\n";
         return true;
     }
diff --git a/clpoly/number/ZZ.hh b/clpoly/number/ZZ.hh
index b25c041..bb6c8c5 100644
--- a/clpoly/number/ZZ.hh
+++ b/clpoly/number/ZZ.hh
@@ -73,6 +73,15 @@ inline int64_t _mpz_get_s64(mpz_srcptr z) {
     }
 }
 
+// 临时 mpz_t，异常（内存不足）时自动释放
+struct _mpz_temp {
+    mpz_t z;
+    _mpz_temp() { mpz_init(z); }
+    ~_mpz_temp() { mpz_clear(z); }
+    _mpz_temp(const _mpz_temp&) = delete;
+    _mpz_temp& operator=(const _mpz_temp&) = delete;
+};
+
 class ZZ {
 private:
     int64_t _val;
@@ -1078,17 +1087,15 @@ inline uint64_t prev_prime_64(uint64_t n) {
 
 /// Returns the smallest prime p > n (arbitrary precision).
 inline ZZ next_prime(const ZZ& n) {
-    mpz_t z;
-    mpz_init(z);
+    _mpz_temp tmp;
+    mpz_ptr z = tmp.z;
     if (n.is_small()) {
         _mpz_set_s64(z, n.get_val());
     } else {
         mpz_set(z, n.get_mpz_v());
     }
     mpz_nextprime(z, z);
-    ZZ result(static_cast<mpz_srcptr>(z));
-    mpz_clear(z);
-    return result;
+    return ZZ(static_cast<mpz_srcptr>(z));
 }
 
 } // namespace clpoly
diff --git a/clpoly/polynomial_gcd.cc b/clpoly/polynomial_gcd.cc
index e976d3f..90ff0fb 100644
--- a/clpoly/polynomial_gcd.cc
+++ b/clpoly/polynomial_gcd.cc
@@ -44,8 +44,8 @@ namespace clpoly{
 
         // Step 4: Horner 求值 F(ξ), G(ξ)  其中 ξ = 2^pack_bits
         // 乘以 ξ 即左移 pack_bits 位，加系数直接 mpz_add（允许负数）
-        mpz_t f_val, g_val, g_int;
-        mpz_inits(f_val, g_val, g_int, NULL);
+        _mpz_temp f_tmp, g_tmp, g_int_tmp;
+        mpz_ptr f_val = f_tmp.z, g_val = g_tmp.z, g_int = g_int_tmp.z;
 
         // Pack F: Horner: f_val = (...((c[deg]) * ξ + c[deg-1]) * ξ + ...) * ξ + c[0]
         mpz_set_ui(f_val, 0);
@@ -79,8 +79,8 @@ namespace clpoly{
         mpz_gcd(g_int, f_val, g_val);
 
         // Step 6: 对称 ξ-adic 重构 g_int → 多项式 H
-        mpz_t mask, half_xi, coeff_mpz;
-        mpz_inits(mask, half_xi, coeff_mpz, NULL);
+        _mpz_temp mask_tmp, half_tmp, coeff_tmp;
+        mpz_ptr mask = mask_tmp.z, half_xi = half_tmp.z, coeff_mpz = coeff_tmp.z;
         mpz_set_ui(mask, 1);
         mpz_mul_2exp(mask, mask, pack_bits);    // mask = ξ = 2^pack_bits
         mpz_set(half_xi, mask);
@@ -103,8 +103,6 @@ namespace clpoly{
                 H.push_back({umonomial(i), ZZ(static_cast<mpz_srcptr>(coeff_mpz))});
         }
 
-        mpz_clears(f_val, g_val, g_int, mask, half_xi, coeff_mpz, NULL);
-
         if (H.empty()) return false;
 
         // 降幂排列（upolynomial 约定高次在前）
-- 
2.43.0


From 7d6c9cff6b72e20edcdc1feb5e9d2656d733b081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 20/38] fix: str() returns truncated text when memory runs out
 while printing

---
 clpoly/basic_monomial.hh   | 1 +
 clpoly/basic_polynomial.hh | 1 +
 clpoly/upolynomial.hh      | 1 +
 3 files changed, 3 insertions(+)

diff --git a/clpoly/basic_monomial.hh b/clpoly/basic_monomial.hh
index b5ba62b..1e8ffc3 100644
--- a/clpoly/basic_monomial.hh
+++ b/clpoly/basic_monomial.hh
@@ -349,6 +349,7 @@ namespace clpoly{
                 if (this->empty())
                     return "1";
                 std::ostringstream ss;
+                ss.exceptions(std::ios_base::badbit); // 内存不足时抛出 std::bad_alloc，而不是返回残缺的文本
                 // bool is_print=false;
                 // for (auto&&i:this->__data)
                 // { 
diff --git a/clpoly/basic_polynomial.hh b/clpoly/basic_polynomial.hh
index d19f281..f0fa75b 100644
--- a/clpoly/basic_polynomial.hh
+++ b/clpoly/basic_polynomial.hh
@@ -401,6 +401,7 @@ namespace clpoly{
                 if (this->size()==0)
                     return "0";
                 std::ostringstream ss;
+                ss.exceptions(std::ios_base::badbit); // 内存不足时抛出 std::bad_alloc，而不是返回残缺的文本
                 ss<<(*this);
                 return ss.str();
             }
diff --git a/clpoly/upolynomial.hh b/clpoly/upolynomial.hh
index 514eee5..2d97475 100644
--- a/clpoly/upolynomial.hh
+++ b/clpoly/upolynomial.hh
@@ -29,6 +29,7 @@ namespace clpoly{
             std::string str() const
             {
                 std::ostringstream ss;
+                ss.exceptions(std::ios_base::badbit); // 内存不足时抛出 std::bad_alloc，而不是返回残缺的文本
                 ss<<(*this);
                 return ss.str();
             }
-- 
2.43.0


From 8447113282b7c593a23af3282d745e024c1beab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:33 +0000
Subject: [PATCH 21/38] fix: packed products and quotients overflow their
 exponent fields (dangling else, 64 variables, one variable)

---
 clpoly/monomial_order.hh | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/clpoly/monomial_order.hh b/clpoly/monomial_order.hh
index 2250c00..e48eb6a 100644
--- a/clpoly/monomial_order.hh
+++ b/clpoly/monomial_order.hh
@@ -221,10 +221,19 @@ namespace clpoly{
         vars.clear();
         __pair_vec_variables(v1_,vars);
         __pair_vec_variables(v2_,vars);
-        if (delta)
-            if (vars.size()>1 && std::max(v1_.begin()->first.deg(),v2_.begin()->first.deg())>=(uint64_t(1)<<(64/(vars.size()+1)-1))) return false;
-        else
-            if (vars.size()>1 && v1_.begin()->first.deg()+v2_.begin()->first.deg()>=(uint64_t(1)<<(64/(vars.size()+1)))) return false;
+        if (vars.size()>1)
+        {
+            unsigned int l=64/(vars.size()+1);
+            if (l==0) return false;
+            if (delta)
+            {
+                if (std::max(v1_.begin()->first.deg(),v2_.begin()->first.deg())>=(uint64_t(1)<<(l-1))) return false;
+            }
+            else
+            {
+                if (v1_.begin()->first.deg()+v2_.begin()->first.deg()>=(uint64_t(1)<<l)) return false;
+            }
+        }
         return true;
     }
     template<class var_comp>
@@ -285,6 +294,7 @@ namespace clpoly{
     template<class var_comp>
     inline uint64_t __monomial_compression_div_mold(const grlex_<var_comp>* m,size_t vars_size)
     {
+        if (vars_size<=1) return uint64_t(1)<<63; // 单变量时直接存放次数
         unsigned int l=64/(vars_size+1);
         uint64_t mold=0;
         for (unsigned int i=0;i<=vars_size;++i)
@@ -443,10 +453,19 @@ namespace clpoly{
         vars.clear();
         __pair_vec_variables(v1_,vars);
         __pair_vec_variables(v2_,vars);
-        if (delta)
-            if (vars.size()>1  && std::max(deg1,deg2)>=(uint64_t(1)<<(64/vars.size()-1))) return false;
-        else    
-            if (vars.size()>1  && deg1+deg2>=(uint64_t(1)<<(64/vars.size()))) return false;
+        if (vars.size()>1)
+        {
+            unsigned int l=64/vars.size();
+            if (l==0) return false;
+            if (delta)
+            {
+                if (std::max(deg1,deg2)>=(uint64_t(1)<<(l-1))) return false;
+            }
+            else
+            {
+                if (deg1+deg2>=(uint64_t(1)<<l)) return false;
+            }
+        }
         return true;
     }
     template<class var_order>
-- 
2.43.0


From 03828d641f041d3b559853694f791b585371a522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:33 +0000
Subject: [PATCH 22/38] fix: packed quotients borrow between exponent fields in
 lexicographic orders

---
 clpoly/monomial.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clpoly/monomial.hh b/clpoly/monomial.hh
index 40d2a00..5097506 100644
--- a/clpoly/monomial.hh
+++ b/clpoly/monomial.hh
@@ -384,6 +384,7 @@ namespace clpoly
                     if (++(heap[0]->v1_ptr)!=new_v_c.end()){
                         lin[lin_size++]=heap[0];
                         heap[0]->mono=heap[0]->v1_ptr->first+heap[0]->v2_ptr->first;
+                        if (heap[0]->mono & mold) { new_v.clear(); return false; } // 指数超出压缩位宽，改用一般算法
                         heap[0]=heap[0]->next;  
                     }
                     else{
@@ -413,6 +414,7 @@ namespace clpoly
                             --reset_h;
                             node[reset_h].v1_ptr=new_c_ptr;
                             node[reset_h].mono=new_c_ptr->first+node[reset_h].v2_ptr->first;
+                            if (node[reset_h].mono & mold) { new_v.clear(); return false; } // 指数超出压缩位宽，改用一般算法
                             VHC_insert(heap,heap_size,node+reset_h,gcomp);
                         }
                     }
@@ -505,6 +507,7 @@ namespace clpoly
                     if (++(heap[0]->v1_ptr)!=new_v_c.end()){
                         lin[lin_size++]=heap[0];
                         heap[0]->mono=heap[0]->v1_ptr->first+heap[0]->v2_ptr->first;
+                        if (heap[0]->mono & mold) { new_v.clear(); R.clear(); return false; } // 指数超出压缩位宽，改用一般算法
                         heap[0]=heap[0]->next;  
                     }
                     else{
@@ -538,6 +541,7 @@ namespace clpoly
                             --reset_h;
                             node[reset_h].v1_ptr=new_c_ptr;
                             node[reset_h].mono=new_c_ptr->first+node[reset_h].v2_ptr->first;
+                            if (node[reset_h].mono & mold) { new_v.clear(); R.clear(); return false; } // 指数超出压缩位宽，改用一般算法
                             VHC_insert(heap,heap_size,node+reset_h,gcomp);
                         }
                     }
-- 
2.43.0


From 6ccc1092731fcbd79c5189eadc5638a2f86e240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:33 +0000
Subject: [PATCH 23/38] fix: pow builds its unit with the default order instead
 of the polynomial's

---
 clpoly/polynomial_.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial_.hh b/clpoly/polynomial_.hh
index 6333464..02cc9d9 100644
--- a/clpoly/polynomial_.hh
+++ b/clpoly/polynomial_.hh
@@ -40,10 +40,13 @@ namespace clpoly{
     {
         assert(i>=0);
         basic_polynomial<Tm,Tc,compare> o(p.comp_ptr());
+        Tm unit;
+        if constexpr (std::is_constructible_v<Tm, const compare*>)
+            unit=Tm(p.comp_ptr()); // 常数项也要带上多项式的单项序
         if (p.empty()) {
             if (i == 0) {
                 if constexpr (std::is_constructible_v<Tc, int>) {
-                    o.data().push_back(std::make_pair(Tm(), Tc(1)));
+                    o.data().push_back(std::make_pair(std::move(unit), Tc(1)));
                 } else {
                     assert(false && "pow(empty polynomial, 0): no coefficient context");
                 }
@@ -52,7 +55,7 @@ namespace clpoly{
         }
         Tc one = p.front().second;
         one = 1;
-        o.data().push_back(std::make_pair(Tm(), one));
+        o.data().push_back(std::make_pair(std::move(unit), one));
         switch (i)
         {
         case 0:
-- 
2.43.0


From f270f955dad9235569ac37fa454e6019fe59724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:19 +0000
Subject: [PATCH 24/38] fix: subresultant returns a stale polynomial in place
 of S_1 when a defective subresultant drops to degree one

---
 clpoly/resultant.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clpoly/resultant.hh b/clpoly/resultant.hh
index f9b9dd3..af12120 100644
--- a/clpoly/resultant.hh
+++ b/clpoly/resultant.hh
@@ -358,7 +358,7 @@ namespace clpoly{
             if (r<j)
             {
                 
-                if (r!=1)
+                if (r!=1 || is_list)
                 {
                     leadcoeff(R_,S_j);
                     if (j-r<2)
@@ -426,7 +426,7 @@ namespace clpoly{
                 //std::cout<<"R_j"<<":"<<tmp1<<std::endl;
                 leadcoeff(R_,S_j_1);
                 //std::cout<<"R_j+1"<<":"<<R_<<std::endl;
-                if (r!=1)
+                if (r!=1 || is_list)
                 {
                     leadcoeff(tmp1,S_j);
                     if (j-r<2)
-- 
2.43.0


From c250b5e0cac887702b2c29a0060f08281c758478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:53 +0000
Subject: [PATCH 25/38] fix: charset of a system containing the zero polynomial
 never returned

---
 clpoly/charset.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/clpoly/charset.hh b/clpoly/charset.hh
index add38c1..2735041 100644
--- a/clpoly/charset.hh
+++ b/clpoly/charset.hh
@@ -102,7 +102,10 @@ namespace clpoly{
     {
         if(P.size()==0) return P;
         std::vector<polynomial_<Tc,lex_<custom_var_order>>> R,C;
-        std::set<polynomial_<Tc,lex_<custom_var_order>>> F(P.begin(),P.end());
+        std::set<polynomial_<Tc,lex_<custom_var_order>>> F;
+        for(auto &i:P)
+            if(!i.empty()) F.insert(i);
+        if(F.empty()) return C;
         while(true)
         {
             R.clear();
@@ -433,7 +436,7 @@ namespace clpoly{
             if(res.empty()) break;
         }
         //std::cout<<"k="<<k<<std::endl;
-        if(k==T.size())
+        if(k>=T.size())
         {
             G.push_back(T);
             return G;
@@ -471,7 +474,7 @@ namespace clpoly{
             //std::cout<<"C="<<i<<std::endl;
         }
         
-        if(is_number(C[0])) return T;
+        if(!C.empty() && is_number(C[0])) return T;
 
         T.push_back(C);
         for(auto f:C)
-- 
2.43.0


From 3e6740c29913946c0ea7ff4e84d277eae11cb2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:53 +0000
Subject: [PATCH 26/38] fix: wrsd and rsd read past the end of a chain that has
 no polynomial for the lowest variable

---
 clpoly/charset.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/clpoly/charset.hh b/clpoly/charset.hh
index 2735041..58250a0 100644
--- a/clpoly/charset.hh
+++ b/clpoly/charset.hh
@@ -172,9 +172,9 @@ namespace clpoly{
             return std::make_pair(H,G);
         }
         //最后出现变量为x_n(数组下标n-1)
-        auto m=T[0].comp().comp.v_map;
-        auto n=m.size()+1-m[get_first_var(f)];
         auto x=get_first_var(f);
+        auto n=T.size();
+        while(n>0 && get_first_var(T[n-1])!=x) --n;
         //std::cout<<"n="<<n<<std::endl;
 
         auto res=f;
@@ -249,7 +249,7 @@ namespace clpoly{
                     auto q=pquo(T[n-1],regularsubreschain[i],x);
                     if(degree(q,x)>0)
                     {
-                        g.erase(g.end());
+                        g.pop_back();
                         g.push_back(q);
                         W=wrsd(g,f);
                         G.insert(G.end(),W.second.begin(),W.second.end());
@@ -303,8 +303,8 @@ namespace clpoly{
         if(!g.empty()) return {{},{T}};
 
         //最后出现变量为x_n(数组下标n-1)
-        auto m=T[0].comp().comp.v_map;
-        auto n=m.size()+1-m[get_first_var(f)];
+        auto n=T.size();
+        while(n>0 && get_first_var(T[n-1])!=get_first_var(f)) --n;
         if(n!=T.size())
         {
             std::vector<polynomial_<Tc,lex_<custom_var_order>>> temp(T.begin(),T.begin()+n);
-- 
2.43.0


From 72efc57436dd08fd10ddf7efa39ea328923211a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:53 +0000
Subject: [PATCH 27/38] fix: rsd recursed for ever when a polynomial vanishes
 on all zeros of a chain with multiple roots without lying in its ideal

---
 clpoly/charset.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/clpoly/charset.hh b/clpoly/charset.hh
index 58250a0..14a6ffd 100644
--- a/clpoly/charset.hh
+++ b/clpoly/charset.hh
@@ -329,6 +329,7 @@ namespace clpoly{
         
         // std::cout<<"subreschain="<<subreschain<<std::endl;
 
+        std::vector<polynomial_<Tc,lex_<custom_var_order>>> temp(T.begin(),T.end()-1);
         int i;
         for(i=0;i<subreschain.size();i++)
             if(degree(subreschain[i],x)==i)
@@ -340,7 +341,8 @@ namespace clpoly{
                     if(R.empty()) break;
                 }
 
-                if(!R.empty()) break;
+                //temp非平方时,在temp的所有零点上为0的R约化后也可以不为0
+                if(!R.empty() && !(n>1 && rsd(temp,R).second.empty())) break;
             } 
 
         // std::cout<<"i="<<i<<std::endl;
@@ -362,6 +364,9 @@ namespace clpoly{
             for(auto c=T.rbegin()+1;c<T.rend();c++)
                 ft1=prem(ft1,*c,get_first_var(*c));
 
+            //f在T的所有零点上为0
+            if(degree(ft1,x)>=get_first_deg(T[n-1])) return {{T},{}};
+
             auto ft2=pquo(T[n-1],ft1,x);
             // std::cout<<"ft1="<<ft1<<std::endl;
             // std::cout<<"ft2="<<ft2<<std::endl;
@@ -376,8 +381,6 @@ namespace clpoly{
         else
         {
             // std::cout<<"=0"<<std::endl;
-            auto temp=T;
-            temp.pop_back();
             auto L=rsd(temp,Rj);
             std::pair<
             std::vector<std::vector<polynomial_<Tc,lex_<custom_var_order>>>>,
-- 
2.43.0


From 0887abd60856615f69a517046d969fe293802ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:53 +0000
Subject: [PATCH 28/38] fix: RCtoSqrfree left multiple roots in the first
 polynomial of the chain

---
 clpoly/charset.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clpoly/charset.hh b/clpoly/charset.hh
index 14a6ffd..4ca0140 100644
--- a/clpoly/charset.hh
+++ b/clpoly/charset.hh
@@ -532,6 +532,8 @@ namespace clpoly{
         if(k==0)
         {
             TT.push_back(T);
+            if(discriminant(T[0],get_first_var(T[0])).empty())
+                TT.back()[0]=sqrfree(T[0]);
             return TT;
         }
 
-- 
2.43.0


From d89763d278dcdb31306fe99d13389384ee0cc621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:56 +0000
Subject: [PATCH 29/38] fix: p*0 lost the polynomial's monomial order

---
 clpoly/polynomial_.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clpoly/polynomial_.hh b/clpoly/polynomial_.hh
index 02cc9d9..31ba49b 100644
--- a/clpoly/polynomial_.hh
+++ b/clpoly/polynomial_.hh
@@ -229,7 +229,10 @@ namespace clpoly{
     polynomial_<Tc,comp> operator* (polynomial_<Tc,comp>  O,Tc c)
     {
         if (!c)
-            return polynomial_<Tc,comp>();
+        {
+            O.clear(); // 零多项式也要带上多项式的单项序
+            return O;
+        }
         for (auto & i:O)
             i.second*=c;
         O.normalization();
-- 
2.43.0


From ffc02a204085719b3e4cdfc2e2be6e07c82788c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:56 +0000
Subject: [PATCH 30/38] fix: m-i and p-i were off by sign for i=INT64_MIN

---
 clpoly/polynomial_.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial_.hh b/clpoly/polynomial_.hh
index 31ba49b..e3f14d2 100644
--- a/clpoly/polynomial_.hh
+++ b/clpoly/polynomial_.hh
@@ -108,7 +108,7 @@ namespace clpoly{
     
     inline polynomial_ZZ operator-(monomial  m,int64_t i)
     {
-        return polynomial_ZZ({{std::move(m),1},{{},-i}});
+        return polynomial_ZZ({{std::move(m),1},{{},-ZZ(i)}});
     }
 
     inline polynomial_ZZ operator+(int64_t i,monomial  m)
@@ -162,7 +162,7 @@ namespace clpoly{
     template<class Tc>
     polynomial_<Tc> operator- (polynomial_<Tc> p,int64_t m)
     {
-        return p+Tc(-m);
+        return p+(-Tc(m)); // -m 在 m=INT64_MIN 时溢出
     }
     template<class Tc>
     polynomial_<Tc> operator- (int64_t m, const polynomial_<Tc> &  p)
-- 
2.43.0


From caf785d28b6eb9ffe01c9b9922565bea54372145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:04 +0000
Subject: [PATCH 31/38] fix: leadcoeff of a constant was zero in lexicographic
 orders

---
 clpoly/polynomial.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clpoly/polynomial.hh b/clpoly/polynomial.hh
index 8f54bf9..3f29e58 100644
--- a/clpoly/polynomial.hh
+++ b/clpoly/polynomial.hh
@@ -242,6 +242,8 @@ namespace clpoly{
         polynomial_<ZZ,lex_<var_order>>  lc(F_.comp_ptr());
         auto v=get_first_var(F_);
         int64_t deg=get_first_deg(F_);
+        if (deg==0)
+            return F_; // 常数的首项系数是它自己
         basic_monomial<lex_<var_order>> m(F_.comp_ptr());
         for (auto &i:F_)
         {
-- 
2.43.0


From 738d983d2ab71691a527fbda752b37575a8d7f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:27 +0000
Subject: [PATCH 32/38] fix: an interrupted assignment of a rational left
 neither the old nor the new value, so an interrupted refinement moved a root

---
 clpoly/number/QQ.hh | 2 +-
 clpoly/realroot.cc  | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/clpoly/number/QQ.hh b/clpoly/number/QQ.hh
index d13e018..7763e43 100644
--- a/clpoly/number/QQ.hh
+++ b/clpoly/number/QQ.hh
@@ -57,7 +57,7 @@ public:
 
     // ---- assignment ----
     QQ& operator=(const QQ& o) {
-        if (this != &o) { _num = o._num; _den = o._den; }
+        if (this != &o) { ZZ d(o._den); _num = o._num; _den = std::move(d); } // 中途内存不足时保持原值
         return *this;
     }
     QQ& operator=(QQ&& o) noexcept {
diff --git a/clpoly/realroot.cc b/clpoly/realroot.cc
index 5f4e78a..9e1e403 100644
--- a/clpoly/realroot.cc
+++ b/clpoly/realroot.cc
@@ -584,7 +584,9 @@ namespace clpoly{
         QQ left_ass=assign<QQ,ZZ,QQ>(r->poly(),r->left());
         if (mid_ass==0)
         {
-            r->left()=r->right()=mid;
+            QQ l(mid);
+            r->right()=mid;
+            r->left()=std::move(l);
             return void();
         }
         if (rig_ass==0)
@@ -717,7 +719,9 @@ namespace clpoly{
         
         if (assign<QQ,ZZ,QQ>(r->poly(),q)==0)
         {
-            r->left()=r->right()=q;
+            QQ l(q);
+            r->right()=q;
+            r->left()=std::move(l);
             return 0;
         }
         _uroot_check(r,q);
-- 
2.43.0


From 8353a89fd3714f2622eb1e97c45fadb68c0d37f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:43 +0000
Subject: [PATCH 33/38] fix: a modular gcd that stabilised too early lost its
 remainder and the search never ended

---
 clpoly/polynomial_gcd.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index 4f819bc..cf7901e 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -447,7 +447,9 @@ namespace clpoly{
                         return cont_gcd;
                     }
                 }
-                swap(tmp_Pout_.data(),Pout_.data());
+                // 试除失败时 tmp_Pout_ 已是除去 content 的候选, 不能作为 CRT 余数
+                else
+                    swap(tmp_Pout_.data(),Pout_.data());
                        
             }
             prime = prev_prime_64(prime);
-- 
2.43.0


From b4c36cd4d57bbe1d96f40bf1f0ba5901159908c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:39 +0000
Subject: [PATCH 34/38] fix: the univariate modular gcd likewise lost its
 remainder when it stabilised too early

---
 clpoly/polynomial_gcd.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clpoly/polynomial_gcd.cc b/clpoly/polynomial_gcd.cc
index 90ff0fb..8e7bc6f 100644
--- a/clpoly/polynomial_gcd.cc
+++ b/clpoly/polynomial_gcd.cc
@@ -322,7 +322,9 @@ namespace clpoly{
                         return {{0,cont_gcd}};
                     }
                 }
-                std::swap(tmp_Pout_.data(),Pout_.data());
+                // 试除失败时 tmp_Pout_ 已是除去 content 的候选, 不能作为 CRT 余数
+                else
+                    std::swap(tmp_Pout_.data(),Pout_.data());
                        
             }
             prime = prev_prime_64(prime);
-- 
2.43.0


From 9dadae46073c275427d629da27705024e0a91db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:43 +0000
Subject: [PATCH 35/38] fix: random_polynomial never returned for the
 coefficient range [0,0]

---
 clpoly/random.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clpoly/random.hh b/clpoly/random.hh
index 6441d40..3667ec9 100644
--- a/clpoly/random.hh
+++ b/clpoly/random.hh
@@ -131,6 +131,7 @@ namespace clpoly{
     polynomial_<Tc> random_polynomial(const std::vector<variable> & v,uint64_t deg,uint64_t len,std::pair<int,int>  coeff,bool is_add_num=false)
     {
         if (coeff.first > coeff.second) std::swap(coeff.first,coeff.second);
+        if (coeff.first == 0 && coeff.second == 0) return polynomial_<Tc>(); // no non-zero coefficient to draw
         uint64_t n = v.size();
         uint64_t total = detail::monomial_count_upto(n, deg);
         uint64_t hi    = detail::monomial_count_exact(n, deg); // degree == deg
-- 
2.43.0


From 22c4a43b7c86108e542a96af6d418169f5811720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:57 +0000
Subject: [PATCH 36/38] fix: dividing by zero modulo a prime ended the process
 with SIGFPE instead of an exception

---
 clpoly/number.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clpoly/number.hh b/clpoly/number.hh
index 8b7c852..bda6062 100644
--- a/clpoly/number.hh
+++ b/clpoly/number.hh
@@ -71,7 +71,8 @@ namespace clpoly{
     // ---- Zp ----
     inline uint64_t inv_prime(uint64_t _i, uint64_t _p)
     {
-        assert(_p != 0 && _i != 0);
+        assert(_p != 0);
+        if (_i == 0) throw std::domain_error("Zp: division by zero");
         uint64_t a = _p, b = _i, c;
         uint64_t s1 = 0, s2 = 1, s3;
         while ((c = a % b))
-- 
2.43.0


From 7d395f4b455e3d9868eb604679eee04f3358061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:18 +0000
Subject: [PATCH 37/38] fix: graph::add_edge read an edge's end point after
 adding the other one moved it

---
 clpoly/associatedgraph.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clpoly/associatedgraph.hh b/clpoly/associatedgraph.hh
index 676fe68..2b639da 100644
--- a/clpoly/associatedgraph.hh
+++ b/clpoly/associatedgraph.hh
@@ -73,6 +73,8 @@ namespace clpoly{
             void add_edge(const node_type &a,const node_type &b,bool directed=false)
             {
                 uint64_t na,nb;
+                // b may refer to a node of this graph, which adding a can move: look it up first
+                auto search_b=this->__mnode.find(b);
                 auto search=this->__mnode.find(a);
                 if (search==this->__mnode.end())
                 {
@@ -82,7 +84,9 @@ namespace clpoly{
                 else{
                     na=search->second;
                 }
-                search=this->__mnode.find(b);
+                search=search_b;
+                if (search==this->__mnode.end())
+                    search=this->__mnode.find(b);
                 if (search==this->__mnode.end())
                 {
                     this->add_node(b);
-- 
2.43.0


From 42c082076e2b10189c882ed669b3fe9da941a21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:31 +0000
Subject: [PATCH 38/38] fix: a node or edge that ran out of memory left the
 graph contradicting itself

---
 clpoly/associatedgraph.hh | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/clpoly/associatedgraph.hh b/clpoly/associatedgraph.hh
index 2b639da..a1df889 100644
--- a/clpoly/associatedgraph.hh
+++ b/clpoly/associatedgraph.hh
@@ -64,9 +64,21 @@ namespace clpoly{
                 auto search=this->__mnode.find(c);
                 if (search==this->__mnode.end())
                 {
-                    this->__mnode[c]=this->__nodes.size();
-                    this->__nodes.push_back(std::move(c));
-                    this->__adjacency_list.push_back({});
+                    // the node becomes visible only once nothing can fail any more
+                    auto n=this->__nodes.size();
+                    this->__adjacency_list.resize(n+1);
+                    try
+                    {
+                        search=this->__mnode.emplace(c,n).first;
+                        this->__nodes.push_back(std::move(c));
+                    }
+                    catch(...)
+                    {
+                        if (search!=this->__mnode.end())
+                            this->__mnode.erase(search);
+                        this->__adjacency_list.resize(n);
+                        throw;
+                    }
                 }
             }
 
@@ -95,11 +107,7 @@ namespace clpoly{
                 else{
                     nb=search->second;
                 }
-                this->__adjacency_list[na].insert(nb);
-                if (!directed)
-                {
-                    this->__adjacency_list[nb].insert(na);
-                }
+                this->add_edge_index(na,nb,directed);
             }
             void add_edge_index(uint64_t na,uint64_t nb,bool directed=false)
             {
@@ -109,10 +117,20 @@ namespace clpoly{
             void add_edge(uint64_t na,uint64_t nb,bool directed=false)
             {
                 assert(na<__nodes.size() && nb<__nodes.size());
-                this->__adjacency_list[na].insert(nb);
+                auto added=this->__adjacency_list[na].insert(nb);
                 if (!directed)
                 {
-                    this->__adjacency_list[nb].insert(na);
+                    try
+                    {
+                        this->__adjacency_list[nb].insert(na);
+                    }
+                    catch(...)
+                    {
+                        // no half edges
+                        if (added.second)
+                            this->__adjacency_list[na].erase(added.first);
+                        throw;
+                    }
                 }
             }
 
-- 
2.43.0

