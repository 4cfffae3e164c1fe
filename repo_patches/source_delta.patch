From d5c025b1d723e8e250fc31631073566c589fb39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:00 +0000
Subject: [PATCH 01/43] fix: share tree branches correctly for any number of
 ranks

share_nodes_ emulated the missing ranks of the hypercube but forwarded its
own buffers instead of the received ones and widened the key bounds without
data, so that with 3, 5, 6, 7... ranks the tree was incomplete or invalid.
Gather the branches of all the ranks when the size is not a power of two.
---
 include/tree_topology/tree_topology.h | 182 +++++++-------------------
 1 file changed, 48 insertions(+), 134 deletions(-)

diff --git a/include/tree_topology/tree_topology.h b/include/tree_topology/tree_topology.h
index bb5b266..00a0f8e 100644
--- a/include/tree_topology/tree_topology.h
+++ b/include/tree_topology/tree_topology.h
@@ -1559,27 +1559,59 @@ private:
     // Do the hypercube communciation to share the branches
     // Add them in the tree in the same time
     int dim = log2(size);
-    bool non_power_2 = false;
-    // In case of non power two, consider dim + 1
-    // In this case all rank also take size + 1 rank
-    int ghosts_rank = -1;
-    if(1 << dim < size) {
-      non_power_2 = true;
-      dim++;
-      ghosts_rank = rank + (1 << (dim - 1));
-      if(ghosts_rank > (1 << dim) - 1)
-        ghosts_rank = rank;
-    }
     std::vector<share_entity_t> ghosts_entities, r_ghosts_entities;
     std::vector<share_node_t> ghosts_nodes, r_ghosts_nodes;
     const int sz_entities = sizeof(share_entity_t);
     const int sz_nodes = sizeof(share_node_t);
     int s_ge_size, s_gn_size;
 
-    // For non power of 2 cases, store the array of entities
-    // of the ghost rank represented.
-    std::vector<share_entity_t> r_ghosts_entities_n2;
-    std::vector<share_node_t> r_ghosts_nodes_n2;
+    // Insert the received nodes/entities in the tree
+    auto insert_ghosts = [&]() {
+      for(size_t j = 0; j < r_ghosts_entities.size(); ++j) {
+        if(r_ghosts_entities[j].owner != rank) {
+          shared_entities_.push_back(r_ghosts_entities[j].entity);
+          load_shared_entity_(shared_entities_.size() - 1,
+            r_ghosts_entities[j].key, r_ghosts_entities[j].owner);
+        }
+      }
+      for(size_t j = 0; j < r_ghosts_nodes.size(); ++j) {
+        if(r_ghosts_nodes[j].owner != rank) {
+          shared_nodes_.push_back(r_ghosts_nodes[j].node);
+          load_shared_node_(shared_nodes_.size() - 1, r_ghosts_nodes[j].key,
+            r_ghosts_nodes[j].owner);
+        }
+      }
+      cofm_update_(root(), f_cc);
+    };
+
+    // The hypercube only exists for a power of two number of ranks. In the
+    // other cases gather the nodes/entities of all the ranks at once.
+    if(1 << dim < size) {
+      find_nodes_(ghosts_nodes, ghosts_entities);
+      s_ge_size = ghosts_entities.size() * sz_entities;
+      s_gn_size = ghosts_nodes.size() * sz_nodes;
+      std::vector<int> count(size), offset(size, 0);
+      MPI_Allgather(
+        &s_ge_size, 1, MPI_INT, &count[0], 1, MPI_INT, MPI_COMM_WORLD);
+      for(int i = 1; i < size; ++i)
+        offset[i] = offset[i - 1] + count[i - 1];
+      r_ghosts_entities.resize((offset.back() + count.back()) / sz_entities);
+      MPI_Allgatherv(ghosts_entities.data(), s_ge_size, MPI_BYTE,
+        r_ghosts_entities.data(), &count[0], &offset[0], MPI_BYTE,
+        MPI_COMM_WORLD);
+      MPI_Allgather(
+        &s_gn_size, 1, MPI_INT, &count[0], 1, MPI_INT, MPI_COMM_WORLD);
+      for(int i = 1; i < size; ++i)
+        offset[i] = offset[i - 1] + count[i - 1];
+      r_ghosts_nodes.resize((offset.back() + count.back()) / sz_nodes);
+      MPI_Allgatherv(ghosts_nodes.data(), s_gn_size, MPI_BYTE,
+        r_ghosts_nodes.data(), &count[0], &offset[0], MPI_BYTE,
+        MPI_COMM_WORLD);
+      lobound_ = key_t::min();
+      hibound_ = key_t::max();
+      insert_ghosts();
+      dim = 0;
+    }
 
     // Communication for all channels
     for(int i = 0; i < dim; ++i) {
@@ -1615,125 +1647,7 @@ private:
         MPI_Sendrecv(&ghosts_nodes[0], s_gn_size, MPI_BYTE, partner, 0,
           &r_ghosts_nodes[0], s_rkeys.first[1], MPI_BYTE, partner, 0,
           MPI_COMM_WORLD, &status);
-        // Insert the nodes/entities in the tree
-        for(size_t j = 0; j < r_ghosts_entities.size(); ++j) {
-          if(r_ghosts_entities[j].owner != rank) {
-            shared_entities_.push_back(r_ghosts_entities[j].entity);
-            load_shared_entity_(shared_entities_.size() - 1,
-              r_ghosts_entities[j].key, r_ghosts_entities[j].owner);
-          }
-        }
-        for(size_t j = 0; j < r_ghosts_nodes.size(); ++j) {
-          if(r_ghosts_nodes[j].owner != rank) {
-            shared_nodes_.push_back(r_ghosts_nodes[j].node);
-            load_shared_node_(shared_nodes_.size() - 1, r_ghosts_nodes[j].key,
-              r_ghosts_nodes[j].owner);
-          }
-        }
-        cofm_update_(root(), f_cc);
-        // Handle the non power two cases
-      } // if
-      if(non_power_2) {
-        // If this ghosts_rank exists for a real rank don't use it
-        if(rank != ghosts_rank && ghosts_rank <= size - 1)
-          continue;
-        int ghosts_partner = ghosts_rank ^ (1 << i);
-        partner = ghosts_partner;
-        // Case already handled before
-        if(ghosts_rank == rank && partner < size)
-          continue;
-        if(ghosts_rank > size && partner > size)
-          continue;
-        if(partner >= size) {
-          partner -= (1 << (dim - 1));
-        }
-        if(partner == rank) {
-          // Add into each buffer, no communication needed
-          ghosts_entities.clear();
-          ghosts_nodes.clear();
-          find_nodes_(ghosts_nodes, ghosts_entities);
-          r_ghosts_entities_n2.insert(r_ghosts_entities_n2.end(),
-            ghosts_entities.begin(), ghosts_entities.end());
-          r_ghosts_nodes_n2.insert(
-            r_ghosts_nodes_n2.end(), ghosts_nodes.begin(), ghosts_nodes.end());
-          for(size_t j = 0; j < r_ghosts_entities_n2.size(); ++j) {
-            if(r_ghosts_entities_n2[j].owner != rank) {
-              shared_entities_.push_back(r_ghosts_entities_n2[j].entity);
-              load_shared_entity_(shared_entities_.size() - 1,
-                r_ghosts_entities_n2[j].key, r_ghosts_entities_n2[j].owner);
-            }
-          }
-          for(size_t j = 0; j < r_ghosts_nodes_n2.size(); ++j) {
-            if(r_ghosts_nodes_n2[j].owner != rank) {
-              shared_nodes_.push_back(r_ghosts_nodes_n2[j].node);
-              load_shared_node_(shared_nodes_.size() - 1,
-                r_ghosts_nodes_n2[j].key, r_ghosts_nodes_n2[j].owner);
-            }
-          }
-          cofm_update_(root(), f_cc);
-        }
-        else {
-          if(ghosts_rank == rank) {
-            ghosts_entities.clear();
-            ghosts_nodes.clear();
-            find_nodes_(ghosts_nodes, ghosts_entities);
-          }
-          else {
-            ghosts_entities = r_ghosts_entities_n2;
-            ghosts_nodes = r_ghosts_nodes_n2;
-          }
-#ifdef _DEBUG_TREE_
-          assert(partner >= 0 && partner != rank && partner < size);
-#endif
-          // Send lobound and hibound and bytes for nodes/entities
-          s_ge_size = ghosts_entities.size() * sz_entities;
-          s_gn_size = ghosts_nodes.size() * sz_nodes;
-          std::pair<int[2], key_t[2]> s_keys;
-          s_keys.first[0] = s_ge_size;
-          s_keys.first[1] = s_gn_size;
-          s_keys.second[0] = lobound_;
-          s_keys.second[1] = hibound_;
-          std::pair<int[2], key_t[2]> s_rkeys;
-          MPI_Sendrecv(&s_keys, sizeof(std::pair<int, key_t[2]>), MPI_BYTE,
-            partner, 0, &s_rkeys, sizeof(std::pair<int, key_t[2]>), MPI_BYTE,
-            partner, 0, MPI_COMM_WORLD, &status);
-          lobound_ = std::min(s_rkeys.second[0], lobound_);
-          hibound_ = std::max(s_rkeys.second[1], hibound_);
-          // Send entities
-          r_ghosts_entities.resize(s_rkeys.first[0] / sz_entities);
-          MPI_Sendrecv(&ghosts_entities[0], s_ge_size, MPI_BYTE, partner, 0,
-            &r_ghosts_entities[0], s_rkeys.first[0], MPI_BYTE, partner, 0,
-            MPI_COMM_WORLD, &status);
-          // Send nodes
-          r_ghosts_nodes.resize(s_rkeys.first[1] / sz_nodes);
-          MPI_Sendrecv(&ghosts_nodes[0], s_gn_size, MPI_BYTE, partner, 0,
-            &r_ghosts_nodes[0], s_rkeys.first[1], MPI_BYTE, partner, 0,
-            MPI_COMM_WORLD, &status);
-          if(rank == ghosts_rank) {
-            // Insert the nodes/entities in the tree
-            for(size_t j = 0; j < r_ghosts_entities.size(); ++j) {
-              if(r_ghosts_entities[j].owner != rank) {
-                shared_entities_.push_back(r_ghosts_entities[j].entity);
-                load_shared_entity_(shared_entities_.size() - 1,
-                  r_ghosts_entities[j].key, r_ghosts_entities[j].owner);
-              }
-            }
-            for(size_t j = 0; j < r_ghosts_nodes.size(); ++j) {
-              if(r_ghosts_nodes[j].owner != rank) {
-                shared_nodes_.push_back(r_ghosts_nodes[j].node);
-                load_shared_node_(shared_nodes_.size() - 1,
-                  r_ghosts_nodes[j].key, r_ghosts_nodes[j].owner);
-              }
-            }
-            cofm_update_(root(), f_cc);
-          }
-          else {
-            r_ghosts_entities_n2.insert(r_ghosts_entities_n2.end(),
-              ghosts_entities.begin(), ghosts_entities.end());
-            r_ghosts_nodes_n2.insert(r_ghosts_nodes_n2.end(),
-              ghosts_nodes.begin(), ghosts_nodes.end());
-          }
-        } // if
+        insert_ghosts();
       } // if
     } // for
 #ifdef _DEBUG_TREE_
-- 
2.43.0


From 4efc8a1ea67914ee8811c85840df29062a17c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 02/43] fix: give Morton keys the requested depth

The value was started from the full-depth minimum whatever the depth asked
for, so the key of a shallower cell was neither at that depth nor an
ancestor of the full key.
---
 include/tree_topology/filling_curve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index fc26638..becf4a0 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -503,7 +503,7 @@ public:
   morton_curve_u(const std::array<point_t, 2> & range,
     const point_t & p,
     const size_t depth) {
-    *this = filling_curve<DIM, T, morton_curve_u>::min();
+    value_ = int_t(1) << depth * dimension;
     assert(depth <= max_depth_);
     std::array<int_t, dimension> coords;
     const int_t max_val = (int_t(1) << (bits_ - 1) / dimension)-1;
-- 
2.43.0


From fb7a1c0271229471e691c1ceb3dde91e6013e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 03/43] fix: rotate the 3D Hilbert cells the right way

The key used the rotation meant for the inverse, so that consecutive keys
were not neighbours, and the inverse lost a bit in its exclusive or.
---
 include/tree_topology/filling_curve.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index becf4a0..03ed41b 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -295,7 +295,7 @@ public:
       }
       if constexpr (dimension == 3) {
         value_ += s * s * s * ((7 * bits[0]) ^ (3 * bits[1]) ^ bits[2]);
-        rotation3d(s, coords, bits);
+        unrotation3d(s, coords, bits);
       }
     }
     // Then truncate the key to the depth
@@ -313,7 +313,7 @@ public:
       std::array<int_t, dimension> bits = {};
       if constexpr (dimension == 3) {
         bits[0] = (key & 4) > 0;
-        bits[1] = ((key & 2) ^ bits[0]) > 0;
+        bits[1] = ((key & 2) > 0) ^ bits[0];
         bits[2] = ((key & 1) ^ bits[0] ^ bits[1]) > 0;
         rotation3d(mask, coords, bits);
         coords[0] += bits[0] * mask;
-- 
2.43.0


From 4325dbb6e0c87c9e0282292f66a1ee1986066852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 04/43] fix: keep every bit of the 1D Hilbert key and decode it

---
 include/tree_topology/filling_curve.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index 03ed41b..eb13050 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -278,8 +278,8 @@ public:
     }
     // Handle 1D case
     if(dimension == 1) {
-      assert(value_ & 1UL << max_depth_);
-      value_ |= coords[0] >> dimension;
+      assert(value_ & int_t(1) << max_depth_);
+      value_ |= coords[0];
       value_ >>= (max_depth_ - depth);
       return;
     }
@@ -320,6 +320,9 @@ public:
         coords[1] += bits[1] * mask;
         coords[2] += bits[2] * mask;
       }
+      if constexpr (dimension == 1) {
+        coords[0] += (key & 1) * mask;
+      }
       if constexpr (dimension == 2) {
         bits[0] = (key & 2) > 0;
         bits[1] = ((key & 1) ^ bits[0]) > 0;
-- 
2.43.0


From e66130f986d85443a0159ff2d04bd7986550f448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 05/43] fix: conflict_depth starts at the maximum depth of the
 key

---
 include/tree_topology/filling_curve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index eb13050..aab453e 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -106,7 +106,7 @@ public:
   }
   //! Search for the depth were two keys are in conflict
   int conflict_depth(filling_curve key_a, filling_curve key_b) {
-    int conflict = max_depth;
+    int conflict = max_depth_;
     while(key_a != key_b) {
       key_a.pop();
       key_b.pop();
-- 
2.43.0


From ea6f5ce6ea4327f06ef50577fc340909c32f9cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:28 +0000
Subject: [PATCH 06/43] fix: a new hashtable holds no elements

---
 include/tree_topology/hashtable.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tree_topology/hashtable.h b/include/tree_topology/hashtable.h
index 98e1334..ed4e157 100644
--- a/include/tree_topology/hashtable.h
+++ b/include/tree_topology/hashtable.h
@@ -36,6 +36,7 @@ public:
   //! @brief Creation of the hashtable: no collisions
   hashtable() {
     collision_ = 0;
+    nelement_ = 0;
     ht_.resize(hash_size_);
   }
 
-- 
2.43.0


From 83f35534540ec7c3c2fd9d73613f325d0d49f898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:28 +0000
Subject: [PATCH 07/43] fix: adding a tensor to itself doubles it

---
 include/tensor.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/tensor.h b/include/tensor.h
index 15921b7..8a57446 100644
--- a/include/tensor.h
+++ b/include/tensor.h
@@ -938,11 +938,9 @@ struct tensor_u<T, ST, D, Ds...> {
 
 #define def_operator(op)                                                       \
   tensor_u & operator op(tensor_u const & rhs) {                               \
-    if(this != &rhs) {                                                         \
-      for(size_t i{0}; i < size(); i++) {                                      \
-        data_[i] op rhs[i];                                                    \
-      } /* for */                                                              \
-    } /* if */                                                                 \
+    for(size_t i{0}; i < size(); i++) {                                        \
+      data_[i] op rhs[i];                                                      \
+    } /* for */                                                                \
                                                                                \
     return *this;                                                              \
   }
-- 
2.43.0


From a0061b15e6c14fc85bd9af4a8eda094d5225ef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 08/43] fix: normalization of the quintic spline kernel in
 three dimensions

The kernel with support 3 integrates to 120 pi (in units of (h/3)^3), so its
normalization is 27/(120 pi); 81/(359 pi) leaves 0.28% of excess mass.
---
 include/physics/kernels.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/physics/kernels.h b/include/physics/kernels.h
index 32ac0ad..ef5aca0 100644
--- a/include/physics/kernels.h
+++ b/include/physics/kernels.h
@@ -39,7 +39,7 @@ namespace kernels {
 // h depends of the dimension and is added in the kernel
 const double cubic_spline_sigma[3] = {4. / 3., 40. / (7. * M_PI), 8. / M_PI};
 const double quintic_spline_sigma[3] = {
-  1. / 40., 63. / (478. * M_PI), 81. / (359. * M_PI)};
+  1. / 40., 63. / (478. * M_PI), 9. / (40. * M_PI)};
 const double wendland_c2_sigma[3] = {1.25, 7. / M_PI, 21. / (2. * M_PI)};
 const double wendland_c4_sigma[3] = {1.5, 9. / M_PI, 495. / (32. * M_PI)};
 const double wendland_c6_sigma[3] = {
-- 
2.43.0


From a60da6bf295418024921815785655a6901417ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 09/43] fix: report malformed parameter values instead of
 ignoring them

---
 include/params.h | 84 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 62 insertions(+), 22 deletions(-)

diff --git a/include/params.h b/include/params.h
index f78b33c..a1c8355 100644
--- a/include/params.h
+++ b/include/params.h
@@ -75,6 +75,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <string>
+#include <type_traits>
 
 #ifndef PARAMS_H
 #define PARAMS_H
@@ -100,18 +101,20 @@
 #define READ_BOOLEAN_PARAM(PNAME)                                              \
   if(param_name == QUOTE(PNAME)) {                                             \
     (_##PNAME) = lparam_value;                                                 \
+    malformed_value = not is_boolean;                                          \
     unknown_param = false;                                                     \
   }
 
 #define READ_NUMERIC_PARAM(PNAME)                                              \
   if(param_name == QUOTE(PNAME)) {                                             \
-    iss >> (_##PNAME);                                                         \
+    malformed_value = not read_number(str_value, (_##PNAME));                  \
     unknown_param = false;                                                     \
   }
 
 #define READ_STRING_PARAM(PNAME)                                               \
   if(param_name == QUOTE(PNAME)) {                                             \
-    strcpy(_##PNAME, str_value.c_str());                                       \
+    malformed_value = (str_value.length() >= STRING_MAXLEN);                   \
+    strncpy(_##PNAME, str_value.c_str(), STRING_MAXLEN - 1);                   \
     unknown_param = false;                                                     \
   }
 
@@ -789,13 +792,30 @@ DECLARE_PARAM(double, airfoil_attack_angle, 0.0)
 std::string
 trim(const std::string & str) {
   using namespace std;
-  const size_t strBegin = str.find_first_not_of(" \t");
+  const size_t strBegin = str.find_first_not_of(" \t\r");
   if(strBegin == string::npos)
     return "";
-  const size_t strEnd = str.find_last_not_of(" \t");
+  const size_t strEnd = str.find_last_not_of(" \t\r");
   return str.substr(strBegin, strEnd - strBegin + 1);
 }
 
+/**
+ * @brief Reads a number which must take up the whole string
+ * @return whether the string is a number which fits the type
+ */
+template<typename T>
+bool
+read_number(const std::string & str, T & value) {
+  std::istringstream iss(str);
+  T number;
+  if(not(iss >> number) or iss.peek() != std::istringstream::traits_type::eof())
+    return false;
+  if(std::is_unsigned<T>::value and str.find('-') != std::string::npos)
+    return false;
+  value = number;
+  return true;
+}
+
 /**
  * @brief Sets a global parameter param_name to the value, given by its
  *        string representation param_value
@@ -811,24 +831,38 @@ set_param(const std::string & param_name, const std::string & param_value) {
 
   using namespace std;
   bool unknown_param = true;
-
-  // strip trailing comments
-  size_t i2 = param_value.find("#");
-  string str_value;
-  if(i2 != string::npos)
-    str_value = trim(param_value.substr(0, i2));
-  else
-    str_value = param_value;
-
-  // remove (single or double) quotes
-  if(str_value[0] == '\'' or str_value[0] == '\"')
-    str_value = str_value.substr(1, str_value.length() - 2);
-  istringstream iss(str_value);
+  bool malformed_value = false;
+
+  // strip trailing comments; '#' within a quoted string is part of the string
+  string str_value = param_value;
+  const char quote = param_value[0];
+  if(quote == '\'' or quote == '\"') {
+    const size_t i2 = param_value.find(quote, 1);
+    const string rest =
+      (i2 == string::npos) ? "" : trim(param_value.substr(i2 + 1));
+    if(i2 == string::npos or (rest.length() > 0 and rest[0] != '#')) {
+      log_one(error) << "ERROR: unbalanced quotes in parameter " << param_name
+                     << endl;
+      exit(2);
+    }
+    // remove (single or double) quotes
+    str_value = param_value.substr(1, i2 - 1);
+  }
+  else {
+    const size_t i2 = param_value.find("#");
+    if(i2 != string::npos)
+      str_value = trim(param_value.substr(0, i2));
+    if(str_value.length() == 0) {
+      log_one(error) << "ERROR: no value for parameter " << param_name << endl;
+      exit(2);
+    }
+  }
 
   // for boolean parameters
-  bool lparam_value =
-    (str_value == "yes" or str_value == "'yes'" or str_value == "\"yes\"" or
-      str_value == "true" or str_value == "'true'" or str_value == "\"true\"");
+  const bool lparam_value =
+    boost::iequals(str_value, "yes") or boost::iequals(str_value, "true");
+  const bool is_boolean = lparam_value or boost::iequals(str_value, "no") or
+                          boost::iequals(str_value, "false");
   // timestepping and iterations --------------------------------------------
 #ifndef initial_iteration
   READ_NUMERIC_PARAM(initial_iteration)
@@ -915,7 +949,7 @@ set_param(const std::string & param_name, const std::string & param_value) {
       _sph_kernel = sinc_ker;
 
     else {
-      assert(false);
+      malformed_value = true;
     }
 #else
     if(not boost::iequals(str_value, QUOTE(sph_kernel))) {
@@ -1099,7 +1133,7 @@ set_param(const std::string & param_name, const std::string & param_value) {
       _eos_type = eos_no_eos;
 
     else {
-      assert(false);
+      malformed_value = true;
     }
 #else
     if(not boost::iequals(str_value, QUOTE(eos_type))) {
@@ -1371,6 +1405,12 @@ set_param(const std::string & param_name, const std::string & param_value) {
     exit(2);
   }
 
+  if(malformed_value) {
+    log_one(error) << "ERROR: wrong value for parameter " << param_name << ": "
+                   << param_value << endl;
+    exit(2);
+  }
+
   log_one(trace) << param_name << ": " << param_value << endl;
 }
 
-- 
2.43.0


From 7cc001f1531fd25e6b14d8170c25f927d36807a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 10/43] fix: initial_time is a real number

---
 include/params.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/params.h b/include/params.h
index a1c8355..909f362 100644
--- a/include/params.h
+++ b/include/params.h
@@ -169,7 +169,7 @@ DECLARE_PARAM(int64_t, final_iteration, 0)
 #endif
 
 #ifndef initial_time
-DECLARE_PARAM(int64_t, initial_time, 0)
+DECLARE_PARAM(double, initial_time, 0.0)
 #endif
 
 #ifndef final_time
-- 
2.43.0


From c6c82284e8941b7f9ce92c9a7b26a052b7e9b228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 11/43] fix: mpi_alltoallv_p2p delivers the elements for the
 rank itself

---
 mpisph/utils.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpisph/utils.h b/mpisph/utils.h
index 6efa050..2cb7805 100644
--- a/mpisph/utils.h
+++ b/mpisph/utils.h
@@ -207,6 +207,9 @@ mpi_alltoallv_p2p(std::vector<int> & sendcount,
     recvcount[i] *= sizeof(M);
     assert(recvcount[i] >= 0);
   } // for
+  // The elements for this rank need no message
+  std::copy_n(
+    sendbuffer[rank].begin(), recvcount[rank] / sizeof(M), recvbuffer[rank].begin());
   std::vector<MPI_Status> status(size);
   std::vector<MPI_Request> request(size);
   for(int i = 0; i < size; ++i) {
@@ -220,7 +223,7 @@ mpi_alltoallv_p2p(std::vector<int> & sendcount,
       MPI_Recv(&(recvbuffer[i][0]), recvcount[i], MPI_BYTE, i, MPI_ANY_TAG,
         MPI_COMM_WORLD, &status[i]);
     }
-    if(sendcount[i] != 0) {
+    if(sendcount[i] != 0 && rank != i) {
       MPI_Wait(&request[i], &status[i]);
     }
   }
-- 
2.43.0


From 442821399abb6a013ddf4f484574fba9bde129a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 12/43] fix: reduce unsigned 64-bit values as unsigned

---
 mpisph/utils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpisph/utils.h b/mpisph/utils.h
index 2cb7805..92663c7 100644
--- a/mpisph/utils.h
+++ b/mpisph/utils.h
@@ -243,7 +243,7 @@ reduce_min(float & value) {
 
 void
 reduce_min(uint64_t & value) {
-  MPI_Allreduce(MPI_IN_PLACE, &value, 1, MPI_INT64_T, MPI_MIN, MPI_COMM_WORLD);
+  MPI_Allreduce(MPI_IN_PLACE, &value, 1, MPI_UINT64_T, MPI_MIN, MPI_COMM_WORLD);
 }
 
 void
@@ -265,7 +265,7 @@ reduce_sum(float & value) {
 
 void
 reduce_sum(uint64_t & value) {
-  MPI_Allreduce(MPI_IN_PLACE, &value, 1, MPI_INT64_T, MPI_SUM, MPI_COMM_WORLD);
+  MPI_Allreduce(MPI_IN_PLACE, &value, 1, MPI_UINT64_T, MPI_SUM, MPI_COMM_WORLD);
 }
 
 void
@@ -293,7 +293,7 @@ reduce_max(float & value) {
 
 void
 reduce_max(uint64_t & value) {
-  MPI_Allreduce(MPI_IN_PLACE, &value, 1, MPI_INT64_T, MPI_MAX, MPI_COMM_WORLD);
+  MPI_Allreduce(MPI_IN_PLACE, &value, 1, MPI_UINT64_T, MPI_MAX, MPI_COMM_WORLD);
 }
 
 void
-- 
2.43.0


From 92742f4ef53f9d3d14cbe641ca24b5f26271dee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:16 +0000
Subject: [PATCH 13/43] fix: steps shortened for an output neither shorten nor
 lengthen others

---
 include/physics/default_physics.h | 36 ++++++++++---------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 0d5c93b..c2e8452 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -768,55 +768,41 @@ set_adaptive_timestep(std::vector<body> & bodies) {
 
   mpi_utils::reduce_min(dtmin);
 
+  // the step before it was shortened to match an output time
+  if(dt_saved > 0)
+    dt = dt_saved;
+
   if(dtmin < dt)
     dt = std::min(dtmin, dt / 2.0);
 
   if(dtmin > 2.0 * dt)
     dt = dt * 2.0;
 
-  double dt_orig = dt;
+  dt_saved = dt;
   totaltime_next = totaltime + dt;
 
   if(out_screen_dt > 0) {
     // if output to screen by time:
     // match the next screen output time
-    if (totaltime == t_screen_output) {
-      if (dt_saved > 0)
-        dt = dt_saved;
+    if (totaltime == t_screen_output)
       t_screen_output += out_screen_dt;
-    }
-    if (totaltime + dt > t_screen_output - 0.1*out_screen_dt) {
-      dt_saved = dt;
-      totaltime_next = t_screen_output;
-    }
+    totaltime_next = std::min(totaltime_next, t_screen_output);
   }
 
   if(out_scalar_dt > 0) {
     // if output scalar by time:
     // match the next scalar output time
-    if (totaltime == t_scalar_output) {
-      if (dt_saved > 0)
-        dt = dt_saved;
+    if (totaltime == t_scalar_output)
       t_scalar_output += out_scalar_dt;
-    }
-    if (totaltime + dt > t_scalar_output - 0.1*out_scalar_dt) {
-      dt_saved = dt;
-      totaltime_next = std::min(totaltime_next, t_scalar_output);
-    }
+    totaltime_next = std::min(totaltime_next, t_scalar_output);
   }
 
   if(out_h5data_dt > 0) {
     // if output h5data by time:
     // match the next h5data output time
-    if (totaltime == t_h5data_output) {
-      if (dt_saved > 0)
-        dt = dt_saved;
+    if (totaltime == t_h5data_output)
       t_h5data_output += out_h5data_dt;
-    }
-    if (totaltime + dt > t_h5data_output - 0.1*out_h5data_dt) {
-      dt_saved = dt;
-      totaltime_next = std::min(totaltime_next, t_h5data_output);
-    }
+    totaltime_next = std::min(totaltime_next, t_h5data_output);
   }
   dt = totaltime_next - totaltime;
 
-- 
2.43.0


From a55fec03725fb2477bf8c083ff8399c9201a2ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:56 +0000
Subject: [PATCH 14/43] fix: an output by time fires at its times only, also at
 the start and with fixed steps

---
 include/physics/analysis.h        |  6 ++++++
 include/physics/default_physics.h | 34 ++++++++++++++++++++-----------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/include/physics/analysis.h b/include/physics/analysis.h
index bf44530..ad15ed3 100644
--- a/include/physics/analysis.h
+++ b/include/physics/analysis.h
@@ -262,6 +262,8 @@ screen_output(int rank) {
     if (physics::totaltime < physics::t_screen_output) {
       return;
     }
+    physics::t_screen_output =
+      physics::next_output_time(physics::t_screen_output, out_screen_dt);
   }
   else { // output by iteration
     if (out_screen_every <= 0)
@@ -301,6 +303,8 @@ scalar_output(body_system<double, gdimension> & bs, const int rank) {
     if (physics::totaltime < physics::t_scalar_output) {
       return;
     }
+    physics::t_scalar_output =
+      physics::next_output_time(physics::t_scalar_output, param::out_scalar_dt);
   }
   else { // output by iteration
     if (param::out_scalar_every <= 0)
@@ -417,6 +421,8 @@ h5data_output(body_system<double, gdimension> & bs, const int rank) {
     if (totaltime < t_h5data_output) {
       return;
     }
+    t_h5data_output =
+      physics::next_output_time(t_h5data_output, out_h5data_dt);
   }
   else { // output by iteration
     if (out_h5data_every <= 0)
diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index c2e8452..b7efbcf 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -753,6 +753,19 @@ add_short_range_repulsion(body & particle, std::vector<body *> & nbs) {
   particle.setAcceleration(acc_a + acc_r);
 } // add_short_range_repulsion
 
+/**
+ * @brief      First output time after the current time
+ *
+ * @param      t_output  Time of the next output, done or to be done
+ * @param      out_dt    Time between outputs
+ */
+double
+next_output_time(double t_output, const double out_dt) {
+  while(t_output <= totaltime)
+    t_output += out_dt;
+  return t_output;
+}
+
 /**
  * @brief      Reduce adaptive timestep and set its value
  *
@@ -783,26 +796,23 @@ set_adaptive_timestep(std::vector<body> & bodies) {
 
   if(out_screen_dt > 0) {
     // if output to screen by time:
-    // match the next screen output time
-    if (totaltime == t_screen_output)
-      t_screen_output += out_screen_dt;
-    totaltime_next = std::min(totaltime_next, t_screen_output);
+    // match the next screen output time after the current time
+    totaltime_next = std::min(totaltime_next,
+      next_output_time(t_screen_output, out_screen_dt));
   }
 
   if(out_scalar_dt > 0) {
     // if output scalar by time:
-    // match the next scalar output time
-    if (totaltime == t_scalar_output)
-      t_scalar_output += out_scalar_dt;
-    totaltime_next = std::min(totaltime_next, t_scalar_output);
+    // match the next scalar output time after the current time
+    totaltime_next = std::min(totaltime_next,
+      next_output_time(t_scalar_output, out_scalar_dt));
   }
 
   if(out_h5data_dt > 0) {
     // if output h5data by time:
-    // match the next h5data output time
-    if (totaltime == t_h5data_output)
-      t_h5data_output += out_h5data_dt;
-    totaltime_next = std::min(totaltime_next, t_h5data_output);
+    // match the next h5data output time after the current time
+    totaltime_next = std::min(totaltime_next,
+      next_output_time(t_h5data_output, out_h5data_dt));
   }
   dt = totaltime_next - totaltime;
 
-- 
2.43.0


From 46c0d4ae28683a638ee08de2f28416b7df27d11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:13 +0000
Subject: [PATCH 15/43] fix: attributes of a new particle are zero, not what
 the memory held

---
 include/physics/body.h | 56 +++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/physics/body.h b/include/physics/body.h
index 82ab66b..df3f665 100644
--- a/include/physics/body.h
+++ b/include/physics/body.h
@@ -219,36 +219,36 @@ public:
   }
 
 private:
-  point_t velocity_;
-  point_t velocityhalf_;
-  point_t acceleration_;
-  point_t g_acceleration_;
-  double g_potential_;
-  double density_;
-  double pressure_;
-  double entropy_;
-  double electronfraction_;
-  double temperature_;
-  double soundspeed_;
-  double internalenergy_;
-  double totalenergy_;
-  double dudt_;
-  double dedt_;
-  double adiabatic_;
-  double dadt_;
-  double dt_;
-  double alpha_;
-  double divergenceV_;
-  double dDivVdt_;
-  double trigger_;
-  double xi_;
-  double traceSS_;
-  double gradv_;
+  point_t velocity_ = {};
+  point_t velocityhalf_ = {};
+  point_t acceleration_ = {};
+  point_t g_acceleration_ = {};
+  double g_potential_ = 0.;
+  double density_ = 0.;
+  double pressure_ = 0.;
+  double entropy_ = 0.;
+  double electronfraction_ = 0.;
+  double temperature_ = 0.;
+  double soundspeed_ = 0.;
+  double internalenergy_ = 0.;
+  double totalenergy_ = 0.;
+  double dudt_ = 0.;
+  double dedt_ = 0.;
+  double adiabatic_ = 0.;
+  double dadt_ = 0.;
+  double dt_ = 0.;
+  double alpha_ = 0.;
+  double divergenceV_ = 0.;
+  double dDivVdt_ = 0.;
+  double trigger_ = 0.;
+  double xi_ = 0.;
+  double traceSS_ = 0.;
+  double gradv_ = 0.;
   particle_type_t type_;
-  size_t neighbors_;
+  size_t neighbors_ = 0;
   state_t state_;
-  double pressuremin_;
-  double signalspeed_;
+  double pressuremin_ = 0.;
+  double signalspeed_ = 0.;
 }; // class body
 
 #endif // body_h
-- 
2.43.0


From e877227f43299793fdf73be0e33016d1c672e207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:07 +0000
Subject: [PATCH 16/43] fix: diagnostics over all ranks: velocities are
 reduced, N_max is reset

---
 include/diagnostic.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic.h b/include/diagnostic.h
index 924d98b..42cb5ad 100644
--- a/include/diagnostic.h
+++ b/include/diagnostic.h
@@ -46,7 +46,8 @@ double V_min, V_max, V_average;
 void
 compute_neighbors_stats(std::vector<body> & bodies, int64_t totalnbodies) {
 
-  N_min = bodies[0].getNeighbors();
+  N_min = std::numeric_limits<uint64_t>::max();
+  N_max = 0;
   uint64_t N_total = 0;
   for(auto & b : bodies) {
     uint64_t N = b.getNeighbors();
@@ -94,7 +95,7 @@ compute_smoothinglength_stats(std::vector<body> & bodies,
 void
 compute_velocity_stats(std::vector<body> & bodies, int64_t totalnbodies) {
   V_min = std::numeric_limits<double>::max();
-  V_max = std::numeric_limits<double>::min();
+  V_max = 0.;
   V_average = 0.;
   double V_tot = 0.;
   for(auto & b : bodies) {
@@ -103,6 +104,9 @@ compute_velocity_stats(std::vector<body> & bodies, int64_t totalnbodies) {
     V_min = std::min(V, V_min);
     V_tot += V;
   }
+  reduce_sum(V_tot);
+  reduce_min(V_min);
+  reduce_max(V_max);
   V_average = V_tot / totalnbodies;
 }
 
-- 
2.43.0


From b209c1041968bda790053964c20e9470be0da5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:07 +0000
Subject: [PATCH 17/43] fix: neighbour sets do not depend on the shape of the
 tree

---
 include/tree_topology/tree_topology.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tree_topology/tree_topology.h b/include/tree_topology/tree_topology.h
index 00a0f8e..d2fe45e 100644
--- a/include/tree_topology/tree_topology.h
+++ b/include/tree_topology/tree_topology.h
@@ -370,8 +370,10 @@ public:
                 continue;
             }
             for(int k = 0; k < cur_entities.size(); ++k) {
+              // the boxes of the nodes reach half a radius beyond their entities:
+              // only pairs within the mean of the radii are always visited
               element_t extent =
-                std::max(cur_entities[k]->radius(), e->radius());
+                .5 * (cur_entities[k]->radius() + e->radius());
               if(geometry_t::within_distance2(
                    cur_entities[k]->coordinates(), e->coordinates(), extent)) {
                 neighbors[k].push_back(e);
-- 
2.43.0


From e1cec07e28f722c8f3d4cfbfd3c26e5b2aba3f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:07 +0000
Subject: [PATCH 18/43] fix: number of neighbours of the diagnostics is
 recorded

---
 include/physics/default_physics.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index b7efbcf..b60adc6 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -225,6 +225,7 @@ compute_density(body & particle, std::vector<body *> & nbs) {
     assert(false);
   }
   particle.setDensity(rho_a);
+  particle.setNeighbors(n_nb);
 } // compute_density
 
 /**
-- 
2.43.0


From 0bd62dbca0336a75d418b3e46fe4bb8f818de17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:07 +0000
Subject: [PATCH 19/43] fix: signal speed and viscosity parameter use the
 current neighbour values

---
 app/drivers/hydro/main_driver.cc     | 12 ++++++++++--
 app/drivers/newtonian/main_driver.cc | 12 ++++++++++--
 include/physics/default_physics.h    |  1 -
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/app/drivers/hydro/main_driver.cc b/app/drivers/hydro/main_driver.cc
index 5729301..044cf71 100644
--- a/app/drivers/hydro/main_driver.cc
+++ b/app/drivers/hydro/main_driver.cc
@@ -118,14 +118,18 @@ mpi_init_task(const char * parameter_file) {
       bs.apply_in_smoothinglength(physics::compute_density_pressure_soundspeed);
       bs.apply_all(integration::save_velocityhalf);
 
+      // sync density, pressure and sound speed
+      bs.reset_ghosts();
+      bs.apply_in_smoothinglength(physics::compute_signalspeed);
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "computing adaptive viscosity" << std::endl;
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
+        // sync viscosity parameter
+        bs.reset_ghosts();
       }
 
       // compute acceleration
       log_one(trace) << "compute rhs of evolution equations" << std::endl;
-      bs.reset_ghosts();
       bs.apply_in_smoothinglength(physics::compute_acceleration);
       if (physics::iteration < relaxation_steps) {
         log_one(trace) << "add relaxation terms" << std::endl;
@@ -192,14 +196,18 @@ mpi_init_task(const char * parameter_file) {
       log_one(trace) << "compute density pressure cs" << std::endl;
       bs.apply_in_smoothinglength(physics::compute_density_pressure_soundspeed);
 
+      // sync density, pressure and sound speed
+      bs.reset_ghosts();
+      bs.apply_in_smoothinglength(physics::compute_signalspeed);
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "compute adaptive viscosity" << std::endl;
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
+        // sync viscosity parameter
+        bs.reset_ghosts();
       }
 
       // compute acceleration
       log_one(trace) << "leapfrog: kick two (velocity)" << std::endl;
-      bs.reset_ghosts();
       bs.apply_in_smoothinglength(physics::compute_acceleration);
       if(physics::iteration < relaxation_steps) {
         bs.apply_all(physics::add_drag_acceleration);
diff --git a/app/drivers/newtonian/main_driver.cc b/app/drivers/newtonian/main_driver.cc
index c632886..349f214 100644
--- a/app/drivers/newtonian/main_driver.cc
+++ b/app/drivers/newtonian/main_driver.cc
@@ -125,14 +125,18 @@ mpi_init_task(const char * parameter_file) {
       bs.apply_in_smoothinglength(physics::compute_density_pressure_soundspeed);
       bs.apply_all(integration::save_velocityhalf);
 
+      // sync density, pressure and sound speed
+      bs.reset_ghosts();
+      bs.apply_in_smoothinglength(physics::compute_signalspeed);
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "computing adaptive viscosity" << std::endl;
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
+        // sync viscosity parameter
+        bs.reset_ghosts();
       }
 
       // compute acceleration
       log_one(trace) << "compute rhs of evolution equations" << std::endl;
-      bs.reset_ghosts();
       bs.apply_in_smoothinglength(physics::compute_acceleration);
       if(param::enable_fmm){
         log_one(trace) << "compute gravitation" << std::endl;
@@ -207,14 +211,18 @@ mpi_init_task(const char * parameter_file) {
       log_one(trace) << "compute density pressure cs" << std::endl;
       bs.apply_in_smoothinglength(physics::compute_density_pressure_soundspeed);
 
+      // sync density, pressure and sound speed
+      bs.reset_ghosts();
+      bs.apply_in_smoothinglength(physics::compute_signalspeed);
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "computing adaptive viscosity" << std::endl;
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
+        // sync viscosity parameter
+        bs.reset_ghosts();
       }
 
       // compute acceleration
       log_one(trace) << "leapfrog: kick two (velocity)" << std::endl;
-      bs.reset_ghosts();
       bs.apply_in_smoothinglength(physics::compute_acceleration);
       if(param::enable_fmm){
         log_one(trace) << "computing gravitation" << std::endl;
diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index b60adc6..9fd4ab2 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -315,7 +315,6 @@ compute_density_pressure_soundspeed(body & particle,
     recover_internal_energy(particle);
   eos::compute_pressure(particle);
   eos::compute_soundspeed(particle);
-  compute_signalspeed(particle, nbs);
   if (sph_viscosity == visc_cullen)
     compute_divv(particle,nbs);
 }
-- 
2.43.0


From d76aa3e6dcb4790f9a6a1ea297ce7bd7544b4c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:07 +0000
Subject: [PATCH 20/43] fix: work of external forces in the predicted internal
 energy

---
 include/physics/default_physics.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 9fd4ab2..fd5397c 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -173,7 +173,9 @@ recompute_pressure_soundspeed_thermokinetic(body& particle) {
   recover_internal_energy(particle);
   const double uint = particle.getInternalenergy();
   const point_t & v_a = particle.getVelocity();
-  const point_t & a_a = particle.getAcceleration();
+  // external forces exchange kinetic and potential energy only
+  const point_t a_a = particle.getAcceleration() + particle.getGAcceleration()
+                    - external_force::acceleration(particle);
   const double v_dot_a = flecsi::dot(v_a, a_a);
   particle.setInternalenergy(uint + 0.5*dt*(dedt - v_dot_a));
   eos::compute_pressure(particle);
-- 
2.43.0


From 7e1245355bb109f6a2e9bdc5b80a61a173327375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:03 +0000
Subject: [PATCH 21/43] fix: velocity divergence of the viscosity switch uses
 velocity differences

---
 include/physics/default_physics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index fd5397c..033b735 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -291,7 +291,7 @@ compute_divv(body & particle, std::vector<body *> & nbs) {
     const point_t DiWab = sph_kernel_gradient(pos_a - pos_b,h_ab);
     //point_t DiWab = .5*(sph_kernel_gradient(pos_a - pos_b,h_a)   // DEBUG
     //                 +  sph_kernel_gradient(pos_a - pos_b,h_b));
-    div_v += m_b*dot(v_a, DiWab);
+    div_v += m_b*dot(nb->getVelocity() - v_a, DiWab);
   }
   div_v /= particle.getDensity();
 
-- 
2.43.0


From 5a2401b0dfe29c2f91087163f8ff73b79ba250dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 22/43] fix: external_force::select reads the wall directions
 from a destroyed string

---
 include/physics/eforce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/physics/eforce.h b/include/physics/eforce.h
index f8004a2..afc5f71 100644
--- a/include/physics/eforce.h
+++ b/include/physics/eforce.h
@@ -397,8 +397,8 @@ select(const std::string & efstr) {
     else if(boost::iequals(it->substr(0, 6), "walls:")) {
       // parse in which directions to place the walls
       // this can be e.g. "walls:xyz" or "walls:y" etc.
-      const char * cxyz = it->substr(6).c_str();
-      char imx = min(3, (int)it->substr(6).length());
+      const std::string cxyz = it->substr(6);
+      char imx = min(3, (int)cxyz.length());
       for(int i = 0; i < imx; ++i) {
         switch(cxyz[i]) {
           case 'x':
-- 
2.43.0


From c2b93d0e7ebb90dbe241713f60ffefeedf00f66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 23/43] fix: cubic_interp returns zero outside of the tabulated
 range, as documented

---
 include/physics/density_profiles.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/physics/density_profiles.h b/include/physics/density_profiles.h
index 6f89ac2..b772166 100644
--- a/include/physics/density_profiles.h
+++ b/include/physics/density_profiles.h
@@ -317,6 +317,8 @@ cubic_interp(const double x,
   const std::vector<double> & yp) {
   int i2 = get_interval_index(x, xp);
   const int N = xp.size();
+  if(i2 < 0 or i2 == N - 1)
+    return 0.;
   if(i2 == 0)
     i2 = 1;
   if(i2 > N - 3)
-- 
2.43.0


From 8182892ef0fbc19171349dddf9db8ace40e501e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:28 +0000
Subject: [PATCH 24/43] fix: white-dwarf sound speed is sqrt(dP/drho)

---
 include/physics/eos/eos.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/physics/eos/eos.h b/include/physics/eos/eos.h
index 56c5510..8c11135 100644
--- a/include/physics/eos/eos.h
+++ b/include/physics/eos/eos.h
@@ -253,9 +253,8 @@ public:
   soundspeed_given_rhoYe(double rho, double Ye) {
     double x = cbrt(rho*Ye/B_wd_nm);
     double x2 = square(x);
-    double numer = (1. + x2)*(6.*x2 - 3.) + 3. + x2*(2.*x2 - 3.);
-    double denom = (1. + x2)*(6.*x2 + 1.) - 1. + x2*(2.*x2 + 1.);
-    return sqrt(numer/(3.*denom)) * C_LIGHT_CGS;
+    // c_s^2 = (dP/dx)/(drho/dx), with dP/dx = 8 A x^4/sqrt(1 + x^2)
+    return sqrt(8.*A_wd*Ye*x2/(3.*B_wd_nm*sqrt(1. + x2)));
   }
 
   static void
-- 
2.43.0


From 4a0fafb98aa2305bd7d7c715f09510ad05049f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:30 +0000
Subject: [PATCH 25/43] fix: FCC lattice repeats after three layers (ABC), not
 after four

---
 include/lattice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lattice.h b/include/lattice.h
index 97756b0..9e28894 100644
--- a/include/lattice.h
+++ b/include/lattice.h
@@ -275,7 +275,7 @@ generator_lattice_3d(const int lattice_type,
   }
   else if(lattice_type == 2) { // fcc lattice in 3D
     for(double z_p = zmin, zl = 0; z_p < zmax;
-        z_p += dz, zl = (zl + 1) * (zl < 3))
+        z_p += dz, zl = (zl + 1) * (zl < 2))
       for(double y_p = ymin - zl * dy / 3, yo = 0; y_p < ymax;
           y_p += dy, yo = 1 - yo)
         for(double x_p = xmin + (yo - zl) * dx / 2.; x_p < xmax; x_p += dx)
-- 
2.43.0


From f53430fd30b0e1c0d656f4b8038497f7ab9bb243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:40 +0000
Subject: [PATCH 26/43] fix: random lattice is centred on its domain like the
 other lattices

---
 include/lattice.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/lattice.h b/include/lattice.h
index 9e28894..acc602e 100644
--- a/include/lattice.h
+++ b/include/lattice.h
@@ -623,6 +623,9 @@ generator_random_lattice(const int lattice_type,
   // coordinate extents
   const double xmin = bbox_min[0], xmax = bbox_max[0];
   const double sphere_radius = (xmax - xmin) / 2.0;
+
+  // central point
+  const point_t center = 0.5 * (bbox_min + bbox_max);
   const double rho0 = density_profiles::spherical_density_profile(0);
 
   int npart = CU((2.0 * sphere_radius / sph_sep) + 1);
@@ -649,11 +652,12 @@ generator_random_lattice(const int lattice_type,
         density_profiles::spherical_density_profile(r / sphere_radius);
 
       if(random <= exact &&
-         in_domain_3d(x_p, y_p, z_p, bbox_min, bbox_max, domain_type)) {
+         in_domain_3d(center[0] + x_p, center[1] + y_p, center[2] + z_p,
+           bbox_min, bbox_max, domain_type)) {
         if(!count_only) {
-          x[posid] = x_p;
-          y[posid] = y_p;
-          z[posid] = z_p;
+          x[posid] = center[0] + x_p;
+          y[posid] = center[1] + y_p;
+          z[posid] = center[2] + z_p;
         }
         rejected = false;
         posid++;
-- 
2.43.0


From cdfeaf63cd1173f72c065902346c9d6e2c2c27a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:29 +0000
Subject: [PATCH 27/43] fix: periodic images across every face, edge and corner
 within the halo

---
 include/physics/boundary.h | 106 ++++++++-----------------------------
 1 file changed, 21 insertions(+), 85 deletions(-)

diff --git a/include/physics/boundary.h b/include/physics/boundary.h
index 5166c3e..9e79839 100644
--- a/include/physics/boundary.h
+++ b/include/physics/boundary.h
@@ -69,54 +69,6 @@ pboundary_clean(std::vector<body> & lbodies) {
   //}
 }
 
-void
-add_corner_XX(const std::array<bool, gdimension> & on_edge,
-  const std::array<size_t, 2> & d,
-  const std::array<point_t, 2> & box,
-  const double & halo_size,
-  const body & lbody,
-  std::vector<body> & edge) {
-  if(on_edge[d[0]] && on_edge[d[1]]) {
-    body nu = lbody;
-    nu.setType(particle_type_t::WALL);
-    point_t coord = nu.coordinates();
-    for(size_t i = 0; i < 2; ++i) {
-      if(nu.coordinates()[d[i]] + halo_size > box[1][d[i]]) {
-        coord[d[i]] = box[0][d[i]] - abs(nu.coordinates()[d[i]] + box[0][d[i]]);
-      }
-      else {
-        coord[d[i]] = box[1][d[i]] + abs(nu.coordinates()[d[i]] + box[1][d[i]]);
-      }
-    }
-    nu.set_coordinates(coord);
-    edge.push_back(nu);
-  }
-}
-
-void
-add_corner_XXX(const std::array<bool, gdimension> & on_edge,
-  const std::array<size_t, 3> & d,
-  const std::array<point_t, 2> & box,
-  const double & halo_size,
-  const body & lbody,
-  std::vector<body> & edge) {
-  if(on_edge[d[0]] && on_edge[d[1]] && on_edge[d[2]]) {
-    body nu = lbody;
-    nu.setType(particle_type_t::WALL);
-    point_t coord = nu.coordinates();
-    for(size_t i = 0; i < 3; ++i) {
-      if(nu.coordinates()[d[i]] + halo_size > box[1][d[i]]) {
-        coord[d[i]] = box[0][d[i]] - abs(nu.coordinates()[d[i]] + box[0][d[i]]);
-      }
-      else {
-        coord[d[i]] = box[1][d[i]] + abs(nu.coordinates()[d[i]] + box[1][d[i]]);
-      }
-    }
-    nu.set_coordinates(coord);
-    edge.push_back(nu);
-  }
-}
-
 void
 pboundary_generate(std::vector<body> & lbodies, double halo_size) {
   int64_t original_nparticles = lbodies.size();
@@ -133,11 +85,11 @@ pboundary_generate(std::vector<body> & lbodies, double halo_size) {
   // At least 1D
   min[0] = -half * box_length;
   max[0] = half * box_length;
-  if(gdimension >= 1) {
+  if(gdimension > 1) {
     min[1] = -half * box_width;
     max[1] = half * box_width;
   }
-  if(gdimension >= 2) {
+  if(gdimension > 2) {
     min[2] = -half * box_height;
     max[2] = half * box_height;
   }
@@ -162,51 +114,35 @@ pboundary_generate(std::vector<body> & lbodies, double halo_size) {
     }
   }
 
-  // Search for particles near the edge
+  // Search for particles near the edge: one image across each face, edge and
+  // corner of the box within reach (two opposite ones in a narrow box)
   std::vector<body> edge;
   for(int i = 0; i < lbodies.size(); ++i) {
-    std::array<bool, gdimension> on_edge;
-    on_edge.fill(false);
-
+    const point_t pos = lbodies[i].coordinates();
+    std::vector<point_t> images = {pos};
     for(int d = 0; d < gdimension; ++d) {
       if(!periodic[d])
         continue;
 
-      if(lbodies[i].coordinates()[d] + halo_size > box[1][d] ||
-         lbodies[i].coordinates()[d] - halo_size <= box[0][d]) {
-        on_edge[d] = true;
-
-        // New on this axis
-        body nu = lbodies[i];
-        nu.setType(particle_type_t::WALL);
-        point_t coord = nu.coordinates();
-        if(nu.coordinates()[d] + halo_size > box[1][d]) {
-          // coord[d] = box[0][d] - fabs((nu.coordinates()[d]+box[0][d]));
-          coord[d] -= (box[1][d] - box[0][d]);
+      const size_t nimages = images.size();
+      for(size_t k = 0; k < nimages; ++k) {
+        point_t coord = images[k];
+        if(pos[d] + halo_size > box[1][d]) {
+          coord[d] = images[k][d] - (box[1][d] - box[0][d]);
+          images.push_back(coord);
         }
-        else {
-          // coord[d] = box[1][d] + fabs((nu.coordinates()[d]+box[1][d]));
-          coord[d] += (box[1][d] - box[0][d]);
+        if(pos[d] - halo_size <= box[0][d]) {
+          coord[d] = images[k][d] + (box[1][d] - box[0][d]);
+          images.push_back(coord);
         }
-        nu.set_coordinates(coord);
-        edge.push_back(nu);
       }
     }
-    // If several dimensions interfere, add in the corners
-    if(gdimension == 1)
-      continue;
-    if(gdimension == 2) {
-      // x and y
-      add_corner_XX(on_edge, {0, 1}, box, halo_size, lbodies[i], edge);
-    }
-    if(gdimension == 3) {
-      // Multiple combinations
-      // xy, xz, yz, xyz
-      add_corner_XX(on_edge, {0, 1}, box, halo_size, lbodies[i], edge);
-      add_corner_XX(on_edge, {0, 2}, box, halo_size, lbodies[i], edge);
-      add_corner_XX(on_edge, {2, 1}, box, halo_size, lbodies[i], edge);
-
-      add_corner_XXX(on_edge, {0, 1, 2}, box, halo_size, lbodies[i], edge);
+    // the first one is the particle itself
+    for(size_t k = 1; k < images.size(); ++k) {
+      body nu = lbodies[i];
+      nu.setType(particle_type_t::WALL);
+      nu.set_coordinates(images[k]);
+      edge.push_back(nu);
     }
   }
   int rank, size;
-- 
2.43.0


From 5674c5d3fbd1db4b735effb887be3afc4ef0dfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:29 +0000
Subject: [PATCH 28/43] fix: balance the particles when periodic images are
 created unevenly

---
 include/physics/boundary.h |  2 --
 mpisph/bodies_system.h     | 23 ++++++++++---
 mpisph/psort.h             | 66 ++++++++++++++++++--------------------
 3 files changed, 49 insertions(+), 42 deletions(-)

diff --git a/include/physics/boundary.h b/include/physics/boundary.h
index 9e79839..5d48301 100644
--- a/include/physics/boundary.h
+++ b/include/physics/boundary.h
@@ -48,8 +48,6 @@ pboundary_clean(std::vector<body> & lbodies) {
   auto start = std::stable_partition(lbodies.begin(), lbodies.end(),
     [](const auto & left) { return left.getType() != particle_type_t::WALL; });
 
-  assert(start != lbodies.begin());
-
 #ifdef DEBUG
   for(auto it = start; it != lbodies.end(); ++it)
     assert(it->getType() == particle_type_t::WALL);
diff --git a/mpisph/bodies_system.h b/mpisph/bodies_system.h
index a18089a..0783cf3 100644
--- a/mpisph/bodies_system.h
+++ b/mpisph/bodies_system.h
@@ -19,6 +19,7 @@
 
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <omp.h>
 #include <typeinfo>
 
@@ -187,10 +188,13 @@ public:
     log_one(trace) << "QSort (" << size << ")" << std::endl;
     double timer = omp_get_wtime();
 
+    // Balance the particles, the periodic images are not created evenly
+    int64_t ntotal = tree_.entities().size();
+    MPI_Allreduce(
+      MPI_IN_PLACE, &ntotal, 1, MPI_INT64_T, MPI_SUM, MPI_COMM_WORLD);
     int dist[size];
-    dist[rank] = tree_.entities().size();
-
-    MPI_Allgather(MPI_IN_PLACE, 1, MPI_INT, dist, 1, MPI_INT, MPI_COMM_WORLD);
+    for(int i = 0; i < size; ++i)
+      dist[i] = ntotal / size + (i < ntotal % size ? 1 : 0);
 
     psort::psort(
       tree_.entities(),
@@ -237,8 +241,17 @@ public:
     // Compute the local range
     range_t lrange;
 
-    lrange[1] = bodies.back().coordinates();
-    lrange[0] = bodies.back().coordinates();
+    if(bodies.empty()) {
+      // No contribution, the particles can all be on other ranks
+      for(size_t d = 0; d < gdimension; ++d) {
+        lrange[1][d] = std::numeric_limits<double>::lowest();
+        lrange[0][d] = std::numeric_limits<double>::max();
+      } // for
+    }
+    else {
+      lrange[1] = bodies.back().coordinates();
+      lrange[0] = bodies.back().coordinates();
+    } // if
 
     for(size_t i = 0; i < bodies.size(); ++i) {
       for(size_t d = 0; d < gdimension; ++d) {
diff --git a/mpisph/psort.h b/mpisph/psort.h
index bd2b438..01caf5f 100644
--- a/mpisph/psort.h
+++ b/mpisph/psort.h
@@ -45,14 +45,13 @@ public:
     int size, rank;
     MPI_Comm_size(MPI_COMM_WORLD, &size);
     MPI_Comm_rank(MPI_COMM_WORLD, &rank);
-    int n_real = size;
-    for(int i = 0; i < size; ++i)
-      if(dist[i] == 0) {
-        n_real = i;
-        break;
-      }
+    // Current number of values on each processor, dist is the requested one
+    std::vector<int> current(size);
+    int mycurrent = last - first;
+    MPI_Allgather(
+      &mycurrent, 1, MPI_INT, &current[0], 1, MPI_INT, MPI_COMM_WORLD);
 
-    std::copy(dist, dist + size, right_ends[size].begin());
+    std::copy(current.begin(), current.end(), right_ends[size].begin());
 
     // union of [0, right_end[i+1]) on each processor produces dist[i] total
     // values
@@ -69,7 +68,7 @@ public:
     // invariant: subdist[i][rank] == d_ranges[i].second - d_ranges[i].first
     // amount of data each proc still has in the search
     std::vector<std::vector<int>> subdist(size - 1, std::vector<int>(size));
-    std::copy(dist, dist + size, subdist[0].begin());
+    std::copy(current.begin(), current.end(), subdist[0].begin());
 
     // for each processor, d_ranges - first
     std::vector<std::vector<int>> outleft(size - 1, std::vector<int>(size, 0));
@@ -84,9 +83,9 @@ public:
       _ValueType * mymedians = new _ValueType[n_act];
       _ValueType * medians = new _ValueType[size * n_act];
       for(int k = 0; k < n_act; ++k) {
-        _ValueType * ptr = &d_ranges[k].first[0];
-        int index = subdist[k][rank] / 2;
-        mymedians[k] = ptr[index];
+        // nothing to propose for an empty range
+        if(subdist[k][rank] > 0)
+          mymedians[k] = d_ranges[k].first[subdist[k][rank] / 2];
       } // for
       MPI_Allgather(mymedians, n_act, MPI_valueType, medians, n_act,
         MPI_valueType, MPI_COMM_WORLD);
@@ -96,20 +95,19 @@ public:
       std::vector<_ValueType> queries(n_act);
 
       for(int k = 0; k < n_act; ++k) {
-        std::vector<int> ms_perm_v(n_real);
-        int * ms_perm = &ms_perm_v.at(0);
-        for(int i = 0; i < n_real; ++i)
-          ms_perm[i] = i * n_act + k;
-        std::sort(ms_perm, ms_perm + n_real,
+        // only the processors which have data in this range
+        std::vector<int> ms_perm;
+        for(int i = 0; i < size; ++i)
+          if(subdist[k][i] > 0)
+            ms_perm.push_back(i * n_act + k);
+        std::sort(ms_perm.begin(), ms_perm.end(),
           PermCompare<_ValueType, _Compare>(medians, comp));
         int mid = accumulate(subdist[k].begin(), subdist[k].end(), 0) / 2;
         int query_ind = -1;
-        for(int i = 0; i < n_real; ++i) {
-          if(subdist[k][ms_perm[i] / n_act] == 0)
-            continue;
-          mid -= subdist[k][ms_perm[i] / n_act];
+        for(int index : ms_perm) {
+          mid -= subdist[k][index / n_act];
           if(mid <= 0) {
-            query_ind = ms_perm[i];
+            query_ind = index;
             break;
           }
         } // for
@@ -224,6 +222,13 @@ private:
   };
 }; // class
 
+/**
+ * @brief      Sort the values over all the processors
+ * @param      vec      The values of this processor
+ * @param      comp     The order
+ * @param      dist_in  The number of values requested on each processor after
+ *                      the sort, the sum must be the total number of values
+ */
 template<typename TYPE, typename _Compare>
 void
 psort(std::vector<TYPE> & vec, _Compare comp, int * dist_in) {
@@ -258,15 +263,11 @@ psort(std::vector<TYPE> & vec, _Compare comp, int * dist_in) {
   mysplit.split(first, last, dist, comp, right_ends, MPI_valueType);
 
   // Communicate to destination
-  int * boundaries = new int[size + 1];
-
   // Should be _Distance, but MPI wants ints
   char errMsg[] = "32-bit limit for MPI has overflowed";
-  int n_loc_ = last - first;
-  if(n_loc_ > INT_MAX)
+  if(last - first > INT_MAX)
     throw std::overflow_error(errMsg);
-  int n_loc = static_cast<int>(n_loc_);
-  std::vector<TYPE> trans_data(n_loc);
+  std::vector<TYPE> trans_data(dist[rank]);
 
   // Calculate the counts for redistributing data
   int * send_counts = new int[size];
@@ -292,15 +293,11 @@ psort(std::vector<TYPE> & vec, _Compare comp, int * dist_in) {
   recv_disps[0] = 0;
   std::partial_sum(recv_counts, recv_counts + size - 1, recv_disps + 1);
 
-  assert(std::accumulate(recv_counts, recv_counts + size, 0) == n_loc);
+  assert(std::accumulate(recv_counts, recv_counts + size, 0) == dist[rank]);
 
   // Do the transpose
-  MPI_Alltoallv(&first[0], send_counts, send_disps, MPI_valueType,
-    &trans_data[0], recv_counts, recv_disps, MPI_valueType, MPI_COMM_WORLD);
-
-  for(int i = 0; i < size; ++i)
-    boundaries[i] = (int)recv_disps[i];
-  boundaries[size] = (int)n_loc; // for the merging
+  MPI_Alltoallv(vec.data(), send_counts, send_disps, MPI_valueType,
+    trans_data.data(), recv_counts, recv_disps, MPI_valueType, MPI_COMM_WORLD);
 
   delete[] recv_counts;
   delete[] recv_disps;
@@ -312,7 +309,6 @@ psort(std::vector<TYPE> & vec, _Compare comp, int * dist_in) {
   // std::sort(first, last, comp);
   vec = trans_data;
 
-  delete[] boundaries;
   delete[] dist;
   // delete [] trans_data;
   MPI_Type_free(&MPI_valueType);
-- 
2.43.0


From 80a199cae0efb526d04b94b27690341b62ee9614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:27 +0000
Subject: [PATCH 29/43] fix: ids are distinct when the input has none

---
 mpisph/io.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 196190e..5ece282 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -335,12 +335,10 @@ H5P_bodiesReadDataset(std::vector<body> & bodies,
     else {
       // generate the ids
       log_one(trace) << "Setting ID for particles" << std::endl;
-      int64_t start = (IO_nparticles / size) * rank + 1;
+      int64_t start = IO_offset;
       for(int64_t i = 0; i < IO_nparticlesproc; ++i) {
         bodies[i].set_id(start + i);
       }
-      if(rank == size - 1) // last rank
-        assert(IO_nparticles == bodies.back().id());
     }
   }
   else if(!strcmp(dsname, "m")) {
-- 
2.43.0


From 40430a4c1c6386c0ee639232ae45cb16cc610ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:27 +0000
Subject: [PATCH 30/43] fix: H5P_findIterationSnapshot reports a missing
 iteration

---
 mpisph/io.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 5ece282..e5f7f99 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -519,7 +519,7 @@ H5P_fileExists(const char * prefix) {
  */
 int
 H5P_findIterationSnapshot(const char * prefix, const int iteration) {
-  int step = -1;
+  int found = -1;
   char fname[MAX_FNAME_LEN];
   char prefix_dirname[MAX_FNAME_LEN], buf[MAX_FNAME_LEN],
     prefix_basename[MAX_FNAME_LEN];
@@ -543,7 +543,7 @@ H5P_findIterationSnapshot(const char * prefix, const int iteration) {
     while((dir = readdir(d)) != NULL) {
 
       // skip files which are not "prefix_XXXXX.h5part"
-      step = H5P_isPrefixSnapshot(prefix_basename, dir->d_name);
+      int step = H5P_isPrefixSnapshot(prefix_basename, dir->d_name);
       if(step < 0)
         continue;
 
@@ -564,15 +564,17 @@ H5P_findIterationSnapshot(const char * prefix, const int iteration) {
                        << " in file " << fname << std::endl;
         FULLSTOP;
       }
-      H5Fclose(file_id);
+      H5P_closeFile(file_id);
 
       // check if this is what we are looking for
-      if(file_iteration == iteration)
+      if(file_iteration == iteration) {
+        found = step;
         break;
+      }
     }
     closedir(d);
   }
-  return step;
+  return found;
 }
 
 /*
-- 
2.43.0


From 3702c3d91e21c2633849335574cbd1ef6cef2e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:27 +0000
Subject: [PATCH 31/43] fix: old snapshots are removed in the directory of
 their prefix

---
 mpisph/io.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index e5f7f99..6643f2b 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -614,8 +614,10 @@ H5P_removePrefix(const char * output_file_prefix, const int threshold_stepnum) {
       while((dir = readdir(d)) != NULL) {
         int stepnum = H5P_isPrefixSnapshot(output_basename, dir->d_name);
         if(stepnum > threshold_stepnum and rank == 0) {
-          if(remove(dir->d_name) == 0) { // if successful
-            log_one(warn) << "deleting old output file: " << dir->d_name
+          const std::string filename =
+            std::string(output_dirname) + "/" + dir->d_name;
+          if(remove(filename.c_str()) == 0) { // if successful
+            log_one(warn) << "deleting old output file: " << filename
                           << std::endl;
             ++n_deleted;
           }
-- 
2.43.0


From 055ef7f89afd5320471dbdf748807060d1b7171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:27 +0000
Subject: [PATCH 32/43] fix: first snapshot after a restart is not lost

---
 mpisph/io.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 6643f2b..22d06fe 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -48,7 +48,9 @@ hid_t IO_group_id; // Group id to keep track of the current step
 hsize_t IO_offset;
 hsize_t IO_count;
 static int output_step = 0;
-const int MAX_FNAME_LEN = 256;
+// Iteration of the snapshot the run resumed from, if it is part of the output
+static int64_t resumed_iteration = -1;
+const int MAX_FNAME_LEN = 1024;
 // TODO: overload ostream instead, i.e.smth like, log_exit << "ERROR!"
 #define FULLSTOP exit(MPI_Barrier(MPI_COMM_WORLD) && MPI_Finalize());
 
@@ -732,6 +734,7 @@ inputDataHDF5(std::vector<body> & bodies,
   if(strcmp(output_file_prefix, input_file_prefix) != 0) {
     H5P_removePrefix(output_file_prefix, -1);
     output_step = 0;
+    resumed_iteration = -1;
   }
   else { // --- output prefix == input prefix
 
@@ -775,7 +778,13 @@ inputDataHDF5(std::vector<body> & bodies,
       }
       H5P_closeFile(outputFile);
     }
+    // the first snapshot is already in the output, unless the layout changes
     output_step = startStep;
+    resumed_iteration = -1;
+    if(input_single_file != param::out_h5data_separate_iterations) {
+      output_step = startStep + 1;
+      resumed_iteration = startIteration;
+    }
   } // if input_prefix == output_prefix
 
   if(dataFile == 0) {
@@ -881,6 +890,9 @@ outputDataHDF5(std::vector<body> & bodies,
   MPI_Comm comm = MPI_COMM_WORLD) {
 
   comm_ = comm;
+  // Already there: do not write it again
+  if(iteration == resumed_iteration)
+    return;
   int step = output_step++;
 
   int size, rank;
-- 
2.43.0


From e662e0e58e34c1dfb3c5f06111670a8f0f445402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:27 +0000
Subject: [PATCH 33/43] fix: stop when there is no snapshot to start from,
 before old output is removed

---
 mpisph/io.h | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 22d06fe..5afa0ba 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -52,7 +52,12 @@ static int output_step = 0;
 static int64_t resumed_iteration = -1;
 const int MAX_FNAME_LEN = 1024;
 // TODO: overload ostream instead, i.e.smth like, log_exit << "ERROR!"
-#define FULLSTOP exit(MPI_Barrier(MPI_COMM_WORLD) && MPI_Finalize());
+#define FULLSTOP                                                               \
+  {                                                                            \
+    MPI_Barrier(MPI_COMM_WORLD);                                               \
+    MPI_Finalize();                                                            \
+    exit(EXIT_FAILURE);                                                        \
+  }
 
 int64_t IO_nparticlesproc;
 int64_t IO_nparticles;
@@ -91,7 +96,7 @@ H5P_openFile(const char * filename, unsigned int flags) {
   H5Pset_fapl_mpio(plist_id, comm, info);
 
   hid_t file_id = 0;
-  if(access(filename, F_OK) != -1) {
+  if(flags == H5F_ACC_RDONLY || access(filename, F_OK) != -1) {
     file_id = H5Fopen(filename, flags, plist_id);
   }
   else {
@@ -728,6 +733,13 @@ inputDataHDF5(std::vector<body> & bodies,
 
   } // if specified iteration
 
+  // stop before anything is removed
+  if(dataFile < 0 || not H5P_hasStep(dataFile, startStep)) {
+    log_one(error) << "Cannot find Step#" << startStep << " in "
+                   << input_file_prefix << std::endl;
+    FULLSTOP;
+  }
+
   // ------------- CLEAR OUTPUT ------------------------------------------------
   // output prefix is different from input prefix:
   // -> clear output
@@ -755,7 +767,7 @@ inputDataHDF5(std::vector<body> & bodies,
       }
     }
     // single-file output mode
-    else {
+    else if(input_single_file) {
 
       // check if the lastStep is the startIteration
       char output_filename[MAX_FNAME_LEN];
@@ -773,8 +785,7 @@ inputDataHDF5(std::vector<body> & bodies,
       if(startStep != lastStep) {
         log_one(error) << "First step not last step in output" << std::endl;
         H5P_closeFile(outputFile);
-        MPI_Barrier(comm_);
-        MPI_Finalize();
+        FULLSTOP;
       }
       H5P_closeFile(outputFile);
     }
@@ -787,14 +798,6 @@ inputDataHDF5(std::vector<body> & bodies,
     }
   } // if input_prefix == output_prefix
 
-  if(dataFile == 0) {
-    log_one(error) << "Cannot find data file" << std::endl;
-    MPI_Barrier(comm_);
-    MPI_Finalize();
-  }
-
-  int val = H5P_hasStep(dataFile, startStep);
-
   // If yes, get into this step
   H5P_setStep(dataFile, startStep);
   // Get the number of particles
-- 
2.43.0


From c66107cfd5356f6aaddfe7bd8a3f2041b8fe1a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:27 +0000
Subject: [PATCH 34/43] fix: initial data are found in the one-file-per-step
 layout

---
 mpisph/io.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpisph/io.h b/mpisph/io.h
index 5afa0ba..a08f00c 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -669,6 +669,10 @@ inputDataHDF5(std::vector<body> & bodies,
   // ------------- START FROM ITERATION ZERO: OVERWRITE OUTPUT  --------
   if(startIteration == 0) {
 
+    // ---- multiple-file mode ---
+    if(not input_single_file)
+      sprintf(input_filename, "%s_%05d.h5part", input_file_prefix, startStep);
+
     dataFile = H5P_openFile(input_filename, H5F_ACC_RDONLY);
   }
   // ------------- *** OR *** START FROM SPECIFIED ITERATION  ----------
-- 
2.43.0


From b65b9bb63dcc7804646b9f6f026cdadc9ca9fbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:27 +0000
Subject: [PATCH 35/43] fix: file names built from long or short prefixes

---
 mpisph/io.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index a08f00c..f250b14 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -489,6 +489,8 @@ H5P_isPrefixSnapshot(const char * fprefix, const char * filename) {
     return -1;
   int imx = strlen(filename) - 8;
   int imn = imx - 5;
+  if(imn < 0)
+    return -1;
   int snum = 0, t = 1;
   for(int i = imx; i > imn; --i) {
     char c = filename[i];
@@ -726,7 +728,7 @@ inputDataHDF5(std::vector<body> & bodies,
       }
 
       // open it
-      char step_filename[128];
+      char step_filename[MAX_FNAME_LEN];
       sprintf(step_filename, "%s_%05d.h5part", input_file_prefix, step);
       log_one(warn) << "Reading from file " << step_filename << std::endl;
 
@@ -909,7 +911,7 @@ outputDataHDF5(std::vector<body> & bodies,
   MPI_Barrier(comm_);
   log_one(trace) << "Output particles" << std::flush;
 
-  char filename[128];
+  char filename[MAX_FNAME_LEN];
   if(param::out_h5data_separate_iterations)
     sprintf(filename, "%s_%05d.h5part", fileprefix, step);
   else
-- 
2.43.0


From b7b74c76947e6528469486c8222311c52ab244a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:26 +0000
Subject: [PATCH 36/43] fix: wind tunnel data hold all particles of the
 lattice, with the mass of their volume

---
 app/id_generators/wtunnel/main.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/app/id_generators/wtunnel/main.cc b/app/id_generators/wtunnel/main.cc
index 00d32fa..0932564 100644
--- a/app/id_generators/wtunnel/main.cc
+++ b/app/id_generators/wtunnel/main.cc
@@ -128,6 +128,13 @@ main(int argc, char * argv[]) {
   int64_t tparticles = 0;
   tparticles = particle_lattice::count(
     lattice_type, 0, cbox_min, cbox_max, sph_separation, 0);
+  SET_PARAM(nparticles, tparticles);
+
+  // single particle mass
+  double volume = 1.;
+  for(int d = 0; d < gdimension; ++d)
+    volume *= cbox_max[d] - cbox_min[d];
+  const double mass = rho_initial * volume / (double)tparticles;
 
   // Initialize the arrays to be filled later
   // Position
@@ -174,7 +181,7 @@ main(int argc, char * argv[]) {
     P[part] = pressure_initial;
     rho[part] = rho_initial;
     vx[part] = -flow_velocity;
-    m[part] = rho_initial / (double)tparticles;
+    m[part] = mass;
 
     // compute internal energy using gamma-law eos
     u[part] = pressure_initial / (poly_gamma - 1.) / rho_initial;
-- 
2.43.0


From 17c4f3fd7e852db1c97fe471f1c0743c169c6cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:26 +0000
Subject: [PATCH 37/43] fix: Sod tube with equal separations: masses of boxes
 which have not unit volume

---
 app/id_generators/sodtube/main.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/app/id_generators/sodtube/main.cc b/app/id_generators/sodtube/main.cc
index 10a8754..273a7e7 100644
--- a/app/id_generators/sodtube/main.cc
+++ b/app/id_generators/sodtube/main.cc
@@ -491,6 +491,11 @@ main(int argc, char * argv[]) {
   double timestep = 0.5 * sph_separation / cs;
 
   if(equal_separation) {
+    // volume of each of the three boxes
+    double volume = 1.;
+    for(int d = 0; d < gdimension; ++d)
+      volume *= cbox_max[d] - cbox_min[d];
+
     for(int64_t part = 0; part < tparticles; ++part) {
       id[part] = posid++;
       if(particle_lattice::in_domain_1d(
@@ -498,13 +503,13 @@ main(int argc, char * argv[]) {
         P[part] = pressure_1;
         rho[part] = rho_1;
         vx[part] = vx_1;
-        m[part] = rho[part] / (double)parts_mid;
+        m[part] = rho[part] * volume / (double)parts_mid;
       }
       else {
         P[part] = pressure_2;
         rho[part] = rho_2;
         vx[part] = vx_2;
-        m[part] = rho[part] / (double)parts_lr;
+        m[part] = rho[part] * volume / (double)parts_lr;
       }
 
       // compute internal energy using gamma-law eos
-- 
2.43.0


From fe330ffd457aff192f7c1e2a311c84e22c70d9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:26 +0000
Subject: [PATCH 38/43] fix: implosion: energy at the inner radius of a sphere
 of any size

---
 app/id_generators/implosion/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/id_generators/implosion/main.cc b/app/id_generators/implosion/main.cc
index 2d8483c..72dbf55 100644
--- a/app/id_generators/implosion/main.cc
+++ b/app/id_generators/implosion/main.cc
@@ -189,7 +189,7 @@ main(int argc, char * argv[]) {
   double u_10 = 1.e4;
   double u_08 = 1.0;
   double slope = (u_10 - u_08) / (1.0 * sphere_radius - 0.8 * sphere_radius);
-  double yint = 1.0 * sphere_radius - slope * 0.8 * sphere_radius;
+  double yint = u_08 - slope * 0.8 * sphere_radius;
 
   // Assign density, pressure, etc. to particles
   for(int64_t part = 0; part < nparticles; ++part) {
-- 
2.43.0


From 4ea9451d9224d32df6626f884a18d3111e79f4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:27 +0000
Subject: [PATCH 39/43] fix: Sedov blast in existing data: mass of the
 particles that get the energy

---
 app/id_generators/sedov/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/id_generators/sedov/main.cc b/app/id_generators/sedov/main.cc
index c54b381..c2ca8c3 100644
--- a/app/id_generators/sedov/main.cc
+++ b/app/id_generators/sedov/main.cc
@@ -239,7 +239,7 @@ main(int argc, char * argv[]) {
     double r = magnitude(particle.coordinates());
     if(r < sedov_blast_radius) {
       particles_blast++;
-      mass_blast += mass_particle;
+      mass_blast += modify_initial_data ? particle.mass() : mass_particle;
     }
   }
 
-- 
2.43.0


From 59a35ad0cbc568377cd86acc102f10fd80b1cec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:08 +0000
Subject: [PATCH 40/43] fix: finite smoothing length where the density profile
 of a relaxed sphere is zero

---
 include/physics/wvt.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/physics/wvt.h b/include/physics/wvt.h
index c5544ef..37a7f82 100644
--- a/include/physics/wvt.h
+++ b/include/physics/wvt.h
@@ -588,6 +588,9 @@ wvt_set_density(body & source) {
   double rho = (param::rho_initial) / rho0 *
                density_profiles::spherical_density_profile(r / sphere_radius);
   double h = sph_eta * kernels::kernel_width * pow(mass / rho, 1. / gdimension);
+  if(rho == 0.0) {
+    h = sphere_radius;
+  }
   source.set_radius(h);
   source.setDensity(rho);
 }
-- 
2.43.0


From fd3ab6cbcc2fee0a7ae0dea5d563494f0b00a2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:19 +0000
Subject: [PATCH 41/43] fix: no division by zero for a particle at the center
 of a frozen sphere

---
 include/physics/wvt.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/physics/wvt.h b/include/physics/wvt.h
index 37a7f82..f2c9c6c 100644
--- a/include/physics/wvt.h
+++ b/include/physics/wvt.h
@@ -176,7 +176,10 @@ spherical_to_cartesian(const point_t & pos_s) {
 point_t
 remove_radial_acc(const point_t & pos_c, const point_t & acc_c) {
   double r = magnitude(pos_c);
-  point_t pos_n = (1.0 / r) * pos_c;
+  point_t pos_n = 0.0;
+  if(r > 0.0) {
+    pos_n = (1.0 / r) * pos_c;
+  }
   point_t acc_n = acc_c - dot(pos_n, acc_c) * pos_n;
   return 2.0 * acc_n;
 }
-- 
2.43.0


From e02bf1070cded8bacacea9bf97d2b2d487068717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:32 +0000
Subject: [PATCH 42/43] fix: total energy evolution: outputs carry the internal
 energy at the end of the step

---
 app/drivers/hydro/main_driver.cc     | 2 ++
 app/drivers/newtonian/main_driver.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/app/drivers/hydro/main_driver.cc b/app/drivers/hydro/main_driver.cc
index 044cf71..49aba16 100644
--- a/app/drivers/hydro/main_driver.cc
+++ b/app/drivers/hydro/main_driver.cc
@@ -234,6 +234,8 @@ mpi_init_task(const char * parameter_file) {
           }
 
           bs.apply_all(integration::leapfrog_kick_e);
+          // internal energy at the end of the step: the one in the outputs
+          bs.apply_all(physics::recover_internal_energy);
         }
         else {
           for (int m=1; m<=pressure_updates_number;++m) { // 1 or 2 passes
diff --git a/app/drivers/newtonian/main_driver.cc b/app/drivers/newtonian/main_driver.cc
index 349f214..5e32cb1 100644
--- a/app/drivers/newtonian/main_driver.cc
+++ b/app/drivers/newtonian/main_driver.cc
@@ -253,6 +253,8 @@ mpi_init_task(const char * parameter_file) {
           }
 
           bs.apply_all(integration::leapfrog_kick_e);
+          // internal energy at the end of the step: the one in the outputs
+          bs.apply_all(physics::recover_internal_energy);
         }
         else {
           for (int m=1; m<=pressure_updates_number;++m) { // 1 or 2 passes
-- 
2.43.0


From 8c4fbfb9399ea20f855d41195e735fec68a2c703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:26 +0000
Subject: [PATCH 43/43] fix: RT generator: the periodic height starts from the
 box height

---
 app/id_generators/RT/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/id_generators/RT/main.cc b/app/id_generators/RT/main.cc
index 325d642..3a6f9fd 100644
--- a/app/id_generators/RT/main.cc
+++ b/app/id_generators/RT/main.cc
@@ -156,7 +156,7 @@ set_derived_params() {
 
   // adjust domain height
   if(gdimension >= 3 and periodic_boundary_z) {
-    int Nz = (int)(box_length / dz) - 1;
+    int Nz = (int)(box_height / dz) - 1;
     for(int k = Nz; k < Nz * 100; ++k) {
       double w2 = floor(k * dz / dz_t + b_tol) * dz_t;
       if(fabs(w2 - k * dz) < lattice_mismatch_tolerance * dz_t) {
-- 
2.43.0

