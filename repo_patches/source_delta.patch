From 71df639a5617d3936c7ab0e1e2c53e4322ed6157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 01/99] fix: removePoint looks the id up instead of comparing
 it with the last id

An absent id below the last point's id decremented the size and a class
count without removing anything, an existing id above it was refused (e.g.
after a shuffle), and the position index was left with stale entries.
---
 .../include/ufjfmltk/core/Data.hpp            | 34 ++++++-------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 123a324..3e137f4 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1181,33 +1181,21 @@ namespace mltk{
 
     template<typename T>
     bool mltk::Data< T >::removePoint(int pid){
-        int i;
-
         if(m_size == 1){ std::cout << "Error: RemovePoint, only one point left\n"; return false; }
-        //Ids bound verification
-        if(pid > m_points[m_size - 1]->Id() || pid <= 0) return false;
-        int y;
-        if(!index.empty()){
-            index.resize(m_size);
-
-            for(i = 0; i < m_size; ++i){
-                if(i >= pid){
-                    index[i-1] = index[i] - 1;
-                }
-            }
-        }
 
         //Find the point by its id and erase it
-        for(i = 0; i < m_size; i++){
-            if(m_points[i]->Id() == pid){
-                y = m_points[i]->Y();
-                m_points.erase(m_points.begin() + i);
-                break;
-            }
-        }
+        auto p = std::find_if(m_points.begin(), m_points.end(), [&pid](const auto &point){
+            return point->Id() == pid;
+        });
+        if(p == m_points.end()) return false;
+
+        int y = (*p)->Y();
+        m_points.erase(p);
         m_size--;
-        auto pos = std::find(m_classes.begin(), m_classes.end(), y) - m_classes.begin();
-        class_distribution[pos]--;
+        if(!index.empty()) resetIndex();
+
+        size_t pos = std::find(m_classes.begin(), m_classes.end(), y) - m_classes.begin();
+        if(pos < class_distribution.size()) class_distribution[pos]--;
         return true;
     }
 
-- 
2.43.0


From 2766d7f89683e732bbcfa8577819108f896da157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 02/99] fix: removePoints keeps the last point and a consistent
 position index

The last remaining point was erased before the size check, leaving a size
of one for an empty dataset, and the index kept stale entries.
---
 .../include/ufjfmltk/core/Data.hpp            | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 3e137f4..e507129 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1238,7 +1238,7 @@ namespace mltk{
 
     template<typename T>
     std::vector<bool> mltk::Data< T >::removePoints(std::vector<int> ids){
-        int idsize = ids.size(), i, j;
+        int idsize = ids.size(), i;
         bool save;
         std::shared_ptr<Point< T > > po;
         auto p = m_points.begin();
@@ -1259,24 +1259,20 @@ namespace mltk{
 
             if(save) p++;
             else{
+                //Size verification.
+                if(m_size == 1){
+                    std::clog << "Error: RemovePoint, only one point left." << std::endl;
+                    notFound[i] = true;
+                    break;
+                }
                 p = m_points.erase(p);
                 int c = po->Y();
-                if(!index.empty()){
-                    index.resize(m_size);
-
-                    for(j = 0; j < m_size; ++j){
-                        if(j >= ids[i]){
-                            index[j-1] = index[j] - 1;
-                        }
-                    }
-                }
-                //Size verification.
-                if(m_size == 1){ std::clog << "Error: RemovePoint, only one point left." << std::endl; break;}
-                auto class_pos = std::find(m_classes.begin(), m_classes.end(), c) - m_classes.begin();
-                class_distribution[class_pos]--;
+                size_t class_pos = std::find(m_classes.begin(), m_classes.end(), c) - m_classes.begin();
+                if(class_pos < class_distribution.size()) class_distribution[class_pos]--;
                 m_size--;
             }
         }
+        if(!index.empty()) resetIndex();
 
         return notFound;
     }
-- 
2.43.0


From ca9c95123cdd751f088389b3fb3082eb32a87744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 03/99] fix: updatePointValue counts a newly seen class once

The iterator to the class list was used after push_back invalidated it and
the new class was counted twice.
---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index e507129..21bf040 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1975,7 +1975,8 @@ namespace mltk{
             if(class_pos == m_classes.end()){
                 m_classes.push_back(_c);
                 class_names.push_back(std::to_string(_c));
-                class_distribution.push_back(1);
+                class_distribution.push_back(0);
+                class_pos = m_classes.end() - 1;
             }
             auto oldclass_pos = std::find(m_classes.begin(), m_classes.end(), int(old_value))- m_classes.begin();
             class_distribution[class_pos - m_classes.begin()]++;
-- 
2.43.0


From 58996f2d7d9fa6db4ae931a0c5f40f7cbed31cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 04/99] fix: inserting from another dataset copies the point
 and reports rejection

The point object was shared, so renumbering it (or changing it later)
modified the source dataset; a rejected insertion was reported as success,
and any position was accepted for an empty source.
---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 21bf040..16cd591 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1419,14 +1419,12 @@ namespace mltk{
 
     template<typename T>
     bool mltk::Data< T >::insertPoint(const Data< T >& samples, int _index, bool keepIndex){
-        if(_index > samples.size() - 1){
+        if(_index < 0 || _index >= samples.size()){
             std::cerr << "Index out of bounds. (insertPoint)" << std::endl;
             return false;
         }
 
-        insertPoint(samples.point(_index), keepIndex);
-
-        return true;
+        return insertPoint(*samples.point(_index), keepIndex);
     }
 
     template<typename T>
-- 
2.43.0


From c9d1c7c2e1b0616757595a4ea64c08a2dd4ee6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 05/99] fix: insertPoint keeps the feature names of the dataset

After a feature removal, inserting a point renamed the remaining features
to 1..dim, so later removals by name hit the wrong columns.
---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 16cd591..07fa28a 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1436,7 +1436,7 @@ namespace mltk{
             return false;
         }
 
-        if(p->size() > 0) {
+        if(p->size() > 0 && this->fnames.size() != p->size()) {
             this->fnames = std::vector<int>(p->size(), 0);
             std::iota(this->fnames.begin(), this->fnames.end(), 1);
         }
-- 
2.43.0


From 4f0e347e6c950f8b189f2d641c3eb8e06b367589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 06/99] fix: join keeps class names, counts, dimension and
 emptiness consistent

Joining into a loaded dataset zeroed the class distribution, joining into
an empty one left dimension 0 and the empty flag set, new class names could
end up in another order than the classes, and joining an empty dataset
terminated the process.
---
 .../include/ufjfmltk/core/Data.hpp            | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 07fa28a..5953575 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1582,6 +1582,7 @@ namespace mltk{
         std::vector<int> index1 = data.getIndex(), antindex = index;
         auto points1 = data.points();
 
+        if(size1 == 0) return;
         if(m_dim > dim1){
             std::cerr << "Error: sample1 dimension must be less or equal to sample2\n";
             exit(1);
@@ -1602,22 +1603,24 @@ namespace mltk{
         this->resetIndex();
 
         std::vector<int> diff, classes1 = data.classes(), classes = m_classes;
+        std::vector<std::string> classes_names1 = data.classesNames();
+        std::map<int, std::string> names1;
+        for(j = 0; j < classes1.size(); j++){
+            names1[classes1[j]] = (j < classes_names1.size()) ? classes_names1[j] : std::to_string(classes1[j]);
+        }
         std::sort(classes.begin(), classes.end());
         std::sort(classes1.begin(), classes1.end());
         std::set_difference(classes1.begin(), classes1.end(), classes.begin(), classes.end(),
                             std::inserter(diff, diff.begin()));
         m_classes.reserve(m_classes.size()+diff.size());
         m_classes.insert(m_classes.end(), diff.begin(), diff.end());
+        for(const auto &c: diff){
+            class_names.push_back(names1[c]);
+        }
 
-        std::vector<std::string> diff_names, classes_names1 = data.classesNames(), classes_names = class_names;
-        std::sort(classes_names.begin(), classes_names.end());
-        std::sort(classes_names1.begin(), classes_names1.end());
-        std::set_difference(classes_names1.begin(), classes_names1.end(), classes_names.begin(), classes_names.end(),
-                            std::inserter(diff_names, diff_names.begin()));
-        class_names.reserve(class_names.size()+diff_names.size());
-        class_names.insert(class_names.end(), diff_names.begin(), diff_names.end());
-
-        class_distribution.assign(m_classes.size(), 0);
+        m_dim = this->dim();
+        is_empty = false;
+        cdist_computed = false;
         computeClassesDistribution();
         if(fnames.empty()){
             fnames = data.getFeaturesNames();
-- 
2.43.0


From 3c5ddc0ceeb2e557fedcbd34f61839ecd6b70f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 07/99] fix: computeClassesDistribution registers labels
 missing from the class list

A label that is not in the class list was counted past the end of the
distribution vector.
---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 5953575..e9e02f7 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1832,6 +1832,11 @@ namespace mltk{
             int c = p->Y();
             auto class_it = std::find(this->m_classes.begin(), this->m_classes.end(), c);
             size_t class_pos = class_it - this->m_classes.begin();
+            if(class_it == this->m_classes.end()){
+                this->m_classes.push_back(c);
+                this->class_names.push_back(std::to_string(c));
+                this->class_distribution.push_back(0);
+            }
             class_distribution[class_pos]++;
         }
     }
-- 
2.43.0


From 2fea2032d0baa4d47c07281b5addee8a9b6ed0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 08/99] fix: clear also empties the class distribution

Points inserted after clear() were counted behind the stale counts.
---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index e9e02f7..a45b6b6 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1715,6 +1715,7 @@ namespace mltk{
         index.clear();
         m_classes.clear();
         class_names.clear();
+        class_distribution.clear();
         m_size = 0;
         m_dim = 0;
         normalized = false;
-- 
2.43.0


From 3a73ca3832174d59a4d169c913ad14fd166f84e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 09/99] fix: load replaces the previous content of the dataset

Loading into a dataset that already had classes accumulated the class
counts of both loads.
---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index a45b6b6..86de55b 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -627,6 +627,7 @@ namespace mltk{
 
     template<typename T>
     bool mltk::Data< T >::load(const std::string& file){
+        this->clear();
         Type t = identifyFileType(file);
         this->dataset_name = discover_dataset_name(file);
         this->cdist_computed = true;
@@ -654,6 +655,7 @@ namespace mltk{
 
     template<typename T>
     bool mltk::Data< T >::load(const std::string& file, bool _atEnd){
+        this->clear();
         Type t = identifyFileType(file);
         this->dataset_name = discover_dataset_name(file);
         this->cdist_computed = true;
-- 
2.43.0


From c9a67cf0fcc63512ce8b3162140e8cf066d7b4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 10/99] fix: copyZero yields a dataset without points

The target kept its own points and classes with a size of zero, and was
reported as not empty.
---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 86de55b..83754e7 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1570,12 +1570,11 @@ namespace mltk{
 
     template<typename T>
     void mltk::Data< T >::copyZero(const mltk::Data< T >& other){
+        this->clear();
         fnames = other.fnames;
         m_dim = other.m_dim;
-        m_size = 0;
-        is_empty = other.is_empty;
+        type = other.type;
         normalized = other.normalized;
-        cdist_computed = false;
     }
 
     template<typename T>
-- 
2.43.0


From 75836322ecaec81d82e11ae74bdc2f8fd8490164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 11/99] fix: classesCopy describes the points it copied

The index covered the whole source, class names and counts were missing,
and a second call appended to the points of the first.
---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp     | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 83754e7..b0cbac9 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1507,6 +1507,7 @@ namespace mltk{
         for(auto c: classes){
             _classes.insert(c);
         }
+        this->clear();
         for(size_t i = 0; i < _data.size(); i++){
             if(_classes.find(_data[i]->Y()) != _classes.end()){
                 this->m_points.push_back(std::make_shared<Point< T > >());
@@ -1521,14 +1522,21 @@ namespace mltk{
 
         this->fnames = _data.getFeaturesNames();
         this->m_size = _size;
+        auto data_classes = _data.classes();
+        auto data_names = _data.classesNames();
         this->m_classes = classes;
+        for(auto c: classes){
+            size_t pos = std::find(data_classes.begin(), data_classes.end(), c) - data_classes.begin();
+            this->class_names.push_back((pos < data_names.size()) ? data_names[pos] : std::to_string(c));
+        }
         this->m_dim = _data.dim();
         this->type = _data.getType();
-        this->index = _data.getIndex();
-        this->is_empty = _data.isEmpty();
+        this->resetIndex();
+        this->is_empty = (_size == 0);
         this->normalized = _data.isNormalized();
         this->time_mult = _data.getTime_mult();
         this->cdist_computed = false;
+        this->computeClassesDistribution();
     }
 
     template<typename T>
-- 
2.43.0


From 6bc9bf42ae1eb747ccd4d032738231964d996216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 12/99] fix: sampling draws from whole classes and terminates
 without replacement

Positions were drawn below the class quota instead of the class size (with
a negative bound for small quotas), positions already used in one class
blocked the next one forever, and a point drawn twice was inserted as one
shared object.
---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp      | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index b0cbac9..80d6cb7 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -2039,18 +2039,23 @@ namespace mltk{
         Point<double> class_dist(m_classes.size());
         std::vector<std::uniform_int_distribution<size_t>> dist;
 
-        auto temp_dist = classesDistribution();
+        std::vector<size_t> temp_dist;
+        for(const auto &class_data: classes_split){
+            temp_dist.push_back(class_data.size());
+        }
         for(int i = 0; i < temp_dist.size(); i++){
             class_dist[i] = (double(temp_dist[i]) / size()) * samp_size;
         }
         for(int i = 0; i < class_dist.size(); i++){
-            dist.emplace_back(0, class_dist[i]-1);
+            dist.emplace_back(0, (temp_dist[i] > 0) ? temp_dist[i]-1 : 0);
         }
         for(size_t i = 0; i < class_dist.size(); i++){
             class_dist[i] = (class_dist[i] < 1) ? 1 : std::floor(class_dist[i]);
+            if(temp_dist[i] == 0) class_dist[i] = 0;
         }
 
         for(size_t i = 0; i < class_dist.size(); i++){
+            ids.clear();
             for(size_t j = 0; j < class_dist[i]; j++){
                 std::size_t idx = dist[i](gen);
                 if(!with_replacement) {
@@ -2059,7 +2064,7 @@ namespace mltk{
                     }
                     ids.insert(idx);
                 }
-                sample.insertPoint(classes_split[i][idx]);
+                sample.insertPoint(*classes_split[i][idx]);
             }
         }
 
-- 
2.43.0


From 91c7fc365c24c3b7896af8b6a2a613f0851123a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 13/99] fix: non-stratified splits distribute the remaining
 points

size() % split_size points were left out of every partition, so they were
never used for training or testing in cross-validation.
---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 80d6cb7..92c0c92 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1887,9 +1887,10 @@ namespace mltk{
             return partitions;
         } 
 
-        size_t counter = 0;
+        size_t counter = 0, remainder = size() % split_size;
         for(size_t i = 0; i < partitions.size(); i++) {
-            for(size_t j = 0; j < new_size; j++) {
+            size_t part_size = new_size + ((i < remainder) ? 1 : 0);
+            for(size_t j = 0; j < part_size; j++) {
                 partitions[i].insertPoint(data[counter], keepIndex);
                 counter++;
                 if(counter == this->size()){
-- 
2.43.0


From ce8fb9db8824dc59c46711d292ca0569b0f46f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 14/99] fix: assigning a dataset copies its points like copy
 construction does

Assignment shared the point objects, so that changing one dataset changed
the other; copies lost the positive/negative class names and compared
different from their source.
---
 .../include/ufjfmltk/core/Data.hpp             | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 92c0c92..9ef530a 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1573,6 +1573,8 @@ namespace mltk{
         this->normalized = _data.isNormalized();
         this->time_mult = _data.getTime_mult();
         this->cdist_computed = _data.cdist_computed;
+        this->pos_class = _data.pos_class;
+        this->neg_class = _data.neg_class;
         this->dataset_name = _data.dataset_name;
     }
 
@@ -1697,21 +1699,7 @@ namespace mltk{
 
     template<typename T>
     mltk::Data< T >& mltk::Data< T >::operator=(const mltk::Data< T >& data){
-        m_points = data.m_points;
-        fnames = data.fnames;
-        index = data.index;
-        m_size = data.m_size;
-        m_dim = data.m_dim;
-        m_classes = data.m_classes;
-        class_distribution = data.class_distribution;
-        class_names = data.class_names;
-        time_mult = data.time_mult;
-        pos_class = data.pos_class;
-        neg_class = data.neg_class;
-        is_empty = data.is_empty;
-        normalized = data.normalized;
-        dataset_name = data.dataset_name;
-        type = data.type;
+        if(this != &data) this->copy(data);
 
         return *this;
     }
-- 
2.43.0


From 22af4849872cc75946a04658c481d9546037fba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 15/99] fix: removeFeatures accepts repeated feature names

A repeated name stopped the column removal while the following names were
still dropped from the name list.
---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 9ef530a..c1116fb 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1370,6 +1370,8 @@ namespace mltk{
 
         //Sort feats for remove features easily
         sort(feats.begin(), feats.end());
+        feats.erase(std::unique(feats.begin(), feats.end()), feats.end());
+        rsize = feats.size();
 
         //Check the existence of the features to be removed
         for(i = 0; i < rsize; i++){
-- 
2.43.0


From 3e56c1a7b38a93de4a701572dcc14c795ac4c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 16/99] fix: a numeric label keeps its value when the file also
 has the label -1

The first point of every numeric class seen after -1 was loaded with label
1 and the following ones with the label in the file.
---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp     | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index c1116fb..f453c48 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1147,13 +1147,11 @@ namespace mltk{
         if(class_name_it == class_names.end()){
             this->class_names.push_back(item);
             auto has_mone = std::find(class_names.begin(), class_names.end(), "-1");
-            if(has_mone == class_names.end()){
-                if(utils::is_number(item)) {
-                    c = std::stoi(item);
-                }else{
-                    auto pos = std::find(class_names.begin(), class_names.end(), item);
-                    c = (int)(pos - this->class_names.begin())+1;
-                }
+            if(utils::is_number(item)) {
+                c = std::stoi(item);
+            }else if(has_mone == class_names.end()){
+                auto pos = std::find(class_names.begin(), class_names.end(), item);
+                c = (int)(pos - this->class_names.begin())+1;
             }else{
                 c = 1;
             }
-- 
2.43.0


From 07c0102ddd4c8af42967a14c02d002e251dcb0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 17/99] fix: a data file with real-valued targets stays a
 regression dataset

The type detected while reading was overwritten with MultiClassification.
---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index f453c48..859aa05 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -921,10 +921,8 @@ namespace mltk{
             m_points[_size - 1]->Id() = _size;
         }
 
-        if(m_classes.size() == 2){
-            type = "BinClassification";
-        }else{
-            type = "MultiClassification";
+        if(this->isClassification()){
+            type = (m_classes.size() == 2) ? "BinClassification" : "MultiClassification";
         }
 
         input.close();
-- 
2.43.0


From 272b8d7f720db2f473926f0a7372cc43957b2cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 18/99] fix: two-fold splits test on the fold left out of the
 training set

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 26d0d30..822e4e5 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -474,7 +474,7 @@ namespace mltk::validation {
             train.join(data_folds[i]);
 
             int gone = 0;
-            int next_j=(i+2) % folds;
+            int next_j=(i+1) % folds;
 
             for(int j = (i+1) % folds; gone < folds-2; gone++, j = (j+1) % folds){
                 train.join(data_folds[j]);
-- 
2.43.0


From ae5b9157c0fe4c109dbbfaa9197d4ee7c2fad1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 19/99] fix: confusion matrix rows are the true classes

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 822e4e5..d498d5f 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -596,7 +596,7 @@ namespace mltk::validation {
                 }
                 if (idp && idy) break;
             }
-            confusion_m[idp][idy]++;
+            confusion_m[idy][idp]++;
         }
         return confusion_m;
     }
-- 
2.43.0


From d0adc516841c05777588409f2c059d58f7658bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 20/99] fix: accuracy of the metrics report counts the true
 negatives

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index d498d5f..4fd3398 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -566,7 +566,7 @@ namespace mltk::validation {
             }
         }
 
-        report.accuracy = (double)report.tp / data.size();
+        report.accuracy = (double)(report.tp + report.tn) / data.size();
         report.error = 1.0 - report.accuracy;
         report.errors = report.fp+report.fn;
         report.sensitivity = (double)report.tp/(report.tp + report.fn);
-- 
2.43.0


From 3f19a3395caddece75ee33e7cf709191bf28f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 21/99] fix: classification report computes its ratios in
 floating point

---
 .../include/ufjfmltk/valid/Validation.hpp              | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 4fd3398..dfdec9e 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -601,7 +601,7 @@ namespace mltk::validation {
         return confusion_m;
     }
 
-    ValidationReport classificationReport(const Point<int> &real, const Point<int> &predicted){
+    inline ValidationReport classificationReport(const Point<int> &real, const Point<int> &predicted){
         assert((real.size() == predicted.size()) && "Desired and predicted values points of different sizes. ");
         ValidationReport report;
         std::set<int> unique_labels;
@@ -628,10 +628,10 @@ namespace mltk::validation {
             }
         }
         report.accuracy /= real.size();
-        report.sensitivity = report.tp/(report.tp+report.fn);
-        report.specificity = report.tn/(report.fn+report.tn);
-        report.precision = report.tp/(report.tp+report.fp);
-        report.recall = report.tp/(report.tp+report.fn);
+        report.sensitivity = (double)report.tp/(report.tp+report.fn);
+        report.specificity = (double)report.tn/(report.fp+report.tn);
+        report.precision = (double)report.tp/(report.tp+report.fp);
+        report.recall = (double)report.tp/(report.tp+report.fn);
         report.fscore = 2*(report.precision*report.recall)/(report.precision + report.recall);
         return report;
     }
-- 
2.43.0


From 2c963ad9cd0cae2ceb2470ab1b1293b57d312b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 22/99] fix: k-fold report counts every prediction once

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index dfdec9e..ac3d9ca 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -320,7 +320,8 @@ namespace mltk::validation {
         ValidationReport solution;
 
         //Start cross-validation
-        for(size_t fp = 0, fn = 0, tp = 0, tn = 0, j = 0; j < fold; ++j){
+        for(size_t j = 0; j < fold; ++j){
+            size_t fp = 0, fn = 0, tp = 0, tn = 0;
             auto _test_sample = folds[j].test;
             auto _train_sample = folds[j].train;
             
@@ -407,6 +408,9 @@ namespace mltk::validation {
         }
         solution.error = (((double)error)/(double)fold);
         solution.accuracy = 100.0 - solution.error;
+        solution.precision /= fold;
+        solution.recall /= fold;
+        solution.tnrate /= fold;
         return solution;
     }
 
-- 
2.43.0


From 9662b9ac41f742f18480df84bb112f7afabfad49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 23/99] fix: feature operations do not require ascending
 feature names

---
 .../include/ufjfmltk/core/Data.hpp            | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 859aa05..266c2fe 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1301,7 +1301,7 @@ namespace mltk{
             //Copying features
             s = 0, offset = 0;
             for(j = 0; j < m_dim; j++){
-                if(offset < fsize && fnames[j] == ins_feat[offset]){
+                if(offset < fsize && std::binary_search(ins_feat.begin(), ins_feat.end(), fnames[j])){
                     saveflag = true;
                     offset++;
                 }
@@ -1386,14 +1386,12 @@ namespace mltk{
             if(m_points[i] == nullptr) std::clog << "WARNING: point is null." << std::endl;
 
             // Iterate through the point features
-            for(itr = m_points[i]->X().begin(),k = 0, j = 0; itr != m_points[i]->X().end();){
-                while(k < rsize && !exist[k]) k++; // go to next existent feature
-                if(k == rsize) break;              // Verify if is in the end of the feats vector
+            for(itr = m_points[i]->X().begin(), j = 0; itr != m_points[i]->X().end();){
+                k = std::lower_bound(feats.begin(), feats.end(), fnames[j]) - feats.begin();
 
-                // Feature to remove found, remove it from the point and go to the next feat to remove
-                if(fnames[j] == feats[k]){
+                // Feature to remove found, remove it from the point
+                if(k < rsize && exist[k] && fnames[j] == feats[k]){
                     itr = m_points[i]->X().erase(itr);
-                    k++;
                 }else{
                     itr++;
                 }
@@ -2063,19 +2061,21 @@ namespace mltk{
         std::sort(feats.begin(), feats.end());
         size_t _size = (size == -1)?feats.size():size;
         Data<T> new_data;
-        std::vector<size_t> feats_pos(feats.size());
-        int i, j, invalid;
+        std::vector<size_t> feats_pos;
+        int i, invalid = 0;
 
-        for(i = 0, j = 0, invalid=0; (i < fnames.size()) && (invalid < feats.size()) && (j < feats.size()); ){
-            if(feats[j] < 1) { invalid++; j++; continue; }
-            if(fnames[i] == feats[j]){
-                feats_pos[j] = i;
-                j++;
+        feats.resize(std::min(_size, feats.size()));
+        for(auto const& feat: feats){
+            if(feat < 1) invalid++;
+        }
+        for(i = 0; i < fnames.size(); i++){
+            if(fnames[i] > 0 && std::binary_search(feats.begin(), feats.end(), size_t(fnames[i]))){
+                feats_pos.push_back(i);
             }
-            i++;
         }
+        _size = feats.size();
 
-        assert((j == feats.size()) && "There are non-existing features on remove set.");
+        assert((feats_pos.size() + invalid == _size) && "There are non-existing features on remove set.");
         
         for(auto const& point: this->m_points){
             auto new_point = make_point<T>(_size-invalid);
-- 
2.43.0


From c2470f2a88c74f499e25d5500c996daaadf11ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:52 +0000
Subject: [PATCH 24/99] fix: copies of a dataset without points keep its
 dimension

copy() and classesCopy() took dim(), which is 0 without points, although the
feature names were copied: a copy of an emptied dataset did not compare equal
to its source and removeFeatures read past the end of its names.
---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 266c2fe..80e9eed 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1525,7 +1525,7 @@ namespace mltk{
             size_t pos = std::find(data_classes.begin(), data_classes.end(), c) - data_classes.begin();
             this->class_names.push_back((pos < data_names.size()) ? data_names[pos] : std::to_string(c));
         }
-        this->m_dim = _data.dim();
+        this->m_dim = _data.m_dim;
         this->type = _data.getType();
         this->resetIndex();
         this->is_empty = (_size == 0);
@@ -1562,7 +1562,7 @@ namespace mltk{
         this->m_classes = _data.classes();
         this->class_names = _data.classesNames();
         this->class_distribution = _data.classesDistribution();
-        this->m_dim = _data.dim();
+        this->m_dim = _data.m_dim;
         this->type = _data.getType();
         this->index = _data.getIndex();
         this->is_empty = _data.isEmpty();
-- 
2.43.0


From 41bd176da2ebfc6b16aaacd4209fa301735f9104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:38 +0000
Subject: [PATCH 25/99] fix: numbers with an exponent are read with their
 exponent

atod() stopped at 'e', although write() prints large and small values in
scientific notation and is_number() accepts it: 1e+06 was read as 1.
---
 subprojects/ufjfmltk-core/src/Utils.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index 3a1fa13..acb6612 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -4,6 +4,7 @@
    \author Mateus Coutinho Marim
 */
 #include <cmath>
+#include <cstdlib>
 #include <sstream>
 #include <algorithm>
 #include <iostream>
@@ -54,7 +55,16 @@ namespace mltk::utils{
                 val = 10.0 * val + (s[i] - '0');
                 power *= 10;
             }
-            return sign * val / power;
+            val = sign * val / power;
+            if (s[i] == 'e' || s[i] == 'E') {
+                int exponent = std::atoi(s + i + 1);
+                for (; exponent > 0; exponent--)
+                    val *= 10;
+                for (power = 1.0; exponent < 0; exponent++)
+                    power *= 10;
+                val /= power;
+            }
+            return val;
         }
 
         std::string itos(int n){
-- 
2.43.0


From 98ec0180b80326725dc8df51e63cff67d348598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:27 +0000
Subject: [PATCH 26/99] fix: .data targets are recognised at either end of the
 line

The type was guessed from the last item of the second line, which is a
feature name in files with the label first (all files the library writes):
real-valued targets were read as truncated class labels.
---
 .../include/ufjfmltk/core/Data.hpp             | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 80e9eed..d2271b8 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -837,15 +837,17 @@ namespace mltk{
 
                 ss1.str(item);
                 ss1.clear();
-                while(_size > 0 && std::getline(ss1, item, ':')) {
-                    if(_dim == ldim && !type_detect){
-                        if(strchr(item.c_str(), '.')){
-                            this->type = "Regression";
-                        }else{
-                            this->type = "Classification";
-                        }
+                // the label is the only item without a feature name, it may be at either end
+                if(!pch){
+                    if(strchr(item.c_str(), '.')){
+                        this->type = "Regression";
                         type_detect = true;
-                    }else if(_dim < ldim && !utils::is_number(item)){
+                    }else if(!type_detect){
+                        this->type = "Classification";
+                    }
+                }
+                while(_size > 0 && std::getline(ss1, item, ':')) {
+                    if(_dim < ldim && !utils::is_number(item)){
                         std::clog << "Warning (line: " << _size << "): feature " << _dim << " is not a number." << std::endl;
                     }
                 }
-- 
2.43.0


From 5a4f11a9e81a7d2f8d0cded57b60f9f474568226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:06 +0000
Subject: [PATCH 27/99] fix: a worker does not take a task after the pool was
 paused and waited for

The pause flag was read before the queue was locked: a worker that had read it
could still take a task after pause + wait_for_tasks() had returned.
---
 .../include/ufjfmltk/core/ThreadPool.hpp      | 1094 ++++++++---------
 1 file changed, 547 insertions(+), 547 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
index 42e87ee..edc2edd 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
@@ -1,548 +1,548 @@
-#pragma once
-
-/**
- * @file thread_pool.hpp
- * @author Barak Shoshany (baraksh@gmail.com) (http://baraksh.com)
- * @version 2.0.0
- * @date 2021-08-14
- * @copyright Copyright (c) 2021 Barak Shoshany. Licensed under the MIT license. If you use this library in published research, please cite it as follows:
- *  - Barak Shoshany, "A C++17 Thread Pool for High-Performance Scientific Computing", doi:10.5281/zenodo.4742687, arXiv:2105.00613 (May 2021)
- *
- * @brief A C++17 thread pool for high-performance scientific computing.
- * @details A modern C++17-compatible thread pool implementation, built from scratch with high-performance scientific computing in mind. The thread pool is implemented as a single lightweight and self-contained class, and does not have any dependencies other than the C++17 standard library, thus allowing a great degree of portability. In particular, this implementation does not utilize OpenMP or any other high-level multithreading APIs, and thus gives the programmer precise low-level control over the details of the parallelization, which permits more robust optimizations. The thread pool was extensively tested on both AMD and Intel CPUs with up to 40 cores and 80 threads. Other features include automatic generation of futures and easy parallelization of loops. Two helper classes enable synchronizing printing to an output stream by different threads and measuring execution time for benchmarking purposes. Please visit the GitHub repository at https://github.com/bshoshany/thread-pool for documentation and updates, or to submit feature requests and bug reports.
- */
-
-#define THREAD_POOL_VERSION "v2.0.0 (2021-08-14)"
-
-#include <atomic>      // std::atomic
-#include <chrono>      // std::chrono
-#include <cstdint>     // std::int_fast64_t, std::uint_fast32_t
-#include <functional>  // std::function
-#include <future>      // std::future, std::promise
-#include <iostream>    // std::cout, std::ostream
-#include <memory>      // std::shared_ptr, std::unique_ptr
-#include <mutex>       // std::mutex, std::scoped_lock
-#include <queue>       // std::queue
-#include <thread>      // std::this_thread, std::thread
-#include <type_traits> // std::common_type_t, std::decay_t, std::enable_if_t, std::is_void_v, std::invoke_result_t
-#include <utility>     // std::move
-
-
-namespace mltk {
-// ============================================================================================= //
-//                                    Begin class thread_pool                                    //
-
-/**
- * @brief A C++17 thread pool class. The user submits tasks to be executed into a queue. Whenever a thread becomes available, it pops a task from the queue and executes it. Each task is automatically assigned a future, which can be used to wait for the task to finish executing and/or obtain its eventual return value.
- */
-class ThreadPool
-{
-    typedef std::uint_fast32_t ui32;
-    typedef std::uint_fast64_t ui64;
-
-public:
-    // ============================
-    // Constructors and destructors
-    // ============================
-
-    /**
-     * @brief Construct a new thread pool.
-     *
-     * @param _thread_count The number of threads to use. The default value is the total number of hardware threads available, as reported by the implementation. With a hyperthreaded CPU, this will be twice the number of CPU cores. If the argument is zero, the default value will be used instead.
-     */
-    ThreadPool(const ui32 &_thread_count = std::thread::hardware_concurrency())
-        : thread_count(_thread_count ? _thread_count : std::thread::hardware_concurrency()), threads(new std::thread[_thread_count ? _thread_count : std::thread::hardware_concurrency()])
-    {
-        create_threads();
-    }
-
-    /**
-     * @brief Destruct the thread pool. Waits for all tasks to complete, then destroys all threads. Note that if the variable paused is set to true, then any tasks still in the queue will never be executed.
-     */
-    ~ThreadPool()
-    {
-        wait_for_tasks();
-        running = false;
-        destroy_threads();
-    }
-
-    // =======================
-    // Public member functions
-    // =======================
-
-    /**
-     * @brief Get the number of tasks currently waiting in the queue to be executed by the threads.
-     *
-     * @return The number of queued tasks.
-     */
-    ui64 get_tasks_queued() const
-    {
-        const std::scoped_lock lock(queue_mutex);
-        return tasks.size();
-    }
-
-    /**
-     * @brief Get the number of tasks currently being executed by the threads.
-     *
-     * @return The number of running tasks.
-     */
-    ui32 get_tasks_running() const
-    {
-        return tasks_total - (ui32)get_tasks_queued();
-    }
-
-    /**
-     * @brief Get the total number of unfinished tasks - either still in the queue, or running in a thread.
-     *
-     * @return The total number of tasks.
-     */
-    ui32 get_tasks_total() const
-    {
-        return tasks_total;
-    }
-
-    /**
-     * @brief Get the number of threads in the pool.
-     *
-     * @return The number of threads.
-     */
-    ui32 get_thread_count() const
-    {
-        return thread_count;
-    }
-
-    /**
-     * @brief Parallelize a loop by splitting it into blocks, submitting each block separately to the thread pool, and waiting for all blocks to finish executing. The user supplies a loop function, which will be called once per block and should iterate over the block's range.
-     *
-     * @tparam T1 The type of the first index in the loop. Should be a signed or unsigned integer.
-     * @tparam T2 The type of the index after the last index in the loop. Should be a signed or unsigned integer. If T1 is not the same as T2, a common type will be automatically inferred.
-     * @tparam F The type of the function to loop through.
-     * @param first_index The first index in the loop.
-     * @param index_after_last The index after the last index in the loop. The loop will iterate from first_index to (index_after_last - 1) inclusive. In other words, it will be equivalent to "for (T i = first_index; i < index_after_last; i++)". Note that if first_index == index_after_last, the function will terminate without doing anything.
-     * @param loop The function to loop through. Will be called once per block. Should take exactly two arguments: the first index in the block and the index after the last index in the block. loop(start, end) should typically involve a loop of the form "for (T i = start; i < end; i++)".
-     * @param num_blocks The maximum number of blocks to split the loop into. The default is to use the number of threads in the pool.
-     */
-    template <typename T1, typename T2, typename F>
-    void parallelize_loop(const T1 &first_index, const T2 &index_after_last, const F &loop, ui32 num_blocks = 0)
-    {
-        typedef std::common_type_t<T1, T2> T;
-        T the_first_index = (T)first_index;
-        T last_index = (T)index_after_last;
-        if (the_first_index == last_index)
-            return;
-        if (last_index < the_first_index)
-        {
-            T temp = last_index;
-            last_index = the_first_index;
-            the_first_index = temp;
-        }
-        last_index--;
-        if (num_blocks == 0)
-            num_blocks = thread_count;
-        ui64 total_size = (ui64)(last_index - the_first_index + 1);
-        ui64 block_size = (ui64)(total_size / num_blocks);
-        if (block_size == 0)
-        {
-            block_size = 1;
-            num_blocks = (ui32)total_size > 1 ? (ui32)total_size : 1;
-        }
-        std::atomic<ui32> blocks_running = 0;
-        for (ui32 t = 0; t < num_blocks; t++)
-        {
-            T start = ((T)(t * block_size) + the_first_index);
-            T end = (t == num_blocks - 1) ? last_index + 1 : ((T)((t + 1) * block_size) + the_first_index);
-            blocks_running++;
-            push_task([start, end, &loop, &blocks_running]
-                      {
-                          loop(start, end);
-                          blocks_running--;
-                      });
-        }
-        while (blocks_running != 0)
-        {
-            sleep_or_yield();
-        }
-    }
-
-    /**
-     * @brief Push a function with no arguments or return value into the task queue.
-     *
-     * @tparam F The type of the function.
-     * @param task The function to push.
-     */
-    template <typename F>
-    void push_task(const F &task)
-    {
-        tasks_total++;
-        {
-            const std::scoped_lock lock(queue_mutex);
-            tasks.push(std::function<void()>(task));
-        }
-    }
-
-    /**
-     * @brief Push a function with arguments, but no return value, into the task queue.
-     * @details The function is wrapped inside a lambda in order to hide the arguments, as the tasks in the queue must be of type std::function<void()>, so they cannot have any arguments or return value. If no arguments are provided, the other overload will be used, in order to avoid the (slight) overhead of using a lambda.
-     *
-     * @tparam F The type of the function.
-     * @tparam A The types of the arguments.
-     * @param task The function to push.
-     * @param args The arguments to pass to the function.
-     */
-    template <typename F, typename... A>
-    void push_task(const F &task, const A &...args)
-    {
-        push_task([task, args...]
-                  { task(args...); });
-    }
-
-    /**
-     * @brief Reset the number of threads in the pool. Waits for all currently running tasks to be completed, then destroys all threads in the pool and creates a new thread pool with the new number of threads. Any tasks that were waiting in the queue before the pool was reset will then be executed by the new threads. If the pool was paused before resetting it, the new pool will be paused as well.
-     *
-     * @param _thread_count The number of threads to use. The default value is the total number of hardware threads available, as reported by the implementation. With a hyperthreaded CPU, this will be twice the number of CPU cores. If the argument is zero, the default value will be used instead.
-     */
-    void reset(const ui32 &_thread_count = std::thread::hardware_concurrency())
-    {
-        bool was_paused = paused;
-        paused = true;
-        wait_for_tasks();
-        running = false;
-        destroy_threads();
-        thread_count = _thread_count ? _thread_count : std::thread::hardware_concurrency();
-        threads.reset(new std::thread[thread_count]);
-        paused = was_paused;
-        running = true;
-        create_threads();
-    }
-
-    /**
-     * @brief Submit a function with zero or more arguments and no return value into the task queue, and get an std::future<bool> that will be set to true upon completion of the task.
-     *
-     * @tparam F The type of the function.
-     * @tparam A The types of the zero or more arguments to pass to the function.
-     * @param task The function to submit.
-     * @param args The zero or more arguments to pass to the function.
-     * @return A future to be used later to check if the function has finished its execution.
-     */
-    template <typename F, typename... A, typename = std::enable_if_t<std::is_void_v<std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>>>>
-    std::future<bool> submit(const F &task, const A &...args)
-    {
-        std::shared_ptr<std::promise<bool>> task_promise(new std::promise<bool>);
-        std::future<bool> future = task_promise->get_future();
-        push_task([task, args..., task_promise]
-                  {
-                      try
-                      {
-                          task(args...);
-                          task_promise->set_value(true);
-                      }
-                      catch (...)
-                      {
-                          try
-                          {
-                              task_promise->set_exception(std::current_exception());
-                          }
-                          catch (...)
-                          {
-                          }
-                      }
-                  });
-        return future;
-    }
-
-    /**
-     * @brief Submit a function with zero or more arguments and a return value into the task queue, and get a future for its eventual returned value.
-     *
-     * @tparam F The type of the function.
-     * @tparam A The types of the zero or more arguments to pass to the function.
-     * @tparam R The return type of the function.
-     * @param task The function to submit.
-     * @param args The zero or more arguments to pass to the function.
-     * @return A future to be used later to obtain the function's returned value, waiting for it to finish its execution if needed.
-     */
-    template <typename F, typename... A, typename R = std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>, typename = std::enable_if_t<!std::is_void_v<R>>>
-    std::future<R> submit(const F &task, const A &...args)
-    {
-        std::shared_ptr<std::promise<R>> task_promise(new std::promise<R>);
-        std::future<R> future = task_promise->get_future();
-        push_task([task, args..., task_promise]
-                  {
-                      try
-                      {
-                          task_promise->set_value(task(args...));
-                      }
-                      catch (...)
-                      {
-                          try
-                          {
-                              task_promise->set_exception(std::current_exception());
-                          }
-                          catch (...)
-                          {
-                          }
-                      }
-                  });
-        return future;
-    }
-
-    /**
-     * @brief Wait for tasks to be completed. Normally, this function waits for all tasks, both those that are currently running in the threads and those that are still waiting in the queue. However, if the variable paused is set to true, this function only waits for the currently running tasks (otherwise it would wait forever). To wait for a specific task, use submit() instead, and call the wait() member function of the generated future.
-     */
-    void wait_for_tasks()
-    {
-        while (true)
-        {
-            if (!paused)
-            {
-                if (tasks_total == 0)
-                    break;
-            }
-            else
-            {
-                if (get_tasks_running() == 0)
-                    break;
-            }
-            sleep_or_yield();
-        }
-    }
-
-    // ===========
-    // Public data
-    // ===========
-
-    /**
-     * @brief An atomic variable indicating to the workers to pause. When set to true, the workers temporarily stop popping new tasks out of the queue, although any tasks already executed will keep running until they are done. Set to false again to resume popping tasks.
-     */
-    std::atomic<bool> paused = false;
-
-    /**
-     * @brief The duration, in microseconds, that the worker function should sleep for when it cannot find any tasks in the queue. If set to 0, then instead of sleeping, the worker function will execute std::this_thread::yield() if there are no tasks in the queue. The default value is 1000.
-     */
-    ui32 sleep_duration = 1000;
-
-private:
-    // ========================
-    // Private member functions
-    // ========================
-
-    /**
-     * @brief Create the threads in the pool and assign a worker to each thread.
-     */
-    void create_threads()
-    {
-        for (ui32 i = 0; i < thread_count; i++)
-        {
-            threads[i] = std::thread(&ThreadPool::worker, this);
-        }
-    }
-
-    /**
-     * @brief Destroy the threads in the pool by joining them.
-     */
-    void destroy_threads()
-    {
-        for (ui32 i = 0; i < thread_count; i++)
-        {
-            threads[i].join();
-        }
-    }
-
-    /**
-     * @brief Try to pop a new task out of the queue.
-     *
-     * @param task A reference to the task. Will be populated with a function if the queue is not empty.
-     * @return true if a task was found, false if the queue is empty.
-     */
-    bool pop_task(std::function<void()> &task)
-    {
-        const std::scoped_lock lock(queue_mutex);
-        if (tasks.empty())
-            return false;
-        else
-        {
-            task = std::move(tasks.front());
-            tasks.pop();
-            return true;
-        }
-    }
-
-    /**
-     * @brief Sleep for sleep_duration microseconds. If that variable is set to zero, yield instead.
-     *
-     */
-    void sleep_or_yield()
-    {
-        if (sleep_duration)
-            std::this_thread::sleep_for(std::chrono::microseconds(sleep_duration));
-        else
-            std::this_thread::yield();
-    }
-
-    /**
-     * @brief A worker function to be assigned to each thread in the pool. Continuously pops tasks out of the queue and executes them, as long as the atomic variable running is set to true.
-     */
-    void worker()
-    {
-        while (running)
-        {
-            std::function<void()> task;
-            if (!paused && pop_task(task))
-            {
-                task();
-                tasks_total--;
-            }
-            else
-            {
-                sleep_or_yield();
-            }
-        }
-    }
-
-    // ============
-    // Private data
-    // ============
-
-    /**
-     * @brief A mutex to synchronize access to the task queue by different threads.
-     */
-    mutable std::mutex queue_mutex = {};
-
-    /**
-     * @brief An atomic variable indicating to the workers to keep running. When set to false, the workers permanently stop working.
-     */
-    std::atomic<bool> running = true;
-
-    /**
-     * @brief A queue of tasks to be executed by the threads.
-     */
-    std::queue<std::function<void()>> tasks = {};
-
-    /**
-     * @brief The number of threads in the pool.
-     */
-    ui32 thread_count;
-
-    /**
-     * @brief A smart pointer to manage the memory allocated for the threads.
-     */
-    std::unique_ptr<std::thread[]> threads;
-
-    /**
-     * @brief An atomic variable to keep track of the total number of unfinished tasks - either still in the queue, or running in a thread.
-     */
-    std::atomic<ui32> tasks_total = 0;
-};
-
-//                                     End class thread_pool                                     //
-// ============================================================================================= //
-
-// ============================================================================================= //
-//                                   Begin class synced_stream                                   //
-
-/**
- * @brief A helper class to synchronize printing to an output stream by different threads.
- */
-class synced_stream
-{
-public:
-    /**
-     * @brief Construct a new synced stream.
-     *
-     * @param _out_stream The output stream to print to. The default value is std::cout.
-     */
-    synced_stream(std::ostream &_out_stream = std::cout)
-        : out_stream(_out_stream){};
-
-    /**
-     * @brief Print any number of items into the output stream. Ensures that no other threads print to this stream simultaneously, as long as they all exclusively use this synced_stream object to print.
-     *
-     * @tparam T The types of the items
-     * @param items The items to print.
-     */
-    template <typename... T>
-    void print(const T &...items)
-    {
-        const std::scoped_lock lock(stream_mutex);
-        (out_stream << ... << items);
-    }
-
-    /**
-     * @brief Print any number of items into the output stream, followed by a newline character. Ensures that no other threads print to this stream simultaneously, as long as they all exclusively use this synced_stream object to print.
-     *
-     * @tparam T The types of the items
-     * @param items The items to print.
-     */
-    template <typename... T>
-    void println(const T &...items)
-    {
-        print(items..., '\n');
-    }
-
-private:
-    /**
-     * @brief A mutex to synchronize printing.
-     */
-    mutable std::mutex stream_mutex = {};
-
-    /**
-     * @brief The output stream to print to.
-     */
-    std::ostream &out_stream;
-};
-
-//                                    End class synced_stream                                    //
-// ============================================================================================= //
-
-// ============================================================================================= //
-//                                       Begin class timer                                       //
-
-/**
- * @brief A helper class to measure execution time for benchmarking purposes.
- */
-class timer
-{
-    typedef std::int_fast64_t i64;
-
-public:
-    /**
-     * @brief Start (or restart) measuring time.
-     */
-    void start()
-    {
-        start_time = std::chrono::steady_clock::now();
-    }
-
-    /**
-     * @brief Stop measuring time and store the elapsed time since start().
-     */
-    void stop()
-    {
-        elapsed_time = std::chrono::steady_clock::now() - start_time;
-    }
-
-    /**
-     * @brief Get the number of milliseconds that have elapsed between start() and stop().
-     *
-     * @return The number of milliseconds.
-     */
-    i64 ms() const
-    {
-        return (std::chrono::duration_cast<std::chrono::milliseconds>(elapsed_time)).count();
-    }
-
-private:
-    /**
-     * @brief The time point when measuring started.
-     */
-    std::chrono::time_point<std::chrono::steady_clock> start_time = std::chrono::steady_clock::now();
-
-    /**
-     * @brief The duration that has elapsed between start() and stop().
-     */
-    std::chrono::duration<double> elapsed_time = std::chrono::duration<double>::zero();
-};
-
-//                                        End class timer                                        //
-// ============================================================================================= //
-
+#pragma once
+
+/**
+ * @file thread_pool.hpp
+ * @author Barak Shoshany (baraksh@gmail.com) (http://baraksh.com)
+ * @version 2.0.0
+ * @date 2021-08-14
+ * @copyright Copyright (c) 2021 Barak Shoshany. Licensed under the MIT license. If you use this library in published research, please cite it as follows:
+ *  - Barak Shoshany, "A C++17 Thread Pool for High-Performance Scientific Computing", doi:10.5281/zenodo.4742687, arXiv:2105.00613 (May 2021)
+ *
+ * @brief A C++17 thread pool for high-performance scientific computing.
+ * @details A modern C++17-compatible thread pool implementation, built from scratch with high-performance scientific computing in mind. The thread pool is implemented as a single lightweight and self-contained class, and does not have any dependencies other than the C++17 standard library, thus allowing a great degree of portability. In particular, this implementation does not utilize OpenMP or any other high-level multithreading APIs, and thus gives the programmer precise low-level control over the details of the parallelization, which permits more robust optimizations. The thread pool was extensively tested on both AMD and Intel CPUs with up to 40 cores and 80 threads. Other features include automatic generation of futures and easy parallelization of loops. Two helper classes enable synchronizing printing to an output stream by different threads and measuring execution time for benchmarking purposes. Please visit the GitHub repository at https://github.com/bshoshany/thread-pool for documentation and updates, or to submit feature requests and bug reports.
+ */
+
+#define THREAD_POOL_VERSION "v2.0.0 (2021-08-14)"
+
+#include <atomic>      // std::atomic
+#include <chrono>      // std::chrono
+#include <cstdint>     // std::int_fast64_t, std::uint_fast32_t
+#include <functional>  // std::function
+#include <future>      // std::future, std::promise
+#include <iostream>    // std::cout, std::ostream
+#include <memory>      // std::shared_ptr, std::unique_ptr
+#include <mutex>       // std::mutex, std::scoped_lock
+#include <queue>       // std::queue
+#include <thread>      // std::this_thread, std::thread
+#include <type_traits> // std::common_type_t, std::decay_t, std::enable_if_t, std::is_void_v, std::invoke_result_t
+#include <utility>     // std::move
+
+
+namespace mltk {
+// ============================================================================================= //
+//                                    Begin class thread_pool                                    //
+
+/**
+ * @brief A C++17 thread pool class. The user submits tasks to be executed into a queue. Whenever a thread becomes available, it pops a task from the queue and executes it. Each task is automatically assigned a future, which can be used to wait for the task to finish executing and/or obtain its eventual return value.
+ */
+class ThreadPool
+{
+    typedef std::uint_fast32_t ui32;
+    typedef std::uint_fast64_t ui64;
+
+public:
+    // ============================
+    // Constructors and destructors
+    // ============================
+
+    /**
+     * @brief Construct a new thread pool.
+     *
+     * @param _thread_count The number of threads to use. The default value is the total number of hardware threads available, as reported by the implementation. With a hyperthreaded CPU, this will be twice the number of CPU cores. If the argument is zero, the default value will be used instead.
+     */
+    ThreadPool(const ui32 &_thread_count = std::thread::hardware_concurrency())
+        : thread_count(_thread_count ? _thread_count : std::thread::hardware_concurrency()), threads(new std::thread[_thread_count ? _thread_count : std::thread::hardware_concurrency()])
+    {
+        create_threads();
+    }
+
+    /**
+     * @brief Destruct the thread pool. Waits for all tasks to complete, then destroys all threads. Note that if the variable paused is set to true, then any tasks still in the queue will never be executed.
+     */
+    ~ThreadPool()
+    {
+        wait_for_tasks();
+        running = false;
+        destroy_threads();
+    }
+
+    // =======================
+    // Public member functions
+    // =======================
+
+    /**
+     * @brief Get the number of tasks currently waiting in the queue to be executed by the threads.
+     *
+     * @return The number of queued tasks.
+     */
+    ui64 get_tasks_queued() const
+    {
+        const std::scoped_lock lock(queue_mutex);
+        return tasks.size();
+    }
+
+    /**
+     * @brief Get the number of tasks currently being executed by the threads.
+     *
+     * @return The number of running tasks.
+     */
+    ui32 get_tasks_running() const
+    {
+        return tasks_total - (ui32)get_tasks_queued();
+    }
+
+    /**
+     * @brief Get the total number of unfinished tasks - either still in the queue, or running in a thread.
+     *
+     * @return The total number of tasks.
+     */
+    ui32 get_tasks_total() const
+    {
+        return tasks_total;
+    }
+
+    /**
+     * @brief Get the number of threads in the pool.
+     *
+     * @return The number of threads.
+     */
+    ui32 get_thread_count() const
+    {
+        return thread_count;
+    }
+
+    /**
+     * @brief Parallelize a loop by splitting it into blocks, submitting each block separately to the thread pool, and waiting for all blocks to finish executing. The user supplies a loop function, which will be called once per block and should iterate over the block's range.
+     *
+     * @tparam T1 The type of the first index in the loop. Should be a signed or unsigned integer.
+     * @tparam T2 The type of the index after the last index in the loop. Should be a signed or unsigned integer. If T1 is not the same as T2, a common type will be automatically inferred.
+     * @tparam F The type of the function to loop through.
+     * @param first_index The first index in the loop.
+     * @param index_after_last The index after the last index in the loop. The loop will iterate from first_index to (index_after_last - 1) inclusive. In other words, it will be equivalent to "for (T i = first_index; i < index_after_last; i++)". Note that if first_index == index_after_last, the function will terminate without doing anything.
+     * @param loop The function to loop through. Will be called once per block. Should take exactly two arguments: the first index in the block and the index after the last index in the block. loop(start, end) should typically involve a loop of the form "for (T i = start; i < end; i++)".
+     * @param num_blocks The maximum number of blocks to split the loop into. The default is to use the number of threads in the pool.
+     */
+    template <typename T1, typename T2, typename F>
+    void parallelize_loop(const T1 &first_index, const T2 &index_after_last, const F &loop, ui32 num_blocks = 0)
+    {
+        typedef std::common_type_t<T1, T2> T;
+        T the_first_index = (T)first_index;
+        T last_index = (T)index_after_last;
+        if (the_first_index == last_index)
+            return;
+        if (last_index < the_first_index)
+        {
+            T temp = last_index;
+            last_index = the_first_index;
+            the_first_index = temp;
+        }
+        last_index--;
+        if (num_blocks == 0)
+            num_blocks = thread_count;
+        ui64 total_size = (ui64)(last_index - the_first_index + 1);
+        ui64 block_size = (ui64)(total_size / num_blocks);
+        if (block_size == 0)
+        {
+            block_size = 1;
+            num_blocks = (ui32)total_size > 1 ? (ui32)total_size : 1;
+        }
+        std::atomic<ui32> blocks_running = 0;
+        for (ui32 t = 0; t < num_blocks; t++)
+        {
+            T start = ((T)(t * block_size) + the_first_index);
+            T end = (t == num_blocks - 1) ? last_index + 1 : ((T)((t + 1) * block_size) + the_first_index);
+            blocks_running++;
+            push_task([start, end, &loop, &blocks_running]
+                      {
+                          loop(start, end);
+                          blocks_running--;
+                      });
+        }
+        while (blocks_running != 0)
+        {
+            sleep_or_yield();
+        }
+    }
+
+    /**
+     * @brief Push a function with no arguments or return value into the task queue.
+     *
+     * @tparam F The type of the function.
+     * @param task The function to push.
+     */
+    template <typename F>
+    void push_task(const F &task)
+    {
+        tasks_total++;
+        {
+            const std::scoped_lock lock(queue_mutex);
+            tasks.push(std::function<void()>(task));
+        }
+    }
+
+    /**
+     * @brief Push a function with arguments, but no return value, into the task queue.
+     * @details The function is wrapped inside a lambda in order to hide the arguments, as the tasks in the queue must be of type std::function<void()>, so they cannot have any arguments or return value. If no arguments are provided, the other overload will be used, in order to avoid the (slight) overhead of using a lambda.
+     *
+     * @tparam F The type of the function.
+     * @tparam A The types of the arguments.
+     * @param task The function to push.
+     * @param args The arguments to pass to the function.
+     */
+    template <typename F, typename... A>
+    void push_task(const F &task, const A &...args)
+    {
+        push_task([task, args...]
+                  { task(args...); });
+    }
+
+    /**
+     * @brief Reset the number of threads in the pool. Waits for all currently running tasks to be completed, then destroys all threads in the pool and creates a new thread pool with the new number of threads. Any tasks that were waiting in the queue before the pool was reset will then be executed by the new threads. If the pool was paused before resetting it, the new pool will be paused as well.
+     *
+     * @param _thread_count The number of threads to use. The default value is the total number of hardware threads available, as reported by the implementation. With a hyperthreaded CPU, this will be twice the number of CPU cores. If the argument is zero, the default value will be used instead.
+     */
+    void reset(const ui32 &_thread_count = std::thread::hardware_concurrency())
+    {
+        bool was_paused = paused;
+        paused = true;
+        wait_for_tasks();
+        running = false;
+        destroy_threads();
+        thread_count = _thread_count ? _thread_count : std::thread::hardware_concurrency();
+        threads.reset(new std::thread[thread_count]);
+        paused = was_paused;
+        running = true;
+        create_threads();
+    }
+
+    /**
+     * @brief Submit a function with zero or more arguments and no return value into the task queue, and get an std::future<bool> that will be set to true upon completion of the task.
+     *
+     * @tparam F The type of the function.
+     * @tparam A The types of the zero or more arguments to pass to the function.
+     * @param task The function to submit.
+     * @param args The zero or more arguments to pass to the function.
+     * @return A future to be used later to check if the function has finished its execution.
+     */
+    template <typename F, typename... A, typename = std::enable_if_t<std::is_void_v<std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>>>>
+    std::future<bool> submit(const F &task, const A &...args)
+    {
+        std::shared_ptr<std::promise<bool>> task_promise(new std::promise<bool>);
+        std::future<bool> future = task_promise->get_future();
+        push_task([task, args..., task_promise]
+                  {
+                      try
+                      {
+                          task(args...);
+                          task_promise->set_value(true);
+                      }
+                      catch (...)
+                      {
+                          try
+                          {
+                              task_promise->set_exception(std::current_exception());
+                          }
+                          catch (...)
+                          {
+                          }
+                      }
+                  });
+        return future;
+    }
+
+    /**
+     * @brief Submit a function with zero or more arguments and a return value into the task queue, and get a future for its eventual returned value.
+     *
+     * @tparam F The type of the function.
+     * @tparam A The types of the zero or more arguments to pass to the function.
+     * @tparam R The return type of the function.
+     * @param task The function to submit.
+     * @param args The zero or more arguments to pass to the function.
+     * @return A future to be used later to obtain the function's returned value, waiting for it to finish its execution if needed.
+     */
+    template <typename F, typename... A, typename R = std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>, typename = std::enable_if_t<!std::is_void_v<R>>>
+    std::future<R> submit(const F &task, const A &...args)
+    {
+        std::shared_ptr<std::promise<R>> task_promise(new std::promise<R>);
+        std::future<R> future = task_promise->get_future();
+        push_task([task, args..., task_promise]
+                  {
+                      try
+                      {
+                          task_promise->set_value(task(args...));
+                      }
+                      catch (...)
+                      {
+                          try
+                          {
+                              task_promise->set_exception(std::current_exception());
+                          }
+                          catch (...)
+                          {
+                          }
+                      }
+                  });
+        return future;
+    }
+
+    /**
+     * @brief Wait for tasks to be completed. Normally, this function waits for all tasks, both those that are currently running in the threads and those that are still waiting in the queue. However, if the variable paused is set to true, this function only waits for the currently running tasks (otherwise it would wait forever). To wait for a specific task, use submit() instead, and call the wait() member function of the generated future.
+     */
+    void wait_for_tasks()
+    {
+        while (true)
+        {
+            if (!paused)
+            {
+                if (tasks_total == 0)
+                    break;
+            }
+            else
+            {
+                if (get_tasks_running() == 0)
+                    break;
+            }
+            sleep_or_yield();
+        }
+    }
+
+    // ===========
+    // Public data
+    // ===========
+
+    /**
+     * @brief An atomic variable indicating to the workers to pause. When set to true, the workers temporarily stop popping new tasks out of the queue, although any tasks already executed will keep running until they are done. Set to false again to resume popping tasks.
+     */
+    std::atomic<bool> paused = false;
+
+    /**
+     * @brief The duration, in microseconds, that the worker function should sleep for when it cannot find any tasks in the queue. If set to 0, then instead of sleeping, the worker function will execute std::this_thread::yield() if there are no tasks in the queue. The default value is 1000.
+     */
+    ui32 sleep_duration = 1000;
+
+private:
+    // ========================
+    // Private member functions
+    // ========================
+
+    /**
+     * @brief Create the threads in the pool and assign a worker to each thread.
+     */
+    void create_threads()
+    {
+        for (ui32 i = 0; i < thread_count; i++)
+        {
+            threads[i] = std::thread(&ThreadPool::worker, this);
+        }
+    }
+
+    /**
+     * @brief Destroy the threads in the pool by joining them.
+     */
+    void destroy_threads()
+    {
+        for (ui32 i = 0; i < thread_count; i++)
+        {
+            threads[i].join();
+        }
+    }
+
+    /**
+     * @brief Try to pop a new task out of the queue.
+     *
+     * @param task A reference to the task. Will be populated with a function if the queue is not empty.
+     * @return true if a task was found, false if the queue is empty or the pool is paused.
+     */
+    bool pop_task(std::function<void()> &task)
+    {
+        const std::scoped_lock lock(queue_mutex);
+        if (paused || tasks.empty())
+            return false;
+        else
+        {
+            task = std::move(tasks.front());
+            tasks.pop();
+            return true;
+        }
+    }
+
+    /**
+     * @brief Sleep for sleep_duration microseconds. If that variable is set to zero, yield instead.
+     *
+     */
+    void sleep_or_yield()
+    {
+        if (sleep_duration)
+            std::this_thread::sleep_for(std::chrono::microseconds(sleep_duration));
+        else
+            std::this_thread::yield();
+    }
+
+    /**
+     * @brief A worker function to be assigned to each thread in the pool. Continuously pops tasks out of the queue and executes them, as long as the atomic variable running is set to true.
+     */
+    void worker()
+    {
+        while (running)
+        {
+            std::function<void()> task;
+            if (pop_task(task))
+            {
+                task();
+                tasks_total--;
+            }
+            else
+            {
+                sleep_or_yield();
+            }
+        }
+    }
+
+    // ============
+    // Private data
+    // ============
+
+    /**
+     * @brief A mutex to synchronize access to the task queue by different threads.
+     */
+    mutable std::mutex queue_mutex = {};
+
+    /**
+     * @brief An atomic variable indicating to the workers to keep running. When set to false, the workers permanently stop working.
+     */
+    std::atomic<bool> running = true;
+
+    /**
+     * @brief A queue of tasks to be executed by the threads.
+     */
+    std::queue<std::function<void()>> tasks = {};
+
+    /**
+     * @brief The number of threads in the pool.
+     */
+    ui32 thread_count;
+
+    /**
+     * @brief A smart pointer to manage the memory allocated for the threads.
+     */
+    std::unique_ptr<std::thread[]> threads;
+
+    /**
+     * @brief An atomic variable to keep track of the total number of unfinished tasks - either still in the queue, or running in a thread.
+     */
+    std::atomic<ui32> tasks_total = 0;
+};
+
+//                                     End class thread_pool                                     //
+// ============================================================================================= //
+
+// ============================================================================================= //
+//                                   Begin class synced_stream                                   //
+
+/**
+ * @brief A helper class to synchronize printing to an output stream by different threads.
+ */
+class synced_stream
+{
+public:
+    /**
+     * @brief Construct a new synced stream.
+     *
+     * @param _out_stream The output stream to print to. The default value is std::cout.
+     */
+    synced_stream(std::ostream &_out_stream = std::cout)
+        : out_stream(_out_stream){};
+
+    /**
+     * @brief Print any number of items into the output stream. Ensures that no other threads print to this stream simultaneously, as long as they all exclusively use this synced_stream object to print.
+     *
+     * @tparam T The types of the items
+     * @param items The items to print.
+     */
+    template <typename... T>
+    void print(const T &...items)
+    {
+        const std::scoped_lock lock(stream_mutex);
+        (out_stream << ... << items);
+    }
+
+    /**
+     * @brief Print any number of items into the output stream, followed by a newline character. Ensures that no other threads print to this stream simultaneously, as long as they all exclusively use this synced_stream object to print.
+     *
+     * @tparam T The types of the items
+     * @param items The items to print.
+     */
+    template <typename... T>
+    void println(const T &...items)
+    {
+        print(items..., '\n');
+    }
+
+private:
+    /**
+     * @brief A mutex to synchronize printing.
+     */
+    mutable std::mutex stream_mutex = {};
+
+    /**
+     * @brief The output stream to print to.
+     */
+    std::ostream &out_stream;
+};
+
+//                                    End class synced_stream                                    //
+// ============================================================================================= //
+
+// ============================================================================================= //
+//                                       Begin class timer                                       //
+
+/**
+ * @brief A helper class to measure execution time for benchmarking purposes.
+ */
+class timer
+{
+    typedef std::int_fast64_t i64;
+
+public:
+    /**
+     * @brief Start (or restart) measuring time.
+     */
+    void start()
+    {
+        start_time = std::chrono::steady_clock::now();
+    }
+
+    /**
+     * @brief Stop measuring time and store the elapsed time since start().
+     */
+    void stop()
+    {
+        elapsed_time = std::chrono::steady_clock::now() - start_time;
+    }
+
+    /**
+     * @brief Get the number of milliseconds that have elapsed between start() and stop().
+     *
+     * @return The number of milliseconds.
+     */
+    i64 ms() const
+    {
+        return (std::chrono::duration_cast<std::chrono::milliseconds>(elapsed_time)).count();
+    }
+
+private:
+    /**
+     * @brief The time point when measuring started.
+     */
+    std::chrono::time_point<std::chrono::steady_clock> start_time = std::chrono::steady_clock::now();
+
+    /**
+     * @brief The duration that has elapsed between start() and stop().
+     */
+    std::chrono::duration<double> elapsed_time = std::chrono::duration<double>::zero();
+};
+
+//                                        End class timer                                        //
+// ============================================================================================= //
+
 } // namespace mltk
\ No newline at end of file
-- 
2.43.0


From a430d1fdb0e688eb8674c276a433d40db1700fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:06 +0000
Subject: [PATCH 28/99] fix: count the running tasks while the queue is locked

The total was read before the queue: a task pushed in between made a running
task invisible and wait_for_tasks() of a paused pool returned early.
---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
index edc2edd..915ad7f 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
@@ -88,7 +88,8 @@ public:
      */
     ui32 get_tasks_running() const
     {
-        return tasks_total - (ui32)get_tasks_queued();
+        const std::scoped_lock lock(queue_mutex);
+        return tasks_total - (ui32)tasks.size();
     }
 
     /**
-- 
2.43.0


From cd9b36792f4dafdc57e72b0e4b2eaea83c5e71d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:09 +0000
Subject: [PATCH 29/99] fix: the maximum of a point may be zero or negative

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index 2d2cba6..2fbe61b 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -542,7 +542,7 @@ namespace mltk {
      */
     template < typename T, typename R >
     T max(const Point<T, R> &p){
-        T _max = std::numeric_limits<T>::min();
+        T _max = std::numeric_limits<T>::lowest();
         for(size_t i = 0; i < p.size(); i++){
             if(p[i] > _max) _max = p[i];
         }
-- 
2.43.0


From a1b5033bdae1ccc0fe3ed17c397cea99fd1c7afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:09 +0000
Subject: [PATCH 30/99] fix: distance matrix rows follow the ids of the points,
 not their positions

---
 .../include/ufjfmltk/core/DistanceMatrix.hpp   | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
index 340f042..c0e087a 100644
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
@@ -40,17 +40,17 @@ namespace mltk::metrics::dist {
             
             auto loop = [data, this](const int a, const int b) {
                 for(size_t idx = a; idx < b; idx++) {
-                    this->rows[idx] = mltk::Point<double>((isDiagonal) ? idx+1 : data.size());
+                    // the row of a point is given by its id and is written only by the thread that handles the point
+                    const size_t row = data(idx).Id()-1;
 
-                    for(size_t j = 0; j < idx; j++){
-                        this->rows[data(idx).Id()-1][data(j).Id()-1] = this->dist_function(data(idx), data(j));
-                    }
-                    
-                    if(isDiagonal) continue;
+                    this->rows[row] = mltk::Point<double>((isDiagonal) ? row+1 : data.size());
+
+                    for(size_t j = 0; j < data.size(); j++){
+                        const size_t col = data(j).Id()-1;
 
-                    for(size_t j = idx+1; j < data.size(); j++){
-                        this->rows[data(idx).Id()-1][data(j).Id()-1] = this->dist_function(data(idx), data(j));
-                    }    
+                        if(col == row || (isDiagonal && col > row)) continue;
+                        this->rows[row][col] = this->dist_function(data(idx), data(j));
+                    }
                 }
             };
 
-- 
2.43.0


From 3f9708507e3d9298ebe3ef2e951363f9c8688781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:09 +0000
Subject: [PATCH 31/99] fix: a query that is a training point is its own
 nearest neighbour with triangular distances

---
 .../include/ufjfmltk/classifier/KNNClassifier.hpp               | 2 --
 1 file changed, 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
index ba533b3..7f53085 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
@@ -98,8 +98,6 @@ namespace mltk{
                             size_t id2 = points[i2]->Id()-1;
                             size_t idp = p.Id()-1;
                             
-                            if(idp == id1 || idp == id2) return false;
-
                             size_t idp1 = (idp > id1) ? idp : id1;
                             size_t id1p = (idp > id1) ? id1 : idp;
                             
-- 
2.43.0


From 78be727e07069c470cc9d2fed5e99a35dc17c1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:03 +0000
Subject: [PATCH 32/99] fix: SMOTE interpolates towards neighbours of the
 minority class

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index ec274b3..52b0d8c 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -179,7 +179,7 @@ namespace mltk{
 
                 // get the k neighbors
                 for(size_t i = 0; (i < k) && (i < distance.size()); i++){
-                    k_neighbors[i] = data[distance[i].first-1];
+                    k_neighbors[i] = Z[distance[i].first-1];
                 }
 
                 // create the artificial points and insert them to the dataset
@@ -189,7 +189,7 @@ namespace mltk{
                     Point< T > s(_z.size(), 0.0, 0);
                     double alpha = distribution(generator);
                     
-                    s = _z + alpha * (_z - _k);
+                    s = _z + alpha * (_k - _z);
                     s.Y() = min_class;
 
                     artificial_data.push_back(mltk::make_point< T >(s));
-- 
2.43.0


From d0fa6e8435971eff09346643cf4b1e78f4ff3e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:04 +0000
Subject: [PATCH 33/99] fix: over-sampling accepts distances other than the
 default one

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index 52b0d8c..7ca7c2c 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -131,7 +131,7 @@ namespace mltk{
 
     public:
         explicit SMOTE(size_t k = 1, double r = 0.1, size_t seed = 0, Callable dist_metric = Callable())
-        : k(k), r(r), seed(seed), OverSampling<T>(dist_metric) {}
+        : k(k), r(r), seed(seed), OverSampling<T, Callable>(dist_metric) {}
 
         Data< T > operator()(Data< T > &data) override {
             std::random_device rd;
@@ -221,7 +221,7 @@ namespace mltk{
         
     public:
         explicit BorderlineSMOTEOne(size_t k = 1, double r = 0.1, size_t m = 1, size_t seed = 0, Callable dist_metric = Callable())
-        : k(k), r(r), m(m), seed(seed), OverSampling<T>(dist_metric) {}
+        : k(k), r(r), m(m), seed(seed), OverSampling<T, Callable>(dist_metric) {}
 
         Data< T > operator()(Data< T > &data) override {
             // Find the majority class
-- 
2.43.0


From 808b1e97e460d040d143916b46e2fdcb0651cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:09 +0000
Subject: [PATCH 34/99] fix: hard voting does not overwrite the weights of soft
 voting

---
 .../include/ufjfmltk/ensemble/VotingClassifier.hpp         | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index 4760255..2413f8f 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -38,10 +38,9 @@ namespace mltk{
             double evaluate(const Point<T> &p, bool raw_value = false) override {
                 auto _classes = this->samples->classes();
                 mltk::Point<double> votes(_classes.size(), 0.0);
-                if (voting_type == "soft") {
+                const bool soft = (voting_type == "soft");
+                if (soft) {
                     assert(this->weights.size() > 0);
-                } else {
-                    this->weights = Point<double>(this->m_learners.size(), 1);
                 }
                 for (size_t i = 0; i < this->m_learners.size(); i++) {
                     auto pred = this->m_learners[i]->evaluate(p);
@@ -50,7 +49,7 @@ namespace mltk{
                         return (a == pred);
                     }) - _classes.begin();
                     // count prediction as a vote
-                    votes[pred_pos] += this->weights[i];
+                    votes[pred_pos] += (soft) ? this->weights[i] : 1;
                 }
                 size_t max_votes = std::max_element(votes.X().begin(), votes.X().end()) - votes.X().begin();
                 return _classes[max_votes];
-- 
2.43.0


From b359f0cbee8a9e7b8df15978130782d2af8f07ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:09 +0000
Subject: [PATCH 35/99] fix: assigning a voting classifier copies its voting
 type and returns

---
 .../include/ufjfmltk/ensemble/VotingClassifier.hpp             | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index 2413f8f..7a20e0b 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -77,6 +77,9 @@ namespace mltk{
                 this->m_learners = voter.m_learners;
                 this->weights = voter.weights;
                 this->samples = voter.samples;
+                this->voting_type = voter.voting_type;
+
+                return *this;
             }
         };
     }
-- 
2.43.0


From eecf20bffa7b47094af02b96aca262512e3839d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:09 +0000
Subject: [PATCH 36/99] fix: boosting weighs each missed point once

The errors already held the weights, so the estimator error was a sum of
squared weights and the update depended on the weight instead of the miss.
---
 .../include/ufjfmltk/ensemble/AdaBoostClassifier.hpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
index 257004b..6ec3adb 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
@@ -39,12 +39,12 @@ namespace mltk {
                     learner->setSeed(this->seed+m);
                     learner->setSamples(this->samples);
                     learner->train();
-                    // compute the probability of miss classification for each point
+                    // mark the points missed by the estimator
                     Point<double> errors(_size, 0.0);
                     for(size_t i = 0; i < _size; i++){
                         auto point = (*this->samples)[i];
 
-                        if(point->Y() != learner->evaluate(*point)) errors[i] = weights[i];
+                        if(point->Y() != learner->evaluate(*point)) errors[i] = 1.0;
                     }
                     // compute the estimator error as the weighted average of each point error
                     err[m] = mltk::dot(weights, errors)/weights.sum();
-- 
2.43.0


From 2da876eb0f717441b738b753b0070c86b7e63a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:09 +0000
Subject: [PATCH 37/99] fix: classifiers return the raw score when it is asked
 for

One-vs-all compares raw scores, which were all 1 or -1.
---
 .../include/ufjfmltk/classifier/DualClassifier.hpp               | 1 +
 .../include/ufjfmltk/classifier/PrimalClassifier.hpp             | 1 +
 2 files changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
index e3eea10..cbc17ab 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
@@ -40,6 +40,7 @@ namespace mltk{
                     func += this->solution.alpha[r] * (*this->samples)[r]->Y() * fk;
                 }
 
+                if (raw_value) return func;
                 return (func >= 0) ? 1 : -1;
             }
 
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
index a57f638..20c5e84 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
@@ -53,6 +53,7 @@ namespace mltk{
                         func += this->solution.w[i] * p[i];
                     }
 
+                    if (raw_value) return func;
                     return (func >= 0) ? 1 : -1;
                 }
 
-- 
2.43.0


From 9dfda1fd6dbcbc040e2dad51fe0dfa7321bb5d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:27 +0000
Subject: [PATCH 38/99] fix: boosted estimators train on their own copy of the
 samples

The weights of the points are kept by position, but an estimator may shuffle
the samples it trains on.
---
 .../include/ufjfmltk/ensemble/AdaBoostClassifier.hpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
index 6ec3adb..ecd1b8a 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
@@ -37,7 +37,7 @@ namespace mltk {
                 for(size_t m = 0; m < n_estimators; m++){
                     auto learner = this->m_learners[m];
                     learner->setSeed(this->seed+m);
-                    learner->setSamples(this->samples);
+                    learner->setSamples(*this->samples);
                     learner->train();
                     // mark the points missed by the estimator
                     Point<double> errors(_size, 0.0);
-- 
2.43.0


From ef5dbff209f9f6f742fc6ce96d23159cb1bf09e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:50 +0000
Subject: [PATCH 39/99] fix: fixed margin dual perceptron starts from a zero
 norm without dividing by it

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 05eb6f7..c5131c1 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -504,7 +504,7 @@ namespace mltk{
                     //Checking if the point is a mistake
 
                     if (y * func[idx] - this->gamma * norm <= 0) {
-                        lambda = (this->gamma) ? (1 - this->rate * this->gamma / norm) : 1;
+                        lambda = (norm != 0.0) ? (1 - this->rate * this->gamma / norm) : 1;
                         norm *= lambda;
 
                         for (r = 0; r < size; ++r) {
-- 
2.43.0


From 9ef8347170babab7b584e69e1b710b420674ad2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:50 +0000
Subject: [PATCH 40/99] fix: norm of the fixed margin dual perceptron uses the
 function value before the update

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index c5131c1..5664edc 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -506,14 +506,14 @@ namespace mltk{
                     if (y * func[idx] - this->gamma * norm <= 0) {
                         lambda = (norm != 0.0) ? (1 - this->rate * this->gamma / norm) : 1;
                         norm *= lambda;
+                        norm = sqrt(norm * norm + tworate * (*this->samples)[idx]->Y() * lambda * (func[idx] - bias) +
+                                    sqrate * (*K)[idx][idx]);
 
                         for (r = 0; r < size; ++r) {
                             (*this->samples)[r]->Alpha() *= lambda;
                             func[r] = lambda * func[r] + this->rate * y * ((*K)[idx][r] + 1) + bias * (1 - lambda);
                         }
 
-                        norm = sqrt(norm * norm + tworate * (*this->samples)[idx]->Y() * lambda * (func[idx] - bias) +
-                                    sqrate * (*K)[idx][idx]);
                         (*this->samples)[idx]->Alpha() += this->rate;
 
                         bias += this->rate * y;
-- 
2.43.0


From be088ede46a53f630440128eee2ec44311a01af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:50 +0000
Subject: [PATCH 41/99] fix: largest weight of the L1 formulation includes the
 updated first component

---
 .../include/ufjfmltk/classifier/IMA.hpp                    | 7 ++++---
 .../include/ufjfmltk/classifier/Perceptron.hpp             | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 0ff4e8c..0291250 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -438,8 +438,6 @@ namespace mltk{
                             norm = sqrt(sumnorm);
                         } else if (this->q == -1.0) //L1
                         {
-                            maiorw_temp = fabs(this->w[0]);
-                            n_temp = 1;
                             for (j = 0; j < dim; ++j) {
                                 if (this->maiorw == 0 ||
                                     fabs(this->maiorw - fabs(this->w[j])) / this->maiorw < this->EPS) {
@@ -450,7 +448,10 @@ namespace mltk{
                                 } else
                                     this->w[j] += this->rate * (y * x[j]);
 
-                                if (j > 0) {
+                                if (j == 0) {
+                                    maiorw_temp = fabs(this->w[0]);
+                                    n_temp = 1;
+                                } else {
                                     if (fabs(maiorw_temp - fabs(this->w[j])) / maiorw_temp < this->EPS)
                                         n_temp++;
                                     else if (fabs(this->w[j]) > maiorw_temp) {
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 5664edc..127da54 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -295,8 +295,6 @@ namespace mltk{
                             }
                             norm = sqrt(sumnorm);
                         } else if (this->q == -1.0) { //L1
-                            largw_temp = fabs(w[0]);
-                            n_temp = 1;
                             for (j = 0; j < dim; ++j) {
                                 if (largw == 0 || fabs(largw - fabs(w[j])) / largw < this->EPS) {
                                     sign = (w[j] < 0) ? -1 : 1;
@@ -305,7 +303,10 @@ namespace mltk{
                                 } else
                                     w[j] += this->rate * (y * x[j]);
 
-                                if (j > 0) {
+                                if (j == 0) {
+                                    largw_temp = fabs(w[0]);
+                                    n_temp = 1;
+                                } else {
                                     if (fabs(largw_temp - fabs(w[j])) / largw_temp < this->EPS)
                                         n_temp++;
                                     else if (fabs(w[j]) > largw_temp) {
-- 
2.43.0


From 902073513d32c1ce05794377a2e42bd2ccd91d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:50 +0000
Subject: [PATCH 42/99] fix: balanced perceptron updates its bias

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 127da54..708277c 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -109,7 +109,7 @@ namespace mltk{
 
                         if (point->Y() != pred) {
                             weights += this->rate * (*point) * point->Y();
-                            bias += this->rate * bias;
+                            bias += this->rate * point->Y();
                             ite++;
                             errors++;
                         }
-- 
2.43.0


From 4b76f970724a19aeb4750385b2a2e7a8c2e449b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:50 +0000
Subject: [PATCH 43/99] fix: incremental margin classifier predicts the side of
 its hyperplane

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 0291250..171176e 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -360,7 +360,7 @@ namespace mltk{
             for (func = this->solution.bias, i = 0; i < dim; i++) {
                 func += this->solution.w[i] * p[i];
             }
-            if (!raw_value) return (func >= this->solution.margin * this->solution.norm) ? 1 : -1;
+            if (!raw_value) return (func >= 0) ? 1 : -1;
             else return func;
         }
 
-- 
2.43.0


From f72ca9695547e31ae2f4f5281155b523c6518bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:50 +0000
Subject: [PATCH 44/99] fix: initialise the members that steer incremental
 margin training

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 171176e..814e4a1 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -25,7 +25,7 @@ namespace mltk{
         template<typename T = double>
         class IMAp : public PrimalClassifier<T> {
         private:
-            double margin;
+            double margin = 0.0;
             /// Support vector.
             std::vector<int> svs;
 
@@ -52,9 +52,9 @@ namespace mltk{
         template<typename T = double>
         class IMApFixedMargin : public PrimalClassifier<T> {
         private:
-            int n, maiorn = 0, flagNao1aDim;
+            int n = 1, maiorn = 0, flagNao1aDim = 0;
             double margin = 0.0, maiorw = 0.0;
-            unsigned long tMax;
+            unsigned long tMax = 0;
 
             /// Support vector.
             std::vector<int> svs;
-- 
2.43.0


From 0a2a7fcafa3923299d186b67cddd2a53c79df602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:50 +0000
Subject: [PATCH 45/99] fix: the norm in dual variables is the double sum over
 its terms

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 87e8e01..1d8f42f 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -302,10 +302,10 @@ namespace mltk{
         sum = sum1 = 0;
 
         for(i = 0; i < size; ++i){
-            for(j = 0; j < size; j++){
+            for(sum1 = 0, j = 0; j < size; j++){
                 sum1 += points[j]->Alpha() * points[j]->Y() * K[i][j];
-                sum += points[i]->Y() * points[i]->Alpha() * sum1;
             }
+            sum += points[i]->Y() * points[i]->Alpha() * sum1;
         }
 
         return sqrt(sum);
-- 
2.43.0


From f13d1bfe3374dc310acb92ee215acb1b84bdfb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:50 +0000
Subject: [PATCH 46/99] fix: the H matrix without a dimension is symmetric

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 1d8f42f..860af03 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -206,8 +206,9 @@ namespace mltk{
         /* Calculating Matrix */
         for(i = 0; i < size; ++i) {
             for (j = i; j < size; ++j) {
-                HwithoutDim[i][j] = functionWithoutDim(samples->point(i), samples->point(j), dim, samples->dim());
-                HwithoutDim[j][i] = HwithoutDim[i][j]*samples->point(i)->Y() * samples->point(j)->Y();
+                HwithoutDim[i][j] = functionWithoutDim(samples->point(i), samples->point(j), dim, samples->dim())
+                        * samples->point(i)->Y() * samples->point(j)->Y();
+                HwithoutDim[j][i] = HwithoutDim[i][j];
             }
         }
     // clog << "\nH matrix without dim generated.\n";
-- 
2.43.0


From 646bd487ed8e501bde115cace6c68cb8836d2687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:50 +0000
Subject: [PATCH 47/99] fix: the polynomial kernel is the same with and without
 a dimension

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 860af03..194d0d6 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -273,7 +273,7 @@ namespace mltk{
                 for(i = 0; i < dim; ++i)
                     if(i != j)
                         sum += (*one)[i] * (*two)[i];
-                sum = (param > 1) ? std::pow(sum+1, param) : sum;
+                sum = (param > 1) ? std::pow(sum, param) : sum;
                 break;
 
             case mltk::GAUSSIAN: //Gaussiano
-- 
2.43.0


From 09708628f085a74a7931911e63a36867595943be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:50 +0000
Subject: [PATCH 48/99] fix: the H matrix fits the samples it is computed for

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 194d0d6..bf404d6 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -179,7 +179,7 @@ namespace mltk{
         int i = 0, j = 0;
         size_t size = samples->size(), dim = samples->dim();
 
-        H.resize(size, std::vector<double>(size));
+        H.assign(size, std::vector<double>(size));
 
         /* Calculating Matrix */
         for(i = 0; i < size; ++i) {
-- 
2.43.0


From 997c2a40809620ca2be4bef8097f1949daf8c0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:10 +0000
Subject: [PATCH 49/99] fix: assigning a shorter point leaves no components of
 the longer one

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index 2fbe61b..935d9da 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -298,7 +298,7 @@ namespace mltk {
 
             // assignment operator from same type
             Point& operator=(Point const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
@@ -321,7 +321,7 @@ namespace mltk {
             }
 
             Point& operator=(std::vector<T> const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
@@ -334,7 +334,7 @@ namespace mltk {
 
             template< typename T2 >
             Point& operator=(std::vector<T2> const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
-- 
2.43.0


From 3e842c2bac904ec73df5d79269308ff99971121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:10 +0000
Subject: [PATCH 50/99] fix: fixed margin dual perceptron forgets other samples
 and recomputes its weights

---
 .../include/ufjfmltk/classifier/Perceptron.hpp  | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 708277c..cf1faf2 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -69,11 +69,26 @@ namespace mltk{
         class PerceptronFixedMarginDual : public DualClassifier<T> {
         public:
             PerceptronFixedMarginDual() = default;
+
+            /// Training continues from the last one as long as the samples stay the same.
+            void setSamples(const Data<T> &data) override { DualClassifier<T>::setSamples(data); restart(); }
+            void setSamples(DataPointer<T> data) override { DualClassifier<T>::setSamples(data); restart(); }
+
             explicit PerceptronFixedMarginDual(const mltk::Data<T>& samples, KernelType kernel_type = KernelType::INNER_PRODUCT,
                                                double kernel_param = 0, double gamma = 0, double rate = 0.5,
                                                Solution *initial_solution = nullptr);
 
             bool train() override;
+
+        private:
+            void restart() {
+                this->recomputeKernel();
+                this->solution = Solution();
+                this->alpha.clear();
+                this->steps = this->ctot = 0;
+                if (this->samples)
+                    for (auto it = this->samples->begin(); it != this->samples->end(); ++it) (*it)->Alpha() = 0;
+            }
         };
 
         template<typename T>
@@ -539,7 +554,7 @@ namespace mltk{
             this->solution.bias = bias;
             this->solution.norm = norm;
             this->solution.func = func;
-            this->solution.w.resize(dim);
+            this->solution.w = std::vector<double>(dim, 0.0);
             this->solution.alpha.resize(size);
             for (i = 0; i < dim; i++) {
                 for (j = 0; j < size; j++) {
-- 
2.43.0


From 59c773339e8bfaa91258c60270beaf266a8cb336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:10 +0000
Subject: [PATCH 51/99] fix: dual perceptron starts every training from its
 initial state

---
 .../ufjfmltk/classifier/Perceptron.hpp        | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index cf1faf2..d0707ee 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -48,8 +48,6 @@ namespace mltk{
          */
         template<typename T>
         class PerceptronDual : public DualClassifier<T> {
-        private:
-            Solution *initial = nullptr;
         public:
             PerceptronDual() = default;
             PerceptronDual(const Data<T>& samples,
@@ -396,6 +394,7 @@ namespace mltk{
             if (initial_solution) {
                 this->solution = *initial_solution;
                 this->alpha = (*initial_solution).alpha;
+                this->hasInitialSolution = true;
             }
             this->rate = rate;
             this->kernel = new Kernel<T>(kernel_type, kernel_param);
@@ -407,8 +406,8 @@ namespace mltk{
             if (initial_solution) {
                 this->solution = *initial_solution;
                 this->alpha = (*initial_solution).alpha;
+                this->hasInitialSolution = true;
             }
-            this->initial = initial_solution;
             this->rate = rate;
             this->kernel = nullptr;
         }
@@ -417,6 +416,12 @@ namespace mltk{
         template<typename T>
         bool PerceptronDual<T>::train() {
             size_t e, i, j, idx, r, size = this->samples->size(), dim = this->samples->dim();
+            if(!this->hasInitialSolution){
+                this->solution = Solution();
+                this->alpha.clear();
+            }
+            this->alpha.resize(size, 0.0);
+            this->steps = this->ctot = 0;
             double norm = this->solution.norm, time = this->start_time + this->max_time;
             double bias = this->solution.bias, f;
             const double sqrate = this->rate * this->rate;
@@ -424,17 +429,12 @@ namespace mltk{
             std::vector<int> index(size); //= this->samples->getIndex();
             std::vector<double> func(size, 0.0), Kv;
             std::vector<std::shared_ptr<Point<T> > > points = this->samples->points();
-            if(!this->kernel) this->kernel = new Kernel<T>(mltk::KernelType::INNER_PRODUCT);
+            if(!this->kernel) this->kernel = new Kernel<T>(this->kernel_type, this->kernel_param);
+            this->kernel->recompute();
             this->kernel->compute(this->samples);
             dMatrix *K = this->kernel->getKernelMatrixPointer();
             int y;
             iota(index.begin(), index.end(), 0);
-            if (this->alpha.empty()) {
-                this->alpha.assign(size, 0.0);
-            }
-            if(!initial){
-                this->solution = Solution();
-            }
             this->timer.reset();
             e = 1;
             auto time_elapsed = this->timer.elapsed() - time;
@@ -468,7 +468,7 @@ namespace mltk{
             this->solution.norm = norm;
             this->solution.alpha = this->alpha;
             this->solution.margin = 0.0;
-            this->solution.w.resize(dim);
+            this->solution.w = std::vector<double>(dim, 0.0);
 
             for (i = 0; i < size; i++) {
                 for (j = 0; j < dim; j++) {
-- 
2.43.0


From 6a8c2c60805528a638df4b350efb2b74d0f4a68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:10 +0000
Subject: [PATCH 52/99] fix: primal perceptrons start every training from their
 initial state

---
 .../ufjfmltk/classifier/Perceptron.hpp        | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index d0707ee..c2e8115 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -174,8 +174,10 @@ namespace mltk{
             this->samples = samples;
             this->q = q;
             this->rate = rate;
-            if (initial_solution)
+            if (initial_solution) {
                 this->solution = *initial_solution;
+                this->hasInitialSolution = true;
+            }
         }
 
         template<typename T>
@@ -184,8 +186,10 @@ namespace mltk{
             this->samples = mltk::make_data<T>(samples);
             this->q = q;
             this->rate = rate;
-            if (initial_solution)
+            if (initial_solution) {
                 this->solution = *initial_solution;
+                this->hasInitialSolution = true;
+            }
         }
 
 
@@ -199,7 +203,8 @@ namespace mltk{
             std::vector<T> x;
             std::vector<int> index = this->samples->getIndex();
 
-            if (this->solution.w.empty()) this->solution.w.resize(dim);
+            if (!this->hasInitialSolution) this->solution.w = std::vector<double>(dim, 0.0);
+            this->steps = this->ctot = 0;
             this->solution.bias = 0;
             this->solution.norm = 0.0;
 
@@ -250,8 +255,10 @@ namespace mltk{
             this->q = q;
             this->rate = rate;
             this->gamma = gamma;
-            if (initial_solution)
+            if (initial_solution) {
                 this->solution = *initial_solution;
+                this->hasInitialSolution = true;
+            }
         }
 
         template<typename T>
@@ -259,6 +266,8 @@ namespace mltk{
             size_t i, j, k, e, s, r, dim = this->samples->dim();
             size_t size = this->samples->size(), n = dim;
             int idx, sign = 1, n_temp = 0, largn = 0;
+            if (!this->hasInitialSolution) this->solution = Solution();
+            this->steps = this->ctot = 0;
             double norm = this->solution.norm, lambda = 1.0, y, time = this->start_time + this->max_time;
             double sumnorm = 0.0, bias = this->solution.bias, largw = 0.0, largw_temp = 0.0;
             bool cond;
@@ -267,8 +276,9 @@ namespace mltk{
             std::vector<int> index = this->samples->getIndex();
             std::shared_ptr<Point<T> > p;
 
-            if (func.empty()) func.resize(size);
-            if (w.empty()) w.resize(dim);
+            func.resize(size);
+            w.resize(dim);
+            for (i = 0; i < size; ++i) (*this->samples)[i]->Alpha() = 0;
             e = s = 0;
             this->timer.reset();
             while (this->timer.elapsed() - time <= 0) {
-- 
2.43.0


From 1293fadf8bbe1ed0d233a824d8ecdca329898d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:10 +0000
Subject: [PATCH 53/99] fix: dual incremental margin keeps the bias of the
 multipliers it saved

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp      | 1 -
 1 file changed, 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 814e4a1..c83e4db 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -647,7 +647,6 @@ namespace mltk{
             sol = percDual.getSolution();
             this->alpha = percDual.getAlphaVector();
             norm = sol.norm;
-            this->solution.bias = sol.bias;
             func = sol.func.X();
 
             for (i = 0; i < size; ++i) {
-- 
2.43.0


From 79d25a9c98ee0200c58cfd21b6b1a2bc46663f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:10 +0000
Subject: [PATCH 54/99] fix: dual incremental margin starts every training
 without multipliers

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index c83e4db..5d88643 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -588,6 +588,8 @@ namespace mltk{
             this->ctot = 0;
             this->steps = 0;
             this->gamma = 0;
+            this->svs.clear();
+            for (i = 0; i < size; ++i) points[i]->Alpha() = 0.0;
 
             PerceptronFixedMarginDual<T> percDual;
             Solution sol, *solr;
-- 
2.43.0


From d018d3389fd19345abf8fcbe5d8fc74d200620f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:10 +0000
Subject: [PATCH 55/99] fix: sequential minimal optimisation compares the
 objective at both ends of the segment

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
index f743972..4b8405e 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
@@ -316,7 +316,7 @@ namespace mltk{
                     double c1 = eta / 2.0;
                     double c2 = y2 * (e1 - e2) - eta * alpha2;
                     min_val_f = c1 * min_val * min_val + c2 * min_val;
-                    max_val_f = c1 * max_val * max_val + c2 * min_val;
+                    max_val_f = c1 * max_val * max_val + c2 * max_val;
 
                     if (min_val_f > max_val_f + this->EPS) new_alpha2 = min_val;
                     else if (min_val_f < max_val_f - this->EPS) new_alpha2 = max_val;
-- 
2.43.0


From 58e9494bf93401839538b861256919f603ceb2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:10 +0000
Subject: [PATCH 56/99] fix: the error cache holds the errors of the points of
 the last step

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
index 4b8405e..43da4f3 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
@@ -392,8 +392,8 @@ namespace mltk{
                     itr = itr->next;
                 }
 
-                this->l_data[i1].error = 0.0;
-                this->l_data[i2].error = 0.0;
+                this->l_data[i1].error = function(i1) - y1;
+                this->l_data[i2].error = function(i2) - y2;
 
                 if (this->verbose > 1)
                     std::cout << "Total error= " << error_tot << ", alpha(" << i1 << ")= " << new_alpha1 << ", alpha(" << i2
-- 
2.43.0


From dda4c4734fc00a1462a4fd8c416fe201f89db301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:50 +0000
Subject: [PATCH 57/99] fix: ThreadPool.hpp keeps the line endings it had
 before the pause repair

---
 .../include/ufjfmltk/core/ThreadPool.hpp      | 1098 ++++++++---------
 1 file changed, 549 insertions(+), 549 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
index 915ad7f..0133460 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
@@ -1,549 +1,549 @@
-#pragma once
-
-/**
- * @file thread_pool.hpp
- * @author Barak Shoshany (baraksh@gmail.com) (http://baraksh.com)
- * @version 2.0.0
- * @date 2021-08-14
- * @copyright Copyright (c) 2021 Barak Shoshany. Licensed under the MIT license. If you use this library in published research, please cite it as follows:
- *  - Barak Shoshany, "A C++17 Thread Pool for High-Performance Scientific Computing", doi:10.5281/zenodo.4742687, arXiv:2105.00613 (May 2021)
- *
- * @brief A C++17 thread pool for high-performance scientific computing.
- * @details A modern C++17-compatible thread pool implementation, built from scratch with high-performance scientific computing in mind. The thread pool is implemented as a single lightweight and self-contained class, and does not have any dependencies other than the C++17 standard library, thus allowing a great degree of portability. In particular, this implementation does not utilize OpenMP or any other high-level multithreading APIs, and thus gives the programmer precise low-level control over the details of the parallelization, which permits more robust optimizations. The thread pool was extensively tested on both AMD and Intel CPUs with up to 40 cores and 80 threads. Other features include automatic generation of futures and easy parallelization of loops. Two helper classes enable synchronizing printing to an output stream by different threads and measuring execution time for benchmarking purposes. Please visit the GitHub repository at https://github.com/bshoshany/thread-pool for documentation and updates, or to submit feature requests and bug reports.
- */
-
-#define THREAD_POOL_VERSION "v2.0.0 (2021-08-14)"
-
-#include <atomic>      // std::atomic
-#include <chrono>      // std::chrono
-#include <cstdint>     // std::int_fast64_t, std::uint_fast32_t
-#include <functional>  // std::function
-#include <future>      // std::future, std::promise
-#include <iostream>    // std::cout, std::ostream
-#include <memory>      // std::shared_ptr, std::unique_ptr
-#include <mutex>       // std::mutex, std::scoped_lock
-#include <queue>       // std::queue
-#include <thread>      // std::this_thread, std::thread
-#include <type_traits> // std::common_type_t, std::decay_t, std::enable_if_t, std::is_void_v, std::invoke_result_t
-#include <utility>     // std::move
-
-
-namespace mltk {
-// ============================================================================================= //
-//                                    Begin class thread_pool                                    //
-
-/**
- * @brief A C++17 thread pool class. The user submits tasks to be executed into a queue. Whenever a thread becomes available, it pops a task from the queue and executes it. Each task is automatically assigned a future, which can be used to wait for the task to finish executing and/or obtain its eventual return value.
- */
-class ThreadPool
-{
-    typedef std::uint_fast32_t ui32;
-    typedef std::uint_fast64_t ui64;
-
-public:
-    // ============================
-    // Constructors and destructors
-    // ============================
-
-    /**
-     * @brief Construct a new thread pool.
-     *
-     * @param _thread_count The number of threads to use. The default value is the total number of hardware threads available, as reported by the implementation. With a hyperthreaded CPU, this will be twice the number of CPU cores. If the argument is zero, the default value will be used instead.
-     */
-    ThreadPool(const ui32 &_thread_count = std::thread::hardware_concurrency())
-        : thread_count(_thread_count ? _thread_count : std::thread::hardware_concurrency()), threads(new std::thread[_thread_count ? _thread_count : std::thread::hardware_concurrency()])
-    {
-        create_threads();
-    }
-
-    /**
-     * @brief Destruct the thread pool. Waits for all tasks to complete, then destroys all threads. Note that if the variable paused is set to true, then any tasks still in the queue will never be executed.
-     */
-    ~ThreadPool()
-    {
-        wait_for_tasks();
-        running = false;
-        destroy_threads();
-    }
-
-    // =======================
-    // Public member functions
-    // =======================
-
-    /**
-     * @brief Get the number of tasks currently waiting in the queue to be executed by the threads.
-     *
-     * @return The number of queued tasks.
-     */
-    ui64 get_tasks_queued() const
-    {
-        const std::scoped_lock lock(queue_mutex);
-        return tasks.size();
-    }
-
-    /**
-     * @brief Get the number of tasks currently being executed by the threads.
-     *
-     * @return The number of running tasks.
-     */
-    ui32 get_tasks_running() const
-    {
-        const std::scoped_lock lock(queue_mutex);
-        return tasks_total - (ui32)tasks.size();
-    }
-
-    /**
-     * @brief Get the total number of unfinished tasks - either still in the queue, or running in a thread.
-     *
-     * @return The total number of tasks.
-     */
-    ui32 get_tasks_total() const
-    {
-        return tasks_total;
-    }
-
-    /**
-     * @brief Get the number of threads in the pool.
-     *
-     * @return The number of threads.
-     */
-    ui32 get_thread_count() const
-    {
-        return thread_count;
-    }
-
-    /**
-     * @brief Parallelize a loop by splitting it into blocks, submitting each block separately to the thread pool, and waiting for all blocks to finish executing. The user supplies a loop function, which will be called once per block and should iterate over the block's range.
-     *
-     * @tparam T1 The type of the first index in the loop. Should be a signed or unsigned integer.
-     * @tparam T2 The type of the index after the last index in the loop. Should be a signed or unsigned integer. If T1 is not the same as T2, a common type will be automatically inferred.
-     * @tparam F The type of the function to loop through.
-     * @param first_index The first index in the loop.
-     * @param index_after_last The index after the last index in the loop. The loop will iterate from first_index to (index_after_last - 1) inclusive. In other words, it will be equivalent to "for (T i = first_index; i < index_after_last; i++)". Note that if first_index == index_after_last, the function will terminate without doing anything.
-     * @param loop The function to loop through. Will be called once per block. Should take exactly two arguments: the first index in the block and the index after the last index in the block. loop(start, end) should typically involve a loop of the form "for (T i = start; i < end; i++)".
-     * @param num_blocks The maximum number of blocks to split the loop into. The default is to use the number of threads in the pool.
-     */
-    template <typename T1, typename T2, typename F>
-    void parallelize_loop(const T1 &first_index, const T2 &index_after_last, const F &loop, ui32 num_blocks = 0)
-    {
-        typedef std::common_type_t<T1, T2> T;
-        T the_first_index = (T)first_index;
-        T last_index = (T)index_after_last;
-        if (the_first_index == last_index)
-            return;
-        if (last_index < the_first_index)
-        {
-            T temp = last_index;
-            last_index = the_first_index;
-            the_first_index = temp;
-        }
-        last_index--;
-        if (num_blocks == 0)
-            num_blocks = thread_count;
-        ui64 total_size = (ui64)(last_index - the_first_index + 1);
-        ui64 block_size = (ui64)(total_size / num_blocks);
-        if (block_size == 0)
-        {
-            block_size = 1;
-            num_blocks = (ui32)total_size > 1 ? (ui32)total_size : 1;
-        }
-        std::atomic<ui32> blocks_running = 0;
-        for (ui32 t = 0; t < num_blocks; t++)
-        {
-            T start = ((T)(t * block_size) + the_first_index);
-            T end = (t == num_blocks - 1) ? last_index + 1 : ((T)((t + 1) * block_size) + the_first_index);
-            blocks_running++;
-            push_task([start, end, &loop, &blocks_running]
-                      {
-                          loop(start, end);
-                          blocks_running--;
-                      });
-        }
-        while (blocks_running != 0)
-        {
-            sleep_or_yield();
-        }
-    }
-
-    /**
-     * @brief Push a function with no arguments or return value into the task queue.
-     *
-     * @tparam F The type of the function.
-     * @param task The function to push.
-     */
-    template <typename F>
-    void push_task(const F &task)
-    {
-        tasks_total++;
-        {
-            const std::scoped_lock lock(queue_mutex);
-            tasks.push(std::function<void()>(task));
-        }
-    }
-
-    /**
-     * @brief Push a function with arguments, but no return value, into the task queue.
-     * @details The function is wrapped inside a lambda in order to hide the arguments, as the tasks in the queue must be of type std::function<void()>, so they cannot have any arguments or return value. If no arguments are provided, the other overload will be used, in order to avoid the (slight) overhead of using a lambda.
-     *
-     * @tparam F The type of the function.
-     * @tparam A The types of the arguments.
-     * @param task The function to push.
-     * @param args The arguments to pass to the function.
-     */
-    template <typename F, typename... A>
-    void push_task(const F &task, const A &...args)
-    {
-        push_task([task, args...]
-                  { task(args...); });
-    }
-
-    /**
-     * @brief Reset the number of threads in the pool. Waits for all currently running tasks to be completed, then destroys all threads in the pool and creates a new thread pool with the new number of threads. Any tasks that were waiting in the queue before the pool was reset will then be executed by the new threads. If the pool was paused before resetting it, the new pool will be paused as well.
-     *
-     * @param _thread_count The number of threads to use. The default value is the total number of hardware threads available, as reported by the implementation. With a hyperthreaded CPU, this will be twice the number of CPU cores. If the argument is zero, the default value will be used instead.
-     */
-    void reset(const ui32 &_thread_count = std::thread::hardware_concurrency())
-    {
-        bool was_paused = paused;
-        paused = true;
-        wait_for_tasks();
-        running = false;
-        destroy_threads();
-        thread_count = _thread_count ? _thread_count : std::thread::hardware_concurrency();
-        threads.reset(new std::thread[thread_count]);
-        paused = was_paused;
-        running = true;
-        create_threads();
-    }
-
-    /**
-     * @brief Submit a function with zero or more arguments and no return value into the task queue, and get an std::future<bool> that will be set to true upon completion of the task.
-     *
-     * @tparam F The type of the function.
-     * @tparam A The types of the zero or more arguments to pass to the function.
-     * @param task The function to submit.
-     * @param args The zero or more arguments to pass to the function.
-     * @return A future to be used later to check if the function has finished its execution.
-     */
-    template <typename F, typename... A, typename = std::enable_if_t<std::is_void_v<std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>>>>
-    std::future<bool> submit(const F &task, const A &...args)
-    {
-        std::shared_ptr<std::promise<bool>> task_promise(new std::promise<bool>);
-        std::future<bool> future = task_promise->get_future();
-        push_task([task, args..., task_promise]
-                  {
-                      try
-                      {
-                          task(args...);
-                          task_promise->set_value(true);
-                      }
-                      catch (...)
-                      {
-                          try
-                          {
-                              task_promise->set_exception(std::current_exception());
-                          }
-                          catch (...)
-                          {
-                          }
-                      }
-                  });
-        return future;
-    }
-
-    /**
-     * @brief Submit a function with zero or more arguments and a return value into the task queue, and get a future for its eventual returned value.
-     *
-     * @tparam F The type of the function.
-     * @tparam A The types of the zero or more arguments to pass to the function.
-     * @tparam R The return type of the function.
-     * @param task The function to submit.
-     * @param args The zero or more arguments to pass to the function.
-     * @return A future to be used later to obtain the function's returned value, waiting for it to finish its execution if needed.
-     */
-    template <typename F, typename... A, typename R = std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>, typename = std::enable_if_t<!std::is_void_v<R>>>
-    std::future<R> submit(const F &task, const A &...args)
-    {
-        std::shared_ptr<std::promise<R>> task_promise(new std::promise<R>);
-        std::future<R> future = task_promise->get_future();
-        push_task([task, args..., task_promise]
-                  {
-                      try
-                      {
-                          task_promise->set_value(task(args...));
-                      }
-                      catch (...)
-                      {
-                          try
-                          {
-                              task_promise->set_exception(std::current_exception());
-                          }
-                          catch (...)
-                          {
-                          }
-                      }
-                  });
-        return future;
-    }
-
-    /**
-     * @brief Wait for tasks to be completed. Normally, this function waits for all tasks, both those that are currently running in the threads and those that are still waiting in the queue. However, if the variable paused is set to true, this function only waits for the currently running tasks (otherwise it would wait forever). To wait for a specific task, use submit() instead, and call the wait() member function of the generated future.
-     */
-    void wait_for_tasks()
-    {
-        while (true)
-        {
-            if (!paused)
-            {
-                if (tasks_total == 0)
-                    break;
-            }
-            else
-            {
-                if (get_tasks_running() == 0)
-                    break;
-            }
-            sleep_or_yield();
-        }
-    }
-
-    // ===========
-    // Public data
-    // ===========
-
-    /**
-     * @brief An atomic variable indicating to the workers to pause. When set to true, the workers temporarily stop popping new tasks out of the queue, although any tasks already executed will keep running until they are done. Set to false again to resume popping tasks.
-     */
-    std::atomic<bool> paused = false;
-
-    /**
-     * @brief The duration, in microseconds, that the worker function should sleep for when it cannot find any tasks in the queue. If set to 0, then instead of sleeping, the worker function will execute std::this_thread::yield() if there are no tasks in the queue. The default value is 1000.
-     */
-    ui32 sleep_duration = 1000;
-
-private:
-    // ========================
-    // Private member functions
-    // ========================
-
-    /**
-     * @brief Create the threads in the pool and assign a worker to each thread.
-     */
-    void create_threads()
-    {
-        for (ui32 i = 0; i < thread_count; i++)
-        {
-            threads[i] = std::thread(&ThreadPool::worker, this);
-        }
-    }
-
-    /**
-     * @brief Destroy the threads in the pool by joining them.
-     */
-    void destroy_threads()
-    {
-        for (ui32 i = 0; i < thread_count; i++)
-        {
-            threads[i].join();
-        }
-    }
-
-    /**
-     * @brief Try to pop a new task out of the queue.
-     *
-     * @param task A reference to the task. Will be populated with a function if the queue is not empty.
-     * @return true if a task was found, false if the queue is empty or the pool is paused.
-     */
-    bool pop_task(std::function<void()> &task)
-    {
-        const std::scoped_lock lock(queue_mutex);
-        if (paused || tasks.empty())
-            return false;
-        else
-        {
-            task = std::move(tasks.front());
-            tasks.pop();
-            return true;
-        }
-    }
-
-    /**
-     * @brief Sleep for sleep_duration microseconds. If that variable is set to zero, yield instead.
-     *
-     */
-    void sleep_or_yield()
-    {
-        if (sleep_duration)
-            std::this_thread::sleep_for(std::chrono::microseconds(sleep_duration));
-        else
-            std::this_thread::yield();
-    }
-
-    /**
-     * @brief A worker function to be assigned to each thread in the pool. Continuously pops tasks out of the queue and executes them, as long as the atomic variable running is set to true.
-     */
-    void worker()
-    {
-        while (running)
-        {
-            std::function<void()> task;
-            if (pop_task(task))
-            {
-                task();
-                tasks_total--;
-            }
-            else
-            {
-                sleep_or_yield();
-            }
-        }
-    }
-
-    // ============
-    // Private data
-    // ============
-
-    /**
-     * @brief A mutex to synchronize access to the task queue by different threads.
-     */
-    mutable std::mutex queue_mutex = {};
-
-    /**
-     * @brief An atomic variable indicating to the workers to keep running. When set to false, the workers permanently stop working.
-     */
-    std::atomic<bool> running = true;
-
-    /**
-     * @brief A queue of tasks to be executed by the threads.
-     */
-    std::queue<std::function<void()>> tasks = {};
-
-    /**
-     * @brief The number of threads in the pool.
-     */
-    ui32 thread_count;
-
-    /**
-     * @brief A smart pointer to manage the memory allocated for the threads.
-     */
-    std::unique_ptr<std::thread[]> threads;
-
-    /**
-     * @brief An atomic variable to keep track of the total number of unfinished tasks - either still in the queue, or running in a thread.
-     */
-    std::atomic<ui32> tasks_total = 0;
-};
-
-//                                     End class thread_pool                                     //
-// ============================================================================================= //
-
-// ============================================================================================= //
-//                                   Begin class synced_stream                                   //
-
-/**
- * @brief A helper class to synchronize printing to an output stream by different threads.
- */
-class synced_stream
-{
-public:
-    /**
-     * @brief Construct a new synced stream.
-     *
-     * @param _out_stream The output stream to print to. The default value is std::cout.
-     */
-    synced_stream(std::ostream &_out_stream = std::cout)
-        : out_stream(_out_stream){};
-
-    /**
-     * @brief Print any number of items into the output stream. Ensures that no other threads print to this stream simultaneously, as long as they all exclusively use this synced_stream object to print.
-     *
-     * @tparam T The types of the items
-     * @param items The items to print.
-     */
-    template <typename... T>
-    void print(const T &...items)
-    {
-        const std::scoped_lock lock(stream_mutex);
-        (out_stream << ... << items);
-    }
-
-    /**
-     * @brief Print any number of items into the output stream, followed by a newline character. Ensures that no other threads print to this stream simultaneously, as long as they all exclusively use this synced_stream object to print.
-     *
-     * @tparam T The types of the items
-     * @param items The items to print.
-     */
-    template <typename... T>
-    void println(const T &...items)
-    {
-        print(items..., '\n');
-    }
-
-private:
-    /**
-     * @brief A mutex to synchronize printing.
-     */
-    mutable std::mutex stream_mutex = {};
-
-    /**
-     * @brief The output stream to print to.
-     */
-    std::ostream &out_stream;
-};
-
-//                                    End class synced_stream                                    //
-// ============================================================================================= //
-
-// ============================================================================================= //
-//                                       Begin class timer                                       //
-
-/**
- * @brief A helper class to measure execution time for benchmarking purposes.
- */
-class timer
-{
-    typedef std::int_fast64_t i64;
-
-public:
-    /**
-     * @brief Start (or restart) measuring time.
-     */
-    void start()
-    {
-        start_time = std::chrono::steady_clock::now();
-    }
-
-    /**
-     * @brief Stop measuring time and store the elapsed time since start().
-     */
-    void stop()
-    {
-        elapsed_time = std::chrono::steady_clock::now() - start_time;
-    }
-
-    /**
-     * @brief Get the number of milliseconds that have elapsed between start() and stop().
-     *
-     * @return The number of milliseconds.
-     */
-    i64 ms() const
-    {
-        return (std::chrono::duration_cast<std::chrono::milliseconds>(elapsed_time)).count();
-    }
-
-private:
-    /**
-     * @brief The time point when measuring started.
-     */
-    std::chrono::time_point<std::chrono::steady_clock> start_time = std::chrono::steady_clock::now();
-
-    /**
-     * @brief The duration that has elapsed between start() and stop().
-     */
-    std::chrono::duration<double> elapsed_time = std::chrono::duration<double>::zero();
-};
-
-//                                        End class timer                                        //
-// ============================================================================================= //
-
-} // namespace mltk
\ No newline at end of file
+#pragma once
+
+/**
+ * @file thread_pool.hpp
+ * @author Barak Shoshany (baraksh@gmail.com) (http://baraksh.com)
+ * @version 2.0.0
+ * @date 2021-08-14
+ * @copyright Copyright (c) 2021 Barak Shoshany. Licensed under the MIT license. If you use this library in published research, please cite it as follows:
+ *  - Barak Shoshany, "A C++17 Thread Pool for High-Performance Scientific Computing", doi:10.5281/zenodo.4742687, arXiv:2105.00613 (May 2021)
+ *
+ * @brief A C++17 thread pool for high-performance scientific computing.
+ * @details A modern C++17-compatible thread pool implementation, built from scratch with high-performance scientific computing in mind. The thread pool is implemented as a single lightweight and self-contained class, and does not have any dependencies other than the C++17 standard library, thus allowing a great degree of portability. In particular, this implementation does not utilize OpenMP or any other high-level multithreading APIs, and thus gives the programmer precise low-level control over the details of the parallelization, which permits more robust optimizations. The thread pool was extensively tested on both AMD and Intel CPUs with up to 40 cores and 80 threads. Other features include automatic generation of futures and easy parallelization of loops. Two helper classes enable synchronizing printing to an output stream by different threads and measuring execution time for benchmarking purposes. Please visit the GitHub repository at https://github.com/bshoshany/thread-pool for documentation and updates, or to submit feature requests and bug reports.
+ */
+
+#define THREAD_POOL_VERSION "v2.0.0 (2021-08-14)"
+
+#include <atomic>      // std::atomic
+#include <chrono>      // std::chrono
+#include <cstdint>     // std::int_fast64_t, std::uint_fast32_t
+#include <functional>  // std::function
+#include <future>      // std::future, std::promise
+#include <iostream>    // std::cout, std::ostream
+#include <memory>      // std::shared_ptr, std::unique_ptr
+#include <mutex>       // std::mutex, std::scoped_lock
+#include <queue>       // std::queue
+#include <thread>      // std::this_thread, std::thread
+#include <type_traits> // std::common_type_t, std::decay_t, std::enable_if_t, std::is_void_v, std::invoke_result_t
+#include <utility>     // std::move
+
+
+namespace mltk {
+// ============================================================================================= //
+//                                    Begin class thread_pool                                    //
+
+/**
+ * @brief A C++17 thread pool class. The user submits tasks to be executed into a queue. Whenever a thread becomes available, it pops a task from the queue and executes it. Each task is automatically assigned a future, which can be used to wait for the task to finish executing and/or obtain its eventual return value.
+ */
+class ThreadPool
+{
+    typedef std::uint_fast32_t ui32;
+    typedef std::uint_fast64_t ui64;
+
+public:
+    // ============================
+    // Constructors and destructors
+    // ============================
+
+    /**
+     * @brief Construct a new thread pool.
+     *
+     * @param _thread_count The number of threads to use. The default value is the total number of hardware threads available, as reported by the implementation. With a hyperthreaded CPU, this will be twice the number of CPU cores. If the argument is zero, the default value will be used instead.
+     */
+    ThreadPool(const ui32 &_thread_count = std::thread::hardware_concurrency())
+        : thread_count(_thread_count ? _thread_count : std::thread::hardware_concurrency()), threads(new std::thread[_thread_count ? _thread_count : std::thread::hardware_concurrency()])
+    {
+        create_threads();
+    }
+
+    /**
+     * @brief Destruct the thread pool. Waits for all tasks to complete, then destroys all threads. Note that if the variable paused is set to true, then any tasks still in the queue will never be executed.
+     */
+    ~ThreadPool()
+    {
+        wait_for_tasks();
+        running = false;
+        destroy_threads();
+    }
+
+    // =======================
+    // Public member functions
+    // =======================
+
+    /**
+     * @brief Get the number of tasks currently waiting in the queue to be executed by the threads.
+     *
+     * @return The number of queued tasks.
+     */
+    ui64 get_tasks_queued() const
+    {
+        const std::scoped_lock lock(queue_mutex);
+        return tasks.size();
+    }
+
+    /**
+     * @brief Get the number of tasks currently being executed by the threads.
+     *
+     * @return The number of running tasks.
+     */
+    ui32 get_tasks_running() const
+    {
+        const std::scoped_lock lock(queue_mutex);
+        return tasks_total - (ui32)tasks.size();
+    }
+
+    /**
+     * @brief Get the total number of unfinished tasks - either still in the queue, or running in a thread.
+     *
+     * @return The total number of tasks.
+     */
+    ui32 get_tasks_total() const
+    {
+        return tasks_total;
+    }
+
+    /**
+     * @brief Get the number of threads in the pool.
+     *
+     * @return The number of threads.
+     */
+    ui32 get_thread_count() const
+    {
+        return thread_count;
+    }
+
+    /**
+     * @brief Parallelize a loop by splitting it into blocks, submitting each block separately to the thread pool, and waiting for all blocks to finish executing. The user supplies a loop function, which will be called once per block and should iterate over the block's range.
+     *
+     * @tparam T1 The type of the first index in the loop. Should be a signed or unsigned integer.
+     * @tparam T2 The type of the index after the last index in the loop. Should be a signed or unsigned integer. If T1 is not the same as T2, a common type will be automatically inferred.
+     * @tparam F The type of the function to loop through.
+     * @param first_index The first index in the loop.
+     * @param index_after_last The index after the last index in the loop. The loop will iterate from first_index to (index_after_last - 1) inclusive. In other words, it will be equivalent to "for (T i = first_index; i < index_after_last; i++)". Note that if first_index == index_after_last, the function will terminate without doing anything.
+     * @param loop The function to loop through. Will be called once per block. Should take exactly two arguments: the first index in the block and the index after the last index in the block. loop(start, end) should typically involve a loop of the form "for (T i = start; i < end; i++)".
+     * @param num_blocks The maximum number of blocks to split the loop into. The default is to use the number of threads in the pool.
+     */
+    template <typename T1, typename T2, typename F>
+    void parallelize_loop(const T1 &first_index, const T2 &index_after_last, const F &loop, ui32 num_blocks = 0)
+    {
+        typedef std::common_type_t<T1, T2> T;
+        T the_first_index = (T)first_index;
+        T last_index = (T)index_after_last;
+        if (the_first_index == last_index)
+            return;
+        if (last_index < the_first_index)
+        {
+            T temp = last_index;
+            last_index = the_first_index;
+            the_first_index = temp;
+        }
+        last_index--;
+        if (num_blocks == 0)
+            num_blocks = thread_count;
+        ui64 total_size = (ui64)(last_index - the_first_index + 1);
+        ui64 block_size = (ui64)(total_size / num_blocks);
+        if (block_size == 0)
+        {
+            block_size = 1;
+            num_blocks = (ui32)total_size > 1 ? (ui32)total_size : 1;
+        }
+        std::atomic<ui32> blocks_running = 0;
+        for (ui32 t = 0; t < num_blocks; t++)
+        {
+            T start = ((T)(t * block_size) + the_first_index);
+            T end = (t == num_blocks - 1) ? last_index + 1 : ((T)((t + 1) * block_size) + the_first_index);
+            blocks_running++;
+            push_task([start, end, &loop, &blocks_running]
+                      {
+                          loop(start, end);
+                          blocks_running--;
+                      });
+        }
+        while (blocks_running != 0)
+        {
+            sleep_or_yield();
+        }
+    }
+
+    /**
+     * @brief Push a function with no arguments or return value into the task queue.
+     *
+     * @tparam F The type of the function.
+     * @param task The function to push.
+     */
+    template <typename F>
+    void push_task(const F &task)
+    {
+        tasks_total++;
+        {
+            const std::scoped_lock lock(queue_mutex);
+            tasks.push(std::function<void()>(task));
+        }
+    }
+
+    /**
+     * @brief Push a function with arguments, but no return value, into the task queue.
+     * @details The function is wrapped inside a lambda in order to hide the arguments, as the tasks in the queue must be of type std::function<void()>, so they cannot have any arguments or return value. If no arguments are provided, the other overload will be used, in order to avoid the (slight) overhead of using a lambda.
+     *
+     * @tparam F The type of the function.
+     * @tparam A The types of the arguments.
+     * @param task The function to push.
+     * @param args The arguments to pass to the function.
+     */
+    template <typename F, typename... A>
+    void push_task(const F &task, const A &...args)
+    {
+        push_task([task, args...]
+                  { task(args...); });
+    }
+
+    /**
+     * @brief Reset the number of threads in the pool. Waits for all currently running tasks to be completed, then destroys all threads in the pool and creates a new thread pool with the new number of threads. Any tasks that were waiting in the queue before the pool was reset will then be executed by the new threads. If the pool was paused before resetting it, the new pool will be paused as well.
+     *
+     * @param _thread_count The number of threads to use. The default value is the total number of hardware threads available, as reported by the implementation. With a hyperthreaded CPU, this will be twice the number of CPU cores. If the argument is zero, the default value will be used instead.
+     */
+    void reset(const ui32 &_thread_count = std::thread::hardware_concurrency())
+    {
+        bool was_paused = paused;
+        paused = true;
+        wait_for_tasks();
+        running = false;
+        destroy_threads();
+        thread_count = _thread_count ? _thread_count : std::thread::hardware_concurrency();
+        threads.reset(new std::thread[thread_count]);
+        paused = was_paused;
+        running = true;
+        create_threads();
+    }
+
+    /**
+     * @brief Submit a function with zero or more arguments and no return value into the task queue, and get an std::future<bool> that will be set to true upon completion of the task.
+     *
+     * @tparam F The type of the function.
+     * @tparam A The types of the zero or more arguments to pass to the function.
+     * @param task The function to submit.
+     * @param args The zero or more arguments to pass to the function.
+     * @return A future to be used later to check if the function has finished its execution.
+     */
+    template <typename F, typename... A, typename = std::enable_if_t<std::is_void_v<std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>>>>
+    std::future<bool> submit(const F &task, const A &...args)
+    {
+        std::shared_ptr<std::promise<bool>> task_promise(new std::promise<bool>);
+        std::future<bool> future = task_promise->get_future();
+        push_task([task, args..., task_promise]
+                  {
+                      try
+                      {
+                          task(args...);
+                          task_promise->set_value(true);
+                      }
+                      catch (...)
+                      {
+                          try
+                          {
+                              task_promise->set_exception(std::current_exception());
+                          }
+                          catch (...)
+                          {
+                          }
+                      }
+                  });
+        return future;
+    }
+
+    /**
+     * @brief Submit a function with zero or more arguments and a return value into the task queue, and get a future for its eventual returned value.
+     *
+     * @tparam F The type of the function.
+     * @tparam A The types of the zero or more arguments to pass to the function.
+     * @tparam R The return type of the function.
+     * @param task The function to submit.
+     * @param args The zero or more arguments to pass to the function.
+     * @return A future to be used later to obtain the function's returned value, waiting for it to finish its execution if needed.
+     */
+    template <typename F, typename... A, typename R = std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>, typename = std::enable_if_t<!std::is_void_v<R>>>
+    std::future<R> submit(const F &task, const A &...args)
+    {
+        std::shared_ptr<std::promise<R>> task_promise(new std::promise<R>);
+        std::future<R> future = task_promise->get_future();
+        push_task([task, args..., task_promise]
+                  {
+                      try
+                      {
+                          task_promise->set_value(task(args...));
+                      }
+                      catch (...)
+                      {
+                          try
+                          {
+                              task_promise->set_exception(std::current_exception());
+                          }
+                          catch (...)
+                          {
+                          }
+                      }
+                  });
+        return future;
+    }
+
+    /**
+     * @brief Wait for tasks to be completed. Normally, this function waits for all tasks, both those that are currently running in the threads and those that are still waiting in the queue. However, if the variable paused is set to true, this function only waits for the currently running tasks (otherwise it would wait forever). To wait for a specific task, use submit() instead, and call the wait() member function of the generated future.
+     */
+    void wait_for_tasks()
+    {
+        while (true)
+        {
+            if (!paused)
+            {
+                if (tasks_total == 0)
+                    break;
+            }
+            else
+            {
+                if (get_tasks_running() == 0)
+                    break;
+            }
+            sleep_or_yield();
+        }
+    }
+
+    // ===========
+    // Public data
+    // ===========
+
+    /**
+     * @brief An atomic variable indicating to the workers to pause. When set to true, the workers temporarily stop popping new tasks out of the queue, although any tasks already executed will keep running until they are done. Set to false again to resume popping tasks.
+     */
+    std::atomic<bool> paused = false;
+
+    /**
+     * @brief The duration, in microseconds, that the worker function should sleep for when it cannot find any tasks in the queue. If set to 0, then instead of sleeping, the worker function will execute std::this_thread::yield() if there are no tasks in the queue. The default value is 1000.
+     */
+    ui32 sleep_duration = 1000;
+
+private:
+    // ========================
+    // Private member functions
+    // ========================
+
+    /**
+     * @brief Create the threads in the pool and assign a worker to each thread.
+     */
+    void create_threads()
+    {
+        for (ui32 i = 0; i < thread_count; i++)
+        {
+            threads[i] = std::thread(&ThreadPool::worker, this);
+        }
+    }
+
+    /**
+     * @brief Destroy the threads in the pool by joining them.
+     */
+    void destroy_threads()
+    {
+        for (ui32 i = 0; i < thread_count; i++)
+        {
+            threads[i].join();
+        }
+    }
+
+    /**
+     * @brief Try to pop a new task out of the queue.
+     *
+     * @param task A reference to the task. Will be populated with a function if the queue is not empty.
+     * @return true if a task was found, false if the queue is empty or the pool is paused.
+     */
+    bool pop_task(std::function<void()> &task)
+    {
+        const std::scoped_lock lock(queue_mutex);
+        if (paused || tasks.empty())
+            return false;
+        else
+        {
+            task = std::move(tasks.front());
+            tasks.pop();
+            return true;
+        }
+    }
+
+    /**
+     * @brief Sleep for sleep_duration microseconds. If that variable is set to zero, yield instead.
+     *
+     */
+    void sleep_or_yield()
+    {
+        if (sleep_duration)
+            std::this_thread::sleep_for(std::chrono::microseconds(sleep_duration));
+        else
+            std::this_thread::yield();
+    }
+
+    /**
+     * @brief A worker function to be assigned to each thread in the pool. Continuously pops tasks out of the queue and executes them, as long as the atomic variable running is set to true.
+     */
+    void worker()
+    {
+        while (running)
+        {
+            std::function<void()> task;
+            if (pop_task(task))
+            {
+                task();
+                tasks_total--;
+            }
+            else
+            {
+                sleep_or_yield();
+            }
+        }
+    }
+
+    // ============
+    // Private data
+    // ============
+
+    /**
+     * @brief A mutex to synchronize access to the task queue by different threads.
+     */
+    mutable std::mutex queue_mutex = {};
+
+    /**
+     * @brief An atomic variable indicating to the workers to keep running. When set to false, the workers permanently stop working.
+     */
+    std::atomic<bool> running = true;
+
+    /**
+     * @brief A queue of tasks to be executed by the threads.
+     */
+    std::queue<std::function<void()>> tasks = {};
+
+    /**
+     * @brief The number of threads in the pool.
+     */
+    ui32 thread_count;
+
+    /**
+     * @brief A smart pointer to manage the memory allocated for the threads.
+     */
+    std::unique_ptr<std::thread[]> threads;
+
+    /**
+     * @brief An atomic variable to keep track of the total number of unfinished tasks - either still in the queue, or running in a thread.
+     */
+    std::atomic<ui32> tasks_total = 0;
+};
+
+//                                     End class thread_pool                                     //
+// ============================================================================================= //
+
+// ============================================================================================= //
+//                                   Begin class synced_stream                                   //
+
+/**
+ * @brief A helper class to synchronize printing to an output stream by different threads.
+ */
+class synced_stream
+{
+public:
+    /**
+     * @brief Construct a new synced stream.
+     *
+     * @param _out_stream The output stream to print to. The default value is std::cout.
+     */
+    synced_stream(std::ostream &_out_stream = std::cout)
+        : out_stream(_out_stream){};
+
+    /**
+     * @brief Print any number of items into the output stream. Ensures that no other threads print to this stream simultaneously, as long as they all exclusively use this synced_stream object to print.
+     *
+     * @tparam T The types of the items
+     * @param items The items to print.
+     */
+    template <typename... T>
+    void print(const T &...items)
+    {
+        const std::scoped_lock lock(stream_mutex);
+        (out_stream << ... << items);
+    }
+
+    /**
+     * @brief Print any number of items into the output stream, followed by a newline character. Ensures that no other threads print to this stream simultaneously, as long as they all exclusively use this synced_stream object to print.
+     *
+     * @tparam T The types of the items
+     * @param items The items to print.
+     */
+    template <typename... T>
+    void println(const T &...items)
+    {
+        print(items..., '\n');
+    }
+
+private:
+    /**
+     * @brief A mutex to synchronize printing.
+     */
+    mutable std::mutex stream_mutex = {};
+
+    /**
+     * @brief The output stream to print to.
+     */
+    std::ostream &out_stream;
+};
+
+//                                    End class synced_stream                                    //
+// ============================================================================================= //
+
+// ============================================================================================= //
+//                                       Begin class timer                                       //
+
+/**
+ * @brief A helper class to measure execution time for benchmarking purposes.
+ */
+class timer
+{
+    typedef std::int_fast64_t i64;
+
+public:
+    /**
+     * @brief Start (or restart) measuring time.
+     */
+    void start()
+    {
+        start_time = std::chrono::steady_clock::now();
+    }
+
+    /**
+     * @brief Stop measuring time and store the elapsed time since start().
+     */
+    void stop()
+    {
+        elapsed_time = std::chrono::steady_clock::now() - start_time;
+    }
+
+    /**
+     * @brief Get the number of milliseconds that have elapsed between start() and stop().
+     *
+     * @return The number of milliseconds.
+     */
+    i64 ms() const
+    {
+        return (std::chrono::duration_cast<std::chrono::milliseconds>(elapsed_time)).count();
+    }
+
+private:
+    /**
+     * @brief The time point when measuring started.
+     */
+    std::chrono::time_point<std::chrono::steady_clock> start_time = std::chrono::steady_clock::now();
+
+    /**
+     * @brief The duration that has elapsed between start() and stop().
+     */
+    std::chrono::duration<double> elapsed_time = std::chrono::duration<double>::zero();
+};
+
+//                                        End class timer                                        //
+// ============================================================================================= //
+
+} // namespace mltk
\ No newline at end of file
-- 
2.43.0


From 322d2ae76a113921858e3fcdc634a406b2550840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:49 +0000
Subject: [PATCH 58/99] fix: a vanishing norm no longer becomes not-a-number in
 the dual perceptrons

Cancellation made the radicand slightly negative; every later comparison was
false, so training reported success with wrong signs.
---
 .../include/ufjfmltk/classifier/Perceptron.hpp        | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index c2e8115..e58059f 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -460,7 +460,7 @@ namespace mltk{
 
                     //Checking if the point is a mistake
                     if (y * f <= 0.0) {
-                        norm = std::sqrt(norm * norm + tworate * points[idx]->Y() * (func[idx] - bias) + sqrate * (*K)[idx][idx]);
+                        norm = std::sqrt(std::max(0.0, norm * norm + tworate * points[idx]->Y() * (func[idx] - bias) + sqrate * (*K)[idx][idx]));
                         this->alpha[i] += this->rate;
                         bias += this->rate * y;
                         ++this->ctot, ++e;
@@ -505,7 +505,7 @@ namespace mltk{
         template<typename T>
         bool PerceptronFixedMarginDual<T>::train() {
             size_t e, i, j, k, s, idx, r, size = this->samples->size(), dim = this->samples->dim();
-            double y, lambda, norm = this->solution.norm, time = this->start_time + this->max_time;
+            double y, lambda, sqnorm, norm = this->solution.norm, time = this->start_time + this->max_time;
             double bias = this->solution.bias;
             const double sqrate = this->rate * this->rate;
             const double tworate = 2 * this->rate;
@@ -531,9 +531,12 @@ namespace mltk{
 
                     if (y * func[idx] - this->gamma * norm <= 0) {
                         lambda = (norm != 0.0) ? (1 - this->rate * this->gamma / norm) : 1;
+                        sqnorm = norm * norm + sqrate * (*K)[idx][idx];
                         norm *= lambda;
-                        norm = sqrt(norm * norm + tworate * (*this->samples)[idx]->Y() * lambda * (func[idx] - bias) +
-                                    sqrate * (*K)[idx][idx]);
+                        norm = norm * norm + tworate * (*this->samples)[idx]->Y() * lambda * (func[idx] - bias) +
+                               sqrate * (*K)[idx][idx];
+                        //what is left of a vanishing norm is rounding error, and may be negative
+                        norm = (norm > 1e-12 * sqnorm) ? sqrt(norm) : 0.0;
 
                         for (r = 0; r < size; ++r) {
                             (*this->samples)[r]->Alpha() *= lambda;
-- 
2.43.0


From ed0cf5718e20ee3fdfa792337167a3417d42f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:49 +0000
Subject: [PATCH 59/99] fix: an unused flexible slack no longer becomes
 not-a-number

The multipliers may overflow when the norm vanishes; zero times infinity made
the mistake test false, so training reported success.
---
 .../include/ufjfmltk/classifier/IMA.hpp                    | 7 ++++---
 .../include/ufjfmltk/classifier/Perceptron.hpp             | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 5d88643..b727362 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -239,7 +239,7 @@ namespace mltk{
                 //std::cout << mltk::Point<double>(func) << std::endl;
                 for (min = DBL_MAX, max = -DBL_MAX, i = 0; i < size; ++i) {
                     y = points[i]->Y();
-                    alpha = points[i]->Alpha();
+                    alpha = (this->flexible != 0) ? points[i]->Alpha() : 0.0;
                     if ((func[i] + y * alpha * this->flexible) >= 0 &&
                         min > (func[i] + y * alpha * this->flexible) / norm) {
                         min = (func[i] + y * alpha * this->flexible) / norm;
@@ -386,7 +386,7 @@ namespace mltk{
             int c, e = 1, i, k, s = 0, j;
             int t, idx, r;
             size_t size = this->samples->size(), dim = this->samples->dim();
-            double norm = this->solution.norm, bias = this->solution.bias, lambda = 1, y, time =
+            double norm = this->solution.norm, bias = this->solution.bias, lambda = 1, y, slack, time =
                     this->max_time + this->start_time;
             double sumnorm = 0; //soma das normas para o calculo posterior (nao mais sqrt)
             double maiorw_temp = 0;
@@ -413,7 +413,8 @@ namespace mltk{
                     }
 
                     //Checking if the point is a mistake
-                    if (y * func[idx] <= this->gamma * norm - (*this->samples)[idx]->Alpha() * this->flexible) {
+                    slack = (this->flexible != 0) ? (*this->samples)[idx]->Alpha() * this->flexible : 0.0;
+                    if (y * func[idx] <= this->gamma * norm - slack) {
                         lambda = (norm) ? (1 - this->rate * this->gamma / norm) : 1;
                         for (r = 0; r < size; ++r)
                             (*this->samples)[r]->Alpha() *= lambda;
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index e58059f..f70fdef 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -268,7 +268,7 @@ namespace mltk{
             int idx, sign = 1, n_temp = 0, largn = 0;
             if (!this->hasInitialSolution) this->solution = Solution();
             this->steps = this->ctot = 0;
-            double norm = this->solution.norm, lambda = 1.0, y, time = this->start_time + this->max_time;
+            double norm = this->solution.norm, lambda = 1.0, y, slack, time = this->start_time + this->max_time;
             double sumnorm = 0.0, bias = this->solution.bias, largw = 0.0, largw_temp = 0.0;
             bool cond;
             std::vector<double> func = this->solution.func.X(), w = this->solution.w.X();
@@ -294,7 +294,8 @@ namespace mltk{
                     }
 
                     //Checking if the point is a mistake
-                    if (y * func[idx] <= this->gamma * norm - this->samples->point(idx)->Alpha() * this->flexible) {
+                    slack = (this->flexible != 0) ? this->samples->point(idx)->Alpha() * this->flexible : 0.0;
+                    if (y * func[idx] <= this->gamma * norm - slack) {
                         lambda = (norm != 0.0) ? (1 - this->rate * this->gamma / norm) : 1;
                         for (r = 0; r < size; ++r) {
                             std::shared_ptr<Point<T> > b = this->samples->point(r);
-- 
2.43.0


From 2f272ca4cd2d2bd0cfcf86a5dc8694926c54a1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:49 +0000
Subject: [PATCH 60/99] fix: dual incremental margin keeps negative multipliers

They were dropped, and the reported expansion was not the one that separates.
---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index b727362..a341806 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -617,7 +617,7 @@ namespace mltk{
                 this->solution.bias = solr->bias;
 
                 for (sv = 0, min = DBL_MAX, max = -DBL_MAX, i = 0; i < size; ++i) {
-                    if (points[i]->Alpha() > this->EPS * this->rate) {
+                    if (std::fabs(points[i]->Alpha()) > this->EPS * this->rate) {
                         sv++;
                         saved_alphas[i] = points[i]->Alpha();
                     }
@@ -653,7 +653,7 @@ namespace mltk{
             func = sol.func.X();
 
             for (i = 0; i < size; ++i) {
-                if (points[i]->Alpha() > this->EPS * this->rate) { this->svs.push_back(i); }
+                if (std::fabs(points[i]->Alpha()) > this->EPS * this->rate) { this->svs.push_back(i); }
             }
 
             for (i = 0; i < size; ++i) points[i]->Alpha() = saved_alphas[i];
-- 
2.43.0


From f27307f1badc1df888cdf7951306a0ea74ce1b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:12 +0000
Subject: [PATCH 61/99] fix: recursive elimination returns the last learned
 features after a failed training

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index aa05301..0afbc2c 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -145,7 +145,7 @@ namespace mltk{
 
                 stmp_partial.reset();
                 stmp_partial = std::make_shared<Data<T> >();
-                stmp_partial->copy(*this->samples);
+                stmp_partial->copy(*stmp);
 
                 partial_features.clear();
 
-- 
2.43.0


From d8c4602b82000ae5eedc79ed502526f044d3ce0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:12 +0000
Subject: [PATCH 62/99] fix: recursive elimination ranks by the weights of the
 whole training set

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index 0afbc2c..68d6944 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -189,7 +189,7 @@ namespace mltk{
                     //printf("Dim: %d, Margem: %lf, Distancia entre os centros: %f, SVs: %d\n", (dim-level), data_get_dist_centers(stmp), margin, svcount);
                 }
 
-                w = this->classifier->getSolutionRef()->w.X();
+                w = sol.w.X();
                 weight.resize(stmp->dim());
                 auto fnames = stmp->getFeaturesNames();
 
-- 
2.43.0


From 9e2443a49dc865c62cdeb9d9e3aa68b8376515d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:12 +0000
Subject: [PATCH 63/99] fix: initial error of repeated cross-validations is
 summed like the later ones

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index 68d6944..d9eefb5 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -163,7 +163,7 @@ namespace mltk{
                     if (level == 0) {
                         for (this->cv->initial_error = 0, i = 0; i < this->cv->qtde; i++) {
                             auto report = validation::kfold(*stmp, *this->classifier, this->cv->fold, true, this->cv->seed[i], 0);
-                            this->cv->initial_error = report.error;
+                            this->cv->initial_error += 100 - report.accuracy;
                         }
                         kfolderror = this->cv->initial_error / this->cv->qtde;
                     } else if (level % this->cv->jump == 0) {
-- 
2.43.0


From 4a56ed46d7e75f8736c80cdcb771a3579fdb897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:12 +0000
Subject: [PATCH 64/99] fix: recursive elimination can be run again

---
 .../include/ufjfmltk/featselect/RFE.hpp           | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index d9eefb5..0ab7c5a 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -64,6 +64,7 @@ namespace mltk{
             double margin = 0, leave_oo = 0, kfolderror = 0, partial_time = 0, partial_margin = 0;
             double START_TIME = 100.0f * clock() / CLOCKS_PER_SEC;
             double n0 = 1;
+            int jump = this->jump;
 
             stmp->copy(*this->samples);
             /*error check*/
@@ -149,10 +150,10 @@ namespace mltk{
 
                 partial_features.clear();
 
-                int levelminusjump = (level - this->jump);
+                int levelminusjump = (level - jump);
 
                 if (levelminusjump > 0) {
-                    partial_features.resize((size_t) (level - this->jump));
+                    partial_features.resize((size_t) (level - jump));
                 }
 
                 for (i = 0; (i < levelminusjump && levelminusjump > 0); ++i) {
@@ -241,10 +242,10 @@ namespace mltk{
                     break;
                 }
 
-                if (level + this->jump > this->depth)
+                if (level + jump > this->depth)
                     leveljump = this->depth;
                 else
-                    leveljump = level + this->jump;
+                    leveljump = level + jump;
 
                 /*manutencao do w do pai para o IMA Primal*/
                 if (this->classifier->getFormulationString() == "Primal") {
@@ -279,11 +280,11 @@ namespace mltk{
                 weight.clear();
 
                 /*increment*/
-                if (level + this->jump > this->depth) {
+                if (level + jump > this->depth) {
                     level = this->depth;
-                    this->jump = 0;
+                    jump = 0;
                 } else {
-                    level += this->jump;
+                    level += jump;
 
                 }
                 /*get temp data struct*/
-- 
2.43.0


From 8d2032f34d0255dcc29e330f0ff2f1a91727b2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:12 +0000
Subject: [PATCH 65/99] fix: Golub selection removed a feature named 0

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
index 732815d..5f7b2a7 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
@@ -40,7 +40,7 @@ namespace mltk{
             size_t num_pos = 0, num_neg = 0, svs = 0, dim = this->samples->dim(), size = this->samples->size();
             int partial = 0;
             double margin = 0.0;
-            std::vector<int> remove(dim - number), fnames;
+            std::vector<int> remove(dim - number, -1), fnames;
             std::vector<double> avg_neg(dim), avg_pos(dim), sd_neg(dim), sd_pos(dim), w;
             std::vector<golub_select_score> scores(dim);
             std::shared_ptr<Data<T> > stmp(std::make_shared<Data<T> >()), stmp_partial(std::make_shared<Data<T> >());
-- 
2.43.0


From 2da36ac754f93e9d43f98adc5fdeb6d9bdb8a77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:12 +0000
Subject: [PATCH 66/99] fix: scores of features that do not vary are not NaN

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp  | 2 ++
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
index 753abc8..7eb1602 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
@@ -92,6 +92,8 @@ namespace mltk{
             /*calc scores*/
             for (i = 0; i < dim; ++i) {
                 scores[i].score = std::pow(avg_pos[i] - avg_neg[i], 2) / (sd_pos[i] + sd_neg[i]);
+                // a feature that does not vary at all has no score
+                if (std::isnan(scores[i].score)) scores[i].score = 0;
                 scores[i].fname = fnames[i];
                 if (this->verbose)
                     std::cout << "Score: " << scores[i].score << ", Fname: " << scores[i].fname << std::endl;
diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
index 5f7b2a7..02b68df 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
@@ -83,6 +83,8 @@ namespace mltk{
             /*calc scores*/
             for (i = 0; i < dim; ++i) {
                 scores[i].score = fabs(avg_pos[i] - avg_neg[i]) / (sd_pos[i] + sd_neg[i]);
+                // a feature that does not vary at all has no score
+                if (std::isnan(scores[i].score)) scores[i].score = 0;
                 scores[i].fname = fnames[i];
                 if (this->verbose)
                     std::cout << "Score: " << scores[i].score << ", Fname: " << scores[i].fname << std::endl;
-- 
2.43.0


From 98ebff3692abd5090bd9a8b0f9c5045316bc88cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:12 +0000
Subject: [PATCH 67/99] fix: search does not branch on more features than there
 are

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index 9274dd6..c67644d 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -739,7 +739,7 @@ namespace mltk{
             }
 
             // branching nodes
-            for(i = 0; i < breadth; i++){
+            for(i = 0; i < breadth && i < dim; i++){
                 if(kernel_type == INNER_PRODUCT){
                     // projected margin computation on IMA primal
                     if(dim > 1){
-- 
2.43.0


From 19cb3953a843721bcbf7638dd326cfa16368f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:22 +0000
Subject: [PATCH 68/99] fix: best-first search can be run again

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index c67644d..753c882 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -215,7 +215,7 @@ namespace mltk{
             int startdim = dim_orig = dim;
             std::vector<int> fnames;
             int ftime = 1;
-            int lool = 0;    /*leave one out level*/
+            this->lool = 0;    /*leave one out level*/
             double g_margin = 0;
             std::shared_ptr<Data<T>> stmp = make_data<T>();
             max_time_orig = this->max_time;
-- 
2.43.0


From dd4dea2add2e3f1bf6d9b5b0fc9efebf266e5b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:22 +0000
Subject: [PATCH 69/99] fix: look-ahead trains on the features it looks at

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index 753c882..646e8a5 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -898,8 +898,9 @@ namespace mltk{
 
                 /*manutencao do w do pai para o IMA Primal*/
                 if (isPrimal) {
-                    size_t dim = sample.dim() - 1;
-                    std::vector<int> fnames = sample.getFeaturesNames();
+                    size_t dim = stmp->dim();
+                    std::vector<int> fnames = stmp->getFeaturesNames();
+                    novo_w.clear();
                     novo_w.reserve(dim - 1);
                     for (i = 0, j = 0; j < dim; ++j)
                         if (fnames[j] != feat)
@@ -969,6 +970,7 @@ namespace mltk{
                     solution.bias = gtmp->bias;
                     solution.w = novo_w;
                     this->classifier->setSolution(solution);
+                    this->classifier->setSamples(stmp);
                     if (!this->classifier->train()) {
                         if (this->verbose) std::cout << "Training failed!\n";
                         break;
-- 
2.43.0


From e8606fe300bd611e2e50815cb0a99b93f3db02ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:22 +0000
Subject: [PATCH 70/99] fix: nodes cut from the heap are erased from the hash
 before they are freed

---
 .../include/ufjfmltk/featselect/AOS.hpp       | 71 ++++++++++---------
 1 file changed, 36 insertions(+), 35 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index 646e8a5..bc322a3 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -60,7 +60,7 @@ namespace mltk{
 
                 bool add(AOS::select_gamma *elmt);
 
-                //void set_null(AOS::select_gamma *elmt);
+                void set_null(AOS::select_gamma *elmt);
 
                 //void print(int dim);
 
@@ -1151,40 +1151,40 @@ namespace mltk{
         * erase an element from my hash                            *
         *----------------------------------------------------------*/
 
-//        template<typename T>
-//        void AOS<T>::Hash::set_null(AOS<T>::select_gamma *elmt) {
-//            unsigned int i = 0, j = 0;
-//            int index = 0;
-//            double func = 0;
-//
-//            /*error check*/
-//            if (elmt == nullptr || this->elements == nullptr) return;
-//
-//            /*hashing function*/
-//            for (i = 0; i < elmt->level; ++i)
-//                func += std::pow(elmt->fnames[i], 2);
-//
-//            index = (unsigned int) fmod(func, this->length);
-//
-//            /*finding it*/
-//            i = 0;
-//            while (i < this->width && this->elements[index][i] != nullptr) {
-//                /*check equality between nodes*/
-//                if (select_gamma_equal(elmt, this->elements[index][i])) {
-//                    /*shift elements*/
-//                    j = i + 1;
-//                    while (j < this->width && this->elements[index][j] != nullptr) {
-//                        this->elements[index][j - 1] = this->elements[index][j];
-//                        j++;
-//                    }
-//                    /*setting last element as null*/
-//                    this->elements[index][j - 1] = nullptr;
-//
-//                    break;
-//                }
-//                i++;
-//            }
-//        }
+        template<typename T>
+        void AOS<T>::Hash::set_null(AOS<T>::select_gamma *elmt) {
+            unsigned int i = 0, j = 0;
+            int index = 0;
+            double func = 0;
+
+            /*error check*/
+            if (elmt == nullptr || this->elements == nullptr) return;
+
+            /*hashing function*/
+            for (i = 0; i < elmt->level; ++i)
+                func += std::pow(elmt->fnames[i], 2);
+
+            index = (unsigned int) fmod(func, this->length);
+
+            /*finding it*/
+            i = 0;
+            while (i < this->width && this->elements[index][i] != nullptr) {
+                /*check equality between nodes*/
+                if (select_gamma_equal(elmt, this->elements[index][i])) {
+                    /*shift elements*/
+                    j = i + 1;
+                    while (j < this->width && this->elements[index][j] != nullptr) {
+                        this->elements[index][j - 1] = this->elements[index][j];
+                        j++;
+                    }
+                    /*setting last element as null*/
+                    this->elements[index][j - 1] = nullptr;
+
+                    break;
+                }
+                i++;
+            }
+        }
 
         /*----------------------------------------------------------*
         * print hash table                                         *
@@ -1439,6 +1439,7 @@ namespace mltk{
                 if (curr->level < levelat)
                     if (curr->value < (1 - NUM_ERROR_EPS) * g_margin || levelat - curr->level >= cut) {
                         /*errase it from hash*/
+                        hash->set_null(curr);
                         if(curr) delete curr;
                         curr = nullptr;
                         /*percolate heap*/
-- 
2.43.0


From 7561e0610472861684642dbbdc7ebd9859ba7f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:05 +0000
Subject: [PATCH 71/99] fix: initial centres of k-means are picked inside the
 dataset

---
 .../include/ufjfmltk/clusterer/KMeans.hpp                   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index b4f68b7..d2db676 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -104,7 +104,7 @@ namespace mltk{
 
                     // generate the ids of the centers in the dataset using the random number generator function
                     std::generate(centers_ids.begin(), centers_ids.end(), [&size](){
-                        return mltk::random::intInRange(0, int(size));
+                        return mltk::random::intInRange(0, int(size) - 1);
                     });
                     // get the values from the dataset for the centers
                     std::transform(centers_ids.begin(), centers_ids.end(), this->m_centers.begin(),
@@ -113,7 +113,7 @@ namespace mltk{
                                    });
                 } else if (initialization == "kmeanspp") {
                     // choose the first center randomly
-                    this->m_centers[0] = points[mltk::random::intInRange(0, int(size))]->X();
+                    this->m_centers[0] = points[mltk::random::intInRange(0, int(size) - 1)]->X();
                     // choose the next cluster in points with a probability directly proportional to the metrics from the
                     // last chosen cluster.
                     for (size_t i = 1; i < this->m_centers.size(); i++) {
@@ -132,7 +132,7 @@ namespace mltk{
                         // use the distances as a probability distribution
                         std::discrete_distribution<size_t> _dist(distances.begin(), distances.end());
                         // generate the id for the next cluster
-                        size_t center = mltk::random::intInRange(0, int(size));
+                        size_t center = mltk::random::intInRange(0, int(size) - 1);
                         this->m_centers[i] = points[center]->X();
                     }
                 }
-- 
2.43.0


From c4702adce1600c712c06eba535cab80521da2614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:05 +0000
Subject: [PATCH 72/99] fix: a centre of k-means is the mean of its cluster
 alone, and stays where it is without points

---
 .../include/ufjfmltk/clusterer/KMeans.hpp         | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index d2db676..cf0e1f3 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -76,16 +76,17 @@ namespace mltk{
             void KMeans<T, Callable>::compute_centers(){
                 int i = 0;
                 std::for_each(this->m_clusters.begin(), this->m_clusters.end(), [&](const auto& cluster){
-                    for(const size_t id: cluster){
-                        this->m_centers[i] += *this->samples->point(id);
+                    if(cluster.size() > 0){
+                        Point<T> center(this->samples->dim());
+
+                        for(const size_t id: cluster){
+                            center += *this->samples->point(id);
+                        }
+                        center /= cluster.size();
+                        this->m_centers[i] = center;
                     }
                     i++;
                 });
-                i = 0;
-                std::for_each(this->m_centers.begin(), this->m_centers.end(), [&](auto& center){
-                   center /= this->m_clusters[i].size();
-                   i++;
-                });
             }
 
             template<typename T, typename Callable>
-- 
2.43.0


From 9dd3fdb482947308ce21e091d97c24f15e8fa142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:05 +0000
Subject: [PATCH 73/99] fix: points are assigned to clusters afresh every time

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index cf0e1f3..166b151 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -57,9 +57,9 @@ namespace mltk{
 
             template<typename T, typename Callable>
             double KMeans<T, Callable>::assign_clusters(const std::vector<mltk::PointPointer<T>>& points) {
-                double sum_d = 0;
                 double cost = 0.0;
 
+                this->m_clusters.assign(this->m_centers.size(), std::vector<size_t>());
                 std::for_each(points.begin(), points.end(), [&](const std::shared_ptr<Point<T> > q){
                     std::vector<double> distances(this->m_centers.size(), 0.0);
                     std::transform(this->m_centers.begin(), this->m_centers.end(), distances.begin(), [&](const Point<T>& center){
@@ -161,9 +161,6 @@ namespace mltk{
                     }
                     if (time - this->timer.elapsed() <= 0) break;
                     has_converged = fabs(cost - old_cost) <= this->EPS;
-                    for(auto& cluster: this->m_clusters){
-                        cluster.clear();
-                    }
                 } while (!has_converged);
 
                 return true;
-- 
2.43.0


From 559f4ae9c7efd6d452baa5405e5f67f27179e06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:05 +0000
Subject: [PATCH 74/99] fix: clusters hold positions of points, whatever their
 ids are

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 166b151..6ed9043 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -58,6 +58,7 @@ namespace mltk{
             template<typename T, typename Callable>
             double KMeans<T, Callable>::assign_clusters(const std::vector<mltk::PointPointer<T>>& points) {
                 double cost = 0.0;
+                size_t pos = 0;
 
                 this->m_clusters.assign(this->m_centers.size(), std::vector<size_t>());
                 std::for_each(points.begin(), points.end(), [&](const std::shared_ptr<Point<T> > q){
@@ -66,7 +67,7 @@ namespace mltk{
                         return this->dist_function(*q, center);
                     });
                     size_t cluster_id = std::min_element(distances.begin(), distances.end()) - distances.begin();
-                    this->m_clusters[cluster_id].X().push_back(q->Id()-1);
+                    this->m_clusters[cluster_id].X().push_back(pos++);
                     cost += distances[cluster_id] * distances[cluster_id];
                 });
                 return cost;
@@ -148,7 +149,7 @@ namespace mltk{
                     old_cost = cost;
                     has_converged = true;
                     // assign each point to the nearest cluster
-                    cost = assign_clusters(points);
+                    cost = assign_clusters(this->samples->points());
                     // update the centers of the clusters
                     compute_centers();
 
-- 
2.43.0


From 8e48e9572d00e6ea5809e1e9e36f97000978ec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:05 +0000
Subject: [PATCH 75/99] fix: k-means uses the metric it is given

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 6ed9043..465bf83 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -19,7 +19,7 @@ namespace mltk{
              * \brief Wrapper for the implementation of the K-Means clustering algorithm.
              */
             template<typename T = double, typename Callable = metrics::dist::Euclidean<T> >
-            class KMeans : public Clusterer<T> {
+            class KMeans : public Clusterer<T, Callable> {
             private:
                 /// Algorithm used for the initialization of the K-Means algorithm
                 std::string initialization;
@@ -48,7 +48,7 @@ namespace mltk{
             template<typename T, typename Callable>
             KMeans<T, Callable>::KMeans(const mltk::Data<T>& samples, size_t k, std::string initialization, size_t seed,
                                         int verbose)
-                    : Clusterer<T>(mltk::make_data<T>(samples), k), initialization(std::move(initialization)){
+                    : Clusterer<T, Callable>(mltk::make_data<T>(samples), k), initialization(std::move(initialization)){
                 this->m_centers.assign(this->n_clusters, std::vector<T>(this->samples->dim(), 0.0));
                 this->m_clusters.assign(this->n_clusters, std::vector<size_t>());
                 this->verbose = verbose;
-- 
2.43.0


From 40ff3a396b32d25ce807dc0f2fbbabe8718fb71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:05 +0000
Subject: [PATCH 76/99] fix: k-means trained again with the same seed starts
 from the same centres

---
 .../include/ufjfmltk/clusterer/KMeans.hpp          | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 465bf83..3f8e74f 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -97,16 +97,18 @@ namespace mltk{
                 size_t time = this->start_time + this->max_time;
                 auto points = this->samples->points();
                 bool has_converged = true;
-                mltk::random::init(this->seed);
+                // every training has its own generator: with a seed it always makes the same choices
+                std::mt19937 generator((this->seed == 0)?std::random_device{}():this->seed);
+                std::uniform_int_distribution<size_t> pick(0, size - 1);
 
-                std::shuffle(points.begin(), points.end(), std::mt19937(this->seed));
+                std::shuffle(points.begin(), points.end(), generator);
 
                 if (initialization == "random") {
                     std::vector<size_t> centers_ids(this->n_clusters);
 
                     // generate the ids of the centers in the dataset using the random number generator function
-                    std::generate(centers_ids.begin(), centers_ids.end(), [&size](){
-                        return mltk::random::intInRange(0, int(size) - 1);
+                    std::generate(centers_ids.begin(), centers_ids.end(), [&](){
+                        return pick(generator);
                     });
                     // get the values from the dataset for the centers
                     std::transform(centers_ids.begin(), centers_ids.end(), this->m_centers.begin(),
@@ -115,7 +117,7 @@ namespace mltk{
                                    });
                 } else if (initialization == "kmeanspp") {
                     // choose the first center randomly
-                    this->m_centers[0] = points[mltk::random::intInRange(0, int(size) - 1)]->X();
+                    this->m_centers[0] = points[pick(generator)]->X();
                     // choose the next cluster in points with a probability directly proportional to the metrics from the
                     // last chosen cluster.
                     for (size_t i = 1; i < this->m_centers.size(); i++) {
@@ -134,7 +136,7 @@ namespace mltk{
                         // use the distances as a probability distribution
                         std::discrete_distribution<size_t> _dist(distances.begin(), distances.end());
                         // generate the id for the next cluster
-                        size_t center = mltk::random::intInRange(0, int(size) - 1);
+                        size_t center = pick(generator);
                         this->m_centers[i] = points[center]->X();
                     }
                 }
-- 
2.43.0


From 910f40f80b1e87d872da4ad79bdf54fdcbc5f2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:05 +0000
Subject: [PATCH 77/99] fix: kmeanspp chooses the next centre with the
 probabilities it computes

---
 .../include/ufjfmltk/clusterer/KMeans.hpp                  | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 3f8e74f..ff649a9 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -130,13 +130,12 @@ namespace mltk{
                                            sum_d += d;
                                            return d;
                                        });
-                        for (double &distance : distances) {
-                            distance /= sum_d;
-                        }
+                        // all the points are where the last center is
+                        if (sum_d == 0) distances.assign(points.size(), 1.0);
                         // use the distances as a probability distribution
                         std::discrete_distribution<size_t> _dist(distances.begin(), distances.end());
                         // generate the id for the next cluster
-                        size_t center = pick(generator);
+                        size_t center = _dist(generator);
                         this->m_centers[i] = points[center]->X();
                     }
                 }
-- 
2.43.0


From 5c8e8b1e2e44eb4989d6909ed9fce2634fa5f266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:38 +0000
Subject: [PATCH 78/99] fix: a seed given to the random generator again starts
 the same sequence again

---
 subprojects/ufjfmltk-core/src/Datasets.cpp | 33 ++++++++++++++++++----
 subprojects/ufjfmltk-core/src/Random.cpp   |  9 ++----
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Datasets.cpp b/subprojects/ufjfmltk-core/src/Datasets.cpp
index c26fe0f..8e89ea6 100755
--- a/subprojects/ufjfmltk-core/src/Datasets.cpp
+++ b/subprojects/ufjfmltk-core/src/Datasets.cpp
@@ -5,6 +5,19 @@
 #include "ufjfmltk/core/Datasets.hpp"
 
 namespace mltk::datasets {
+    // draws from the sequence that was started by the calling function
+    static mltk::Point<> uniform(size_t size) {
+        mltk::Point<> p(size);
+        for (auto &x: p) {
+            x = mltk::random::floatInRange(0.0, 1.0);
+        }
+        return p;
+    }
+
+    static BlobsPair blobs(const std::vector<size_t> &n_samples, const std::vector<mltk::Point<double>> &centers,
+                           std::vector<double> clusters_std, int n_dims, bool shuffle, bool has_classes,
+                           size_t seed);
+
     mltk::Data<double> make_spirals(size_t n_samples, int n_classes, bool shuffle, double noise, size_t n_loops,
                                     double margin, size_t seed) {
         mltk::random::init(seed);
@@ -13,12 +26,12 @@ namespace mltk::datasets {
 
         dataset.setName("spirals");
 
-        mltk::Point<> theta = mltk::random_init<double>(samples_byclass, seed) * n_loops * 360.0 * M_PI / 180.0;
+        mltk::Point<> theta = uniform(samples_byclass) * n_loops * 360.0 * M_PI / 180.0;
         mltk::Point<> r = theta * margin * n_classes;
         for (int i = 0; i < n_classes; i++) {
             mltk::Point<> rotated_theta = theta + i * 2.0 * M_PI / n_classes;
-            mltk::Point<> x1 = r * mltk::cos(rotated_theta) + mltk::random_init<double>(samples_byclass, seed) * noise;
-            mltk::Point<> x2 = r * mltk::sin(rotated_theta) + mltk::random_init<double>(samples_byclass, seed) * noise;
+            mltk::Point<> x1 = r * mltk::cos(rotated_theta) + uniform(samples_byclass) * noise;
+            mltk::Point<> x2 = r * mltk::sin(rotated_theta) + uniform(samples_byclass) * noise;
 
             for (size_t j = 0; j < samples_byclass; j++) {
                 auto point = mltk::Point<double>({x1[j], x2[j]});
@@ -56,13 +69,19 @@ namespace mltk::datasets {
             }
         });
 
-        return make_blobs(samples_per_center, centers, clusters_std, n_dims, shuffle, has_classes, seed);
+        return blobs(samples_per_center, centers, clusters_std, n_dims, shuffle, has_classes, seed);
     }
 
     BlobsPair make_blobs(const std::vector<size_t> &n_samples, const std::vector<mltk::Point<double>> &centers,
                          std::vector<double> clusters_std, int n_dims, bool shuffle, bool has_classes,
                          size_t seed) {
         mltk::random::init(seed);
+        return blobs(n_samples, centers, std::move(clusters_std), n_dims, shuffle, has_classes, seed);
+    }
+
+    static BlobsPair blobs(const std::vector<size_t> &n_samples, const std::vector<mltk::Point<double>> &centers,
+                           std::vector<double> clusters_std, int n_dims, bool shuffle, bool has_classes,
+                           size_t seed) {
         mltk::Data<double> dataset;
         BlobsPair pair;
         dataset.setName("blobs");
@@ -114,8 +133,10 @@ namespace mltk::datasets {
         RegPair pair;
         mltk::Point<double> ground_truth(n_dims, 0.0), y(n_samples);
         n_informative = std::min(n_dims, n_informative);
-        auto random_init = [&n_dims, seed](const mltk::PointPointer<double> &point) {
-            *point = mltk::random_init<double, std::normal_distribution<double>>(0, 1, n_dims, seed);
+        auto random_init = [](const mltk::PointPointer<double> &point) {
+            for (auto &x: *point) {
+                x = mltk::random::floatInRange<double, std::normal_distribution<double>>(0, 1);
+            }
         };
 
         dataset.apply(random_init);
diff --git a/subprojects/ufjfmltk-core/src/Random.cpp b/subprojects/ufjfmltk-core/src/Random.cpp
index 0498a7a..60d032a 100755
--- a/subprojects/ufjfmltk-core/src/Random.cpp
+++ b/subprojects/ufjfmltk-core/src/Random.cpp
@@ -10,12 +10,9 @@ namespace mltk::random {
     std::mt19937 m_generator{std::random_device{}()};
 
     size_t  init(unsigned int seed) {
-        if(seed != seed_param){
-            m_generator.discard(std::mt19937::state_size);
-            seed_param = seed;
-            m_seed = (seed == 0)?std::random_device {} (): seed;
-            m_generator.seed(m_seed);
-        }
+        seed_param = seed;
+        m_seed = (seed == 0)?std::random_device {} (): seed;
+        m_generator.seed(m_seed);
         return m_seed;
     }
 
-- 
2.43.0


From d421c538d6d6346e54da6cc987b8d47cbeb4bfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:53 +0000
Subject: [PATCH 79/99] fix: every blob has its own number of samples

---
 subprojects/ufjfmltk-core/src/Datasets.cpp | 32 ++++++++++------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Datasets.cpp b/subprojects/ufjfmltk-core/src/Datasets.cpp
index 8e89ea6..ad6abea 100755
--- a/subprojects/ufjfmltk-core/src/Datasets.cpp
+++ b/subprojects/ufjfmltk-core/src/Datasets.cpp
@@ -60,7 +60,7 @@ namespace mltk::datasets {
                          double center_max, bool shuffle, const bool has_classes, const size_t seed) {
         mltk::random::init(seed);
         std::vector<mltk::Point<>> centers(n_centers, mltk::Point<>(n_dims, 0.0));
-        std::vector<size_t> samples_per_center(n_centers, std::floor(n_samples / n_centers));
+        std::vector<size_t> samples_per_center(n_centers, n_samples);
         std::vector<double> clusters_std(n_centers, cluster_std);
 
         std::for_each(centers.begin(), centers.end(), [&center_min, &center_max](auto &center) {
@@ -88,24 +88,22 @@ namespace mltk::datasets {
         if(has_classes) dataset.setType("Classification");
         else dataset.setType("Clustering");
 
-        for (const auto &n: n_samples) {
-            for (int c = 0; c < centers.size(); c++) {
-                auto center = centers[c];
-                for (int i = 0; i < n; i++) {
-                    mltk::Point<double> p(n_dims, 0.0);
-                    for (int j = 0; j < n_dims; j++) {
-                        p[j] = mltk::random::floatInRange<double, std::normal_distribution<double>>(center[j],
-                                                                                                    clusters_std[c]);
-                    }
-                    if(has_classes) {
-                        if (centers.size() == 2) {
-                            p.Y() = (c == 0) ? -1 : 1;
-                        } else {
-                            p.Y() = c + 1;
-                        }
+        for (int c = 0; c < centers.size(); c++) {
+            auto center = centers[c];
+            for (int i = 0; i < n_samples[c]; i++) {
+                mltk::Point<double> p(n_dims, 0.0);
+                for (int j = 0; j < n_dims; j++) {
+                    p[j] = mltk::random::floatInRange<double, std::normal_distribution<double>>(center[j],
+                                                                                                clusters_std[c]);
+                }
+                if(has_classes) {
+                    if (centers.size() == 2) {
+                        p.Y() = (c == 0) ? -1 : 1;
+                    } else {
+                        p.Y() = c + 1;
                     }
-                    dataset.insertPoint(p);
                 }
+                dataset.insertPoint(p);
             }
         }
         if (shuffle) dataset.shuffle(seed);
-- 
2.43.0


From 73cc1c1b0b6cbefb2100c1b954a69160913c1663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:41 +0000
Subject: [PATCH 80/99] fix: Lorentzian distance is the sum of ln(1 + |d|)

It took the logarithm of 1 - |d|, which is not a number for points further than 1 apart.
---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 626c4a4..83e1c1b 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -75,7 +75,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Lorentzian";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return mltk::log(1 - mltk::abs(p1 - p2)).sum();
+                return mltk::log(1 + mltk::abs(p1 - p2)).sum();
             }
         };
 
-- 
2.43.0


From 3a420a79642a0752d2dabb574f6f5ac2eda70881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:41 +0000
Subject: [PATCH 81/99] fix: no integer division in the factors of distances

NonIntersection, JensenDifference and (in more than one dimension) Average
were always 0, JensenShannon lost its first half.
---
 .../include/ufjfmltk/core/DistanceMetric.hpp              | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 83e1c1b..521a5bd 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -107,7 +107,7 @@ namespace mltk::metrics::dist{
         class  NonIntersection : public DistanceMetric<T> {
         public:
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (1 / 2) * mltk::abs(p1 - p2).sum();
+                return 0.5 * mltk::abs(p1 - p2).sum();
             }
         };
 
@@ -318,7 +318,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Average";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return std::sqrt((1/p1.size())*(mltk::pow(p1 - p2, 2)).sum());
+                return std::sqrt((mltk::pow(p1 - p2, 2)).sum()/p1.size());
             }
         };
 
@@ -400,7 +400,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "JensenShannon";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (1/2) * (p1 * mltk::log((2 * p1)/(p1 + p2))).sum() + (p2 * mltk::log((2 * p2)/(p1 + p2))).sum();
+                return 0.5 * ((p1 * mltk::log((2 * p1)/(p1 + p2))).sum() + (p2 * mltk::log((2 * p2)/(p1 + p2))).sum());
             }
         };
 
@@ -412,7 +412,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "JensenDifference";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (1/2) * ((p1 * mltk::log(p1) + p2 * mltk::log(p2))/2 - ((p1 + p2)/2) * mltk::log((p1 + p2)/2)).sum();
+                return 0.5 * ((p1 * mltk::log(p1) + p2 * mltk::log(p2))/2 - ((p1 + p2)/2) * mltk::log((p1 + p2)/2)).sum();
             }
         };
 
-- 
2.43.0


From 218ca93bfab6bc0f4448bd7ff1cfd49ab4cb7933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:41 +0000
Subject: [PATCH 82/99] fix: MinSymmetric distance takes the minimum

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 521a5bd..3c7d891 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -438,7 +438,7 @@ namespace mltk::metrics::dist{
         class  MinSymmetric: public DistanceMetric<T> {
         public:
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return std::max((mltk::pow(p1 - p2, 2)/p1).sum(), (mltk::pow(p1 - p2, 2)/p2).sum());
+                return std::min((mltk::pow(p1 - p2, 2)/p1).sum(), (mltk::pow(p1 - p2, 2)/p2).sum());
             }
         };
 
-- 
2.43.0


From 619534daad57a89147dd1640c4ed70b1a87e7990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:41 +0000
Subject: [PATCH 83/99] fix: Kumar-Johnson distance is (x^2 - y^2)^2 / (2
 (xy)^1.5)

The exponent 3/2 was divided as integers and the squares were added, so that
the distance of a point to itself was not 0.
---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 3c7d891..1e65f7e 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -464,7 +464,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "KumarJohnson";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (mltk::pow(mltk::pow(p1, 2) + mltk::pow(p2, 2), 2)/(2 * mltk::pow(p1 * p2, 3/2))).sum();
+                return (mltk::pow(mltk::pow(p1, 2) - mltk::pow(p2, 2), 2)/(2 * mltk::pow(p1 * p2, 1.5))).sum();
             }
         };
 
-- 
2.43.0


From 7dc937a2198b2cb96366fdfe0b574cde8b50c015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:41 +0000
Subject: [PATCH 84/99] fix: Hassanat distance shifts both values by the
 smaller one

The distance of a point with negative coordinates to itself was not 0.
---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 1e65f7e..353cced 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -495,7 +495,7 @@ namespace mltk::metrics::dist{
                         sum += 1 - (1+_min)/(1+std::max(p1[i], p2[i]));
                     }else{
                         auto _max = std::max(p1[i], p2[i]);
-                        sum += 1 - (1+_min + std::abs(_min))/(1+_max + std::abs(_max));
+                        sum += 1 - (1+_min + std::abs(_min))/(1+_max + std::abs(_min));
                     }
                 }
                 return sum;
-- 
2.43.0


From 1305b69acf73fff864b1eb37b76c2ae19c2f8784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:41 +0000
Subject: [PATCH 85/99] fix: Clark distance is a square root, Bhattacharyya
 distance a logarithm

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 353cced..92c79ff 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -172,7 +172,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Bhattacharyya";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return -std::sqrt(mltk::pow(p1 * p2, 0.5).sum());
+                return -std::log(mltk::pow(p1 * p2, 0.5).sum());
             }
         };
 
@@ -234,7 +234,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Clark";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return mltk::pow((p1 - p2)/(mltk::abs(p1) + mltk::abs(p2)), 2).sum();
+                return std::sqrt(mltk::pow((p1 - p2)/(mltk::abs(p1) + mltk::abs(p2)), 2).sum());
             }
         };
 
-- 
2.43.0


From 10d7ba3eec75a2751bd8ace4447243d83469a0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:21 +0000
Subject: [PATCH 86/99] fix: mean, variance and covariance of points of
 integers are not truncated

The mean was divided in the element type (and as an unsigned number, so that
negative sums gave huge means), the deviations were rounded to integers.
---
 .../include/ufjfmltk/core/Statistics.hpp      | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
index 895f021..9e55d61 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
@@ -102,7 +102,7 @@ namespace mltk::stats {
     template < typename T, typename R >
     double mean (const Point<T, R> &p){
         assert(p.size() > 0);
-        return p.sum()/p.size();
+        return static_cast<double>(p.sum())/p.size();
     }
 
     template <typename T>
@@ -117,8 +117,7 @@ namespace mltk::stats {
 
     template < typename T, typename R >
     double std_dev(const Point<T, R> &p){
-        assert(p.size() > 0);
-        return std::sqrt((mltk::pow(p-mltk::stats::mean(p), 2)).sum()/p.size());
+        return std::sqrt(mltk::stats::var(p));
     }
 
     template < typename T >
@@ -141,7 +140,12 @@ namespace mltk::stats {
     template < typename T, typename R >
     double var(const Point<T, R> &p){
         assert(p.size() > 0);
-        return mltk::pow(p-mltk::stats::mean(p), 2).sum()/p.size();
+        const double avg = mltk::stats::mean(p);
+        double sum = 0.0;
+        for(size_t i = 0; i < p.size(); i++){
+            sum += (p[i] - avg)*(p[i] - avg);
+        }
+        return sum/p.size();
     }
 
     template <typename T>
@@ -179,7 +183,12 @@ namespace mltk::stats {
     template < typename T, typename R >
     double covar(const Point<T, R> &p, const Point<T, R> &p1){
         assert(p.size() == p1.size());
-        return ((p-mltk::stats::mean(p))*(p1-mltk::stats::mean(p1))).sum()/(p1.size()-1.0);
+        const double avg = mltk::stats::mean(p), avg1 = mltk::stats::mean(p1);
+        double sum = 0.0;
+        for(size_t i = 0; i < p.size(); i++){
+            sum += (p[i] - avg)*(p1[i] - avg1);
+        }
+        return sum/(p1.size()-1.0);
     }
 
     template < typename T >
-- 
2.43.0


From 0e62d932fac0784746ec037f17bf61931a9341f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:21 +0000
Subject: [PATCH 87/99] fix: distCentersWithoutFeats leaves the given features
 out

It returned the distance along the features that were to be excluded.
---
 .../ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
index 9e55d61..a1f8992 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
@@ -296,11 +296,12 @@ namespace mltk::stats {
 
         for(dist = 0.0, j = 0; j < dim; ++j){
             for(i = 0; i < featsize; ++i){
-                if(fnames[j] == feats[i])
-                    dist -= std::pow(avg_pos[j] - avg_neg[j], 2);
+                if(fnames[j] == feats[i]) break;
             }
+            if(i == featsize && (index < 0 || fnames[j] != index))
+                dist += std::pow(avg_pos[j] - avg_neg[j], 2);
         }
 
-        return std::sqrt(std::fabs(dist));
+        return std::sqrt(dist);
     }
 }
-- 
2.43.0


From 3d92a6b167313448971a9c3e501131888c58cb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:49 +0000
Subject: [PATCH 88/99] fix: the bias of LMS is trained with the learning rate

Every step moved the bias by the whole error, whatever the rate, so that training
did not approach the plane of the data and often diverged.
---
 .../ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
index 3c0eb2d..698f12c 100755
--- a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
+++ b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
@@ -64,7 +64,7 @@ namespace mltk{
                     //Verify if the point is a error
                     auto error = (input->Y() - func[j]);
                     w += this->rate * error * (*input);
-                    this->solution.bias += (input->Y() - func[j]);
+                    this->solution.bias += this->rate * error;
                     ++this->ctot;
                 }
                 cost_func *= 0.5;
-- 
2.43.0


From 16165b086d6f838c793f43881cd72156d9d273c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:49 +0000
Subject: [PATCH 89/99] fix: LMS starts every training from its initial
 solution

The weights of an initial solution were ignored, and training again started with
the bias of the last training.
---
 .../include/ufjfmltk/regressor/LMS.hpp            | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
index 698f12c..3173f13 100755
--- a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
+++ b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
@@ -13,6 +13,9 @@ namespace mltk{
          */
         template<typename T = double>
         class LMSPrimal : public PrimalRegressor<T> {
+        private:
+            /// Solution where the training starts.
+            Solution start;
         public:
             LMSPrimal() = default;
             explicit LMSPrimal(const Data<T>& samples, double rate = 0.5, int verbose = 0,
@@ -29,11 +32,10 @@ namespace mltk{
             this->verbose = verbose;
 
             if (initial_solution) {
-                this->solution = *initial_solution;
-            } else {
-                this->solution.w.resize(samples.dim(), 0.0);
-                this->solution.bias = 0.0;
+                this->start = *initial_solution;
             }
+            this->start.w.resize(samples.dim(), 0.0);
+            this->solution = this->start;
         }
 
         template<typename T>
@@ -50,8 +52,9 @@ namespace mltk{
             }
 
             this->timer.reset();
-            this->solution.w.assign(dim, 0.0);
-            mltk::Point<> w(this->samples->dim());
+            this->solution = this->start;
+            this->solution.w.resize(dim, 0.0);
+            mltk::Point<> w(this->solution.w);
             for (this->steps = 0; this->steps < this->MAX_IT; this->steps++) {
                 cost_func = 0;
                 for (j = 0; j < size; j++) {
-- 
2.43.0


From 64684dd554e40c3c4c7da669295e089a6135b283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 90/99] fix: ranges of plots contain the points

---
 .../include/ufjfmltk/visual/Visualization.hpp | 50 +++++++++----------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index aa66447..94907f9 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -82,6 +82,20 @@ namespace mltk::visualize{
         void configurePlot(const std::string& outname, const std::string& format, const std::string& title, bool save=false,
                            const std::string& x_label="", const std::string& y_label="", const std::string& z_label="");
 
+        /**
+         * \brief axisRange Returns the range with whole bounds around the values from min to max.
+         */
+        static AxisRange axisRange(double min, double max, double scale){
+            AxisRange range;
+            range.min = std::floor(min - (scale-1.0)*std::fabs(min));
+            range.max = std::ceil(max + (scale-1.0)*std::fabs(max));
+            if(range.min == range.max) {
+                range.min -= 1;
+                range.max += 1;
+            }
+            return range;
+        }
+
         AxisRanges configureRange(double scale = 1.0, int x = -1, int y = -1, int z = -1);
 
         AxisRanges configureRange(double scale = 1.0, mltk::Point<double> x = mltk::Point<double>(), mltk::Point<double> y = mltk::Point<double>(), mltk::Point<double> z = mltk::Point<double>());
@@ -1057,26 +1071,17 @@ namespace mltk::visualize{
         AxisRanges axis_ranges;
         if(x > -1) {
             auto _x = this->samples->getFeature(x);
-            double x_min = mltk::min(_x), x_max = scale*mltk::max(_x);
-            x_min += (x_min > 0)?(1.0-scale)*x_min:-(1.0-scale)*x_min;
-            axis_ranges[0].min = std::round(x_min);
-            axis_ranges[0].max = std::round(x_max);
+            axis_ranges[0] = axisRange(mltk::min(_x), mltk::max(_x), scale);
             configs["xrange"] = "[" + std::to_string(axis_ranges[0].min) + ":" + std::to_string(axis_ranges[0].max) + "]";
         }
         if(y > -1) {
             auto _y = this->samples->getFeature(y);
-            double y_min = mltk::min(_y), y_max = scale*mltk::max(_y);
-            y_min += (y_min > 0)?(1.0-scale)*y_min:-(1.0-scale)*y_min;
-            axis_ranges[1].min = std::round(y_min);
-            axis_ranges[1].max = std::round(y_max);
+            axis_ranges[1] = axisRange(mltk::min(_y), mltk::max(_y), scale);
             configs["yrange"] = "[" + std::to_string(axis_ranges[1].min) + ":" + std::to_string(axis_ranges[1].max) + "]";
         }
         if(z > -1) {
             auto _z = this->samples->getFeature(z);
-            double z_min = mltk::min(_z), z_max = scale*mltk::max(_z);
-            z_min += (z_min > 0)?(1.0-scale)*z_min:-(1.0-scale)*z_min;
-            axis_ranges[2].min = std::round(z_min);
-            axis_ranges[2].max = std::round(z_max);
+            axis_ranges[2] = axisRange(mltk::min(_z), mltk::max(_z), scale);
             configs["zrange"] = "[" + std::to_string(axis_ranges[2].min) + ":" + std::to_string(axis_ranges[2].max) + "]";
         }
         return axis_ranges;
@@ -1088,27 +1093,18 @@ namespace mltk::visualize{
                                                                             AxisRanges axis_ranges;
         if(x.size() > 0) {
             auto _x = x;
-            double x_min = mltk::min(_x), x_max = scale*mltk::max(_x);
-            x_min += (x_min > 0)?(1.0-scale)*x_min:-(1.0-scale)*x_min;
-            axis_ranges[0].min = std::round(x_min);
-            axis_ranges[0].max = std::round(x_max);
-            if(axis_ranges[0].min != axis_ranges[0].max) configs["xrange"] = "[" + std::to_string(axis_ranges[0].min) + ":" + std::to_string(axis_ranges[0].max) + "]";
+            axis_ranges[0] = axisRange(mltk::min(_x), mltk::max(_x), scale);
+            configs["xrange"] = "[" + std::to_string(axis_ranges[0].min) + ":" + std::to_string(axis_ranges[0].max) + "]";
         }
         if(y.size() > 0) {
             auto _y = y;
-            double y_min = mltk::min(_y), y_max = scale*mltk::max(_y);
-            y_min += (y_min > 0)?(1.0-scale)*y_min:-(1.0-scale)*y_min;
-            axis_ranges[1].min = std::round(y_min);
-            axis_ranges[1].max = std::round(y_max);
-            if(axis_ranges[1].min != axis_ranges[1].max) configs["yrange"] = "[" + std::to_string(axis_ranges[1].min) + ":" + std::to_string(axis_ranges[1].max) + "]";
+            axis_ranges[1] = axisRange(mltk::min(_y), mltk::max(_y), scale);
+            configs["yrange"] = "[" + std::to_string(axis_ranges[1].min) + ":" + std::to_string(axis_ranges[1].max) + "]";
         }
         if(z.size() > 0) {
             auto _z = z;
-            double z_min = mltk::min(_z), z_max = scale*mltk::max(_z);
-            z_min += (z_min > 0)?(1.0-scale)*z_min:-(1.0-scale)*z_min;
-            axis_ranges[2].min = std::round(z_min);
-            axis_ranges[2].max = std::round(z_max);
-            if(axis_ranges[2].min != axis_ranges[2].max) configs["zrange"] = "[" + std::to_string(axis_ranges[2].min) + ":" + std::to_string(axis_ranges[2].max) + "]";
+            axis_ranges[2] = axisRange(mltk::min(_z), mltk::max(_z), scale);
+            configs["zrange"] = "[" + std::to_string(axis_ranges[2].min) + ":" + std::to_string(axis_ranges[2].max) + "]";
         }
         return axis_ranges;
     }
-- 
2.43.0


From 13492233c68e8424df5d060e5abff27bdede7e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 91/99] fix: a plot in a shared session does not keep the
 settings of the one before

---
 .../include/ufjfmltk/visual/Visualization.hpp               | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index 94907f9..15826cd 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -997,14 +997,14 @@ namespace mltk::visualize{
 
     template<typename T>
     std::string Visualization<T>::fetchConfigs() {
-        std::string confs;
+        std::string confs = "reset; ";
         if(configs["save"] == "true") {
             confs += std::string("set terminal ") + configs["output_format"]+"; ";
             confs += std::string("set output '") + configs["output_name"] +"." + configs["output_format"]+"'; ";
         }else if(!configs["terminal"].empty()){
-            confs += std::string("set terminal ") + configs["terminal"]+";";
+            confs += std::string("set output; set terminal ") + configs["terminal"]+";";
         }else {
-            confs += std::string("set terminal x11;");
+            confs += std::string("set output; set terminal x11;");
         }
         if(!configs["title"].empty()) {
             confs += std::string("set title '") + configs["title"] + "';";
-- 
2.43.0


From e37f327f820229bab47554008f084e5b09d006ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 92/99] fix: one-dimensional regression plots show the targets

---
 .../ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index 15826cd..46c8820 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -559,7 +559,7 @@ namespace mltk::visualize{
     std::string
     Visualization<T>::plot1DRegresion(int x, bool save, double scale, const std::string &title, const std::string &format,
                                       const std::string &x_label, const std::string &y_label) {
-        std::string dims = utils::itos(x+1) + ":" + utils::itos(2);
+        std::string dims = utils::itos(x+1) + ":" + utils::itos(this->samples->dim()+1);
         std::string cmd("plot ");
         std::vector<std::string> temp_files_names;
         size_t i;
-- 
2.43.0


From d1cefb6099471a9a46101c8eb02cd21b41ca8e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 93/99] fix: only folders created for plots are removed

---
 .../ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index 46c8820..fa9bbd7 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -361,11 +361,9 @@ namespace mltk::visualize{
     void Visualization<T>::create_plotfolder() {
         do{
             this->plot_folder = PLOT_FOLDER+std::to_string(n_plots)+"/";
-            if(std::find(plot_folders.begin(), plot_folders.end(), this->plot_folder) == plot_folders.end()) {
-                plot_folders.push_back(this->plot_folder);
-            }
             n_plots++;
         }while(fs::exists(this->plot_folder));
+        plot_folders.push_back(this->plot_folder);
         try {
             fs::create_directory(this->plot_folder);
         }
-- 
2.43.0


From b24fd681ca2febf014c1c2ed678ea521dac7d7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 94/99] fix: plots of three vectors have a label and a range
 for the third axis

---
 .../ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index fa9bbd7..be6fdc7 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -795,8 +795,8 @@ namespace mltk::visualize{
         size_t i;
         std::string out_name = (title.empty())?"3dplot_":"3dplot_"+title;
 
-        configureRange(scale, x, y);
-        configurePlot(out_name, format, title, save, x_label, y_label);
+        configureRange(scale, x, y, z);
+        configurePlot(out_name, format, title, save, x_label, y_label, z_label);
 
         std::filesystem::path path{ "output" }; //creates TestingFolder object on C:
         path /= out_name+".dat"; //put something into there
-- 
2.43.0


From 967972f2084671147bff25fcb3d7614f11e57bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 95/99] fix: the script of 3D plots with a hyperplane includes
 its settings

---
 .../ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index be6fdc7..e301e37 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -849,7 +849,7 @@ namespace mltk::visualize{
         cmd += "g(x,y) notitle with lines ls 1 lt rgb \"red\",";
         cmd += "f(x,y) notitle with lines ls 1,";
         cmd += "h(x,y) notitle with lines ls 1 lt rgb \"red\";";
-        execute_command(cmd);
+        cmd = execute_command(cmd);
         return prepareScript(cmd);
     }
 
-- 
2.43.0


From d6309266c778de815f56c3a64bf9fd7e8f8320e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 96/99] fix: names of classes in plots may contain dots and
 underscores

---
 .../include/ufjfmltk/visual/Visualization.hpp | 34 ++++++-------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index e301e37..2a695ee 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -949,34 +949,20 @@ namespace mltk::visualize{
         Point<int> classes = samples->classes();
         auto class_names = samples->classesNames();
         std::vector<std::string> names(files.size());
-        std::transform(files.begin(), files.end(), names.begin(), [type](std::string& path){
-            if(type == "decision") {
-                auto res = mltk::utils::tokenize(mltk::utils::tokenize(path, '_')[0], '/');
-                return mltk::utils::tokenize(mltk::utils::tokenize(path, '_')[0], '/')[1];
-            }else{
-                return mltk::utils::tokenize(mltk::utils::tokenize(path, '.')[0], '/')[1];
-            }
-        });
-        std::sort(names.begin(), names.end(),[&class_names, &classes](const auto& a, const auto& b){
+        // the name of the class is the file name without what was appended to it
+        auto class_name = [&type](const std::string& path){
+            auto file = fs::path(path).filename().string();
+            return file.substr(0, file.rfind((type == "decision")?"_data":".plt"));
+        };
+        auto before = [&class_names, &classes](const std::string& a, const std::string& b){
             auto aclass_pos = std::find(class_names.begin(), class_names.end(), a) - class_names.begin();
             auto bclass_pos = std::find(class_names.begin(), class_names.end(), b) - class_names.begin();
             return classes[aclass_pos] < classes[bclass_pos];
+        };
+        std::sort(files.begin(), files.end(), [&class_name, &before](const auto& a, const auto& b){
+            return before(class_name(a), class_name(b));
         });
-        std::sort(files.begin(), files.end(), [&class_names, &classes, &type](const auto& a, const auto& b){
-            if(type == "decision") {
-                auto aclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(a, '_')[0], '/')[1]) - class_names.begin();
-                auto bclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(b, '_')[0], '/')[1]) - class_names.begin();
-                return classes[aclass_pos] < classes[bclass_pos];
-            }else{
-                auto aclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(a, '.')[0], '/')[1]) - class_names.begin();
-                auto bclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(b, '.')[0], '/')[1]) - class_names.begin();
-                return classes[aclass_pos] < classes[bclass_pos];
-            }
-        });
+        std::transform(files.begin(), files.end(), names.begin(), class_name);
         return names;
     }
 
-- 
2.43.0


From 6a9e8fc3c62efeba6b9cc3090d8ecae50747ee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 97/99] fix: decision surfaces show the features that were
 asked for, in their order

---
 .../include/ufjfmltk/visual/Visualization.hpp       | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index 2a695ee..5401de6 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -866,7 +866,18 @@ namespace mltk::visualize{
         mltk::Point xx = mltk::linspace(axis_ranges[0].min, axis_ranges[0].max, grid_dim);
         mltk::Point yy = mltk::linspace(axis_ranges[1].min, axis_ranges[1].max, grid_dim);
         mltk::Data grid(grid_dim, grid_dim,0);
-        auto data_copy = this->samples->selectFeatures({size_t(x+1), size_t(y+1)});
+        Data<T> data_copy;
+        data_copy.setName(this->samples->name());
+        for(int i = 0; i < this->samples->size(); i++){
+            auto point = (*this->samples)(i);
+            auto new_point = make_point<T>(2);
+            (*new_point)[0] = point[x];
+            (*new_point)[1] = point[y];
+            (*new_point).Y() = point.Y();
+            (*new_point).Id() = point.Id();
+            (*new_point).Alpha() = point.Alpha();
+            data_copy.insertPoint(new_point, true);
+        }
         auto timestamp = mltk::utils::timestamp();
         timestamp.erase(std::remove(timestamp.begin(), timestamp.end(), ':'), timestamp.end());
 
-- 
2.43.0


From 93d7c6234b5973359ff0d6b7a4db441b8dc585b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:11 +0000
Subject: [PATCH 98/99] fix: files of plots are kept while a shared session may
 still read them

---
 .../include/ufjfmltk/visual/Visualization.hpp             | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index 5401de6..cbc5cbd 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -948,7 +948,8 @@ namespace mltk::visualize{
     template<typename T>
     void Visualization< T >::setSample(Data<T>& sample) {
         this->samples = &sample;
-        if(fs::exists(plot_folder)) {
+        // a shared session may still have to read the files of its plots
+        if(!is_shared && fs::exists(plot_folder)) {
             removeTempFiles();
         }
         create_plotfolder();
@@ -1033,7 +1034,10 @@ namespace mltk::visualize{
         this->samples = nullptr;
         delete g;
         g = nullptr;
-        removeTempFiles();
+        for(auto& pfolder: plot_folders) {
+            plot_folder = pfolder;
+            if(fs::exists(plot_folder)) removeTempFiles();
+        }
         for(auto& pfolder: plot_folders) {
             try {
                 if (fs::exists(pfolder)) {
-- 
2.43.0


From 52aebda3b6877a26225b7ab6ec598fc42dfbdda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:31 +0000
Subject: [PATCH 99/99] fix: copying classes lists a class that is asked for
 twice once

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index d2271b8..14d0440 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1522,8 +1522,9 @@ namespace mltk{
         this->m_size = _size;
         auto data_classes = _data.classes();
         auto data_names = _data.classesNames();
-        this->m_classes = classes;
         for(auto c: classes){
+            if(std::find(this->m_classes.begin(), this->m_classes.end(), c) != this->m_classes.end()) continue;
+            this->m_classes.push_back(c);
             size_t pos = std::find(data_classes.begin(), data_classes.end(), c) - data_classes.begin();
             this->class_names.push_back((pos < data_names.size()) ? data_names[pos] : std::to_string(c));
         }
-- 
2.43.0

